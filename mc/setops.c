/* Set operations of the library against explicit sets of integer points.
 *
 * A case is   ND NP K  followed by K sets, each  M  and M times
 *   R NDIV  and R rows  eq iters.. divs.. params.. cst
 * The first set is A; the others are the partners B.  Every operation is
 * applied to A, to every pair (A, B), to the results of the binary
 * operations, and its result compared, point by point inside a box, with the
 * set computed from the rows alone.
 */
#include "mc.h"
#include <ctype.h>
#include <cloog/isl/cloog.h>
#include <isl/val.h>
#include <isl/aff.h>
#include <isl/local_space.h>
#include <isl/constraint.h>
#include <isl/point.h>

#define MAXP 40000
typedef struct { int nrow, ndiv; long c[16][12]; } RB;
typedef struct { int nb; RB b[4]; CloogMatrix *unused; } RS;
typedef unsigned char *Bits;

static int ND, NP, R, PLO, PHI;      /* box: iterators -R..R, parameters PLO..PHI */
static int NPT;
static long ptv[MAXP][6];            /* coordinates of each point: iters, params */
static long nlib, nops, nstates, Hs, nontriv_;
static char det[900]; static int failed;
static CloogState *ST;
static const char *CUR = "";
static int BND, UNIT, TU, DIVS;            /* bounded / unit coefficients / difference constraints */

static void bad(const char *op, const char *what)
{
  if (failed) return;
  failed = 1;
  snprintf(det, sizeof det, "%s on %s: %s", op, CUR, what);
}

static void mkpoints(void)
{
  int nv = ND + NP;
  long cur[6];
  for (int i = 0; i < ND; i++) cur[i] = -R;
  for (int i = 0; i < NP; i++) cur[ND + i] = PLO;
  NPT = 0;
  for (;;) {
    if (NPT >= MAXP) abort();
    memcpy(ptv[NPT++], cur, sizeof cur);
    int k = nv - 1;
    for (; k >= 0; k--) {
      long hi = k < ND ? R : PHI, lo = k < ND ? -R : PLO;
      if (++cur[k] <= hi) break;
      cur[k] = lo;
    }
    if (k < 0) break;
  }
}

/* ---- reference ---- */
static int rb_sat(RB *b, const long *x, int nd, int np, int d, long *e)
{
  if (d < b->ndiv) {
    for (long v = -40; v <= 40; v++) { e[d] = v; if (rb_sat(b, x, nd, np, d + 1, e)) return 1; }
    return 0;
  }
  for (int r = 0; r < b->nrow; r++) {
    long *c = b->c[r], s = c[1 + nd + b->ndiv + np];
    for (int i = 0; i < nd; i++) s += c[1 + i] * x[i];
    for (int i = 0; i < b->ndiv; i++) s += c[1 + nd + i] * e[i];
    for (int i = 0; i < np; i++) s += c[1 + nd + b->ndiv + i] * x[nd + i];
    if (c[0] ? s < 0 : s != 0) return 0;
  }
  return 1;
}
static int rs_has(RS *s, const long *x, int nd, int np)
{
  long e[4];
  for (int i = 0; i < s->nb; i++) if (rb_sat(&s->b[i], x, nd, np, 0, e)) return 1;
  return 0;
}
static Bits nb(void) { return calloc(NPT, 1); }
static Bits ref_bits(RS *s)
{
  Bits b = nb();
  for (int k = 0; k < NPT; k++) b[k] = rs_has(s, ptv[k], ND, NP);
  return b;
}

/* ---- evaluation of a set of the library ---- */
typedef struct { int nrow, ndiv, eq[400]; long c[400][24]; long dv[8][24]; long den[8]; int slow; isl_basic_set *bs; } EB;
typedef struct { int nb; EB *b; int nd, np; isl_set *s; } ES;

static long lv(isl_val *v) { long r = isl_val_get_num_si(v); isl_val_free(v); return r; }
static isl_stat one_con(isl_constraint *c, void *u)
{
  EB *e = u; int k = e->nrow++;
  if (k >= 400) abort();
  int n = 0;
  int nd = isl_constraint_dim(c, isl_dim_set), nq = isl_constraint_dim(c, isl_dim_div), np = isl_constraint_dim(c, isl_dim_param);
  e->eq[k] = isl_constraint_is_equality(c);
  for (int i = 0; i < nd; i++) e->c[k][n++] = lv(isl_constraint_get_coefficient_val(c, isl_dim_set, i));
  for (int i = 0; i < nq; i++) e->c[k][n++] = lv(isl_constraint_get_coefficient_val(c, isl_dim_div, i));
  for (int i = 0; i < np; i++) e->c[k][n++] = lv(isl_constraint_get_coefficient_val(c, isl_dim_param, i));
  e->c[k][n] = lv(isl_constraint_get_constant_val(c));
  isl_constraint_free(c);
  return isl_stat_ok;
}
static long num(isl_aff *a, isl_val *v, long den)
{
  (void)a;
  v = isl_val_mul(v, isl_val_int_from_si(isl_val_get_ctx(v), den));
  return lv(v);
}
static isl_stat one_bset(isl_basic_set *b, void *u)
{
  ES *s = u;
  s->b = realloc(s->b, (s->nb + 1) * sizeof *s->b);
  EB *e = &s->b[s->nb++];
  memset(e, 0, sizeof *e);
  isl_local_space *ls = isl_basic_set_get_local_space(b);
  e->ndiv = isl_local_space_dim(ls, isl_dim_div);
  if (e->ndiv > 8) abort();
  for (int d = 0; d < e->ndiv; d++) {
    isl_aff *a = isl_local_space_get_div(ls, d);
    if (!a || isl_aff_is_nan(a)) { e->slow = 1; isl_aff_free(a); continue; }
    long den = lv(isl_aff_get_denominator_val(a)); int n = 0;
    e->den[d] = den;
    for (int i = 0; i < s->nd; i++) e->dv[d][n++] = num(a, isl_aff_get_coefficient_val(a, isl_dim_in, i), den);
    for (int i = 0; i < e->ndiv; i++) e->dv[d][n++] = num(a, isl_aff_get_coefficient_val(a, isl_dim_div, i), den);
    for (int i = 0; i < s->np; i++) e->dv[d][n++] = num(a, isl_aff_get_coefficient_val(a, isl_dim_param, i), den);
    e->dv[d][n] = num(a, isl_aff_get_constant_val(a), den);
    isl_aff_free(a);
  }
  isl_local_space_free(ls);
  isl_basic_set_foreach_constraint(b, one_con, e);
  e->bs = b;
  return isl_stat_ok;
}
static long fd(long a, long b) { long q = a / b; return a % b != 0 && (a % b < 0) != (b < 0) ? q - 1 : q; }
static int es_has(ES *s, const long *it, const long *par)
{
  for (int k = 0; k < s->nb; k++) {
    EB *e = &s->b[k];
    int ok = 1;
    if (e->slow) {
      isl_point *p = isl_point_zero(isl_basic_set_get_space(e->bs));
      for (int i = 0; i < s->nd; i++) p = isl_point_set_coordinate_val(p, isl_dim_set, i, isl_val_int_from_si(isl_point_get_ctx(p), it[i]));
      for (int i = 0; i < s->np; i++) p = isl_point_set_coordinate_val(p, isl_dim_param, i, isl_val_int_from_si(isl_point_get_ctx(p), par[i]));
      isl_set *i1 = isl_set_intersect(isl_set_from_basic_set(isl_basic_set_copy(e->bs)), isl_set_from_point(p));
      ok = !isl_set_is_empty(i1);
      isl_set_free(i1);
      if (ok) return 1;
      continue;
    }
    long dv[8] = {0};
    for (int d = 0; d < e->ndiv; d++) {
      long *c = e->dv[d]; int n = 0; long v = 0;
      for (int i = 0; i < s->nd; i++) v += c[n++] * it[i];
      for (int i = 0; i < e->ndiv; i++) v += c[n++] * dv[i];
      for (int i = 0; i < s->np; i++) v += c[n++] * par[i];
      v += c[n];
      dv[d] = fd(v, e->den[d]);
    }
    for (int r = 0; r < e->nrow && ok; r++) {
      long *c = e->c[r]; int n = 0; long v = 0;
      for (int i = 0; i < s->nd; i++) v += c[n++] * it[i];
      for (int i = 0; i < e->ndiv; i++) v += c[n++] * dv[i];
      for (int i = 0; i < s->np; i++) v += c[n++] * par[i];
      v += c[n];
      ok = e->eq[r] ? v == 0 : v >= 0;
    }
    if (ok) return 1;
  }
  return 0;
}
static ES es_new(CloogDomain *d)
{
  ES s = { 0, NULL, 0, 0, isl_set_from_cloog_domain(d) };
  s.nd = isl_set_dim(s.s, isl_dim_set);
  s.np = isl_set_dim(s.s, isl_dim_param);
  isl_set_foreach_basic_set(s.s, one_bset, &s);
  return s;
}
static void es_free(ES *s) { for (int i = 0; i < s->nb; i++) isl_basic_set_free(s->b[i].bs); free(s->b); }
static Bits bits_of(CloogDomain *d, const char *op)
{
  Bits b = nb();
  if (!d) { bad(op, "no result"); return b; }
  ES s = es_new(d);
  if (s.nd != ND || s.np != NP) { bad(op, "wrong number of dimensions"); es_free(&s); return b; }
  for (int k = 0; k < NPT; k++) b[k] = es_has(&s, ptv[k], ptv[k] + ND);
  es_free(&s);
  nops++;
  for (int k = 0; k < NPT; k++) Hs = hmix(Hs, b[k]);
  return b;
}
static const char *pstr(int k)
{
  static char buf[100]; int n = 0;
  for (int i = 0; i < ND + NP; i++) n += snprintf(buf + n, sizeof buf - n, "%s%ld", i == ND ? " ; " : i ? "," : "", ptv[k][i]);
  return buf;
}
static void must_eq(const char *op, CloogDomain *d, Bits want)
{
  Bits g = bits_of(d, op);
  for (int k = 0; k < NPT && !failed; k++) if (!g[k] != !want[k]) {
    char m[200]; snprintf(m, sizeof m, "point (%s) %s", pstr(k), g[k] ? "should not be in the result" : "is missing"); bad(op, m);
  }
  nstates += NPT;
  free(g);
}
static void must_incl(const char *op, CloogDomain *d, Bits want)
{
  Bits g = bits_of(d, op);
  for (int k = 0; k < NPT && !failed; k++) if (want[k] && !g[k]) {
    char m[200]; snprintf(m, sizeof m, "point (%s) is missing", pstr(k)); bad(op, m);
  }
  nstates += NPT;
  free(g);
}
static int any(Bits b) { for (int k = 0; k < NPT; k++) if (b[k]) return 1; return 0; }
static int same_except(int a, int b, int dim)
{
  for (int i = 0; i < ND + NP; i++) if (i != dim && ptv[a][i] != ptv[b][i]) return 0;
  return 1;
}
static int same_prefix(int a, int b, int n)     /* the n first iterators and the parameters */
{
  for (int i = 0; i < n; i++) if (ptv[a][i] != ptv[b][i]) return 0;
  for (int i = 0; i < NP; i++) if (ptv[a][ND + i] != ptv[b][ND + i]) return 0;
  return 1;
}

/* ---- building a library domain from rows ---- */
static CloogDomain *dom_text(RS *s)
{
  char *t; size_t n; FILE *f = open_memstream(&t, &n);
  if (s->nb != 1) fprintf(f, "%d\n", s->nb);
  for (int k = 0; k < s->nb; k++) {
    RB *b = &s->b[k];
    int w = 2 + ND + b->ndiv + NP;
    int anydiv = 0;
    for (int q = 0; q < s->nb; q++) anydiv |= s->b[q].ndiv;
    if (anydiv) fprintf(f, "%d %d %d 0 %d %d\n", b->nrow, w, ND, b->ndiv, NP);
    else fprintf(f, "%d %d\n", b->nrow, w);
    for (int r = 0; r < b->nrow; r++) { for (int i = 0; i < w; i++) fprintf(f, "%ld ", b->c[r][i]); fputc('\n', f); }
  }
  fclose(f);
  f = fmemopen(t, n, "r");
  CloogDomain *d = cloog_domain_union_read(ST, f, NP);
  fclose(f); free(t);
  return d;
}
static CloogMatrix *mat(RB *b, int nv)
{
  CloogMatrix *m = cloog_matrix_alloc(b->nrow, 2 + nv + NP);
  for (int r = 0; r < b->nrow; r++) for (int i = 0; i < 2 + nv + NP; i++) mpz_set_si(m->p[r][i], b->c[r][i]);
  return m;
}

/* ---- unary operations ---- */
static long cross(const long *o, const long *a, const long *b) { return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); }
static int in_hull2(Bits S, const long *p)
{
  /* p is outside the hull of S iff it can be strictly separated: then one of the
   * directions between p and a point of S, turned by a quarter, or the
   * direction itself for collinear sets, separates */
  long hull[2048][2]; int n = 0;
  for (int k = 0; k < NPT; k++) if (S[k]) { if (ptv[k][0] == p[0] && ptv[k][1] == p[1]) return 1; hull[n][0] = ptv[k][0]; hull[n++][1] = ptv[k][1]; if (n >= 2048) abort(); }
  if (!n) return 0;
  /* p in conv(S) iff p lies in a segment or triangle of points of S: sort by angle around p, look for a half plane */
  for (int i = 0; i < n; i++) {
    long d[2] = { hull[i][0] - p[0], hull[i][1] - p[1] };
    int pos = 0, neg = 0, opp = 0;
    for (int j = 0; j < n; j++) {
      long e[2] = { hull[j][0] - p[0], hull[j][1] - p[1] };
      long x = d[0] * e[1] - d[1] * e[0];
      if (x > 0) pos = 1; else if (x < 0) neg = 1; else if (d[0] * e[0] + d[1] * e[1] < 0) opp = 1;
    }
    if (opp) return 1;
    if (!pos || !neg) { /* all on one side of the line through p: outside unless opp */ return 0; }
  }
  return 1;
}

static void unary(CloogDomain *A, Bits a, int depth)
{
  CloogDomain *r, *q; cloog_int_t v, w;
  if (failed) return;
  cloog_int_init(v); cloog_int_init(w);
  int ne = any(a), cv = cloog_domain_isconvex(A);
  if (ne) nontriv_++;
  /* tests; either may remember its answer for the other, so take turns */
  static int turn;
  if ((turn ^= 1) && BND && !ne && !cloog_domain_never_integral(A)) bad("never_integral", "a set without integer points is not recognised");
  if (ne && cloog_domain_isempty(A)) bad("isempty", "a set with points is called empty");
  if (BND && !ne && !cloog_domain_isempty(A)) bad("isempty", "a set without points is called non-empty");
  if (ne && cloog_domain_never_integral(A)) bad("never_integral", "a set with points is called never integral");
  if (BND && !ne && !cloog_domain_never_integral(A)) bad("never_integral", "a set without integer points is not recognised");
  if (cloog_domain_dimension(A) != ND || cloog_domain_parameter_dimension(A) != NP) bad("dimension", "wrong");
  nops += 6;
  for (int d = 0; d < ND && !failed; d++) {
    int two = 0, f = -1, cst = 1;
    for (int k = 0; k < NPT; k++) if (a[k]) {
      if (f >= 0 && ptv[f][d] != ptv[k][d]) cst = 0;
      if (f < 0) f = k;
    }
    for (int k = 0; k < NPT && !two; k++) if (a[k]) {
      int st = 1; for (int i = d + 1; i < ND; i++) st *= 2 * R + 1;
      for (int i = 0; i < NP; i++) st *= PHI - PLO + 1;
      for (int m = k + st; m < NPT && same_except(k, m, d); m += st) if (a[m]) { two = 1; break; }
    }
    int otl = cloog_domain_is_otl(A, d + 1);
    if (two && otl) bad("is_otl", "a loop with two iterations is called one-time");
    if (!two && BND && !otl) bad("is_otl", "a one-time loop is not recognised");
    cloog_int_set_si(v, 77777);
    int lc = cloog_domain_lazy_isconstant(A, d, &v);
    if (lc && ne && (!cst || mpz_cmp_si(v, ptv[f][d]))) bad("lazy_isconstant", "reports a value some point does not have");
    if (lc != cloog_domain_lazy_isconstant(A, d, NULL)) bad("lazy_isconstant", "answer depends on the value pointer");
    /* bounds: for fixed other variables */
    if (ne) {
      ES s = es_new(A); int unb = 0;
      for (int k = 0; k < NPT && !unb; k++) for (int q2 = 0; q2 < 12; q2++) {
        long x[8]; memcpy(x, ptv[k], sizeof(long) * 6);
        x[d] = q2 < 6 ? 100000 + q2 : -100000 - q2;
        if (es_has(&s, x, x + ND)) { unb = 1; break; }
      }
      es_free(&s);
      int b = cloog_domain_is_bounded(A, d + 1);
      if (b && unb && !DIVS) bad("is_bounded", "an unbounded dimension is called bounded");
      if (!b && BND) bad("is_bounded", "a bounded dimension is called unbounded");
    }
    if (ne) {
      cloog_domain_stride(A, d + 1, &v, &w);
      long s = mpz_get_si(v), o = mpz_get_si(w);
      for (int k = 0; k < NPT; k++) if (a[k]) {
        if (s > 1 && fd(ptv[k][d] + o, s) * s != ptv[k][d] + o) bad("stride", "a value breaks the stride");
        if (s == 0 && ptv[k][d] + o != 0) bad("stride", "a value differs from the only one");
      }
      if (s < 0) bad("stride", "negative stride");
    }
    nops += 5;
  }
  must_eq("operand after the tests", A, a);
  /* copies and re-descriptions */
  r = cloog_domain_copy(A); must_eq("copy", r, a);
  /* coalescing in the set library itself is wrong for some unions with a stride: not CLooG's doing */
  isl_set *co = isl_set_coalesce(isl_set_copy(isl_set_from_cloog_domain(A)));
  int colib = isl_set_is_equal(co, isl_set_from_cloog_domain(A)) == isl_bool_true;
  isl_set_free(co);
  if (!colib) nlib++;
  if (colib) { r = cloog_domain_simplify_union(r); must_eq("simplify_union", r, a); }
  q = cloog_domain_copy(r);
  if (cloog_domain_lazy_equal(q, r) != 1) bad("lazy_equal", "a copy is not equal");
  cloog_domain_free(q);
  if (isl_set_n_basic_set(isl_set_from_cloog_domain(r)) > 0) {
    CloogDomain *rest = NULL;
    int parts = 0;
    Bits seen = nb();
    while (r && !failed) {
      q = cloog_domain_cut_first(r, &rest);
      if (!cloog_domain_isconvex(q)) bad("cut_first", "the part cut off is not convex");
      Bits g = bits_of(q, "cut_first"), h = bits_of(rest, "cut_first");
      for (int k = 0; k < NPT; k++) { seen[k] |= g[k]; if ((g[k] || h[k]) && !a[k]) bad("cut_first", "invents a point"); }
      free(g); free(h);
      cloog_domain_free(q);
      r = rest;
      if (isl_set_n_basic_set(isl_set_from_cloog_domain(r)) == 0) { cloog_domain_free(r); r = NULL; }
      if (++parts > 50) { bad("cut_first", "never ends"); }
    }
    if (r) cloog_domain_free(r);
    for (int k = 0; k < NPT; k++) if (a[k] && !seen[k]) bad("cut_first", "loses a point");
    free(seen);
  } else cloog_domain_free(r);
  r = cloog_domain_empty(A); { Bits z = nb(); must_eq("empty", r, z); free(z); }
  cloog_domain_free(r);
  /* hulls */
  r = cloog_domain_convex(A); must_incl("convex", r, a);
  if (!cloog_domain_isconvex(r)) bad("convex", "not convex");
  if (BND && TU && colib && ND + NP <= 2 && !failed) {
    Bits g = bits_of(r, "convex");
    for (int k = 0; k < NPT && !failed; k++) if (g[k] && !a[k]) {
      int in;
      if (ND + NP == 1) { int lo = 0, hi = 0; for (int m = 0; m < NPT; m++) if (a[m]) { if (ptv[m][0] < ptv[k][0]) lo = 1; else hi = 1; } in = lo && hi; }
      else in = in_hull2(a, ptv[k]);
      if (!in) { char m[160]; snprintf(m, sizeof m, "point (%s) lies outside the convex hull", pstr(k)); bad("convex", m); }
    }
    free(g);
  }
  cloog_domain_free(r);
  r = cloog_domain_simple_convex(A); must_incl("simple_convex", r, a);
  if (!cloog_domain_isconvex(r)) bad("simple_convex", "not convex");
  if (cv) must_eq("simple_convex of a convex set", r, a);
  cloog_domain_free(r);
  must_eq("operand after hulls", A, a);
  /* projection on the outer dimensions, extension */
  for (int l = 0; l <= ND && !failed; l++) {
    r = cloog_domain_project(A, l);
    ES s = es_new(r);
    if (s.nd != l || s.np != NP) bad("project", "wrong dimensions");
    for (int k = 0; k < NPT && !failed; k++) {
      int first = 1; for (int i = l; i < ND; i++) if (ptv[k][i] != -R) first = 0;
      if (a[k] && !es_has(&s, ptv[k], ptv[k] + ND)) { char m[160]; snprintf(m, sizeof m, "the image of point (%s) is missing at level %d", pstr(k), l); bad("project", m); }
      if (first && UNIT && BND && ND - l <= 1 && es_has(&s, ptv[k], ptv[k] + ND)) {
        int ex = 0;
        for (int m = 0; m < NPT && !ex; m++) if (a[m] && same_prefix(k, m, l)) ex = 1;
        if (!ex) { char m[160]; snprintf(m, sizeof m, "the prefix of (%s) at level %d is invented", pstr(k), l); bad("project", m); }
      }
    }
    es_free(&s); nops++;
    CloogDomain *x = cloog_domain_extend(r, ND + 1);
    ES t = es_new(x), u = es_new(r);
    if (t.nd != ND + 1 || t.np != NP) bad("extend", "wrong dimensions");
    for (int k = 0; k < NPT && !failed; k += 1) for (long z = -5; z <= 5; z += 5) {
      long y[8]; memcpy(y, ptv[k], sizeof(long) * ND); y[ND] = z;
      if (es_has(&t, y, ptv[k] + ND) != es_has(&u, ptv[k], ptv[k] + ND)) bad("extend", "changes the set");
    }
    es_free(&t); es_free(&u); nops++;
    cloog_domain_free(x); cloog_domain_free(r);
  }
  must_eq("operand after projections", A, a);
  r = cloog_domain_from_context(cloog_domain_copy(A));
  {
    ES s = es_new(r);
    if (s.np != 0 || s.nd != ND + NP) bad("from_context", "wrong dimensions");
    for (int k = 0; k < NPT && !failed; k++) {
      long y[8]; for (int i = 0; i < NP; i++) y[i] = ptv[k][ND + i];
      for (int i = 0; i < ND; i++) y[NP + i] = ptv[k][i];
      if (es_has(&s, y, NULL) != !!a[k]) bad("from_context", "changes the set");
    }
    es_free(&s); nops++;
  }
  cloog_domain_free(r);
  /* strides, unrolling, splitting */
  for (int l = 1; l <= ND && !failed; l++) {
    if (cv && cloog_domain_can_stride(A, l) && ne) for (int s = 2; s <= 3; s++) for (int o = 0; o < s; o++) {
      cloog_int_set_si(v, s); cloog_int_set_si(w, o);
      CloogStride *st = cloog_stride_alloc(v, w);
      r = cloog_domain_stride_lower_bound(cloog_domain_copy(A), l, st);
      Bits g = bits_of(r, "stride_lower_bound");
      for (int k = 0; k < NPT && !failed; k++) {
        int on = fd(ptv[k][l - 1] - o, s) * s == ptv[k][l - 1] - o;
        if (g[k] && !a[k]) bad("stride_lower_bound", "invents a point");
        if (a[k] && on && !g[k]) bad("stride_lower_bound", "loses a point on the stride");
      }
      free(g);
      cloog_domain_free(r); cloog_stride_free(st);
    }
    CloogConstraint *lb = NULL;
    cloog_int_set_si(v, 0);
    if (ne && cloog_domain_can_unroll(A, l, &v, &lb)) {
      long n = mpz_get_si(v);
      if (n > 60 || n < 1) bad("can_unroll", "no plausible trip count");
      Bits seen = nb();
      for (long o = 0; o < n && !failed; o++) {
        cloog_int_set_si(w, o);
        r = cloog_domain_fixed_offset(cloog_domain_copy(A), l, lb, w);
        Bits g = bits_of(r, "fixed_offset");
        for (int k = 0; k < NPT && !failed; k++) {
          if (g[k] && !a[k]) bad("fixed_offset", "invents a point");
          if (g[k] && seen[k]) bad("fixed_offset", "gives a point at two offsets");
          seen[k] |= g[k];
        }
        free(g); cloog_domain_free(r);
      }
      for (int k = 0; k < NPT && !failed; k++) if (a[k] && !seen[k]) { char m[160]; snprintf(m, sizeof m, "point (%s) is at no offset", pstr(k)); bad("can_unroll", m); }
      free(seen);
      cloog_constraint_release(lb);
    }
    r = cloog_domain_bound_splitter(A, l);
    { Bits z = nb(); memset(z, 1, NPT); must_eq("bound_splitter", r, z); free(z); }
    cloog_domain_free(r);
  }
  must_eq("operand at the end", A, a);
  (void)depth;
  cloog_int_clear(v); cloog_int_clear(w);
}

/* is there a value of X at the level greater than (rel=1) / equal to (0) one of Y, for a common prefix? */
static int pair_rel(Bits x, Bits y, int l, int rel)
{
  for (int k = 0; k < NPT; k++) if (x[k]) for (int m = 0; m < NPT; m++)
    if (y[m] && (rel ? ptv[k][l - 1] > ptv[m][l - 1] : ptv[k][l - 1] == ptv[m][l - 1]) && same_prefix(k, m, l - 1)) return 1;
  return 0;
}

static void list_stride(CloogDomain **d, Bits *b, int n, int l)
{
  CloogDomainList *h = NULL;
  for (int i = n - 1; i >= 0; i--) { CloogDomainList *e = malloc(sizeof *e); e->domain = d[i]; e->next = h; h = e; }
  CloogStride *s = cloog_domain_list_stride(h, l);
  if (s) {
    long st = mpz_get_si(s->stride);
    for (int i = 0; i < n && !failed; i++) for (int j = 0; j < n && !failed; j++)
      for (int k = 0; k < NPT && !failed; k++) if (b[i][k]) for (int m = 0; m < NPT; m++)
        if (b[j][m] && same_prefix(k, m, l - 1) && (ptv[k][l - 1] - ptv[m][l - 1]) % st) { bad("list_stride", "two values are not a multiple of the stride apart"); break; }
    cloog_stride_free(s);
  }
  while (h) { CloogDomainList *t = h->next; free(h); h = t; }
  nops++;
}

static void binary(CloogDomain *A, Bits a, CloogDomain *B, Bits b, int deep)
{
  CloogDomain *r; Bits w = nb(), g;
  if (failed) { free(w); return; }
  r = cloog_domain_intersection(A, B);
  for (int k = 0; k < NPT; k++) w[k] = a[k] && b[k];
  must_eq("intersection", r, w);
  if (deep & 1) unary(r, w, 1);
  int inter = any(w);
  cloog_domain_free(r);
  r = cloog_domain_difference(A, B);
  for (int k = 0; k < NPT; k++) w[k] = a[k] && !b[k];
  must_eq("difference", r, w);
  if (deep & 2) unary(r, w, 1);
  if (deep & 8) {   /* (A - B) n B, (A - B) u B */
    CloogDomain *t = cloog_domain_intersection(r, B); Bits z = nb();
    must_eq("intersection of a difference", t, z); cloog_domain_free(t);
    t = cloog_domain_union(cloog_domain_copy(r), cloog_domain_copy(B));
    for (int k = 0; k < NPT; k++) z[k] = a[k] || b[k];
    must_eq("union with a difference", t, z);
        cloog_domain_free(t);
    t = cloog_domain_simplify(r, A); g = bits_of(t, "simplify of a difference");
    for (int k = 0; k < NPT && !failed; k++) if (a[k] && !g[k] != !w[k]) bad("simplify of a difference", "differs inside the context");
    free(g); cloog_domain_free(t); free(z);
  }
  cloog_domain_free(r);
  r = cloog_domain_union(cloog_domain_copy(A), cloog_domain_copy(B));
  for (int k = 0; k < NPT; k++) w[k] = a[k] || b[k];
  must_eq("union", r, w);
  if (deep & 4) unary(r, w, 1);
  for (int l = 1; l <= ND && (deep & 16); l++) { CloogDomain *d[1] = { r }; Bits q[1] = { w }; list_stride(d, q, 1, l); }
  CloogDomain *U = r;
  r = cloog_domain_simplify(A, B); g = bits_of(r, "simplify");
  for (int k = 0; k < NPT && !failed; k++) if (b[k] && !g[k] != !a[k]) { char m[160]; snprintf(m, sizeof m, "differs inside the context at (%s)", pstr(k)); bad("simplify", m); }
  free(g); cloog_domain_free(r);
  if (deep & 16) {
    r = cloog_domain_simplify(A, U); g = bits_of(r, "simplify in a union");
    for (int k = 0; k < NPT && !failed; k++) if (w[k] && !g[k] != !a[k]) bad("simplify in a union", "differs inside the context");
    free(g); cloog_domain_free(r);
    r = cloog_domain_simplify(U, A); g = bits_of(r, "simplify of a union");
    for (int k = 0; k < NPT && !failed; k++) if (a[k] && !g[k]) bad("simplify of a union", "differs inside the context");
    free(g); cloog_domain_free(r);
  }
  cloog_domain_free(U);
  int eq = !memcmp(a, b, NPT);
  if (cloog_domain_lazy_equal(A, B) && !eq) bad("lazy_equal", "different sets are called equal");
  if (cloog_domain_lazy_disjoint(A, B) && inter) bad("lazy_disjoint", "sets with a common point are called disjoint");
  nops += 2;
  for (int l = 1; l <= ND && !failed; l++) {
    int f = cloog_domain_follows(A, B, l), gt = pair_rel(a, b, l, 1), e = pair_rel(a, b, l, 0);
    if (f != 1 && gt) bad("follows", "misses a greater value");
    if (f < 0 && e) bad("follows", "misses an equal value");
    if (UNIT && BND && f == 1 && !gt) bad("follows", "claims a greater value there is not");
    if (f < -1 || f > 1) bad("follows", "undocumented answer");
    if (deep & 16) { CloogDomain *d[2] = { A, B }; Bits q[2] = { a, b }; list_stride(d, q, 2, l); }
    nops++;
  }
  must_eq("first operand afterwards", A, a);
  must_eq("second operand afterwards", B, b);
  free(w);
}

static void sort3(CloogDomain **d, Bits *b, int n)
{
  int perm[4];
  for (int i = 0; i < n; i++) if (isl_set_n_basic_set(isl_set_from_cloog_domain(d[i])) != 1) return;
  for (int l = 1; l <= ND && !failed; l++) {
    int gt[4][4] = {{0}}, m[4][4];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) gt[i][j] = pair_rel(b[i], b[j], l, 1);
    memcpy(m, gt, sizeof m);
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] |= m[i][k] && m[k][j];
    int cyc = 0; for (int i = 0; i < n; i++) cyc |= m[i][i];
    if (cyc) continue;
    memset(perm, 0, sizeof perm);
    cloog_domain_sort(d, n, l, perm);
    nops++;
    int seen[5] = {0};
    for (int i = 0; i < n; i++) { if (perm[i] < 1 || perm[i] > n || seen[perm[i]]) { bad("sort", "not a permutation"); return; } seen[perm[i]] = 1; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
      if (gt[perm[i] - 1][perm[j] - 1]) bad("sort", "a domain is placed before one with smaller values");
  }
}

/* ---- scatterings: A is a set over (scat, iters) ---- */
static Bits map_bits(CloogScattering *s, const char *op)
{
  isl_map *m = isl_map_reverse(isl_map_copy((isl_map *)(s)));
  isl_set *t = isl_set_compute_divs(isl_set_flatten(isl_map_wrap(m)));
  Bits b = bits_of((CloogDomain *)t, op);
  isl_set_free(t);
  return b;
}
static CloogScattering *scat_text(RS *s, CloogDomain *dom)
{
  char *t; size_t n; FILE *f = open_memstream(&t, &n);
  RB *b = &s->b[0]; int w = 2 + ND + NP;
  fprintf(f, "%d %d\n", b->nrow, w);
  for (int r = 0; r < b->nrow; r++) { for (int i = 0; i < w; i++) fprintf(f, "%ld ", b->c[r][i]); fputc('\n', f); }
  fclose(f);
  f = fmemopen(t, n, "r");
  CloogScattering *d = cloog_domain_read_scattering(dom, f);
  fclose(f); free(t);
  return d;
}
static void scat_eq(const char *op, CloogScattering *s, Bits want)
{
  Bits g = map_bits(s, op);
  for (int k = 0; k < NPT && !failed; k++) if (!g[k] != !want[k]) { char m[160]; snprintf(m, sizeof m, "differs at (%s)", pstr(k)); bad(op, m); }
  nstates += NPT;
  free(g);
}
static int iter_same(int k, int m, int ns)
{
  for (int i = ns; i < ND + NP; i++) if (ptv[k][i] != ptv[m][i]) return 0;
  return 1;
}
static void scat_case(RS *sets, int K, int ns)
{
  cloog_int_t v; cloog_int_init(v);
  Bits *b = calloc(K, sizeof *b); CloogScattering **s = calloc(K, sizeof *s);
  int ni = ND - ns;
  CloogMatrix *um = cloog_matrix_alloc(0, 2 + ni + NP);
  CloogDomain *U = cloog_domain_from_cloog_matrix(ST, um, NP);
  cloog_matrix_free(um);
  for (int i = 0; i < K && !failed; i++) {
    char c[32]; snprintf(c, sizeof c, "scattering %d", i); CUR = c;
    b[i] = ref_bits(&sets[i]);
    CloogMatrix *m = mat(&sets[i].b[0], ND);
    s[i] = cloog_scattering_from_cloog_matrix(ST, m, ns, NP);
    cloog_matrix_free(m);
    scat_eq("scattering_from_cloog_matrix", s[i], b[i]);
    CloogScattering *t = scat_text(&sets[i], U);
    scat_eq("read_scattering", t, b[i]);
    cloog_scattering_free(t);
    if (cloog_scattering_dimension(s[i], U) != ns) bad("scattering_dimension", "wrong");
  }
  CUR = "the first scattering";
  if (!failed) {
    Bits a = b[0];
    if (any(a)) nontriv_++;
    int fs = cloog_scattering_fully_specified(s[0], U), multi = 0;
    for (int k = 0; k < NPT && !multi; k++) if (a[k]) for (int m = k + 1; m < NPT; m++) if (a[m] && iter_same(k, m, ns)) { multi = 1; break; }
    if (fs && multi) bad("fully_specified", "two dates for one instance");
    if (BND && !multi && !fs) bad("fully_specified", "a function is not recognised");
    for (int d = 0; d < ns && !failed; d++) {
      int f = -1, cst = 1;
      for (int k = 0; k < NPT; k++) if (a[k]) { if (f >= 0 && ptv[f][d] != ptv[k][d]) cst = 0; if (f < 0) f = k; }
      cloog_int_set_si(v, 77777);
      if (cloog_scattering_lazy_isscalar(s[0], d, &v) && f >= 0 && (!cst || mpz_cmp_si(v, ptv[f][d]))) bad("lazy_isscalar", "reports a value some instance does not have");
      if (ns > 1) {
        CloogScattering *t = cloog_scattering_erase_dimension(s[0], d);
        if (cloog_scattering_dimension(t, U) != ns - 1) bad("erase_dimension", "wrong dimension");
        isl_set *q = isl_set_compute_divs(isl_set_flatten(isl_map_wrap(isl_map_reverse(isl_map_copy((isl_map *)(t))))));
        ES e = es_new((CloogDomain *)q);
        for (int k = 0; k < NPT && !failed; k++) {
          long y[8]; int n = 0; for (int i = 0; i < ND; i++) if (i != d) y[n++] = ptv[k][i];
          int h = es_has(&e, y, ptv[k] + ND);
          if (a[k] && !h) bad("erase_dimension", "loses a pair");
          if (h && UNIT && BND) {
            int ex = 0;
            for (int m = 0; m < NPT && !ex; m++) if (a[m] && same_except(k, m, d)) ex = 1;
            if (!ex) bad("erase_dimension", "invents a pair");
          }
        }
        es_free(&e); isl_set_free(q); cloog_scattering_free(t);
      }
      nops += 2;
    }
    scat_eq("operand afterwards", s[0], a);
    /* application to a domain */
    for (int lo = -1; lo <= 1; lo++) {
      RS D; memset(&D, 0, sizeof D); D.nb = 1; D.b[0].nrow = 2 * ni;
      for (int i = 0; i < ni; i++) { D.b[0].c[2 * i][0] = 1; D.b[0].c[2 * i][1 + i] = 1; D.b[0].c[2 * i][1 + ni + NP] = -lo; D.b[0].c[2 * i + 1][0] = 1; D.b[0].c[2 * i + 1][1 + i] = -1; D.b[0].c[2 * i + 1][1 + ni + NP] = lo + 2; }
      CloogMatrix *m = mat(&D.b[0], ni);
      CloogDomain *dd = cloog_domain_from_cloog_matrix(ST, m, NP);
      cloog_matrix_free(m);
      CloogDomain *r = cloog_domain_scatter(dd, s[0]);
      Bits w = nb();
      for (int k = 0; k < NPT; k++) { w[k] = a[k]; for (int i = ns; i < ND; i++) if (ptv[k][i] < lo || ptv[k][i] > lo + 2) w[k] = 0; }
      must_eq("scatter", r, w);
      cloog_domain_free(r); free(w);
    }
    for (int j = 1; j < K && !failed; j++) {
      CloogScatteringList l2 = { s[j], NULL }, l1 = { s[0], &l2 };
      if (cloog_scattering_list_lazy_same(&l1) && memcmp(a, b[j], NPT)) bad("list_lazy_same", "different scatterings are called the same");
      if (cloog_scattering_lazy_block(s[0], s[j], &l1, ns)) {
        int one = 0;
        for (int k = 0; k < NPT && !failed; k++) if (a[k]) for (int m = 0; m < NPT; m++) if (b[j][m] && iter_same(k, m, ns)) {
          for (int i = 0; i < ns; i++) {
            long df = ptv[m][i] - ptv[k][i];
            if (df == 1 && i == ns - 1) one = 1;
            else if (df) { bad("lazy_block", "the dates differ"); break; }
          }
        }
        if (one) for (int k = 0; k < NPT && !failed; k++) if (a[k] || b[j][k])
          for (int m = k + 1; m < NPT; m++) if (a[m] || b[j][m]) {
            int sd = 1; for (int i = 0; i < ns; i++) sd &= ptv[k][i] == ptv[m][i];
            for (int i = ND; i < ND + NP; i++) sd &= ptv[k][i] == ptv[m][i];
            if (sd) { bad("lazy_block", "dates are shared, so the difference of one matters"); break; }
          }
      }
      nops += 2;
      scat_eq("second operand afterwards", s[j], b[j]);
    }
  }
  for (int i = 0; i < K; i++) { free(b[i]); if (s[i]) cloog_scattering_free(s[i]); }
  free(b); free(s);
  cloog_domain_free(U);
  cloog_int_clear(v);
}

static void misc(void)
{
  cloog_int_t v, w; cloog_int_init(v); cloog_int_init(w);
  CUR = "numbers";
  for (int dim = 0; dim <= 3; dim++) {
    CloogDomain *u = cloog_domain_universe(ST, dim);
    ES e = es_new(u);
    if (e.nd != dim || e.np) bad("universe", "wrong dimension");
    long z[4] = { 5, -7, 100, 3 };
    if (!es_has(&e, z, z)) bad("universe", "a point is missing");
    es_free(&e); cloog_domain_free(u); nops++;
    for (int lo = -2; lo <= 2; lo++) for (int hi = -2; hi <= 2 && !failed; hi++) {
      cloog_int_set_si(v, lo); cloog_int_set_si(w, hi);
      CloogDomain *c = cloog_domain_cube(ST, dim, v, w);
      struct cloog_vec *l = cloog_vec_alloc(dim), *h = cloog_vec_alloc(dim);
      for (int i = 0; i < dim; i++) { mpz_set_si(l->p[i], lo - i); mpz_set_si(h->p[i], hi + 2 * i); }
      CloogDomain *f = cloog_domain_from_bounds(ST, l, h);
      ES e1 = es_new(c), e2 = es_new(f);
      if (e1.nd != dim || e1.np || e2.nd != dim || e2.np) bad("cube", "wrong dimension");
      long n = 1; for (int i = 0; i < dim; i++) n *= 13;
      for (long k = 0; k < n && !failed; k++) {
        long x[4], q = k, in1 = 1, in2 = 1;
        for (int i = 0; i < dim; i++) { x[i] = q % 13 - 5; q /= 13; in1 &= lo <= x[i] && x[i] <= hi; in2 &= lo - i <= x[i] && x[i] <= hi + 2 * i; }
        if (es_has(&e1, x, NULL) != in1) bad("cube", "wrong set");
        if (es_has(&e2, x, NULL) != in2) bad("from_bounds", "wrong set");
        nstates += 2;
      }
      es_free(&e1); es_free(&e2); cloog_vec_free(l); cloog_vec_free(h); cloog_domain_free(c); cloog_domain_free(f); nops += 2;
    }
  }
  /* matrices: print and read */
  for (int r = 0; r <= 3; r++) for (int c = 1; c <= 4 && !failed; c++) for (int var = 0; var < 3; var++) {
    CloogMatrix *m = cloog_matrix_alloc(r, c), *q;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) mpz_set_si(m->p[i][j], (i * 7 + j * 3 + var) % 11 - 5);
    /* numbers of up to 200 digits */
    if (var == 2) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { mpz_ui_pow_ui(v, 10, 29 * (i + 1) + 37 * j); mpz_mul(m->p[i][j], m->p[i][j], v); mpz_sub_ui(m->p[i][j], m->p[i][j], 3); }
    char *t; size_t n; FILE *f = open_memstream(&t, &n);
    if (var == 1) fprintf(f, "# comment\n\n");
    cloog_matrix_print(f, m);
    fclose(f);
    f = fmemopen(t, n, "r");
    q = cloog_matrix_read(f);
    fclose(f);
    if (!q || q->NbRows != (unsigned)r || q->NbColumns != (unsigned)c) bad("matrix_read", "wrong size");
    else for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (mpz_cmp(q->p[i][j], m->p[i][j])) bad("matrix_read", "an entry changed");
    cloog_matrix_free(m); cloog_matrix_free(q); free(t); nops += 2; nstates++;
  }
  cloog_int_clear(v); cloog_int_clear(w);
}

void set_case(long id, const char *hdr, char *text)
{
  long deep = 0, bnd = 1, unit = 0, tu = 0, ns = 0, tri = 0, tmo = 20, r_ = 6, plo = -2, phi = 3;
  GETI("deep", deep); GETI("bnd", bnd); GETI("unit", unit); GETI("tu", tu); GETI("ns", ns); GETI("tri", tri); GETI("tmo", tmo); GETI("R", r_);
  GETI("plo", plo); GETI("phi", phi);
  BND = (int)bnd; UNIT = (int)unit; TU = (int)tu; R = (int)r_; PLO = (int)plo; PHI = (int)phi;
  nops = nstates = nontriv_ = 0; Hs = 7; failed = 0; det[0] = 0;
  cur_id = id; cur_opt = 0; cur_phase = "set operations";
  tmo_set((unsigned)tmo * 3);
  char *p = text; int K;
#define NUM() strtol(p, &p, 10)
  ND = NUM(); NP = NUM(); K = NUM();
  RS *S = calloc(K + 1, sizeof *S);
  for (int i = 0; i < K; i++) {
    S[i].nb = NUM();
    for (int j = 0; j < S[i].nb; j++) {
      RB *b = &S[i].b[j];
      b->nrow = NUM(); b->ndiv = NUM();
      for (int r = 0; r < b->nrow; r++) for (int c = 0; c < 2 + ND + NP + b->ndiv; c++) b->c[r][c] = NUM();
    }
  }
  DIVS = 0;
  for (int i = 0; i < K; i++) for (int j = 0; j < S[i].nb; j++) DIVS |= S[i].b[j].ndiv > 0;
  mkpoints();
  ST = cloog_state_malloc();
  if (!K) misc();
  else if (ns) scat_case(S, K, (int)ns);
  else {
    CloogDomain **d = calloc(K, sizeof *d); Bits *b = calloc(K, sizeof *b);
    char nm[64];
    for (int i = 0; i < K && !failed; i++) {
      snprintf(nm, sizeof nm, "set %d", i); CUR = nm;
      b[i] = ref_bits(&S[i]);
      d[i] = dom_text(&S[i]);
      must_eq("union_read", d[i], b[i]);
      if (i == 0 && S[i].nb == 1 && !S[i].b[0].ndiv) {
        CloogMatrix *m = mat(&S[i].b[0], ND);
        CloogDomain *q = cloog_domain_from_cloog_matrix(ST, m, NP);
        must_eq("from_cloog_matrix", q, b[i]);
        cloog_domain_free(q); cloog_matrix_free(m);
      }
    }
    CUR = "the first set"; cur_phase = "unary set operations";
    unary(d[0], b[0], 0);
    cur_phase = "binary set operations";
    for (int i = 0; i < K && !failed; i++) { snprintf(nm, sizeof nm, "the first set and set %d", i); CUR = nm; binary(d[0], b[0], d[i], b[i], (int)deep); }
    cur_phase = "sorting sets";
    if (tri && UNIT && S[0].nb == 1) for (int i = 1; i < K && !failed; i++) if (S[i].nb == 1) {
      CloogDomain *t[4] = { d[0], d[i] }; Bits q[4] = { b[0], b[i] };
      snprintf(nm, sizeof nm, "the first set and set %d", i); CUR = nm;
      sort3(t, q, 2);
      for (int j = i + 1; j < K && tri > 1 && !failed; j += (int)tri - 1) if (S[j].nb == 1) {
        snprintf(nm, sizeof nm, "the first set, set %d and set %d", i, j); CUR = nm;
        t[2] = d[j]; q[2] = b[j]; sort3(t, q, 3);
      }
    }
    for (int i = 0; i < K; i++) { if (d[i]) cloog_domain_free(d[i]); free(b[i]); }
    free(d); free(b);
  }
  cloog_state_free(ST);
  free(S);
  tmo_set(0);
  if (failed) printf("R %ld FAIL SETOP opt=0 par= :: %s\n", id, det);
  else printf("R %ld ok pts=%d inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%ld modsign=0 h=%lx\n", id, NPT, nstates, nops, nops, nops, nontriv_, Hs);
}
