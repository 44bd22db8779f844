/* Reference semantics: explicit enumeration of the integer points of the
 * input relation, for given parameter values.  No polyhedral library. */
#include "mc.h"

long g_nodes, g_node_limit = 400000;
I g_scat_box = 100000, g_div_box = 4096;

const char *verdict_name[] = { "OK", "MISSING", "EXTRA", "DUP", "ORDER", "TIE",
  "ARITY", "RUNAWAY", "UNBOUNDED", "UNDEF", "PARSE", "OTHER" };

char *i128str(I v, char *buf)
{
  char t[48]; int n = 0, neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  do { t[n++] = '0' + (int)(u % 10); u /= 10; } while (u);
  char *p = buf;
  if (neg) *p++ = '-';
  while (n) *p++ = t[--n];
  *p = 0;
  return buf;
}

/* A system of rows over nv variables + constant.  Some variables are fixed.  */
typedef struct {
  int nv; int nrow; Row *row;
  I lo[MAXD], hi[MAXD];
} Sys;

/* the same with 128-bit overflow taken care of: a bound that cannot be
 * computed is left alone */
static int rest_max(Sys *s, Row *w, int skip, int sign, I *out)
{
  I v = sign * w->c[s->nv];
  for (int j = 0; j < s->nv; j++) {
    I a = sign * w->c[j], t;
    if (!a || j == skip) continue;
    if (__builtin_mul_overflow(a, a > 0 ? s->hi[j] : s->lo[j], &t) || __builtin_add_overflow(v, t, &v)) return 0;
  }
  *out = v;
  return 1;
}
int g_safe;
static int propagate_safe(Sys *s)
{
  for (int pass = 0; pass < 200; pass++) {
    int changed = 0;
    for (int r = 0; r < s->nrow; r++) {
      Row *w = &s->row[r];
      for (int sign = 1; sign >= (w->eq ? -1 : 1); sign -= 2) {
        I m;
        if (rest_max(s, w, -1, sign, &m) && m < 0) return 0;
        for (int j = 0; j < s->nv; j++) {
          I a = sign * w->c[j];
          if (!a || s->lo[j] == s->hi[j]) continue;
          if (!rest_max(s, w, j, sign, &m)) continue;
          if (a > 0) { I l = cdivI(-m, a); if (l > s->lo[j]) { s->lo[j] = l; changed = 1; } }
          else { I u = fdivI(m, -a); if (u < s->hi[j]) { s->hi[j] = u; changed = 1; } }
          if (s->lo[j] > s->hi[j]) return 0;
        }
      }
    }
    if (!changed) return 1;
  }
  return 1;
}

/* bounds consistency; returns 0 when infeasible */
static int propagate(Sys *s)
{
  if (g_safe) return propagate_safe(s);
  for (int pass = 0; pass < 60; pass++) {
    int changed = 0;
    for (int r = 0; r < s->nrow; r++) {
      Row *w = &s->row[r];
      /* sum of maxima / minima */
      I mx = w->c[s->nv], mn = w->c[s->nv];
      for (int j = 0; j < s->nv; j++) {
        I a = w->c[j];
        if (!a) continue;
        if (a > 0) { mx += a * s->hi[j]; mn += a * s->lo[j]; }
        else { mx += a * s->lo[j]; mn += a * s->hi[j]; }
      }
      if (mx < 0) return 0;
      if (w->eq && mn > 0) return 0;
      for (int j = 0; j < s->nv; j++) {
        I a = w->c[j];
        if (!a || s->lo[j] == s->hi[j]) continue;
        /* a*x + rest >= 0 with rest <= rmax */
        I rmax = a > 0 ? mx - a * s->hi[j] : mx - a * s->lo[j];
        if (a > 0) { I l = cdivI(-rmax, a); if (l > s->lo[j]) { s->lo[j] = l; changed = 1; } }
        else { I u = fdivI(rmax, -a); if (u < s->hi[j]) { s->hi[j] = u; changed = 1; } }
        if (w->eq) {
          I rmin = a > 0 ? mn - a * s->lo[j] : mn - a * s->hi[j];
          /* a*x + rest <= 0 with rest >= rmin */
          if (a > 0) { I u = fdivI(-rmin, a); if (u < s->hi[j]) { s->hi[j] = u; changed = 1; } }
          else { I l = cdivI(rmin, -a); if (l > s->lo[j]) { s->lo[j] = l; changed = 1; } }
        }
        if (s->lo[j] > s->hi[j]) return 0;
        if (changed) { /* refresh sums lazily: next pass */
          mx = w->c[s->nv]; mn = w->c[s->nv];
          for (int k = 0; k < s->nv; k++) {
            I b = w->c[k];
            if (!b) continue;
            if (b > 0) { mx += b * s->hi[k]; mn += b * s->lo[k]; }
            else { mx += b * s->lo[k]; mn += b * s->hi[k]; }
          }
        }
      }
    }
    if (!changed) return 1;
  }
  return 1;
}

static int satisfied(Sys *s)
{
  for (int r = 0; r < s->nrow; r++) {
    I v = s->row[r].c[s->nv];
    for (int j = 0; j < s->nv; j++) v += s->row[r].c[j] * s->lo[j];
    if (s->row[r].eq ? v != 0 : v < 0) return 0;
  }
  return 1;
}

static int g_gaveup;
/* enumerate assignments of the n variables order[]; cb returns 1 to stop */
static int enumerate(Sys *s, const int *order0, int n, int (*cb)(Sys *, void *), void *u)
{
  if (++g_nodes > g_node_limit) { g_gaveup = 1; return 1; }
  Sys t = *s;
  if (!propagate(&t)) return 0;
  if (n == 0) return satisfied(&t) ? cb(&t, u) : 0;
  /* the variable with the smallest range first */
  int order[MAXD], best = 0;
  memcpy(order, order0, n * sizeof *order);
  if (g_safe)
    for (int i = 1; i < n; i++)
      if (t.hi[order[i]] - t.lo[order[i]] < t.hi[order[best]] - t.lo[order[best]]) best = i;
  int v = order[best];
  order[best] = order[0];
  I lo = t.lo[v], hi = t.hi[v];
  for (I x = lo; x <= hi; x++) {
    Sys w = t;
    w.lo[v] = w.hi[v] = x;
    if (enumerate(&w, order + 1, n - 1, cb, u)) return 1;
  }
  return 0;
}

static int yes(Sys *s, void *u) { (void)s; (void)u; return 1; }

int oracle_in_context(Case *c, const I *par)
{
  int order[MAXD];
  g_nodes = 0;
  for (int b = 0; b < c->ctx.n; b++) {
    BSet *bs = &c->ctx.b[b];
    Sys s = { c->npar + bs->ndiv, bs->nrow, bs->row, {0}, {0} };
    for (int i = 0; i < c->npar; i++) s.lo[i] = s.hi[i] = par[i];
    for (int i = 0; i < bs->ndiv; i++) {
      s.lo[c->npar + i] = -g_div_box; s.hi[c->npar + i] = g_div_box; order[i] = c->npar + i;
    }
    if (enumerate(&s, order, bs->ndiv, yes, NULL)) return 1;
  }
  return 0;
}

typedef struct {
  Case *c; Stmt *st; int si; const I *par; I box; InstList *out;
  BSet *db; int pos;
} Ctx;

static void add_inst(Ctx *x, const I *it, const I *date, int nd)
{
  InstList *l = x->out;
  if (l->n == l->cap) { l->cap = l->cap ? 2 * l->cap : 256; l->v = realloc(l->v, l->cap * sizeof(Inst)); }
  Inst *e = &l->v[l->n++];
  memset(e, 0, sizeof *e);
  e->stmt = x->si + 1; e->dim = x->st->dim; e->ndate = nd;
  for (int i = 0; i < e->dim; i++) e->it[i] = it[i];
  for (int i = 0; i < nd; i++) e->date[i] = date[i];
}

typedef struct { Ctx *x; const I *it; } SC;

static int scat_point(Sys *s, void *u)
{
  SC *sc = u;
  /* first nscat variables are the date */
  for (int i = 0; i < sc->x->st->nscat; i++)
    if (s->lo[i] == -g_scat_box || s->lo[i] == g_scat_box) sc->x->out->overflow = 1;
  I d[MAXDATE];
  int nd = sc->x->st->nscat;
  for (int i = 0; i < nd; i++) d[i] = s->lo[i];
  /* several divs may witness the same date: dedupe happens after sorting */
  add_inst(sc->x, sc->it, d, nd);
  return 0;
}

static int dom_point(Sys *s, void *u)
{
  Ctx *x = u;
  I it[24];
  for (int i = 0; i < x->st->dim; i++) {
    it[i] = s->lo[i];
    if (it[i] == -x->box || it[i] == x->box) x->out->overflow = 1;
  }
  if (x->st->nscat < 0) { add_inst(x, it, NULL, 0); return 0; }
  for (int b = 0; b < x->st->scat.n; b++) {
    BSet *bs = &x->st->scat.b[b];
    int ns = x->st->nscat, nd = x->st->dim, np = x->c->npar;
    Sys q = { ns + nd + bs->ndiv + np, bs->nrow, bs->row, {0}, {0} };
    int order[MAXD], n = 0;
    for (int i = 0; i < ns; i++) { q.lo[i] = -g_scat_box; q.hi[i] = g_scat_box; order[n++] = i; }
    for (int i = 0; i < nd; i++) q.lo[ns + i] = q.hi[ns + i] = it[i];
    for (int i = 0; i < bs->ndiv; i++) { q.lo[ns + nd + i] = -g_div_box; q.hi[ns + nd + i] = g_div_box; order[n++] = ns + nd + i; }
    for (int i = 0; i < np; i++) q.lo[ns + nd + bs->ndiv + i] = q.hi[ns + nd + bs->ndiv + i] = x->par[i];
    SC sc = { x, it };
    enumerate(&q, order, n, scat_point, &sc);
  }
  return 0;
}

static int cmpI(const I *a, const I *b, int n)
{
  for (int i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
static int inst_cmp(const void *a, const void *b)
{
  const Inst *x = a, *y = b;
  if (x->stmt != y->stmt) return x->stmt - y->stmt;
  int r = cmpI(x->it, y->it, x->dim);
  if (r) return r;
  return cmpI(x->date, y->date, x->ndate);
}

void oracle_instances(Case *c, const I *par, I box, InstList *out)
{
  out->n = 0; out->overflow = 0; g_nodes = 0;
  for (int si = 0; si < c->nstmt; si++) {
    Stmt *st = &c->st[si];
    Ctx x = { c, st, si, par, box, out, NULL, 0 };
    for (int b = 0; b < st->dom.n; b++) {
      BSet *bs = &st->dom.b[b];
      Sys s = { st->dim + bs->ndiv + c->npar, bs->nrow, bs->row, {0}, {0} };
      int order[MAXD], n = 0;
      for (int i = 0; i < st->dim; i++) { s.lo[i] = -box; s.hi[i] = box; order[n++] = i; }
      for (int i = 0; i < bs->ndiv; i++) { s.lo[st->dim + i] = -g_div_box; s.hi[st->dim + i] = g_div_box; order[n++] = st->dim + i; }
      for (int i = 0; i < c->npar; i++)
        s.lo[st->dim + bs->ndiv + i] = s.hi[st->dim + bs->ndiv + i] = par[i];
      x.db = bs;
      enumerate(&s, order, n, dom_point, &x);
    }
  }
  if (g_nodes > g_node_limit) out->overflow = 1;
  if (out->n) qsort(out->v, out->n, sizeof(Inst), inst_cmp);
  int m = 0;
  for (int i = 0; i < out->n; i++) {
    if (m && !inst_cmp(&out->v[m - 1], &out->v[i])) continue;
    out->v[m++] = out->v[i];
  }
  out->n = m;
  /* fold several dates of one point */
  int k = 0;
  for (int i = 0; i < out->n;) {
    int j = i + 1;
    while (j < out->n && out->v[j].stmt == out->v[i].stmt && !cmpI(out->v[j].it, out->v[i].it, out->v[i].dim)) j++;
    out->v[k] = out->v[i];
    out->v[k].needed = j - i;
    out->v[k].multi = j - i > 1;
    k++; i = j;
  }
  out->n = k;
}

void trace_push(Trace *t, int stmt, int dim, const I *it)
{
  if (t->n == t->cap) { t->cap = t->cap ? 2 * t->cap : 256; t->v = realloc(t->v, t->cap * sizeof(Ev)); }
  Ev *e = &t->v[t->n++];
  e->stmt = stmt; e->dim = dim;
  for (int i = 0; i < dim && i < 24; i++) e->it[i] = it[i];
}

static void show(char *d, int nd, const char *pre, int stmt, int dim, const I *it)
{
  char b[48]; int n = snprintf(d, nd, "%sS%d(", pre, stmt);
  for (int i = 0; i < dim && n < nd; i++) n += snprintf(d + n, nd - n, "%s%s", i ? "," : "", i128str(it[i], b));
  if (n < nd) snprintf(d + n, nd - n, ")");
}

int compare_trace(Case *c, InstList *ref, Trace *t, int order, int ndates,
                  char *detail, int nd)
{
  int verdict = V_OK;
  Inst **evi = malloc((t->n + 1) * sizeof *evi);
  for (int i = 0; i < ref->n; i++) ref->v[i].seen = 0;
  for (int i = 0; i < t->n; i++) {
    Ev *e = &t->v[i];
    if (e->stmt < 1 || e->stmt > c->nstmt || e->dim != c->st[e->stmt - 1].dim) {
      show(detail, nd, "wrong arity or number: ", e->stmt, e->dim, e->it);
      verdict = V_ARITY; goto out;
    }
    int lo = 0, hi = ref->n - 1; Inst *f = NULL;
    while (lo <= hi) {
      int m = (lo + hi) / 2; Inst *x = &ref->v[m];
      int r = x->stmt != e->stmt ? x->stmt - e->stmt : cmpI(x->it, e->it, e->dim);
      if (r == 0) { f = x; break; }
      if (r < 0) lo = m + 1; else hi = m - 1;
    }
    if (!f) { show(detail, nd, "executed outside its domain: ", e->stmt, e->dim, e->it); verdict = V_EXTRA; goto out; }
    if (++f->seen > f->needed) { show(detail, nd, "executed more than once: ", e->stmt, e->dim, e->it); verdict = V_DUP; goto out; }
    evi[i] = f;
  }
  for (int i = 0; i < ref->n; i++)
    if (ref->v[i].seen < ref->v[i].needed) {
      show(detail, nd, "never executed: ", ref->v[i].stmt, ref->v[i].dim, ref->v[i].it);
      verdict = V_MISSING; goto out;
    }
  if (order && t->n) {
    int ns = c->nstmt, mind = 1000;
    for (int s = 0; s < ns; s++) if (c->st[s].dim < mind) mind = c->st[s].dim;
    Inst **mx = calloc(ns + 1, sizeof *mx);
    for (int i = 0; i < t->n && verdict == V_OK; i++) {
      Inst *e = evi[i];
      if (e->multi) continue;
      for (int s = 1; s <= ns; s++) {
        Inst *m = mx[s];
        if (!m) continue;
        int r;
        if (c->nscatfun) {
          int n = e->ndate < m->ndate ? e->ndate : m->ndate;
          if (ndates >= 0 && n > ndates) n = ndates;
          r = cmpI(m->date, e->date, n);
        } else if (s == e->stmt || order >= 2) {
          /* across statements only the loops common to all of them count */
          int n = s == e->stmt ? e->dim : mind;
          if (ndates >= 0 && n > ndates) n = ndates;
          r = cmpI(m->it, e->it, n);
        } else r = 0;
        if (r > 0) {
          char a[200], b[200];
          show(a, sizeof a, "", m->stmt, m->dim, m->it);
          show(b, sizeof b, "", e->stmt, e->dim, e->it);
          snprintf(detail, nd, "%s executed before %s", a, b);
          verdict = V_ORDER; break;
        }
      }
      Inst *m = mx[e->stmt];
      if (!m) mx[e->stmt] = e;
      else if (c->nscatfun) { if (cmpI(m->date, e->date, e->ndate) < 0) mx[e->stmt] = e; }
      else if (cmpI(m->it, e->it, e->dim) < 0) mx[e->stmt] = e;
    }
    free(mx);
  }
out:
  free(evi);
  return verdict;
}
