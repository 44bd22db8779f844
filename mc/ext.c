/* The less common questions asked of a generated program:
 *   kind=dom     domains saved in the AST                (C12)
 *   kind=stop    -stop: prefixes of the instances        (C13)
 *   kind=names   default names made up by the library     (C11)
 *   kind=ident   numbers, names, user pointers           (C11)
 *   kind=filter  clast_filter against a plain traversal  (C17)
 *   kind=par     annotated loops                         (C18)
 *   kind=api     other construction routes               (C08)
 */
#include "mc.h"
#include <ctype.h>
#include <unistd.h>
#include <cloog/isl/cloog.h>
#include <isl/val.h>

void apply_opts(CloogOptions *o, const char *s);
int counters_off(CloogState *s, char *d, int nd);

static long gens, steps, execs, nontriv, compared;
static unsigned long H;
static char detail[900];
static int dump;

static int bad(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#include <stdarg.h>
static char badkind[32];
static int bad(const char *kind, const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  vsnprintf(detail, sizeof detail, fmt, ap); va_end(ap);
  snprintf(badkind, sizeof badkind, "%s", kind);
  return 1;
}

static CloogInput *read_in(const char *text, CloogOptions *opt)
{
  FILE *f = fmemopen((void *)text, strlen(text), "r");
  CloogInput *in = cloog_input_read(f, opt);
  fclose(f);
  return in;
}

static Inst *find_inst(InstList *l, Ev *e)
{
  int lo = 0, hi = l->n - 1;
  while (lo <= hi) {
    int m = (lo + hi) / 2; Inst *x = &l->v[m];
    int r = x->stmt - e->stmt;
    for (int i = 0; !r && i < e->dim; i++) r = x->it[i] < e->it[i] ? -1 : x->it[i] > e->it[i];
    if (!r) return x;
    if (r < 0) lo = m + 1; else hi = m - 1;
  }
  return NULL;
}

/* ---------------------------------------------------------------- dom --- */
typedef struct { void *node; int n; I v[32]; } Pref;
typedef struct { int n, cap; Pref *v; } PrefSet;
static int pref_cmp(const void *a, const void *b)
{
  const Pref *x = a, *y = b;
  if (x->node != y->node) return x->node < y->node ? -1 : 1;
  if (x->n != y->n) return x->n - y->n;
  for (int i = 0; i < x->n; i++) if (x->v[i] != y->v[i]) return x->v[i] < y->v[i] ? -1 : 1;
  return 0;
}
static Pref *pref_new(PrefSet *s)
{
  if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->v = realloc(s->v, s->cap * sizeof *s->v); }
  memset(&s->v[s->n], 0, sizeof *s->v);
  return &s->v[s->n++];
}
static void pref_sort(PrefSet *s)
{
  if (!s->n) return;
  qsort(s->v, s->n, sizeof *s->v, pref_cmp);
  int m = 0;
  for (int i = 0; i < s->n; i++) if (!m || pref_cmp(&s->v[m - 1], &s->v[i])) s->v[m++] = s->v[i];
  s->n = m;
}

typedef struct {
  PrefSet *ps; InstList *il; Trace *tr; int *keep; int nd;
  void *stack[40]; int ns; int multi;
} DomU;

static int ndim_of(CloogDomain *d)
{
  return d ? cloog_domain_dimension(d) : -1;
}
static void dom_user(void *u, void *node, int ev, int (*get)(void *, const char *, I *), void *env)
{
  DomU *q = u; (void)get; (void)env;
  Inst *x = find_inst(q->il, &q->tr->v[ev]);
  if (!x) return;                    /* reported elsewhere */
  if (x->multi) { q->multi = 1; return; }
  I date[48]; int n = 0;
  for (int i = 0; i < x->ndate; i++) if (q->keep[i]) date[n++] = x->date[i];
  for (int i = 0; i < x->dim && n < 32; i++) date[n++] = x->it[i];
  struct clast_user_stmt *us = node;
  for (int k = 0; k <= q->ns; k++) {
    void *nd = k == q->ns ? node : q->stack[k];
    CloogDomain *d = k == q->ns ? us->domain : ((struct clast_for *)nd)->domain;
    int m = ndim_of(d);
    if (m < 0 || m > n) m = n;
    Pref *p = pref_new(q->ps);
    p->node = nd; p->n = m;
    for (int i = 0; i < m; i++) p->v[i] = date[i];
  }
}
static void dom_enter(void *u, void *f) { DomU *q = u; if (q->ns < 40) q->stack[q->ns++] = f; }
static void dom_leave(void *u, void *f) { DomU *q = u; (void)f; q->ns--; }

typedef struct { PrefSet *out; void *node; int n; } SP;
static isl_stat set_point(__isl_take isl_point *pt, void *user)
{
  SP *s = user;
  Pref *p = pref_new(s->out);
  p->node = s->node; p->n = s->n;
  for (int i = 0; i < s->n; i++) {
    isl_val *v = isl_point_get_coordinate_val(pt, isl_dim_set, i);
    p->v[i] = isl_val_get_num_si(v);
    isl_val_free(v);
  }
  isl_point_free(pt);
  return isl_stat_ok;
}
static void show_pref(char *b, int nb, Pref *p)
{
  char t[48]; int k = snprintf(b, nb, "(");
  for (int i = 0; i < p->n && k < nb; i++) k += snprintf(b + k, nb - k, "%s%s", i ? "," : "", i128str(p->v[i], t));
  if (k < nb) snprintf(b + k, nb - k, ")");
}
/* exact: the statement's saved domain must equal the executed dates */
static int check_domain(CloogDomain *d, void *node, const I *par, int npar, PrefSet *got, int exact, int want, const char *what)
{
  int n = ndim_of(d);
  if (!d) return bad("DOMAIN", "%s carries no domain", what);
  if (n > want) return bad("DOMAIN", "%s: saved domain has %d dimensions, at most %d expected", what, n, want);
  isl_set *s = isl_set_from_cloog_domain(cloog_domain_copy(d));
  for (int i = 0; i < npar; i++) s = isl_set_fix_si(s, isl_dim_param, i, (int)par[i]);
  s = isl_set_project_out(s, isl_dim_param, 0, npar);
  PrefSet pts = {0};
  SP sp = { &pts, node, n };
  int r = 0;
  if (!isl_set_is_bounded(s)) { isl_set_free(s); s = NULL; }
  if (s) {
    isl_set_foreach_point(s, set_point, &sp);
    isl_set_free(s);
    pref_sort(&pts);
    for (int i = 0; i < got->n && !r; i++) {
      if (got->v[i].node != node) continue;
      if (!bsearch(&got->v[i], pts.v, pts.n, sizeof *pts.v, pref_cmp)) {
        char b[200]; show_pref(b, sizeof b, &got->v[i]);
        r = bad("DOMAIN", "%s executes at %s, outside its saved domain", what, b);
      }
    }
    for (int i = 0; i < pts.n && exact && !r; i++)
      if (!bsearch(&pts.v[i], got->v, got->n, sizeof *got->v, pref_cmp)) {
        char b[200]; show_pref(b, sizeof b, &pts.v[i]);
        r = bad("DOMEXTRA", "saved domain of %s contains %s, where nothing is executed", what, b);
      }
    compared += pts.n;
  }
  free(pts.v);
  return r;
}
static int walk_domains(struct clast_stmt *s, const I *par, int npar, PrefSet *got, int exact, int exactfor, int nd, int level)
{
  char w[80];
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) {
      struct clast_user_stmt *u = (void *)s;
      snprintf(w, sizeof w, "call of S%d", u->statement->number);
      if (check_domain(u->domain, u, par, npar, got, exact, nd, w)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_for)) {
      struct clast_for *f = (void *)s;
      snprintf(w, sizeof w, "loop on %s", f->iterator);
      if (check_domain(f->domain, f, par, npar, got, exactfor, nd, w)) return 1;
      if (walk_domains(f->body, par, npar, got, exact, exactfor, nd, level + 1)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) {
      if (walk_domains(((struct clast_guard *)s)->then, par, npar, got, exact, exactfor, nd, level)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_block)) {
      if (walk_domains(((struct clast_block *)s)->body, par, npar, got, exact, exactfor, nd, level)) return 1;
    }
  }
  return 0;
}
static int kind_dom(Case *c, Point *pt, char **parname, CloogProgram *prog, CloogOptions *opt, struct clast_stmt *root, Trace *tr, long budget, int exact, int exactfor)
{
  int keep[32], nd = 0;
  for (int i = 0; i < c->maxscat; i++) { keep[i] = !prog->scaldims || !prog->scaldims[i]; nd += keep[i]; }
  PrefSet ps = {0};
  DomU du = { &ps, &pt->inst, tr, keep, nd, {0}, 0, 0 };
  AstHooks h = { dom_user, dom_enter, dom_leave, &du };
  (void)opt;
  g_hooks = &h;
  int v = ast_run(root, c, parname, pt->par, budget, tr, &steps, detail, sizeof detail);
  g_hooks = NULL;
  execs++; H = hmix(H, trace_hash(tr)); nontriv += tr->n > 0;
  int r = 0;
  if (v != V_OK) { snprintf(badkind, sizeof badkind, "%s", verdict_name[v]); r = 1; }
  pref_sort(&ps);
  if (!r) r = walk_domains(root, pt->par, c->npar, &ps, exact && !du.multi, exactfor && !du.multi, c->maxscat, 1);
  free(ps.v);
  return r;
}

/* --------------------------------------------------------------- stop --- */
typedef struct { PrefSet *ps; Trace *tr; CloogNames *names; int stop; Case *c; int unknown; int keepn; int *keep; } StopU;
static void stop_user(void *u, void *node, int ev, int (*get)(void *, const char *, I *), void *env)
{
  StopU *q = u;
  struct clast_user_stmt *us = node; (void)get; (void)env;
  Ev *e = &q->tr->v[ev];
  Pref *p = pref_new(q->ps);
  p->node = (void *)(long)us->statement->number; p->n = e->dim;
  for (int i = 0; i < e->dim && i < 16; i++) p->v[i] = e->it[i];
}
/* mult[i]: how often the i-th distinct element occurs */
static int *pref_multi(PrefSet *s)
{
  int *m = calloc(s->n + 1, sizeof *m), k = 0;
  if (s->n) qsort(s->v, s->n, sizeof *s->v, pref_cmp);
  for (int i = 0; i < s->n; i++) {
    if (!k || pref_cmp(&s->v[k - 1], &s->v[i])) s->v[k++] = s->v[i];
    m[k - 1]++;
  }
  s->n = k;
  return m;
}
/* A constant dimension that is kept apart goes with the loop it precedes. */
static int stop_dim(CloogProgram *prog, CloogOptions *opt)
{
  int s = opt->stop;
  while (s > 0 && prog->scaldims && s <= prog->nb_scattdims && prog->scaldims[s - 1]) s++;
  return s;
}
/* Calls carry the iterators known at the level; those with a smaller depth than
 * the level all of them.  more: calls for prefixes that turn out to have no
 * instance are allowed as long as the statement is cut. */
static int kind_stop(Case *c, Point *pt, char **parname, CloogProgram *prog, CloogOptions *opt, struct clast_stmt *root, Trace *tr, long budget, int more)
{
  PrefSet got = {0}, want = {0};
  int nsc = c->nscatfun ? c->maxscat : 0, stop = stop_dim(prog, opt);
  StopU su = { &got, tr, prog->names, stop, c, 0, nsc, NULL };
  AstHooks h = { stop_user, NULL, NULL, &su };
  g_hooks = &h;
  int v = ast_run(root, c, parname, pt->par, budget, tr, &steps, detail, sizeof detail);
  g_hooks = NULL;
  execs++; nontriv += tr->n > 0;
  int r = 0;
  if (v != V_OK) { snprintf(badkind, sizeof badkind, "%s", verdict_name[v]); r = 1; }
  for (int i = 0; i < pt->inst.n; i++) {
    Inst *x = &pt->inst.v[i];
    if (x->multi) { free(got.v); free(want.v); return 0; }
    int depth = x->ndate + x->dim, n = stop < depth ? stop : depth;
    Pref *p = pref_new(&want);
    p->node = (void *)(long)x->stmt; p->n = n;
    for (int k = 0; k < n; k++) p->v[k] = k < x->ndate ? x->date[k] : x->it[k - x->ndate];
  }
  pref_sort(&want);
  /* what can be seen of a prefix: its iterators */
  for (int i = 0; i < want.n; i++) {
    Pref *p = &want.v[i];
    int n = p->n > nsc ? p->n - nsc : 0;
    memmove(p->v, p->v + nsc, n * sizeof *p->v);
    p->n = n;
  }
  char b[200];
  /* order, when nothing is scattered: the calls of a statement, and two
   * statements along what they share, do not step back */
  for (int i = 1; i < got.n && !r && !nsc; i++) {
    Pref *q = &got.v[i];
    for (int j = i - 1; j >= 0 && j >= i - 64; j--) {
      if (got.v[j].node != q->node) continue;
      int n = q->n < got.v[j].n ? q->n : got.v[j].n, s = 0;
      for (int k = 0; k < n && !s; k++) s = got.v[j].v[k] < q->v[k] ? -1 : got.v[j].v[k] > q->v[k];
      if (s > 0) { show_pref(b, sizeof b, q); r = bad("ORDER", "S%ld%s comes too late", (long)q->node, b); }
      break;
    }
  }
  for (int i = 0; i < got.n; i++) for (int k = 0; k < got.v[i].n; k++) H = hmix(H, (unsigned long)got.v[i].v[k]);
  compared += got.n;
  int *mw = pref_multi(&want), *mg = pref_multi(&got);
  for (int i = 0; i < want.n && !r; i++) {
    Pref *g = got.n ? bsearch(&want.v[i], got.v, got.n, sizeof *got.v, pref_cmp) : NULL;
    int k = g ? mg[g - got.v] : 0;
    show_pref(b, sizeof b, &want.v[i]);
    if (k < mw[i]) r = bad("MISSING", "S%ld: prefix %s called %d times instead of %d", (long)want.v[i].node, b, k, mw[i]);
    else if (k > mw[i] && !(more && nsc)) r = bad("DUP", "S%ld: prefix %s called %d times instead of %d", (long)want.v[i].node, b, k, mw[i]);
  }
  for (int i = 0; i < got.n && !r; i++) {
    if (want.n && bsearch(&got.v[i], want.v, want.n, sizeof *want.v, pref_cmp)) continue;
    long st = (long)got.v[i].node;
    show_pref(b, sizeof b, &got.v[i]);
    int cut = nsc + c->st[st - 1].dim > stop;
    if (!(more && cut)) r = bad("EXTRA", "S%ld: %s is no prefix of an instance", st, b);
    else if (mg[i] > 1 && !nsc) r = bad("DUP", "S%ld: %s called %d times", st, b, mg[i]);
  }
  free(mw); free(mg);
  free(got.v); free(want.v);
  return r;
}
static int for_depth(struct clast_stmt *s)
{
  int m = 0;
  for (; s; s = s->next) {
    int d = 0;
    if (CLAST_STMT_IS_A(s, stmt_for)) d = 1 + for_depth(((struct clast_for *)s)->body);
    else if (CLAST_STMT_IS_A(s, stmt_guard)) d = for_depth(((struct clast_guard *)s)->then);
    else if (CLAST_STMT_IS_A(s, stmt_block)) d = for_depth(((struct clast_block *)s)->body);
    if (d > m) m = d;
  }
  return m;
}
/* the deepest dimension a loop or assignment runs over: 1.. scattering, then iterators */
static int dim_of(Case *c, CloogNames *names, const char *it)
{
  int nsc = c->nscatfun ? c->maxscat : 0, k;
  if (nsc && c->scatname) { for (k = 0; k < nsc; k++) if (!strcmp(it, c->scatname[k])) return k + 1; }
  else if (nsc && sscanf(it, "c%d", &k) == 1) return k;
  for (k = 0; k < names->nb_iterators; k++) if (!strcmp(it, names->iterators[k])) return nsc + k + 1;
  return 0;
}
static int dim_deep(Case *c, CloogNames *names, struct clast_stmt *s)
{
  int m = 0;
  for (; s; s = s->next) {
    int d = 0, e;
    if (CLAST_STMT_IS_A(s, stmt_for)) {
      d = dim_of(c, names, ((struct clast_for *)s)->iterator);
      e = dim_deep(c, names, ((struct clast_for *)s)->body); if (e > d) d = e;
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) d = dim_deep(c, names, ((struct clast_guard *)s)->then);
    else if (CLAST_STMT_IS_A(s, stmt_block)) d = dim_deep(c, names, ((struct clast_block *)s)->body);
    if (d > m) m = d;
  }
  return m;
}

/* -------------------------------------------------------------- ident --- */
typedef struct { int nst; const char **name; void **usr; Case *c; CloogNames *names; int naming; char **par, **it, **sc; } IdU;
static int known_name(IdU *q, const char *n)
{
  for (int i = 0; i < q->c->npar; i++) if (!strcmp(n, q->par[i])) return 1;
  for (int i = 0; i < q->c->maxdim; i++) if (!strcmp(n, q->it[i])) return 1;
  for (int i = 0; i < q->c->maxscat; i++) if (!strcmp(n, q->sc[i])) return 1;
  return 0;
}
static int id_expr(IdU *q, struct clast_expr *x)
{
  if (!x) return 0;
  switch (x->type) {
  case clast_expr_name:
    if (!known_name(q, ((struct clast_name *)x)->name)) return bad("NAME", "name %s in the result was never given", ((struct clast_name *)x)->name);
    return 0;
  case clast_expr_term: return id_expr(q, ((struct clast_term *)x)->var);
  case clast_expr_bin: return id_expr(q, ((struct clast_binary *)x)->LHS);
  case clast_expr_red: {
    struct clast_reduction *r = (void *)x;
    for (int i = 0; i < r->n; i++) if (id_expr(q, r->elts[i])) return 1;
    return 0;
  }
  }
  return 0;
}
static int id_walk(IdU *q, struct clast_stmt *s)
{
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) {
      struct clast_user_stmt *u = (void *)s;
      int n = u->statement->number;
      if (n < 1 || n > q->nst) return bad("NUMBER", "statement number %d of %d", n, q->nst);
      const char *w = q->name[n - 1], *g = u->statement->name;
      if (!w != !g || (w && strcmp(w, g))) return bad("NAME", "S%d is called %s instead of %s", n, g ? g : "(unnamed)", w ? w : "(unnamed)");
      if (u->statement->usr != q->usr[n - 1]) return bad("USR", "S%d carries another user pointer", n);
      if (u->statement->next) return bad("CHAIN", "S%d: call of several statements", n);
      int k = 0;
      for (struct clast_stmt *t = u->substitutions; t; t = t->next, k++) {
        if (!CLAST_STMT_IS_A(t, stmt_ass)) return bad("ARGS", "S%d: argument is not an assignment", n);
        if (((struct clast_assignment *)t)->LHS) return bad("ARGS", "S%d: argument carries a name", n);
        if (id_expr(q, ((struct clast_assignment *)t)->RHS)) return 1;
      }
      if (k != q->c->st[n - 1].dim) return bad("ARITY", "S%d has %d arguments instead of %d", n, k, q->c->st[n - 1].dim);
    } else if (CLAST_STMT_IS_A(s, stmt_for)) {
      struct clast_for *f = (void *)s;
      int ok = 0;
      for (int i = 0; i < q->c->maxdim; i++) ok |= !strcmp(f->iterator, q->it[i]);
      for (int i = 0; i < q->c->maxscat; i++) ok |= !strcmp(f->iterator, q->sc[i]);
      if (!ok) return bad("NAME", "loop iterator %s was never given", f->iterator);
      if (id_expr(q, f->LB) || id_expr(q, f->UB) || id_walk(q, f->body)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) {
      struct clast_guard *g = (void *)s;
      for (int i = 0; i < g->n; i++) if (id_expr(q, g->eq[i].LHS) || id_expr(q, g->eq[i].RHS)) return 1;
      if (id_walk(q, g->then)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_block)) {
      if (id_walk(q, ((struct clast_block *)s)->body)) return 1;
    } else if (CLAST_STMT_IS_A(s, stmt_ass)) {
      struct clast_assignment *a = (void *)s;
      if (!a->LHS || !known_name(q, a->LHS)) return bad("NAME", "assignment to %s", a->LHS ? a->LHS : "(null)");
      if (id_expr(q, a->RHS)) return 1;
    }
  }
  return 0;
}
/* rebuilds the input through cloog_union_domain_*, with names and user pointers.
 * pattern: bit k names statement k; naming: bit 0 params, 1 iterators, 2 scattering */
static CloogProgram *build_named(CloogInput *in, CloogOptions *opt, Case *c, int pattern, int naming, IdU *q, int samename)
{
  static char buf[64][80];
  int nb = 0, lng = naming >> 3 & 1;
  const char *tail = lng ? "_with_a_name_that_goes_on_for_quite_a_while" : "";
  CloogUnionDomain *ud = cloog_union_domain_alloc(c->npar);
  int i = 0;
  for (CloogNamedDomainList *l = in->ud->domain; l; l = l->next, i++) {
    const char *nm = NULL;
    if (pattern >> i & 1) { snprintf(buf[nb], 80, samename ? "stmt" : "stmt%c%s", 'A' + i, tail); nm = buf[nb++]; }
    q->name[i] = nm; q->usr[i] = (void *)(long)(0x1000 + 16 * i);
    ud = cloog_union_domain_add_domain(ud, nm, l->domain, l->scattering, q->usr[i]);
    l->domain = NULL; l->scattering = NULL;
  }
  q->nst = i;
  static const char *pre[3] = { "par_", "it_", "sc_" };
  int cnt[3] = { c->npar, c->maxdim, c->maxscat };
  enum cloog_dim_type ty[3] = { CLOOG_PARAM, CLOOG_ITER, CLOOG_SCAT };
  char ***dst[3] = { &q->par, &q->it, &q->sc };
  for (int t = 0; t < 3; t++) {
    char **v = calloc(cnt[t] + 1, sizeof *v);
    for (int k = cnt[t] - 1; k >= 0; k--) {
      v[k] = calloc(1, 80);
      if (naming >> t & 1) {
        snprintf(v[k], 80, "%s%d%s", pre[t], cnt[t] - k, tail);
        ud = cloog_union_domain_set_name(ud, ty[t], k, "overwritten");
        ud = cloog_union_domain_set_name(ud, ty[t], k, v[k]);
      } else if (t == 0) snprintf(v[k], 24, "%c", 'M' + k);
      else if (t == 1) snprintf(v[k], 24, "%c", 'i' + k);
      else snprintf(v[k], 24, "c%d", k + 1);
    }
    *dst[t] = v;
  }
  CloogDomain *ctx = in->context;
  in->context = NULL;
  cloog_union_domain_free(in->ud);
  free(in);
  CloogProgram *prog = cloog_program_alloc(ctx, ud, opt);
  /* default names past the end of the alphabet: any new identifier */
  for (int t = 0; t < 2; t++) if (!(naming >> t & 1))
    for (int k = 0; k < cnt[t]; k++) if ((t ? 'i' : 'M') + k > (t ? 'z' : 'Z')) {
      char **g = t ? prog->names->iterators : prog->names->parameters;
      if (k < (t ? prog->names->nb_iterators : prog->names->nb_parameters) && g[k]) snprintf((*dst[t])[k], 80, "%s", g[k]);
    }
  return prog;
}
/* all names are identifiers and distinct */
static int id_names(IdU *q)
{
  char *a[3 * 64]; int n = 0;
  for (int i = 0; i < q->c->npar; i++) a[n++] = q->par[i];
  for (int i = 0; i < q->c->maxdim; i++) a[n++] = q->it[i];
  for (int i = 0; i < q->c->maxscat; i++) a[n++] = q->sc[i];
  for (int i = 0; i < n; i++) {
    if (!isalpha((unsigned char)a[i][0]) && a[i][0] != '_') return bad("NAME", "%s is not a name", a[i]);
    for (char *p = a[i]; *p; p++) if (!isalnum((unsigned char)*p) && *p != '_') return bad("NAME", "%s is not a name", a[i]);
    for (int k = 0; k < i; k++) if (!strcmp(a[i], a[k])) return bad("NAME", "two dimensions are called %s", a[i]);
  }
  return 0;
}
/* a loop called like scattering dimension k (iterator k) runs over the values of that dimension */
typedef struct { IdU *q; InstList *il; Trace *tr; struct clast_for *stack[64]; int ns; int bad; } LoopU;
static void lp_user(void *u, void *node, int ev, int (*get)(void *, const char *, I *), void *env)
{
  LoopU *l = u; (void)node;
  Inst *x = find_inst(l->il, &l->tr->v[ev]);
  if (!x || l->bad) return;
  for (int k = 0; k < l->ns; k++) {
    const char *nm = l->stack[k]->iterator; I v; char b1[48], b2[48];
    if (!get(env, nm, &v)) continue;
    for (int i = 0; i < x->ndate && !x->multi; i++)
      if (!strcmp(nm, l->q->sc[i]) && v != x->date[i])
        l->bad = bad("NAME", "S%d runs in a loop on %s = %s, its date there is %s", x->stmt, nm, i128str(v, b1), i128str(x->date[i], b2));
    for (int i = 0; i < x->dim; i++)
      if (!strcmp(nm, l->q->it[i]) && v != x->it[i])
        l->bad = bad("NAME", "S%d runs in a loop on %s = %s, its iterator is %s", x->stmt, nm, i128str(v, b1), i128str(x->it[i], b2));
  }
}
static void lp_enter(void *u, void *f) { LoopU *l = u; if (l->ns < 64) l->stack[l->ns++] = f; }
static void lp_leave(void *u, void *f) { LoopU *l = u; (void)f; l->ns--; }

/* names made up by the library, for every combination of counts */
static int kind_names(void)
{
  static const int cnt[] = { 0, 1, 2, 9, 14, 15, 19, 40 };
  static const char first[4] = { 's', 'c', 'i', 'M' };
  int nc = sizeof cnt / sizeof *cnt;
  for (int a = 0; a < nc; a++) for (int b = 0; b < nc; b++) for (int c = 0; c < nc; c++) for (int d = 0; d < nc; d++) {
    CloogNames *n = cloog_names_generate(cnt[a], cnt[b], cnt[c], cnt[d], first[0], first[1], first[2], first[3]);
    char **v[4] = { n->scalars, n->scattering, n->iterators, n->parameters };
    int want[4] = { cnt[a], cnt[b], cnt[c], cnt[d] }, got[4] = { n->nb_scalars, n->nb_scattering, n->nb_iterators, n->nb_parameters };
    for (int t = 0; t < 4; t++) {
      if (got[t] != want[t]) return bad("NAME", "%d names instead of %d", got[t], want[t]);
      for (int i = 0; i < want[t]; i++) {
        char e[2] = { first[t] + i, 0 };
        if (first[t] + i <= (islower((unsigned char)first[t]) ? 'z' : 'Z') && strcmp(v[t][i], e)) return bad("NAME", "default name %s instead of %s", v[t][i], e);
        if (!isalpha((unsigned char)v[t][i][0])) return bad("NAME", "default name %d is %s", i, v[t][i]);
        for (char *p = v[t][i]; *p; p++) if (!isalnum((unsigned char)*p)) return bad("NAME", "default name %d is %s", i, v[t][i]);
        for (int k = 0; k < i; k++) if (!strcmp(v[t][k], v[t][i])) return bad("NAME", "default names %d and %d are both %s", k, i, v[t][i]);
      }
    }
    CloogNames *m = cloog_names_copy(n);
    cloog_names_free(n);
    if (m->nb_iterators != cnt[c] || (cnt[c] && m->iterators[0][0] != first[2])) return bad("NAME", "names gone although a copy is held");
    cloog_names_free(m);
    execs++; compared += cnt[a] + cnt[b] + cnt[c] + cnt[d]; H = hmix(H, (unsigned long)(cnt[a] + 41 * cnt[b] + 1681 * cnt[c] + 68921 * cnt[d]));
  }
  gens++; nontriv += execs;
  return 0;
}

/* ------------------------------------------------------------- filter --- */
typedef struct { struct clast_for *l[256]; int n; int s[64]; int ns; } Found;
static void collect_stmts(struct clast_stmt *s, char *in, int one)
{
  for (; s; s = one ? NULL : s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) in[((struct clast_user_stmt *)s)->statement->number] = 1;
    else if (CLAST_STMT_IS_A(s, stmt_for)) collect_stmts(((struct clast_for *)s)->body, in, 0);
    else if (CLAST_STMT_IS_A(s, stmt_guard)) collect_stmts(((struct clast_guard *)s)->then, in, 0);
    else if (CLAST_STMT_IS_A(s, stmt_block)) collect_stmts(((struct clast_block *)s)->body, in, 0);
  }
}
static void collect_loops(struct clast_stmt *s, ClastFilter *f, Found *o)
{
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_for)) {
      struct clast_for *x = (void *)s;
      char in[64] = {0}, fl[64] = {0};
      collect_stmts(x->body, in, 0);
      for (int i = 0; i < f->nstmts_filter && f->stmts_filter; i++) fl[f->stmts_filter[i]] = 1;
      int ok = !f->iter || !strcmp(f->iter, x->iterator);
      if (ok && f->stmts_filter) {
        int sub = 1, eq = 1;
        for (int i = 0; i < 64; i++) { if (in[i] && !fl[i]) sub = 0; if (in[i] != fl[i]) eq = 0; }
        ok = f->filter_type == subset ? sub : eq;
      }
      if (ok && o->n < 256) o->l[o->n++] = x;
      collect_loops(x->body, f, o);
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) collect_loops(((struct clast_guard *)s)->then, f, o);
    else if (CLAST_STMT_IS_A(s, stmt_block)) collect_loops(((struct clast_block *)s)->body, f, o);
  }
}
static int filter_at(struct clast_stmt *node, Case *c, CloogNames *names)
{
  const char *its[20]; int nit = 0;
  its[nit++] = NULL; its[nit++] = "no_such_name";
  for (int l = 1; l <= names->nb_scattering + names->nb_iterators && nit < 16; l++) its[nit++] = cloog_names_name_at_level(names, l);
  int n = c->nstmt; if (n > 4) n = 4;
  for (int a = 0; a < nit; a++)
    for (int m = -1; m < 1 << n; m++)
      for (int ty = 0; ty < 2; ty++)
        for (int rev = 0; rev < 2; rev++) {
          int fl[16], nf = 0;
          for (int k = 0; k < n; k++) { int q = rev ? n - 1 - k : k; if (m >= 0 && m >> q & 1) fl[nf++] = q + 1; }
          if (rev && nf < 2) continue;
          ClastFilter f = { its[a], m < 0 ? NULL : fl, nf, ty ? exact : subset };
          Found want = {0};
          char in[64] = {0};
          collect_loops(node, &f, &want);
          collect_stmts(node, in, 0);
          struct clast_for **L = NULL; int nl = 0, *S = NULL, ns = 0;
          clast_filter(node, f, &L, &nl, &S, &ns);
          int r = 0, cnt = 0;
          for (int i = 0; i < 64; i++) cnt += in[i];
          for (int i = 0; i < ns && !r; i++) {
            if (S[i] < 1 || S[i] > 63 || !in[S[i]]) r = bad("FILTER", "statement S%d is not below the node", S[i]);
            for (int j = 0; j < i && !r; j++) if (S[i] == S[j]) r = bad("FILTER", "statement S%d listed twice", S[i]);
          }
          if (!r && ns != cnt) r = bad("FILTER", "%d statements listed, %d below the node", ns, cnt);
          for (int i = 0; i < nl && !r; i++) {
            int ok = 0;
            for (int j = 0; j < want.n; j++) ok |= want.l[j] == L[i];
            if (!ok) r = bad("FILTER", "a loop on %s is returned that does not satisfy the filter (iter %s, mask %d, %s)", L[i]->iterator, its[a] ? its[a] : "-", m, ty ? "exact" : "subset");
            for (int j = 0; j < i && !r; j++) if (L[i] == L[j]) r = bad("FILTER", "a loop is returned twice");
          }
          if (!r && nl != want.n) r = bad("FILTER", "%d loops returned, %d satisfy the filter (iter %s, mask %d, %s)", nl, want.n, its[a] ? its[a] : "-", m, ty ? "exact" : "subset");
          free(L); free(S);
          steps++; nontriv += want.n > 0;
          H = hmix(H, want.n * 64 + cnt);
          if (r) return 1;
        }
  return 0;
}
static int filter_all(struct clast_stmt *s, Case *c, CloogNames *names)
{
  /* from every node of the tree */
  for (; s; s = s->next) {
    execs++;
    if (filter_at(s, c, names)) return 1;
    if (CLAST_STMT_IS_A(s, stmt_for) && filter_all(((struct clast_for *)s)->body, c, names)) return 1;
    if (CLAST_STMT_IS_A(s, stmt_guard) && filter_all(((struct clast_guard *)s)->then, c, names)) return 1;
    if (CLAST_STMT_IS_A(s, stmt_block) && filter_all(((struct clast_block *)s)->body, c, names)) return 1;
  }
  return 0;
}

/* ---------------------------------------------------------------- par --- */
static void list_loops(struct clast_stmt *s, Found *o, int depth, int *dep)
{
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_for)) {
      if (o->n < 60) { dep[o->n] = depth; o->l[o->n++] = (void *)s; }
      list_loops(((struct clast_for *)s)->body, o, depth + 1, dep);
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) list_loops(((struct clast_guard *)s)->then, o, depth, dep);
    else if (CLAST_STMT_IS_A(s, stmt_block)) list_loops(((struct clast_block *)s)->body, o, depth, dep);
  }
}
static const char *skipsp(const char *p) { while (*p == ' ' || *p == '\t') p++; return p; }

/* one printed line at a time: checks the directives, drops them, keeps the code */
static int clean_text(const char *txt, char *out, int npar_loops, const char *dir, int wantdir, int vec, int timed, int *ndir)
{
  char *o = out; const char *p = txt;
  int pending = 0, starts = 0, ends = 0;
  *ndir = 0;
  while (*p) {
    const char *e = strchr(p, '\n');
    size_t n = e ? (size_t)(e - p) : strlen(p);
    const char *q = skipsp(p);
    size_t m = n - (q - p);
    char line[4096];
    snprintf(line, sizeof line, "%.*s", (int)m, q);
    if (line[0] == '#') {
      if (vec) {
        if (pending == 0 && !strcmp(line, "#pragma ivdep")) pending = 1;
        else if (pending == 1 && !strcmp(line, "#pragma vector always")) { pending = 2; ++*ndir; }
        else return bad("DIRECTIVE", "unexpected directive '%s'", line);
      } else {
        if (!wantdir || strcmp(line, dir)) return bad("DIRECTIVE", "directive '%s' instead of '%s'", line, dir);
        if (pending) return bad("DIRECTIVE", "two directives before one loop");
        pending = 2; ++*ndir;
      }
    } else if (!strncmp(line, "IF_TIME(", 8)) {
      if (pending) return bad("DIRECTIVE", "something stands between a directive and its loop");
      if (strstr(line, "_start = ")) {
        if (strcmp(line, "IF_TIME(tv_start = cloog_util_rtclock());")) return bad("DIRECTIVE", "'%s'", line);
        starts++;
      } else {
        if (strcmp(line, "IF_TIME(tv += cloog_util_rtclock() - tv_start);")) return bad("DIRECTIVE", "'%s'", line);
        ends++;
        if (ends > starts) return bad("DIRECTIVE", "time read before it was started");
      }
    } else if (!strncmp(line, "polyrt_loop_dist(", 17)) {
      if (strcmp(line, "polyrt_loop_dist(_lb_dist, _ub_dist, nprocs, my_rank, &lbp, &ubp);")) return bad("DIRECTIVE", "'%s'", line);
      o += sprintf(o, "lbp=_lb_dist;ubp=_ub_dist;\n");
    } else if (m) {
      if (pending) {
        if (strncmp(line, "for (", 5)) return bad("DIRECTIVE", "a directive stands before '%s', not a loop", line);
        pending = 0;
      }
      memcpy(o, q, m); o += m; *o++ = '\n';
    }
    p = e ? e + 1 : p + n;
  }
  *o = 0;
  if (pending) return bad("DIRECTIVE", "a directive at the end of the text");
  if (starts != ends || starts != (timed ? npar_loops : 0)) return bad("DIRECTIVE", "%d time starts, %d ends for %d loops", starts, ends, timed ? npar_loops : 0);
  return 0;
}

static int kind_par(Case *c, Point *pts, int npts, char **parname, CloogOptions *opt, struct clast_stmt *root, Trace *tr, long budget, int order)
{
  Found L = {0}; int dep[64];
  list_loops(root, &L, 0, dep);
  static const int A[] = { CLAST_PARALLEL_OMP, CLAST_PARALLEL_VEC, CLAST_PARALLEL_MPI, CLAST_PARALLEL_OMP | CLAST_PARALLEL_VEC,
    CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI, CLAST_PARALLEL_OMP | CLAST_PARALLEL_USER, CLAST_PARALLEL_MPI | CLAST_PARALLEL_VEC,
    CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI | CLAST_PARALLEL_VEC, CLAST_PARALLEL_USER, 0 };
  int maxd = 0;
  for (int i = 0; i < L.n; i++) if (dep[i] > maxd) maxd = dep[i];
  /* target sets: each loop alone; all loops of one depth; outermost OMP with innermost VEC */
  int ntgt = L.n + maxd + 1 + 1;
  if (!L.n) return 0;
  for (int t = 0; t < ntgt; t++)
    for (int a = 0; a < (int)(sizeof A / sizeof *A); a++)
      for (int x = 0; x < 6; x++) {
        /* x: 0 plain, 1 private, 2 reduction, 3 both, 4 timed, 5 timed + private + user directive text */
        if (t >= L.n && x && x != 3 && x != 4) continue;
        if (t == ntgt - 1 && (a != 0 || maxd == 0)) continue;
        int n = 0, timed = 0, nvec = 0;
        char pv[] = "i,j", rv[] = "+:s", tv[] = "tv", ud[] = "acc kernels";
        for (int i = 0; i < L.n; i++) {
          int hit = t < L.n ? i == t : t < L.n + maxd + 1 ? dep[i] == t - L.n : dep[i] == 0;
          struct clast_for *f = L.l[i];
          f->parallel = 0; f->private_vars = f->reduction_vars = f->time_var_name = f->user_directive = NULL;
          if (t == ntgt - 1 && dep[i] == 1) { f->parallel = CLAST_PARALLEL_VEC; nvec++; }
          if (!hit) continue;
          f->parallel = A[a]; n++;
          if (x == 1 || x == 3 || x == 5) f->private_vars = pv;
          if (x == 2 || x == 3) f->reduction_vars = rv;
          if (x == 4 || x == 5) { f->time_var_name = tv; timed = 1; }
          if (x == 5) f->user_directive = ud;
        }
        char *txt = NULL; size_t nt = 0;
        FILE *m = open_memstream(&txt, &nt);
        clast_pprint(m, root, 0, opt);
        fclose(m);
        for (int i = 0; i < L.n; i++) { struct clast_for *f = L.l[i]; f->parallel = 0; f->private_vars = f->reduction_vars = f->time_var_name = f->user_directive = NULL; }
        if (dump) fprintf(stderr, "--- target %d annotation %d extras %d\n%s", t, A[a], x, txt);
        int omp = A[a] & CLAST_PARALLEL_OMP, mpi = A[a] & CLAST_PARALLEL_MPI, usr = A[a] & CLAST_PARALLEL_USER;
        int vec = (A[a] & CLAST_PARALLEL_VEC) && !omp && !mpi;
        char dir[200];
        snprintf(dir, sizeof dir, "#pragma %s%s%s", (omp && usr && !mpi && x == 5) ? "acc kernels" : "omp parallel for",
                 (x == 1 || x == 3 || x == 5) ? " private(i,j)" : "", (x == 2 || x == 3) ? " reduction(+:s)" : "");
        char *cl = malloc(nt + 40 * (L.n + 1) + 64);
        int nd = 0, r = 0;
        TProg *tp = NULL;
        if (t == ntgt - 1) {
          /* mixed: only the execution is compared; directives are C comments to the interpreter */
          strcpy(cl, "");
          char *o = cl; const char *p = txt;
          while (*p) { const char *e = strchr(p, '\n'); size_t k = e ? (size_t)(e - p) + 1 : strlen(p); if (strncmp(skipsp(p), "IF_TIME", 7)) { memcpy(o, p, k); o += k; } p += k; }
          *o = 0;
        } else if (opt->language == CLOOG_LANGUAGE_FORTRAN) {
          if (strstr(txt, "lbp") || strstr(txt, "lbv") || strchr(txt, '#') || strstr(txt, "IF_TIME")) r = bad("DIRECTIVE", "C annotation in Fortran text");
          strcpy(cl, txt);
        } else {
          r = clean_text(txt, cl, n, dir, omp != 0, vec, timed, &nd);
          if (!r && nd != ((omp || vec) ? n : 0)) r = bad("DIRECTIVE", "%d directives for %d marked loops", nd, (omp || vec) ? n : 0);
        }
        int lang = opt->language == CLOOG_LANGUAGE_FORTRAN;
        if (!r) {
          tp = lang ? text_parse_f(cl, detail, sizeof detail) : text_parse_c(cl, detail, sizeof detail);
          if (!tp) { strcpy(badkind, "PARSE"); r = 1; }
        }
        /* nested marked loops share the helper variables, so only disjoint ones are executed: always the case here */
        for (int k = 0; k < npts && !r; k++) {
          int v = text_run(tp, parname, c->npar, pts[k].par, lang, 0, NULL, budget, tr, &steps, detail, sizeof detail);
          if (v == V_OK) v = compare_trace(c, &pts[k].inst, tr, order, -1, detail, sizeof detail);
          if (v != V_OK && !lang && strchr(cl, '%')) {
            g_bmod_floor = 1;
            v = text_run(tp, parname, c->npar, pts[k].par, lang, 0, NULL, budget, tr, &steps, detail, sizeof detail);
            g_bmod_floor = 0;
            if (v == V_OK) v = compare_trace(c, &pts[k].inst, tr, order, -1, detail, sizeof detail);
          }
          execs++; nontriv += tr->n > 0; H = hmix(H, trace_hash(tr));
          if (v != V_OK) { snprintf(badkind, sizeof badkind, "%s", verdict_name[v]); r = 1; }
        }
        if (tp) text_free(tp);
        free(cl); free(txt);
        if (r) {
          char d2[900]; snprintf(d2, sizeof d2, "%.700s [target %d annotation %d extras %d]", detail, t, A[a], x);
          strcpy(detail, d2);
          return 1;
        }
      }
  return 0;
}

/* ---------------------------------------------------------------- api --- */
/* the program rebuilt from the reference reader's own data */
static void mpz_setI(mpz_t z, I v)
{
  char b[48]; mpz_set_str(z, i128str(v, b), 10);
}
/* layout of rows: nout+nin+div+npar+cst; matrices have no divs */
static CloogMatrix *to_matrix(BSet *b, int ncol)
{
  CloogMatrix *m = cloog_matrix_alloc(b->nrow, ncol + 2);
  for (int r = 0; r < b->nrow; r++) {
    mpz_set_si(m->p[r][0], b->row[r].eq ? 0 : 1);
    for (int j = 0; j <= ncol; j++) mpz_setI(m->p[r][1 + j], b->row[r].c[j]);
  }
  return m;
}
/* isl text of a basic set.  order of variables in the row: v[0..n-1] */
static int isl_cons(char *o, BSet *b, char (*v)[16], int n)
{
  char *s = o, t[48];
  for (int r = 0; r < b->nrow; r++) {
    s += sprintf(s, "%s", r ? " and " : " ");
    s += sprintf(s, "0 ");
    for (int j = 0; j <= n; j++) {
      I k = b->row[r].c[j];
      if (!k) continue;
      s += sprintf(s, "%s %s%s%s ", k < 0 ? "-" : "+", i128str(k < 0 ? -k : k, t), j < n ? "*" : "", j < n ? v[j] : "");
    }
    s += sprintf(s, "%s 0", b->row[r].eq ? "=" : ">=");
  }
  if (!b->nrow) s += sprintf(s, " 0 = 0");
  return (int)(s - o);
}
static char *isl_text(Case *c, Set *set, const char *inname, int nin, int nout, int ismap, int isctx)
{
  /* rows: domain [iters|divs|par], scattering [scat|iters|divs|par], context [par|divs] */
  char *o = malloc(1 << 16), *s = o;
  s += sprintf(s, "[");
  for (int i = 0; i < c->npar; i++) s += sprintf(s, "%sp%d", i ? "," : "", i);
  s += sprintf(s, "] -> { ");
  for (int b = 0; b < set->n; b++) {
    BSet *bs = &set->b[b];
    char v[MAXD + 2][16]; int n = 0;
    if (b) s += sprintf(s, " ; ");
    if (isctx) {
      for (int i = 0; i < c->npar; i++) sprintf(v[n++], "p%d", i);
      for (int i = 0; i < bs->ndiv; i++) sprintf(v[n++], "e%d", i);
      s += sprintf(s, ":");
    } else {
      for (int i = 0; i < nout; i++) sprintf(v[n++], "o%d", i);
      for (int i = 0; i < nin; i++) sprintf(v[n++], "x%d", i);
      for (int i = 0; i < bs->ndiv; i++) sprintf(v[n++], "e%d", i);
      for (int i = 0; i < c->npar; i++) sprintf(v[n++], "p%d", i);
      if (ismap) {
        s += sprintf(s, "%s[", inname ? inname : "");
        for (int i = 0; i < nin; i++) s += sprintf(s, "%sx%d", i ? "," : "", i);
        s += sprintf(s, "] -> ");
      }
      s += sprintf(s, "%s[", !ismap && inname ? inname : "");
      for (int i = 0; i < nout; i++) s += sprintf(s, "%so%d", i ? "," : "", i);
      s += sprintf(s, "] :");
    }
    if (bs->ndiv) {
      s += sprintf(s, " exists (");
      for (int i = 0; i < bs->ndiv; i++) s += sprintf(s, "%se%d", i ? "," : "", i);
      s += sprintf(s, " : ");
    }
    s += isl_cons(s, bs, v, n);
    if (bs->ndiv) s += sprintf(s, ")");
  }
  sprintf(s, " }");
  return o;
}
static int has_divs(Case *c)
{
  int d = 0;
#define SCAN(S) for (int b = 0; b < (S).n; b++) d |= (S).b[b].ndiv > 0
  SCAN(c->ctx);
  for (int i = 0; i < c->nstmt; i++) { SCAN(c->st[i].dom); SCAN(c->st[i].scat); }
  return d;
}
static void name_params(Case *c, CloogUnionDomain *ud, char **parname)
{
  for (int i = 0; i < c->npar; i++) ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, i, parname[i]);
}
/* the names given in the text are those of the input read */
static int names_off(CloogInput *in, Case *c)
{
  char **want[3]; int n[3] = { c->npar, c->maxdim, c->nscatfun ? c->maxscat : 0 };
  static const char *what[3] = { "parameter", "iterator", "scattering dimension" };
  enum cloog_dim_type ty[3] = { CLOOG_PARAM, CLOOG_ITER, CLOOG_SCAT };
  want[0] = c->parname; want[1] = c->itername; want[2] = c->scatname;
  for (int t = 0; t < 3; t++) {
    if (!want[t]) continue;
    for (int i = 0; i < n[t]; i++) {
      char **g = in->ud->name[ty[t]];
      if (!g || i >= in->ud->n_name[ty[t]] || !g[i] || strcmp(g[i], want[t][i]))
        return bad("NAME", "%s %d is called %s instead of %s", what[t], i + 1, g && i < in->ud->n_name[ty[t]] && g[i] ? g[i] : "(nothing)", want[t][i]);
    }
  }
  return 0;
}
static int route_bad;
/* route 1 matrices, 2 isl sets and maps, 3 one isl union map, 4 dump and read back, 5 like 1 but a domain per union
 * member joined with cloog_domain_union, 6 cloog_union_domain_from_isl_set (one statement, no scattering) */
static CloogInput *route_build(int route, Case *c, const char *text, CloogState *state, CloogOptions *opt, char **parname)
{
  isl_ctx *ctx = state->backend->ctx;
  CloogDomain *context; CloogUnionDomain *ud;
  if (route == 1) {
    if (has_divs(c) || c->ctx.n != 1) return NULL;
    for (int i = 0; i < c->nstmt; i++) if (c->nscatfun && c->st[i].scat.n != 1) return NULL;
    CloogMatrix *m = to_matrix(&c->ctx.b[0], c->npar);
    context = cloog_domain_from_cloog_matrix(state, m, c->npar);
    cloog_matrix_free(m);
    ud = cloog_union_domain_alloc(c->npar);
    for (int i = 0; i < c->nstmt; i++) {
      Stmt *s = &c->st[i];
      CloogDomain *d = NULL;
      for (int b = 0; b < s->dom.n; b++) {
        m = to_matrix(&s->dom.b[b], s->dim + c->npar);
        CloogDomain *e = cloog_domain_from_cloog_matrix(state, m, c->npar);
        cloog_matrix_free(m);
        d = d ? cloog_domain_union(d, e) : e;
      }
      CloogScattering *sc = NULL;
      if (c->nscatfun) {
        m = to_matrix(&s->scat.b[0], s->nscat + s->dim + c->npar);
        sc = cloog_scattering_from_cloog_matrix(state, m, s->nscat, c->npar);
        cloog_matrix_free(m);
      }
      ud = cloog_union_domain_add_domain(ud, NULL, d, sc, NULL);
    }
    name_params(c, ud, parname);
    return cloog_input_alloc(context, ud);
  }
  if (route == 2 || route == 3 || route == 6) {
    char *t = isl_text(c, &c->ctx, NULL, 0, 0, 0, 1);
    isl_set *cs = isl_set_read_from_str(ctx, t);
    free(t);
    if (route == 6) {
      if (c->nstmt != 1 || c->nscatfun) { isl_set_free(cs); return NULL; }
      t = isl_text(c, &c->st[0].dom, NULL, 0, c->st[0].dim, 0, 0);
      ud = cloog_union_domain_from_isl_set(isl_set_read_from_str(ctx, t));
      free(t);
      context = cloog_domain_from_isl_set(cs);
      name_params(c, ud, parname);
      return cloog_input_alloc(context, ud);
    }
    if (route == 2) {
      context = cloog_domain_from_isl_set(cs);
      ud = cloog_union_domain_alloc(c->npar);
      for (int i = 0; i < c->nstmt; i++) {
        Stmt *s = &c->st[i];
        t = isl_text(c, &s->dom, NULL, 0, s->dim, 0, 0);
        CloogDomain *d = cloog_domain_from_isl_set(isl_set_read_from_str(ctx, t));
        free(t);
        CloogScattering *sc = NULL;
        if (c->nscatfun) {
          t = isl_text(c, &s->scat, NULL, s->dim, s->nscat, 1, 0);
          sc = cloog_scattering_from_isl_map(isl_map_read_from_str(ctx, t));
          free(t);
        }
        ud = cloog_union_domain_add_domain(ud, NULL, d, sc, NULL);
      }
      name_params(c, ud, parname);
      return cloog_input_alloc(context, ud);
    }
    /* union map: one scattering space for all, statements named T1.. */
    if (!c->nscatfun) { isl_set_free(cs); return NULL; }
    isl_union_map *um = NULL;
    for (int i = 0; i < c->nstmt; i++) {
      Stmt *s = &c->st[i];
      char nm[16]; sprintf(nm, "T%d", i + 1);
      t = isl_text(c, &s->dom, nm, 0, s->dim, 0, 0);
      isl_set *d = isl_set_read_from_str(ctx, t);
      free(t);
      t = isl_text(c, &s->scat, nm, s->dim, s->nscat, 1, 0);
      isl_map *mp = isl_map_read_from_str(ctx, t);
      free(t);
      mp = isl_map_intersect_domain(mp, d);
      um = um ? isl_union_map_union(um, isl_union_map_from_map(mp)) : isl_union_map_from_map(mp);
    }
    context = cloog_domain_from_isl_set(cs);
    ud = cloog_union_domain_from_isl_union_map(um);
    name_params(c, ud, parname);
    return cloog_input_alloc(context, ud);
  }
  if (route == 4) {
    CloogInput *in = read_in(text, opt), *in2 = NULL;
    route_bad = names_off(in, c);
    for (int l = 0; l < 2; l++) {
      char *txt = NULL; size_t nt = 0;
      FILE *m = open_memstream(&txt, &nt);
      opt->language = l ? CLOOG_LANGUAGE_C : CLOOG_LANGUAGE_FORTRAN;
      cloog_input_dump_cloog(m, in, opt);
      fclose(m);
      if (dump) fprintf(stderr, "--- dump\n%s", txt);
      opt->language = l ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
      if (in2) cloog_input_free(in2);
      in2 = read_in(txt, opt);
      free(txt);
      if (!route_bad && opt->language != (l ? CLOOG_LANGUAGE_C : CLOOG_LANGUAGE_FORTRAN)) route_bad = bad("LANGUAGE", "the language written is not the one read back");
      if (!route_bad) route_bad = names_off(in2, c);
    }
    cloog_input_free(in);
    return in2;
  }
  CloogInput *in = read_in(text, opt);
  if (in) route_bad = names_off(in, c);
  return in;
}
static void kind_rename(struct clast_stmt *s, int *map)
{
  /* statements of a union map come back in any order: T<k> tells */
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) {
      struct clast_user_stmt *u = (void *)s;
      if (u->statement->name && u->statement->name[0] == 'T') map[u->statement->number] = atoi(u->statement->name + 1);
    } else if (CLAST_STMT_IS_A(s, stmt_for)) kind_rename(((struct clast_for *)s)->body, map);
    else if (CLAST_STMT_IS_A(s, stmt_guard)) kind_rename(((struct clast_guard *)s)->then, map);
    else if (CLAST_STMT_IS_A(s, stmt_block)) kind_rename(((struct clast_block *)s)->body, map);
  }
}

/* ------------------------------------------------------------- driver --- */
void ext_case(long id, const char *hdr, char *optstr, char *text)
{
  const char *perr = NULL;
  char b1[48];
  if (strstr(hdr, " kind=hist ")) { hist_case(id, hdr, optstr, text); return; }
  if (strstr(hdr, " kind=cc ")) { cc_case(id, hdr, optstr, text); return; }
  if (strstr(hdr, " kind=set ")) { set_case(id, hdr, text); return; }
  long plo = -2, phi = 4, order = 2, tmo = 20, box = 200, budget = 400000, big = 0, lang = 0, a1 = 0, a2 = 0, a3 = 0;
  dump = 0;
  long dm = 0;
  GETI("plo", plo); GETI("phi", phi); GETI("order", order); GETI("tmo", tmo); GETI("box", box); GETI("budget", budget);
  GETI("dump", dm); GETI("big", big); GETI("lang", lang); GETI("a1", a1); GETI("a2", a2); GETI("a3", a3);
  dump = (int)dm;
  I ibox = box;
  g_scat_box = 100000; g_div_box = 4096;
  g_safe = big != 0;
  if (big) { ibox = (I)1 << 100; g_scat_box = (I)1 << 104; g_div_box = (I)1 << 104; }
  const char *kind = strstr(hdr, " kind=") + 6;
#define KIND(k) (!strncmp(kind, k, strlen(k)) && !isalpha((unsigned char)kind[strlen(k)]))
  g_pseq = 0; GETI("pseq", g_pseq);
  gens = steps = execs = nontriv = compared = 0; H = 7;
  cur_id = id; cur_opt = -1; cur_phase = "reference";
  Case *c = case_parse(text, &perr);
  if (perr) { printf("R %ld FAIL HARNESS opt=-1 par= :: reference reader: %s\n", id, perr); case_free(c); return; }
  if (KIND("names")) {
    if (kind_names()) printf("R %ld FAIL %s opt=0 par= :: %s\n", id, badkind, detail);
    else printf("R %ld ok pts=1 inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%ld modsign=0 h=%lx\n", id, compared, gens, execs, compared, nontriv, H);
    case_free(c);
    return;
  }
  char *defpar[MAXPAR]; char defbuf[MAXPAR][2];
  for (int i = 0; i < MAXPAR; i++) { defbuf[i][0] = 'M' + i; defbuf[i][1] = 0; defpar[i] = defbuf[i]; }
  char **parname = c->parname ? c->parname : defpar;
  int npts = 0; long ninst = 0;
  tmo_set((unsigned)tmo * 3);
  Point *pts = enum_points(c, plo, phi, ibox, 200000, &npts, &ninst);
  if (!pts) { printf("R %ld SKIP unbounded or too large for the box\n", id); tmo_set(0); case_free(c); return; }
  Trace tr = {0};
  char *save = NULL; int oi = 0, isbad = 0;
  for (char *o = strtok_r(optstr, "|", &save); o && !isbad; o = strtok_r(NULL, "|", &save), oi++) {
    cur_opt = oi; cur_phase = "generation";
    tmo_set((unsigned)tmo);
    CloogState *state = cloog_state_malloc();
    CloogOptions *opt = cloog_options_malloc(state);
    apply_opts(opt, o);
    if (KIND("dom")) opt->save_domains = 1;
    opt->language = lang ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
    const char *nm[64] = {0}; void *us[64] = {0};
    IdU q = { 0, nm, us, c, NULL, 0, NULL, NULL, NULL };
    CloogProgram *prog = NULL;
    CloogInput *in;
    if (KIND("api")) {
      route_bad = 0;
      in = route_build((int)a1, c, text, state, opt, parname);
      if (!in) { cloog_options_free(opt); cloog_state_free(state); tmo_set(0); printf("R %ld SKIP route not applicable\n", id); goto end; }
      opt->language = CLOOG_LANGUAGE_C;
    } else {
      in = read_in(text, opt);
      opt->language = lang ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
    }
    struct clast_stmt *root = NULL;
    if (KIND("ident")) prog = build_named(in, opt, c, (int)a1, (int)a2, &q, (int)a3);
    else if (KIND("api") && a2) { root = cloog_clast_create_from_input(in, opt); }
    else { prog = cloog_program_alloc(in->context, in->ud, opt); free(in); }
    if (prog) { prog = cloog_program_generate(prog, opt); root = cloog_clast_create(prog, opt); }
    gens++;
    if (dump) clast_pprint(stderr, root, 0, opt);
    cur_phase = "checking the result";
    tmo_set((unsigned)tmo * 3);
    int k = 0;
    if (KIND("dom")) {
      for (k = 0; k < npts && !isbad; k++) isbad = kind_dom(c, &pts[k], parname, prog, opt, root, &tr, budget, (int)a1, (int)a2);
    } else if (KIND("stop")) {
      if (for_depth(root) > opt->stop) isbad = bad("DEPTH", "%d nested loops with -stop %d", for_depth(root), opt->stop);
      else if (dim_deep(c, prog->names, root) > stop_dim(prog, opt)) isbad = bad("DEPTH", "a loop over dimension %d with -stop %d", dim_deep(c, prog->names, root), opt->stop);
      for (k = 0; k < npts && !isbad; k++) isbad = kind_stop(c, &pts[k], parname, prog, opt, root, &tr, budget, (int)a1);
    } else if (KIND("filter")) {
      isbad = filter_all(root, c, prog->names);
    } else if (KIND("par")) {
      isbad = kind_par(c, pts, npts, parname, opt, root, &tr, budget, (int)order);
    } else if (KIND("api")) {
      int map[64]; for (int i = 0; i < 64; i++) map[i] = i;
      isbad = route_bad;
      if (a1 == 3) kind_rename(root, map);
      for (k = 0; k < npts && !isbad; k++) {
        int v = ast_run(root, c, parname, pts[k].par, budget, &tr, &steps, detail, sizeof detail);
        for (int i = 0; i < tr.n; i++) if (tr.v[i].stmt > 0 && tr.v[i].stmt < 64) tr.v[i].stmt = map[tr.v[i].stmt];
        if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, -1, detail, sizeof detail);
        execs++; nontriv += tr.n > 0; H = hmix(H, trace_hash(&tr));
        if (v != V_OK) { snprintf(badkind, sizeof badkind, "%s", verdict_name[v]); isbad = 1; }
      }
    } else if (KIND("ident")) {
      q.names = prog->names;
      isbad = id_names(&q) || id_walk(&q, root);
      char *txt = NULL; size_t nt = 0; TProg *tp = NULL;
      if (!isbad) {
        FILE *m = open_memstream(&txt, &nt);
        cloog_program_pprint(m, prog, opt);
        fclose(m);
        tp = lang ? text_parse_f(txt, detail, sizeof detail) : text_parse_c(txt, detail, sizeof detail);
        if (!tp) { strcpy(badkind, "PARSE"); isbad = 1; }
        if (dump) fputs(txt, stderr);
      }
      for (k = 0; k < npts && !isbad; k++) {
        LoopU lu = { &q, &pts[k].inst, &tr, {0}, 0, 0 };
        AstHooks hk = { lp_user, lp_enter, lp_leave, &lu };
        g_hooks = &hk;
        int v = ast_run(root, c, q.par, pts[k].par, budget, &tr, &steps, detail, sizeof detail);
        g_hooks = NULL;
        if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, -1, detail, sizeof detail);
        if (v == V_OK && lu.bad) { isbad = 1; break; }
        if (v == V_OK && !a3) {
          v = text_run(tp, q.par, c->npar, pts[k].par, (int)lang, q.nst, q.name, budget, &tr, &steps, detail, sizeof detail);
          if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, -1, detail, sizeof detail);
          if (v != V_OK && !lang && strchr(txt, '%')) {
            g_bmod_floor = 1;
            v = text_run(tp, q.par, c->npar, pts[k].par, (int)lang, q.nst, q.name, budget, &tr, &steps, detail, sizeof detail);
            g_bmod_floor = 0;
            if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, -1, detail, sizeof detail);
          }
        }
        execs++; nontriv += tr.n > 0; H = hmix(H, trace_hash(&tr));
        if (v != V_OK) { snprintf(badkind, sizeof badkind, "%s", verdict_name[v]); isbad = 1; }
      }
      /* a named statement is printed by its name, an unnamed one as S<number> */
      for (int i = 0; i < q.nst && !isbad && txt; i++) {
        char w[40]; snprintf(w, sizeof w, "S%d(", i + 1);
        for (char *p = txt; q.name[i] && (p = strstr(p, w)); p++)
          if (p == txt || (!isalnum((unsigned char)p[-1]) && p[-1] != '_')) { isbad = bad("NAME", "S%d is printed by number although it is named", i + 1); break; }
      }
      if (tp) text_free(tp);
      free(txt);
      if (q.par) {
        for (int i = 0; i < c->npar; i++) free(q.par[i]);
        for (int i = 0; i < c->maxdim; i++) free(q.it[i]);
        for (int i = 0; i < c->maxscat; i++) free(q.sc[i]);
        free(q.par); free(q.it); free(q.sc);
      }
    }
    if (isbad) {
      printf("R %ld FAIL %s opt=%d par=", id, badkind, oi);
      if (k > 0) for (int i = 0; i < c->npar; i++) printf("%s%s", i ? "," : "", i128str(pts[k - 1].par[i], b1));
      printf(" :: %s\n", detail);
    }
    tmo_set((unsigned)tmo);
    cur_phase = "freeing";
    if (root) cloog_clast_free(root);
    if (prog) cloog_program_free(prog);
    cloog_options_free(opt);
    if (!isbad && counters_off(state, detail, sizeof detail)) {
      printf("R %ld FAIL COUNTERS opt=%d par= :: %s\n", id, oi, detail);
      isbad = 1;
    }
    cloog_state_free(state);
    tmo_set(0);
  }
  if (!isbad)
    printf("R %ld ok pts=%d inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%ld modsign=0 h=%lx\n", id, npts, ninst + compared, gens, execs, steps, nontriv, H);
end:
  free(tr.v);
  for (int k = 0; k < npts; k++) free(pts[k].inst.v);
  free(pts);
  case_free(c);
}
