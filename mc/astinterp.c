/* Interpreter of CLooG's AST (clast), following the semantics documented in
 * doc/cloog.texi ("CloogInput / clast" sections). */
#include "mc.h"
#include <cloog/isl/cloog.h>

AstHooks *g_hooks;

typedef struct {
  const char *name[64]; I val[64]; int n;
  long budget; Trace *t; int err; char *d; int nd; long steps;
} Env;

static I fromz(mpz_t z)
{
  I v = 0;
  size_t n = mpz_size(z);
  for (size_t k = n; k-- > 0;) v = (v << 64) | (I)mpz_getlimbn(z, k);
  return mpz_sgn(z) < 0 ? -v : v;
}

static void fail(Env *e, int code, const char *msg, const char *arg)
{
  if (e->err) return;
  e->err = code;
  snprintf(e->d, e->nd, "%s%s", msg, arg ? arg : "");
}

static I lookup(Env *e, const char *n)
{
  for (int i = e->n - 1; i >= 0; i--)
    if (e->name[i] == n || !strcmp(e->name[i], n)) return e->val[i];
  fail(e, V_UNDEF, "use of undefined name ", n);
  return 0;
}
static int hget(void *env, const char *n, I *v)
{
  Env *e = env;
  for (int i = e->n - 1; i >= 0; i--)
    if (!strcmp(e->name[i], n)) { *v = e->val[i]; return 1; }
  return 0;
}
static void assign(Env *e, const char *n, I v)
{
  for (int i = e->n - 1; i >= 0; i--)
    if (e->name[i] == n || !strcmp(e->name[i], n)) { e->val[i] = v; return; }
  if (e->n < 64) { e->name[e->n] = n; e->val[e->n++] = v; }
}

static I expr(Env *e, struct clast_expr *x)
{
  if (e->err) return 0;
  if (!x) { fail(e, V_UNBOUNDED, "missing expression", NULL); return 0; }
  switch (x->type) {
  case clast_expr_name: return lookup(e, ((struct clast_name *)x)->name);
  case clast_expr_term: {
    struct clast_term *t = (struct clast_term *)x;
    I v = fromz(t->val);
    return t->var ? v * expr(e, t->var) : v;
  }
  case clast_expr_bin: {
    struct clast_binary *b = (struct clast_binary *)x;
    I l = expr(e, b->LHS), r = fromz(b->RHS);
    if (r <= 0) { fail(e, V_OTHER, "division by a non-positive constant", NULL); return 0; }
    switch (b->type) {
    case clast_bin_fdiv: return fdivI(l, r);
    case clast_bin_cdiv: return cdivI(l, r);
    case clast_bin_div: return l / r;
    case clast_bin_mod: return l - r * fdivI(l, r);
    }
    break;
  }
  case clast_expr_red: {
    struct clast_reduction *r = (struct clast_reduction *)x;
    if (r->n < 1) { if (r->type == clast_red_sum) return 0; fail(e, V_OTHER, "empty min/max", NULL); return 0; }
    I v = expr(e, r->elts[0]);
    for (int i = 1; i < r->n; i++) {
      I w = expr(e, r->elts[i]);
      if (r->type == clast_red_sum) v += w;
      else if (r->type == clast_red_min) { if (w < v) v = w; }
      else if (w > v) v = w;
    }
    return v;
  }
  }
  fail(e, V_OTHER, "unknown expression", NULL);
  return 0;
}

static void stmts(Env *e, struct clast_stmt *s)
{
  for (; s && !e->err; s = s->next) {
    if (++e->steps > e->budget) { fail(e, V_RUNAWAY, "execution exceeds its step budget", NULL); return; }
    if (CLAST_STMT_IS_A(s, stmt_root)) continue;
    if (CLAST_STMT_IS_A(s, stmt_ass)) {
      struct clast_assignment *a = (struct clast_assignment *)s;
      I v = expr(e, a->RHS);
      if (!a->LHS) { fail(e, V_OTHER, "assignment without target", NULL); return; }
      assign(e, a->LHS, v);
    } else if (CLAST_STMT_IS_A(s, stmt_user)) {
      struct clast_user_stmt *u = (struct clast_user_stmt *)s;
      I it[24]; int n = 0;
      for (struct clast_stmt *q = u->substitutions; q; q = q->next) {
        if (!CLAST_STMT_IS_A(q, stmt_ass)) { fail(e, V_OTHER, "substitution is not an assignment", NULL); return; }
        I v = expr(e, ((struct clast_assignment *)q)->RHS);
        if (n < 24) it[n] = v;
        n++;
      }
      if (!e->err) trace_push(e->t, u->statement->number, n, it);
      if (!e->err && g_hooks && g_hooks->user) g_hooks->user(g_hooks->u, u, e->t->n - 1, hget, e);
    } else if (CLAST_STMT_IS_A(s, stmt_block)) {
      stmts(e, ((struct clast_block *)s)->body);
    } else if (CLAST_STMT_IS_A(s, stmt_for)) {
      struct clast_for *f = (struct clast_for *)s;
      if (!f->LB || !f->UB) { fail(e, V_UNBOUNDED, "loop without bound on ", f->iterator); return; }
      I lb = expr(e, f->LB), ub = expr(e, f->UB), st = fromz(f->stride);
      if (st <= 0) { fail(e, V_OTHER, "non-positive stride", NULL); return; }
      for (I v = lb; v <= ub && !e->err; v += st) {
        if (++e->steps > e->budget) { fail(e, V_RUNAWAY, "execution exceeds its step budget", NULL); return; }
        assign(e, f->iterator, v);
        if (g_hooks && g_hooks->enter) g_hooks->enter(g_hooks->u, f);
        stmts(e, f->body);
        if (g_hooks && g_hooks->leave) g_hooks->leave(g_hooks->u, f);
      }
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) {
      struct clast_guard *g = (struct clast_guard *)s;
      int ok = 1;
      for (int i = 0; i < g->n && ok && !e->err; i++) {
        I l = expr(e, g->eq[i].LHS), r = expr(e, g->eq[i].RHS);
        ok = g->eq[i].sign == 0 ? l == r : g->eq[i].sign > 0 ? l >= r : l <= r;
      }
      if (ok && !e->err) stmts(e, g->then);
    } else { fail(e, V_OTHER, "unknown AST node", NULL); return; }
  }
}

int ast_run(struct clast_stmt *root, Case *c, char **parname, const I *par,
            long budget, Trace *t, long *steps, char *detail, int nd)
{
  Env e = { .n = 0, .budget = budget, .t = t, .d = detail, .nd = nd };
  (void)c;
  t->n = 0;
  for (int i = 0; i < c->npar; i++) { e.name[i] = parname[i]; e.val[i] = par[i]; }
  e.n = c->npar;
  stmts(&e, root);
  *steps += e.steps;
  return e.err;
}
