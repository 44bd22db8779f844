/* Parser and interpreter of the C and Fortran text CLooG prints.  C division
 * and remainder truncate; Fortran integer division and MOD truncate too. */
#include "mc.h"
#include <ctype.h>
#include <stdarg.h>
#include <setjmp.h>

enum { N_NUM, N_VAR, N_CALL, N_BIN, N_NEG, N_NOT, N_REAL,       /* expressions */
       N_FOR, N_IF, N_ASSIGN, N_USER, N_BLOCK, N_EMPTY };
enum { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_EQ, O_NE, O_LE, O_GE, O_LT, O_GT, O_AND, O_OR };

typedef struct Node {
  int k, op; I num; char *s; int slot;
  int n; struct Node **c;
  struct Node *next;      /* arena list */
  int fn;
} Node;
enum { F_NONE, F_FLOORD, F_CEILD, F_MAX, F_MIN, F_MOD, F_MODULO, F_FLOOR, F_CEILING, F_REAL, F_DBLE };

struct TProg { Node *root; Node *arena; int nslot; char *slot[64]; };

typedef struct {
  const char *p; int lang; TProg *pr; char *err; int nerr; jmp_buf jb;
  char tok[512]; int tk;   /* tk: 0 eof, 'i' ident, 'n' number, else char/op */
} P;

static void die(P *p, const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  char m[300]; vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  snprintf(p->err, p->nerr, "%s near '%.40s'", m, p->p);
  longjmp(p->jb, 1);
}
static Node *mk(P *p, int k)
{
  Node *n = calloc(1, sizeof *n);
  n->k = k; n->slot = -1; n->next = p->pr->arena; p->pr->arena = n;
  return n;
}
static void addc(Node *n, Node *c)
{
  n->c = realloc(n->c, (n->n + 1) * sizeof *n->c);
  n->c[n->n++] = c;
}
static int slot(P *p, const char *s)
{
  for (int i = 0; i < p->pr->nslot; i++) if (!strcmp(p->pr->slot[i], s)) return i;
  if (p->pr->nslot >= 64) die(p, "too many names");
  p->pr->slot[p->pr->nslot] = strdup(s);
  return p->pr->nslot++;
}

#define T2(a,b) ((a) | ((b) << 8))
#define T_NL 10
static void adv(P *p)
{
  const char *q = p->p;
again:
  for (;;) {
    if (p->lang == 0) {
      while (isspace((unsigned char)*q)) q++;
      if (q[0] == '/' && q[1] == '*') {
        const char *e = strstr(q + 2, "*/");
        if (!e) { p->p = q; die(p, "unterminated comment"); }
        q = e + 2; continue;
      }
      if (q[0] == '/' && q[1] == '/') { while (*q && *q != '\n') q++; continue; }
      if (*q == '#') { while (*q && *q != '\n') q++; continue; }
    } else {
      while (*q == ' ' || *q == '\t') q++;
      if (*q == '!') { while (*q && *q != '\n') q++; continue; }
      if (*q == '&') { const char *w = q + 1; while (*w == ' ' || *w == '\t') w++;
        if (*w == '\n') { w++; while (*w == ' ' || *w == '\t') w++; if (*w == '&') w++; q = w; continue; } }
    }
    break;
  }
  if (!*q) { p->tk = 0; p->p = q; return; }
  if (*q == '\n') { p->tk = T_NL; p->p = q + 1; return; }
  if (isalpha((unsigned char)*q) || *q == '_') {
    int n = 0;
    while (isalnum((unsigned char)*q) || *q == '_' || *q == '$' || *q == '\'') { if (n < 511) p->tok[n++] = *q; q++; }
    p->tok[n] = 0; p->tk = 'i'; p->p = q; return;
  }
  if (isdigit((unsigned char)*q)) {
    int n = 0;
    while (isdigit((unsigned char)*q)) { if (n < 511) p->tok[n++] = *q; q++; }
    p->tok[n] = 0; p->tk = 'n'; p->p = q;
    if (isalpha((unsigned char)*q) || *q == '_') die(p, "number runs into a name");
    return;
  }
  if (p->lang && *q == '.') {
    if (!strncmp(q, ".AND.", 5)) { p->tk = T2('&', '&'); p->p = q + 5; return; }
    if (!strncmp(q, ".OR.", 4)) { p->tk = T2('|', '|'); p->p = q + 4; return; }
  }
  static const char *two[] = { "==", "!=", "<=", ">=", "&&", "||", "++", "+=", "--", "-=", NULL };
  for (int i = 0; two[i]; i++)
    if (q[0] == two[i][0] && q[1] == two[i][1]) { p->tk = T2(q[0], q[1]); p->p = q + 2; return; }
  if (strchr("+-*/%()<>=;,{}!&", *q)) { p->tk = *q; p->p = q + 1; return; }
  p->p = q;
  die(p, "unexpected character");
  goto again;
}
static void want(P *p, int tk, const char *what) { if (p->tk != tk) die(p, "expected %s", what); adv(p); }
static int isid(P *p, const char *s) { return p->tk == 'i' && !strcmp(p->tok, s); }

static Node *expr(P *p, int prec);
static int fnid(P *p, const char *s)
{
  if (p->lang == 0) {
    if (!strcmp(s, "floord")) return F_FLOORD;
    if (!strcmp(s, "ceild")) return F_CEILD;
    if (!strcmp(s, "max")) return F_MAX;
    if (!strcmp(s, "min")) return F_MIN;
  } else {
    if (!strcmp(s, "MAX")) return F_MAX;
    if (!strcmp(s, "MIN")) return F_MIN;
    if (!strcmp(s, "MOD")) return F_MOD;
    if (!strcmp(s, "MODULO")) return F_MODULO;
    if (!strcmp(s, "FLOOR")) return F_FLOOR;
    if (!strcmp(s, "CEILING")) return F_CEILING;
    if (!strcmp(s, "REAL")) return F_REAL;
    if (!strcmp(s, "DBLE")) return F_DBLE;
  }
  return F_NONE;
}
static Node *prim(P *p)
{
  Node *n;
  if (p->tk == '(') { adv(p); n = expr(p, 0); want(p, ')', "')'"); return n; }
  if (p->tk == '-') { adv(p); n = mk(p, N_NEG); addc(n, expr(p, p->lang ? 5 : 6)); return n; }
  if (p->tk == '+') { adv(p); return expr(p, 6); }
  if (p->tk == '!' && !p->lang) { adv(p); n = mk(p, N_NOT); addc(n, prim(p)); return n; }
  if (p->tk == 'n') {
    n = mk(p, N_NUM);
    for (char *s = p->tok; *s; s++) n->num = n->num * 10 + (*s - '0');
    adv(p); return n;
  }
  if (p->tk == 'i') {
    char name[512]; strcpy(name, p->tok); adv(p);
    if (p->tk == '(') {
      int f = fnid(p, name);
      if (!f) die(p, "unknown function %s", name);
      n = mk(p, N_CALL); n->fn = f; adv(p);
      while (p->tk != ')') { addc(n, expr(p, 0)); if (p->tk == ',') adv(p); else break; }
      want(p, ')', "')'");
      int need = (f == F_FLOOR || f == F_CEILING || f == F_REAL || f == F_DBLE) ? 1 : 2;
      if (need == 1 ? n->n != 1 : p->lang && (f == F_MAX || f == F_MIN) ? n->n < 2 : n->n != 2)
        die(p, "wrong number of arguments to %s", name);
      return n;
    }
    n = mk(p, N_VAR); n->slot = slot(p, name); return n;
  }
  die(p, "expected an expression");
  return NULL;
}
static int binop(int tk, int *op)
{
  switch (tk) {
  case T2('|','|'): *op = O_OR; return 1;
  case T2('&','&'): *op = O_AND; return 2;
  case T2('=','='): *op = O_EQ; return 3;
  case T2('!','='): *op = O_NE; return 3;
  case T2('<','='): *op = O_LE; return 4;
  case T2('>','='): *op = O_GE; return 4;
  case '<': *op = O_LT; return 4;
  case '>': *op = O_GT; return 4;
  case '+': *op = O_ADD; return 5;
  case '-': *op = O_SUB; return 5;
  case '*': *op = O_MUL; return 6;
  case '/': *op = O_DIV; return 6;
  case '%': *op = O_MOD; return 6;
  }
  return 0;
}
static Node *expr(P *p, int prec)
{
  Node *l = prim(p);
  for (;;) {
    int op, q = binop(p->tk, &op);
    if (!q || q <= prec) return l;
    if (p->lang && op == O_MOD) die(p, "%% in Fortran");
    adv(p);
    Node *n = mk(p, N_BIN); n->op = op;
    addc(n, l); addc(n, expr(p, q));
    l = n;
  }
}

static Node *cstmt(P *p);
static Node *cblock(P *p, int end)
{
  Node *b = mk(p, N_BLOCK);
  while (p->tk != end) {
    if (p->tk == 0) die(p, "unexpected end of text");
    addc(b, cstmt(p));
  }
  return b;
}
static Node *cstmt(P *p)
{
  if (p->tk == '{') { adv(p); Node *b = cblock(p, '}'); adv(p); return b; }
  if (p->tk == ';') { adv(p); return mk(p, N_EMPTY); }
  if (isid(p, "for")) {
    Node *n = mk(p, N_FOR); char it[512];
    adv(p); want(p, '(', "'('");
    if (p->tk != 'i') die(p, "expected the loop iterator");
    strcpy(it, p->tok); n->slot = slot(p, it); adv(p);
    want(p, '=', "'='"); addc(n, expr(p, 0)); want(p, ';', "';'");
    if (!isid(p, it)) die(p, "loop test on another name"); adv(p);
    if (p->tk != T2('<','=')) die(p, "expected <="); adv(p);
    addc(n, expr(p, 0)); want(p, ';', "';'");
    if (!isid(p, it)) die(p, "loop step on another name"); adv(p);
    n->num = 1;
    if (p->tk == T2('+','+')) adv(p);
    else if (p->tk == T2('+','=')) {
      adv(p); if (p->tk != 'n') die(p, "expected the stride");
      n->num = 0; for (char *s = p->tok; *s; s++) n->num = n->num * 10 + (*s - '0');
      adv(p);
    } else die(p, "expected ++ or +=");
    want(p, ')', "')'");
    addc(n, cstmt(p));
    return n;
  }
  if (isid(p, "if")) {
    Node *n = mk(p, N_IF);
    adv(p); want(p, '(', "'('"); addc(n, expr(p, 0)); want(p, ')', "')'");
    addc(n, cstmt(p));
    return n;
  }
  if (p->tk == 'i') {
    char name[512]; strcpy(name, p->tok); adv(p);
    if (p->tk == '=') {
      Node *n = mk(p, N_ASSIGN); n->slot = slot(p, name); adv(p);
      addc(n, expr(p, 0)); want(p, ';', "';'"); return n;
    }
    if (p->tk == '(') {
      Node *n = mk(p, N_USER); n->s = strdup(name); adv(p);
      while (p->tk != ')') { addc(n, expr(p, 0)); if (p->tk == ',') adv(p); else break; }
      want(p, ')', "')'"); want(p, ';', "';'"); return n;
    }
    die(p, "expected a call or an assignment");
  }
  die(p, "expected a statement");
  return NULL;
}

static void nl(P *p) { if (p->tk == 0) return; if (p->tk != T_NL) die(p, "expected end of line"); while (p->tk == T_NL) adv(p); }
static Node *fblock(P *p, const char *end)
{
  Node *b = mk(p, N_BLOCK);
  for (;;) {
    while (p->tk == T_NL) adv(p);
    if (p->tk == 0) { if (end) die(p, "unexpected end of text"); return b; }
    if (p->tk != 'i') die(p, "expected a statement");
    if (isid(p, "END")) {
      adv(p);
      if (!end || !isid(p, end)) die(p, "mismatched END");
      adv(p); nl(p);
      return b;
    }
    if (isid(p, "DO")) {
      Node *n = mk(p, N_FOR); adv(p);
      if (p->tk != 'i') die(p, "expected the loop iterator");
      n->slot = slot(p, p->tok); adv(p);
      want(p, '=', "'='"); addc(n, expr(p, 0)); want(p, ',', "','"); addc(n, expr(p, 0));
      n->num = 1;
      if (p->tk == ',') {
        adv(p); if (p->tk != 'n') die(p, "expected the stride");
        n->num = 0; for (char *s = p->tok; *s; s++) n->num = n->num * 10 + (*s - '0');
        adv(p);
      }
      nl(p); addc(n, fblock(p, "DO")); addc(b, n); continue;
    }
    if (isid(p, "IF")) {
      Node *n = mk(p, N_IF); adv(p);
      want(p, '(', "'('"); addc(n, expr(p, 0)); want(p, ')', "')'");
      if (!isid(p, "THEN")) die(p, "expected THEN"); adv(p); nl(p);
      addc(n, fblock(p, "IF")); addc(b, n); continue;
    }
    if (isid(p, "CALL")) adv(p);
    char name[512]; strcpy(name, p->tok); adv(p);
    if (p->tk == '=') {
      Node *n = mk(p, N_ASSIGN); n->slot = slot(p, name); adv(p);
      addc(n, expr(p, 0)); nl(p); addc(b, n);
    } else if (p->tk == '(') {
      Node *n = mk(p, N_USER); n->s = strdup(name); adv(p);
      while (p->tk != ')') { addc(n, expr(p, 0)); if (p->tk == ',') adv(p); else break; }
      want(p, ')', "')'"); nl(p); addc(b, n);
    } else die(p, "expected a call or an assignment");
  }
}

static TProg *parse(const char *src, int lang, char *err, int nerr)
{
  P p = { .p = src, .lang = lang, .err = err, .nerr = nerr };
  p.pr = calloc(1, sizeof *p.pr);
  if (setjmp(p.jb)) { text_free(p.pr); return NULL; }
  adv(&p);
  p.pr->root = lang ? fblock(&p, NULL) : cblock(&p, 0);
  return p.pr;
}
TProg *text_parse_c(const char *src, char *err, int nerr) { return parse(src, 0, err, nerr); }
TProg *text_parse_f(const char *src, char *err, int nerr) { return parse(src, 1, err, nerr); }
void text_free(TProg *p)
{
  for (Node *n = p->arena; n;) { Node *q = n->next; free(n->s); free(n->c); free(n); n = q; }
  for (int i = 0; i < p->nslot; i++) free(p->slot[i]);
  free(p);
}

typedef struct {
  TProg *p; I val[64]; char def[64]; int lang; int nst; const char **st;
  long budget, steps; Trace *t; int err; char *d; int nd;
} X;
static void xfail(X *x, int code, const char *m, const char *a)
{ if (!x->err) { x->err = code; snprintf(x->d, x->nd, "%s%s", m, a ? a : ""); } }

/* Fortran REAL(a)/REAL(b): represented exactly as a rational here; the single
 * precision of REAL is a documented limit of that output form, |a| stays below
 * 2^24 in every explored program. */
int g_bmod_floor;   /* evaluate "E%m <= k" with a nonnegative remainder (known finding MODSIGN) */
static I ev(X *x, Node *n)
{
  if (x->err) return 0;
  switch (n->k) {
  case N_NUM: return n->num;
  case N_VAR:
    if (!x->def[n->slot]) { xfail(x, V_UNDEF, "use of undefined name ", x->p->slot[n->slot]); return 0; }
    return x->val[n->slot];
  case N_NEG: return -ev(x, n->c[0]);
  case N_NOT: return !ev(x, n->c[0]);
  case N_BIN: {
    if (n->op == O_AND) return ev(x, n->c[0]) && ev(x, n->c[1]);
    if (n->op == O_OR) return ev(x, n->c[0]) || ev(x, n->c[1]);
    I a = ev(x, n->c[0]), b = ev(x, n->c[1]);
    if (x->err) return 0;
    if (g_bmod_floor && (n->op == O_LE || n->op == O_GE) && n->c[0]->k == N_BIN && n->c[0]->op == O_MOD && a < 0)
      a += ev(x, n->c[0]->c[1]);
    switch (n->op) {
    case O_ADD: return a + b; case O_SUB: return a - b; case O_MUL: return a * b;
    case O_DIV: if (!b) { xfail(x, V_OTHER, "division by zero", NULL); return 0; } return a / b;
    case O_MOD: if (!b) { xfail(x, V_OTHER, "division by zero", NULL); return 0; } return a % b;
    case O_EQ: return a == b; case O_NE: return a != b; case O_LE: return a <= b;
    case O_GE: return a >= b; case O_LT: return a < b; case O_GT: return a > b;
    }
    break;
  }
  case N_CALL: {
    if (n->fn == F_FLOOR || n->fn == F_CEILING) {
      /* argument must be REAL(a)/REAL(b) */
      Node *q = n->c[0];
      if (q->k == N_BIN && q->op == O_DIV && q->c[0]->k == N_CALL && q->c[1]->k == N_CALL &&
          (q->c[0]->fn == F_REAL || q->c[0]->fn == F_DBLE) && (q->c[1]->fn == F_REAL || q->c[1]->fn == F_DBLE)) {
        I a = ev(x, q->c[0]->c[0]), b = ev(x, q->c[1]->c[0]);
        if (b <= 0) { xfail(x, V_OTHER, "division by non-positive", NULL); return 0; }
        return n->fn == F_FLOOR ? fdivI(a, b) : cdivI(a, b);
      }
      /* an integer expression under FLOOR/CEILING: the value itself */
      return ev(x, q);
    }
    if (n->fn == F_REAL || n->fn == F_DBLE) return ev(x, n->c[0]);
    I a = ev(x, n->c[0]), b = ev(x, n->c[1]);
    if (x->err) return 0;
    switch (n->fn) {
    case F_FLOORD: case F_CEILD:
      if (b <= 0) { xfail(x, V_OTHER, "division by non-positive", NULL); return 0; }
      return n->fn == F_FLOORD ? fdivI(a, b) : cdivI(a, b);
    case F_MAX: case F_MIN: {
      I v = a;
      for (int i = 1; i < n->n; i++) { I w = ev(x, n->c[i]); if (n->fn == F_MAX ? w > v : w < v) v = w; }
      return v;
    }
    case F_MODULO: if (!b) { xfail(x, V_OTHER, "division by zero", NULL); return 0; } { I r_ = a % b; return r_ && ((r_ < 0) != (b < 0)) ? r_ + b : r_; }
    case F_MOD: if (!b) { xfail(x, V_OTHER, "division by zero", NULL); return 0; } return a % b;
    }
    break;
  }
  }
  xfail(x, V_OTHER, "bad expression", NULL);
  return 0;
}

static void run(X *x, Node *n)
{
  if (x->err) return;
  if (++x->steps > x->budget) { xfail(x, V_RUNAWAY, "execution exceeds its step budget", NULL); return; }
  switch (n->k) {
  case N_BLOCK: for (int i = 0; i < n->n && !x->err; i++) run(x, n->c[i]); break;
  case N_EMPTY: break;
  case N_IF: { I v = ev(x, n->c[0]); if (!x->err && v) run(x, n->c[1]); break; }
  case N_ASSIGN: { I v = ev(x, n->c[0]); x->val[n->slot] = v; x->def[n->slot] = 1; break; }
  case N_FOR: {
    /* C re-evaluates the bound; bounds never mention the iterator */
    I v = ev(x, n->c[0]);
    if (n->num <= 0) { xfail(x, V_OTHER, "non-positive stride", NULL); return; }
    x->val[n->slot] = v; x->def[n->slot] = 1;
    I ub0 = ev(x, n->c[1]);
    while (!x->err) {
      I ub = x->lang ? ub0 : ev(x, n->c[1]);
      if (x->err || x->val[n->slot] > ub) break;
      if (++x->steps > x->budget) { xfail(x, V_RUNAWAY, "execution exceeds its step budget", NULL); return; }
      run(x, n->c[2]);
      x->val[n->slot] += n->num;
    }
    break;
  }
  case N_USER: {
    int num = 0;
    for (int i = 0; i < x->nst && !num; i++)
      if (x->st && x->st[i] && !strcmp(x->st[i], n->s)) num = i + 1;
    if (!num && n->s[0] == 'S' && isdigit((unsigned char)n->s[1])) {
      char *e; long v = strtol(n->s + 1, &e, 10);
      if (!*e) num = (int)v;
    }
    if (!num) { xfail(x, V_OTHER, "call of unknown statement ", n->s); return; }
    I it[24];
    for (int i = 0; i < n->n; i++) { I v = ev(x, n->c[i]); if (i < 24) it[i] = v; }
    if (!x->err) trace_push(x->t, num, n->n, it);
    break;
  }
  }
}

int text_run(TProg *p, char **parname, int npar, const I *par, int lang,
             int nst, const char **st, long budget, Trace *t, long *steps,
             char *detail, int nd)
{
  X *x = calloc(1, sizeof *x);
  x->p = p; x->lang = lang; x->nst = nst; x->st = st; x->budget = budget; x->t = t; x->d = detail; x->nd = nd;
  t->n = 0;
  for (int i = 0; i < p->nslot; i++)
    for (int j = 0; j < npar; j++)
      if (!strcmp(p->slot[i], parname[j])) { x->val[i] = par[j]; x->def[i] = 1; }
  run(x, p->root);
  *steps += x->steps;
  int e = x->err;
  free(x);
  return e;
}
