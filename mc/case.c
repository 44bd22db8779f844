/* Independent reader for the CLooG input format (doc/cloog.texi, "Writing The
 * Input File").  Written from the documentation, shares no code with CLooG. */
#include "mc.h"
#include <ctype.h>

typedef struct { const char *p; char line[65536]; const char *err; } Rd;

static int next_line(Rd *r)
{
  for (;;) {
    if (!*r->p) return 0;
    const char *e = strchr(r->p, '\n');
    size_t n = e ? (size_t)(e - r->p) : strlen(r->p);
    if (n >= sizeof r->line) n = sizeof r->line - 1;
    memcpy(r->line, r->p, n); r->line[n] = 0;
    r->p = e ? e + 1 : r->p + strlen(r->p);
    char *h = strchr(r->line, '#');
    if (h) *h = 0;
    char *q = r->line;
    while (isspace((unsigned char)*q)) q++;
    if (*q) return 1;
  }
}

static int nums(const char *s, I *out, int max)
{
  int n = 0;
  for (;;) {
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return n;
    int neg = 0;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    if (!isdigit((unsigned char)*s)) return n;
    I v = 0;
    while (isdigit((unsigned char)*s)) v = v * 10 + (*s++ - '0');
    if (n < max) out[n] = neg ? -v : v;
    n++;
  }
}

/* kind 0: context (npar unknown), 1: domain, 2: scattering */
static int read_bset(Rd *r, int kind, int npar, int dim, BSet *b, int *odim)
{
  I h[8];
  int n = nums(r->line, h, 8);
  int rows, cols, nout, nin = 0, ndiv = 0;
  if (n == 2) {
    rows = (int)h[0]; cols = (int)h[1];
    if (kind == 0) nout = cols - 2;
    else if (kind == 1) nout = cols - 2 - npar;
    else nout = cols - 2 - npar - dim;
    if (kind == 2) nin = dim;
  } else if (n >= 6) {
    rows = (int)h[0]; cols = (int)h[1];
    nout = (int)h[2]; nin = (int)h[3]; ndiv = (int)h[4];
    int np = (int)h[5];
    if (kind == 0) { nout = np; }
    if (cols != 2 + (kind == 0 ? 0 : nout) + nin + ndiv + np) { r->err = "bad header"; return -1; }
  } else { r->err = "bad header"; return -1; }
  if (rows < 0 || cols < 2 || cols - 1 > MAXD + 1 || nout < 0) { r->err = "bad size"; return -1; }
  b->nrow = rows; b->ndiv = ndiv;
  b->row = calloc(rows ? rows : 1, sizeof(Row));
  for (int k = 0; k < rows; k++) {
    I v[MAXD + 3];
    if (!next_line(r)) { r->err = "eof in matrix"; return -1; }
    int m = nums(r->line, v, MAXD + 3);
    if (m < cols) { r->err = "short row"; return -1; }
    b->row[k].eq = v[0] == 0;
    /* file order: out, in, div, param, cst */
    if (kind == 0 && n >= 6) {
      /* [div, param, cst] -> [param, div, cst] */
      for (int j = 0; j < nout; j++) b->row[k].c[j] = v[1 + ndiv + j];
      for (int j = 0; j < ndiv; j++) b->row[k].c[nout + j] = v[1 + j];
      b->row[k].c[nout + ndiv] = v[1 + nout + ndiv];
    } else
      for (int j = 0; j < cols - 1; j++) b->row[k].c[j] = v[1 + j];
  }
  *odim = nout;
  return 0;
}

static int read_set(Rd *r, int kind, int npar, int dim, Set *s, int *odim)
{
  I h[8];
  if (!next_line(r)) { r->err = "eof"; return -1; }
  int n = nums(r->line, h, 8);
  if (n == 1) {
    s->n = (int)h[0];
    s->b = calloc(s->n ? s->n : 1, sizeof(BSet));
    for (int i = 0; i < s->n; i++) {
      if (!next_line(r)) { r->err = "eof"; return -1; }
      if (read_bset(r, kind, npar, dim, &s->b[i], odim)) return -1;
    }
  } else {
    s->n = 1; s->b = calloc(1, sizeof(BSet));
    if (read_bset(r, kind, npar, dim, &s->b[0], odim)) return -1;
  }
  return 0;
}

static char **read_names(Rd *r, int n)
{
  I h[2];
  if (!next_line(r)) { r->err = "eof names"; return NULL; }
  if (nums(r->line, h, 2) < 1) { r->err = "bad name option"; return NULL; }
  if (h[0] == 0 || n == 0) return NULL;
  if (!next_line(r)) { r->err = "eof names"; return NULL; }
  char **v = calloc(n, sizeof *v);
  char *q = r->line;
  for (int i = 0; i < n; i++) {
    while (isspace((unsigned char)*q)) q++;
    char *e = q;
    while (*e && !isspace((unsigned char)*e)) e++;
    if (e == q) { r->err = "not enough names"; return v; }
    v[i] = strndup(q, e - q);
    q = e;
  }
  return v;
}

Case *case_parse(const char *text, const char **err)
{
  Rd *r = calloc(1, sizeof *r);
  Case *c = calloc(1, sizeof *c);
  I h[8];
  r->p = text;
  if (!next_line(r)) { r->err = "empty"; goto out; }
  char *q = r->line;
  while (isspace((unsigned char)*q)) q++;
  c->lang = *q;
  if (read_set(r, 0, 0, 0, &c->ctx, &c->npar)) goto out;
  c->parname = read_names(r, c->npar);
  if (r->err) goto out;
  if (!next_line(r) || nums(r->line, h, 8) < 1) { r->err = "nstmt"; goto out; }
  c->nstmt = (int)h[0];
  c->st = calloc(c->nstmt ? c->nstmt : 1, sizeof(Stmt));
  for (int i = 0; i < c->nstmt; i++) {
    if (read_set(r, 1, c->npar, 0, &c->st[i].dom, &c->st[i].dim)) goto out;
    c->st[i].nscat = -1;
    if (c->st[i].dim > c->maxdim) c->maxdim = c->st[i].dim;
    if (!next_line(r) || nums(r->line, h, 8) < 3) { r->err = "0 0 0 line"; goto out; }
  }
  c->itername = read_names(r, c->maxdim);
  if (r->err) goto out;
  c->nscatfun = 0;
  if (next_line(r) && nums(r->line, h, 8) >= 1) c->nscatfun = (int)h[0];
  if (c->nscatfun && c->nscatfun != c->nstmt) { r->err = "wrong number of scattering functions"; goto out; }
  for (int i = 0; i < c->nscatfun; i++) {
    if (read_set(r, 2, c->npar, c->st[i].dim, &c->st[i].scat, &c->st[i].nscat)) goto out;
    if (c->st[i].nscat > c->maxscat) c->maxscat = c->st[i].nscat;
  }
  if (c->nscatfun) {
    c->scatname = read_names(r, c->maxscat);
    if (r->err) goto out;
  }
out:
  *err = r->err;
  free(r);
  return c;
}

static void set_free(Set *s)
{
  for (int i = 0; i < s->n; i++) free(s->b[i].row);
  free(s->b);
}
static void names_free(char **v, int n)
{
  if (!v) return;
  for (int i = 0; i < n; i++) free(v[i]);
  free(v);
}
void case_free(Case *c)
{
  set_free(&c->ctx);
  for (int i = 0; i < c->nstmt && c->st; i++) { set_free(&c->st[i].dom); set_free(&c->st[i].scat); }
  free(c->st);
  names_free(c->parname, c->npar);
  names_free(c->itername, c->maxdim);
  names_free(c->scatname, c->maxscat);
  free(c);
}
