/* kind=cc: the printed text compiled by a real compiler, loaded and executed.
 *   a1=1  -callable 1: the function test() of the complete text, reporting through hash()        (C06)
 *   a1=2  -compilable V for every V given by a2,a3: the program's own main(), reporting by printf (C06)
 *   a1=5  both at once (compilable prevails)
 *   a1=3  the plain C text inside a function, statement macros calling mc_ev()                    (C05)
 *   a1=4  the plain Fortran text inside a subroutine, compiled by gfortran                        (C07)
 * The trace is judged by the enumerated reference, not by another text. */
#include "mc.h"
#include <ctype.h>
#include <stdarg.h>
#include <setjmp.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <cloog/isl/cloog.h>

void apply_opts(CloogOptions *o, const char *s);
int counters_off(CloogState *s, char *d, int nd);

static Trace T; static Case *C; static long left; static jmp_buf J;
static int why; static char whytxt[300];
static int pend, npend; static I pit[24];
static long total; static int gottotal, gotzero; static long g_named;
static void stop(int v, const char *s) { why = v; snprintf(whytxt, sizeof whytxt, "%s", s); longjmp(J, 1); }
static void tick(void) { if (--left < 0) stop(V_RUNAWAY, "too many statement calls"); }

void hash(int v)
{
  if (pend == 0) {
    /* a program without any instance says so */
    if (v == 0 && !T.n && !gotzero) { gotzero = 1; return; }
    if (v < 1 || v > C->nstmt) { char b[64]; snprintf(b, sizeof b, "hash(%d) where a statement number is due", v); stop(V_ARITY, b); }
    tick(); pend = v; npend = 0;
  } else pit[npend++] = v;
  if (pend && npend == C->st[pend - 1].dim) { trace_push(&T, pend, npend, pit); pend = 0; }
}
void mc_ev(int n, int k, const long *a)
{
  I it[24]; tick();
  for (int i = 0; i < k && i < 24; i++) it[i] = a[i];
  trace_push(&T, n, k, it);
}
int mc_printf(const char *f, ...)
{
  char b[1000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  tick();
  if (!strncmp(b, "Number of integral points: ", 27)) { total = atol(b + 27); gottotal++; return 0; }
  if (b[0] == 'S' && isdigit((unsigned char)b[1])) {
    char *p; int n = (int)strtol(b + 1, &p, 10), k = 0; I it[24];
    while (*p == ' ' && k < 24) { char *q; it[k] = strtol(p, &q, 10); if (q == p) break; k++; p = q; }
    if (*p != '\n') stop(V_PARSE, b);
    trace_push(&T, n, k, it);
  } else stop(V_PARSE, b);
  return 0;
}
#define FS(n) void s##n##_(int *a, int *b, int *c, int *d, int *e, int *f, int *g, int *h) \
{ int *p[] = { a, b, c, d, e, f, g, h }; I it[24]; tick(); if (n > C->nstmt) stop(V_ARITY, "unknown statement S" #n); \
  for (int i = 0; i < C->st[n - 1].dim && i < 8; i++) it[i] = *p[i]; trace_push(&T, n, C->st[n - 1].dim, it); }
FS(1) FS(2) FS(3) FS(4) FS(5) FS(6) FS(7) FS(8) FS(9) FS(10)

static int compile(const char *cmd, char *d, int nd)
{
  char b[1200]; snprintf(b, sizeof b, "%s 2>&1", cmd);
  FILE *f = popen(b, "r"); char out[2000]; size_t n = fread(out, 1, sizeof out - 1, f); out[n] = 0;
  while (fread(b, 1, sizeof b, f) > 0) ;
  int r = pclose(f);
  if (r) { char *e = strstr(out, "rror: "); snprintf(d, nd, "the compiler refuses the text: %.300s", e ? e : out); for (char *q = d; *q; q++) if (*q == '\n') *q = ' '; }
  return r;
}

static char *generate(const char *text, const char *o, int lang, int callable, int compilable, char ***names, int *nn, CloogState **st)
{
  CloogState *state = cloog_state_malloc();
  CloogOptions *opt = cloog_options_malloc(state);
  apply_opts(opt, o);
  opt->callable = callable; opt->compilable = compilable;
  FILE *f = fmemopen((void *)text, strlen(text), "r");
  CloogInput *in = cloog_input_read(f, opt);
  fclose(f);
  opt->language = lang ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
  int q = 0;
  for (CloogNamedDomainList *l = in->ud->domain; l; l = l->next, q++)
    if (g_named >> q & 1) { char b[20]; snprintf(b, sizeof b, "stmt%c", 'A' + q); free(l->name); l->name = strdup(b); }
  CloogProgram *p = cloog_program_alloc(in->context, in->ud, opt);
  free(in);
  *nn = 0; *names = NULL;
  CloogNames *n = p->names;
  char **src[2] = { n->iterators, n->scattering }; int cnt[2] = { n->nb_iterators, n->nb_scattering };
  for (int k = 0; k < 2; k++) for (int i = 0; i < cnt[k]; i++) { *names = realloc(*names, (*nn + 1) * sizeof **names); (*names)[(*nn)++] = strdup(src[k][i]); }
  p = cloog_program_generate(p, opt);
  char *t = NULL; size_t nt = 0;
  FILE *m = open_memstream(&t, &nt);
  cloog_program_pprint(m, p, opt);
  fclose(m);
  cloog_program_free(p); cloog_options_free(opt); cloog_state_free(state);
  (void)st;
  return t;
}

void cc_case(long id, const char *hdr, char *optstr, char *text)
{
  long plo = -2, phi = 4, order = 1, tmo = 30, box = 200, budget = 400000, a1 = 1, a2 = 0, a3 = 0, dump = 0, pv = 0;
  GETI("plo", plo); GETI("phi", phi); GETI("order", order); GETI("tmo", tmo); GETI("box", box); GETI("budget", budget);
  GETI("a1", a1); GETI("a2", a2); GETI("a3", a3); GETI("pv", pv); GETI("dump", dump); g_named = g_pseq = 0; GETI("pseq", g_pseq); GETI("named", g_named);
  const char *perr = NULL; char detail[700] = "", b1[48];
  int both = a1 == 5; if (both) a1 = 2;
  g_scat_box = 100000; g_div_box = 4096; g_safe = 0;
  cur_id = id; cur_opt = -1; cur_phase = "reference";
  Case *c = C = case_parse(text, &perr);
  if (perr) { printf("R %ld FAIL HARNESS opt=-1 par= :: reference reader: %s\n", id, perr); case_free(c); return; }
  char *defpar[MAXPAR]; char defbuf[MAXPAR][2];
  for (int i = 0; i < MAXPAR; i++) { defbuf[i][0] = 'M' + i; defbuf[i][1] = 0; defpar[i] = defbuf[i]; }
  char **parname = c->parname ? c->parname : defpar;
  tmo_set((unsigned)tmo * 3);
  int npts = 0; long ninst = 0;
  Point *pts = enum_points(c, plo, phi, box, 200000, &npts, &ninst);
  if (!pts || c->nstmt > 10 || c->npar > 6) { printf("R %ld SKIP unbounded or too large\n", id); tmo_set(0); if (pts) { for (int k = 0; k < npts; k++) free(pts[k].inst.v); free(pts); } case_free(c); return; }
  long gens = 0, execs = 0, modsign = 0, nontriv = 0, steps = 0; unsigned long h = 11;
  int bad = 0, oi = 0; char *save = NULL;
  for (char *o = strtok_r(optstr, "|", &save); o && !bad; o = strtok_r(NULL, "|", &save), oi++) {
    cur_opt = oi;
    int values[2] = { (int)a2, (int)a3 };
    for (int vi = 0; vi < (a1 == 2 ? 2 : 1) && !bad; vi++) {
      int val = values[vi], hit = -1;
      if (a1 == 2) {
        if (!val) continue;
        for (int k = 0; k < npts; k++) { int eq = 1; for (int i = 0; i < c->npar; i++) eq &= pts[k].par[i] == val; if (eq) hit = k; }
        if (pv) {                        /* the values are those of a user who edits the PARVAL definitions: as many different ones as the box has */
          int best = -1;
          for (int k = 0; k < npts; k++) { int dif = 0; for (int i = 0; i < c->npar; i++) { int nw = 1; for (int j = 0; j < i; j++) nw &= pts[k].par[i] != pts[k].par[j]; dif += nw; } if (dif * 2 + (pts[k].inst.n > 0) > best) { best = dif * 2 + (pts[k].inst.n > 0); hit = k; } }
        }
        if (hit < 0) continue;           /* outside the context or the box */
      }
      cur_phase = "generation"; tmo_set((unsigned)tmo);
      char **names; int nn;
      char *txt = generate(text, o, a1 == 4, a1 == 1 || both, a1 == 2 ? val : 0, &names, &nn, NULL);
      gens++;
      if (pv && a1 == 2) {
        char *nt = malloc(strlen(txt) + 400), *d = nt; int edited = 0;
        for (char *l = txt; *l; ) {
          char *e = strchr(l, '\n'); e = e ? e + 1 : l + strlen(l); int i, n = 0;
          if (sscanf(l, "#define PARVAL%d %n", &i, &n) == 1 && n && i >= 1 && i <= c->npar) { d += sprintf(d, "#define PARVAL%d %d\n", i, (int)pts[hit].par[i - 1]); edited++; }
          else { memcpy(d, l, e - l); d += e - l; }
          l = e;
        }
        *d = 0; free(txt); txt = nt;
        if (edited != c->npar) { free(txt); continue; }
      }
      if (dump) fprintf(stderr, "--- opt %d: %s\n%s", oi, o, txt);
      char so[64], src[64], cmd[400];
      snprintf(so, sizeof so, "./cc%d_%ld.so", (int)getpid(), id); snprintf(src, sizeof src, "./cc%d_%ld.%s", (int)getpid(), id, a1 == 4 ? "f90" : "c");
      FILE *f = fopen(src, "w");
      if (a1 == 3) {
        fprintf(f, "extern void mc_ev(int, int, const long *);\n"
                "#define floord(n,d) (((n)<0) ? -((-(n)+(d)-1)/(d)) : (n)/(d))\n#define ceild(n,d)  (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))\n"
                "#define max(x,y)    ((x) > (y) ? (x) : (y))\n#define min(x,y)    ((x) < (y) ? (x) : (y))\n");
        for (int s = 1; s <= c->nstmt; s++) fprintf(f, "#define S%d(...) do { long a_[] = {0, ##__VA_ARGS__}; mc_ev(%d, sizeof a_ / sizeof *a_ - 1, a_ + 1); } while (0)\n", s, s);
        fprintf(f, "void run(const long *p_)\n{\n");
        for (int i = 0; i < c->npar; i++) fprintf(f, "  int %s = p_[%d];\n", parname[i], i);
        for (int i = 0; i < nn; i++) fprintf(f, "  int %s;\n", names[i]);
        fprintf(f, "%s}\n", txt);
      } else if (a1 == 4) {
        fprintf(f, "subroutine run(pvec)\n  implicit none\n  integer*8 :: pvec(8)\n");
        for (int i = 0; i < c->npar; i++) fprintf(f, "  integer :: %s\n", parname[i]);
        for (int i = 0; i < nn; i++) fprintf(f, "  integer :: %s\n", names[i]);
        for (int i = 0; i < c->npar; i++) fprintf(f, "  %s = int(pvec(%d))\n", parname[i], i + 1);
        for (char *l = txt; *l; ) {
          char *e = strchr(l, '\n'); if (!e) e = l + strlen(l);
          int sp = 0; while (l[sp] == ' ') sp++;
          if (l[sp] == 'S' && isdigit((unsigned char)l[sp + 1])) fprintf(f, "%.*sCALL %.*s\n", sp, l, (int)(e - l - sp), l + sp);
          else fprintf(f, "%.*s\n", (int)(e - l), l);
          l = *e ? e + 1 : e;
        }
        fprintf(f, "end subroutine\n");
      } else fputs(txt, f);
      fclose(f);
      cur_phase = "compiling the text";
      tmo_set((unsigned)tmo * 4);
      if (a1 == 4) snprintf(cmd, sizeof cmd, "gfortran -O0 -w -fPIC -shared -o %s %s", so, src);
      else snprintf(cmd, sizeof cmd, "gcc -O0 -std=gnu11 -Werror=implicit-function-declaration -Werror=implicit-int %s -fPIC -shared -o %s %s", a1 == 2 ? "-Dprintf=mc_printf" : "", so, src);
      int v = V_OK, k = 0;
      if (compile(cmd, detail, sizeof detail)) v = V_PARSE;
      void *lib = v == V_OK ? dlopen(so, RTLD_NOW | RTLD_LOCAL) : NULL;
      if (v == V_OK && !lib) { v = V_UNDEF; snprintf(detail, sizeof detail, "the compiled text does not load: %.300s", dlerror()); }
      void *fn = lib ? dlsym(lib, a1 == 1 ? "test" : a1 == 2 ? "main" : a1 == 3 ? "run" : "run_") : NULL;
      if (lib && !fn) { v = V_UNDEF; snprintf(detail, sizeof detail, "no entry point"); }
      cur_phase = "executing compiled code";
      tmo_set((unsigned)tmo * 3);
      TProg *tp = NULL; Trace tt = {0};
      for (k = 0; k < npts && v == V_OK; k++) {
        if (a1 == 2 && k != hit) continue;
        T.n = 0; pend = 0; gotzero = 0; total = -1; gottotal = 0; left = budget;
        I *p = pts[k].par; long lp[8]; for (int i = 0; i < 8; i++) lp[i] = i < c->npar ? (long)p[i] : 0;
        if (!setjmp(J)) {
          if (a1 == 1) ((void (*)(int, int, int, int, int, int))fn)((int)lp[0], (int)lp[1], (int)lp[2], (int)lp[3], (int)lp[4], (int)lp[5]);
          else if (a1 == 2) ((int (*)(void))fn)();
          else ((void (*)(const long *))fn)(lp);
          if (pend) { v = V_ARITY; snprintf(detail, sizeof detail, "statement S%d reported %d of %d values", pend, npend, c->st[pend - 1].dim); }
        } else { v = why; snprintf(detail, sizeof detail, "%s", whytxt); }
        if (v == V_OK && gotzero && ninst) { v = V_EXTRA; snprintf(detail, sizeof detail, "hash(0) although there are instances"); }
        InstList ref = pts[k].inst; InstList part = {0};
        if (v == V_OK && a1 == 2) {
          /* statements without iterators are only counted */
          if (gottotal != 1 || total != ref.n) { v = V_OTHER; snprintf(detail, sizeof detail, "counted %ld instances of %d", total, ref.n); }
          part.v = malloc((ref.n + 1) * sizeof *part.v);
          long need = 0;
          for (int i = 0; i < ref.n; i++) if (ref.v[i].dim > 0) part.v[part.n++] = ref.v[i];
          for (int i = 0; i < ref.n; i++) need += ref.v[i].needed;
          if (v == V_OTHER && gottotal == 1 && total == need) v = V_OK;
          ref = part;
        }
        if (v == V_OK) v = compare_trace(c, &ref, &T, (int)order, -1, detail, sizeof detail);
        free(part.v);
        if (v != V_OK && a1 != 4 && strchr(txt, '%')) {
          /* the known finding MODSIGN of the printed guards: correct once E%m is read as the true remainder */
          char *pure = NULL, **n2; int m2; char d2[600];
          if (!tp) { pure = generate(text, o, 0, 0, 0, &n2, &m2, NULL); tp = text_parse_c(pure, d2, sizeof d2); free(pure); for (int i = 0; i < m2; i++) free(n2[i]); free(n2); }
          if (tp) {
            g_bmod_floor = 1;
            int w = text_run(tp, parname, c->npar, pts[k].par, 0, 0, NULL, budget, &tt, &steps, d2, sizeof d2);
            g_bmod_floor = 0;
            if (w == V_OK) w = compare_trace(c, &pts[k].inst, &tt, (int)order, -1, d2, sizeof d2);
            int w2 = text_run(tp, parname, c->npar, pts[k].par, 0, 0, NULL, budget, &tt, &steps, d2, sizeof d2);
            if (a1 == 2) { int q = 0; for (int i = 0; i < tt.n; i++) if (tt.v[i].dim) tt.v[q++] = tt.v[i]; tt.n = q; }
            if (w == V_OK && w2 == V_OK && trace_hash(&tt) == trace_hash(&T)) { v = V_OK; modsign++; }
          }
        }
        execs++; steps += T.n + 1; h = hmix(h, trace_hash(&T)); nontriv += T.n > 0;
      }
      if (tp) text_free(tp);
      free(tt.v);
      if (lib) dlclose(lib);
      unlink(so); if (!dump) unlink(src);
      if (v != V_OK) {
        bad = 1;
        printf("R %ld FAIL %s opt=%d par=", id, verdict_name[v], oi);
        if (k > 0) for (int i = 0; i < c->npar; i++) printf("%s%s", i ? "," : "", i128str(pts[k - 1].par[i], b1));
        printf(" :: [compiled] %s\n", detail);
      }
      free(txt); for (int i = 0; i < nn; i++) free(names[i]); free(names);
      tmo_set(0);
    }
  }
  tmo_set(0);
  if (!bad) printf("R %ld ok pts=%d inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%ld modsign=%ld h=%lx\n", id, npts, ninst, gens, execs, steps, nontriv, modsign, h);
  free(T.v); memset(&T, 0, sizeof T);
  for (int k = 0; k < npts; k++) free(pts[k].inst.v);
  free(pts);
  case_free(c);
}
