/* Worker: explores a stream of bounded programs.
 *
 * stdin:  CASE <id> <nbytes> <key=value>... | <opts 1> | <opts 2> ...\n<text>
 * stdout: B <id>                         (begin)
 *         R <id> ok pts=.. inst=.. gens=.. steps=.. h=<hash>...
 *         R <id> FAIL <kind> opt=<k> par=<..> :: <detail>
 *
 * For every option vector of a case the real CLooG library generates the AST
 * (and/or the text), which is executed for every parameter vector of the box
 * inside the context, and compared with the reference enumeration.
 */
#include "mc.h"
#include <sys/time.h>
#include <unistd.h>

/* seconds of processor time the coming phase may take; ten times as long on
 * the wall clock, so that a busy machine does not look like a hang */
void tmo_set(unsigned s)
{
  struct itimerval it = { { 0, 0 }, { s, 0 } };
  setitimer(ITIMER_PROF, &it, NULL);
  alarm(s * 10);
}

#include <signal.h>
#include <unistd.h>
#include <ctype.h>
#include <sys/resource.h>
#include <cloog/isl/cloog.h>

long cur_id = -1;
int cur_opt = -1;
static int quiet_exit = 0;
const char *cur_phase = "";

static void put(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
static void on_sig(int s)
{
  char b[200];
  snprintf(b, sizeof b, "\nR %ld FAIL %s opt=%d par= :: signal %d during %s\n", cur_id,
           s == SIGALRM || s == SIGPROF ? "HANG" : "CRASH", cur_opt, s, cur_phase);
  put(b);
  _exit(3);
}
static void on_exit_(void)
{
  if (quiet_exit) return;
  fflush(stdout);
  char b[200];
  snprintf(b, sizeof b, "\nR %ld FAIL DIE opt=%d par= :: the library ended the process during %s\n", cur_id, cur_opt, cur_phase);
  put(b);
}

static int intlist(const char *s, int **out)
{
  int n = 0; *out = NULL;
  while (*s) {
    *out = realloc(*out, (n + 1) * sizeof(int));
    (*out)[n++] = atoi(s);
    while (*s && *s != ',') s++;
    if (*s == ',') s++;
  }
  return n;
}

void apply_opts(CloogOptions *o, const char *s)
{
  char buf[1024]; snprintf(buf, sizeof buf, "%s", s);
  char *save = NULL, *t = strtok_r(buf, " ", &save);
  o->quiet = 1;
  while (t) {
    char *v = NULL;
#define ARG (v = strtok_r(NULL, " ", &save), v ? atoi(v) : 0)
    if (!strcmp(t, "-l")) o->l = ARG;
    else if (!strcmp(t, "-f")) o->f = ARG;
    else if (!strcmp(t, "-stop")) o->stop = ARG;
    else if (!strcmp(t, "-strides")) o->strides = ARG;
    else if (!strcmp(t, "-sh")) o->sh = ARG;
    else if (!strcmp(t, "-first-unroll")) o->first_unroll = ARG;
    else if (!strcmp(t, "-otl")) o->otl = ARG;
    else if (!strcmp(t, "-esp")) o->esp = ARG;
    else if (!strcmp(t, "-fsp")) o->fsp = ARG;
    else if (!strcmp(t, "-block")) o->block = ARG;
    else if (!strcmp(t, "-compilable")) o->compilable = ARG;
    else if (!strcmp(t, "-callable")) o->callable = ARG;
    else if (!strcmp(t, "-save-domains")) o->save_domains = ARG;
    else if (!strcmp(t, "-backtrack")) o->backtrack = 1;
    else if (!strcmp(t, "-override")) o->override = 1;
    else if (!strcmp(t, "-noblocks")) o->noblocks = 1;
    else if (!strcmp(t, "-noscalars")) o->noscalars = 1;
    else if (!strcmp(t, "-nosimplify")) o->nosimplify = 1;
    else if (!strcmp(t, "-fs")) { v = strtok_r(NULL, " ", &save); o->fs_ls_size = intlist(v, &o->fs); }
    else if (!strcmp(t, "-ls")) { v = strtok_r(NULL, " ", &save); o->fs_ls_size = intlist(v, &o->ls); }
    else { fprintf(stderr, "bad option %s\n", t); quiet_exit = 1; exit(9); }
    t = strtok_r(NULL, " ", &save);
  }
}


unsigned long hmix(unsigned long h, unsigned long v) { h ^= v; h *= 1099511628211ul; return h ^ (h >> 29); }
unsigned long trace_hash(Trace *t)
{
  unsigned long h = 1469598103934665603ul;
  for (int i = 0; i < t->n; i++) {
    h = hmix(h, t->v[i].stmt);
    for (int j = 0; j < t->v[i].dim; j++) h = hmix(h, (unsigned long)t->v[i].it[j]);
  }
  return h;
}

int g_pseq;
Point *enum_points(Case *c, long plo, long phi, I ibox, long maxinst, int *on, long *oinst)
{
  Point *pts = malloc(sizeof *pts); int npts = 0; long ninst = 0;
  I cur[MAXPAR];
  if (c->npar > MAXPAR) { free(pts); return NULL; }
  memset(cur, 0, sizeof cur);
  for (int i = 0; i < c->npar; i++) cur[i] = plo + (g_pseq ? i : 0);
  for (;;) {
    if (oracle_in_context(c, cur)) {
      pts = realloc(pts, (npts + 1) * sizeof *pts);
      memset(&pts[npts], 0, sizeof *pts);
      memcpy(pts[npts].par, cur, sizeof cur);
      oracle_instances(c, cur, ibox, &pts[npts].inst);
      ninst += pts[npts].inst.n;
      if (pts[npts].inst.overflow || ninst > maxinst) {
        for (int k = 0; k <= npts; k++) free(pts[k].inst.v);
        free(pts); return NULL;
      }
      npts++;
    }
    if (g_pseq) {
      if (!c->npar || ++cur[0] > phi) break;
      for (int i = 1; i < c->npar; i++) cur[i] = cur[0] + i;
      continue;
    }
    int k = c->npar - 1;
    while (k >= 0 && ++cur[k] > phi) cur[k--] = plo;
    if (k < 0) break;
  }
  *on = npts; *oinst = ninst;
  return pts;
}


/* do the library's own allocation counters balance? */
int counters_off(CloogState *s, char *d, int nd)
{
  if (s->block_allocated == s->block_freed && s->domain_allocated == s->domain_freed &&
      s->loop_allocated == s->loop_freed && s->statement_allocated == s->statement_freed) return 0;
  snprintf(d, nd, "allocated/freed: block %d/%d domain %d/%d loop %d/%d statement %d/%d", s->block_allocated, s->block_freed,
           s->domain_allocated, s->domain_freed, s->loop_allocated, s->loop_freed, s->statement_allocated, s->statement_freed);
  return 1;
}

static void do_case(long id, const char *hdr, char *optstr, char *text)
{
  const char *perr = NULL;
  char detail[600], b1[48];
  long plo = -2, phi = 4, order = 2, mode = 1, ndates = -1, tmo = 20, box = 200, budget = 400000, maxinst = 200000, dump = 0;
  long big = 0, mem = 0;
  GETI("mem", mem);
  GETI("plo", plo); GETI("phi", phi); GETI("order", order); GETI("mode", mode);
  GETI("ndates", ndates); GETI("tmo", tmo); GETI("box", box); GETI("budget", budget); GETI("dump", dump); GETI("big", big); g_pseq = 0; GETI("pseq", g_pseq);
  I ibox = box;
  g_scat_box = 100000; g_div_box = 4096;
  g_safe = big != 0;
  if (big) { ibox = (I)1 << 100; g_scat_box = (I)1 << 104; g_div_box = (I)1 << 104; }
  cur_id = id; cur_opt = -1; cur_phase = "reference";
  /* "reference text \1 text given to the library" */
  char *alt = strchr(text, 1);
  if (alt) *alt++ = 0;
  const char *libtext = alt ? alt : text;
  Case *c = case_parse(text, &perr);
  if (perr) { printf("R %ld FAIL HARNESS opt=-1 par= :: reference reader: %s\n", id, perr); case_free(c); return; }
  char *defpar[MAXPAR]; char defbuf[MAXPAR][2];
  for (int i = 0; i < MAXPAR; i++) { defbuf[i][0] = 'M' + i; defbuf[i][1] = 0; defpar[i] = defbuf[i]; }
  char **parname = c->parname ? c->parname : defpar;

  int npts = 0; long ninst = 0;
  tmo_set((unsigned)tmo * 3);
  /* mem=1: only the memory behaviour of the library counts, nothing is executed */
  Point *pts = mem ? malloc(1) : enum_points(c, plo, phi, ibox, maxinst, &npts, &ninst);
  if (!pts) {
    printf("R %ld SKIP unbounded or too large for the box\n", id);
    tmo_set(0); case_free(c); return;
  }
  long gens = 0, steps = 0, execs = 0, modsign = 0;
  int bad = 0;
  Trace tr = {0};
  unsigned long h = 7, nontriv = 0;
  char *save = NULL;
  int oi = 0;
  int compactpar = 0; (void)compactpar;
  for (char *o = strtok_r(optstr, "|", &save); o; o = strtok_r(NULL, "|", &save), oi++) {
    cur_opt = oi; cur_phase = "generation";
    int cmode = (int)mode;
    char *mm = strstr(o, "mode:");
    char obuf[1024]; snprintf(obuf, sizeof obuf, "%s", o);
    if (mm) { cmode = atoi(mm + 5); obuf[mm - o] = 0; }
    tmo_set((unsigned)tmo);
    CloogState *state = cloog_state_malloc();
    CloogOptions *opt = cloog_options_malloc(state);
    apply_opts(opt, obuf);
    FILE *f = fmemopen((void *)libtext, strlen(libtext), "r");
    CloogInput *in = cloog_input_read(f, opt);
    fclose(f);
    if (cmode & 4) opt->language = CLOOG_LANGUAGE_FORTRAN;
    else opt->language = CLOOG_LANGUAGE_C;
    CloogProgram *prog = cloog_program_alloc(in->context, in->ud, opt);
    free(in);
    prog = cloog_program_generate(prog, opt);
    gens++;
    struct clast_stmt *root = NULL;
    char *txt = NULL; size_t ntxt = 0;
    TProg *tp = NULL;
    int v = V_OK; const char *what = "ast";
    if (cmode & 1) root = cloog_clast_create(prog, opt);
    if (cmode & 6) {
      FILE *m = open_memstream(&txt, &ntxt);
      cloog_program_pprint(m, prog, opt);
      fclose(m);
      if (dump) fprintf(stderr, "--- opt %d: %s\n%s", oi, o, txt);
      if (mem) {
        for (size_t q = 0; q < ntxt; q++) h = hmix(h, (unsigned char)txt[q]);
        execs++; ninst++; steps += 7; nontriv += ntxt > 0;
      }
      cur_phase = "parsing the text";
      if (!mem) tp = (cmode & 4) ? text_parse_f(txt, detail, sizeof detail) : text_parse_c(txt, detail, sizeof detail);
      if (!mem && !tp) { v = V_PARSE; what = (cmode & 4) ? "fortran" : "c"; }
    }
    if (dump && root) clast_pprint(stderr, root, 0, opt);
    cur_phase = "executing generated code";
    tmo_set((unsigned)tmo * 3);
    int k = 0;
    for (k = 0; k < npts && v == V_OK; k++) {
      if (root) {
        what = "ast";
        v = ast_run(root, c, parname, pts[k].par, budget, &tr, &steps, detail, sizeof detail);
        if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, (int)ndates, detail, sizeof detail);
        execs++; h = hmix(h, trace_hash(&tr)); if (tr.n) nontriv++;
      }
      if (v == V_OK && tp) {
        what = (cmode & 4) ? "fortran" : "c";
        v = text_run(tp, parname, c->npar, pts[k].par, !!(cmode & 4), 0, NULL, budget, &tr, &steps, detail, sizeof detail);
        if (v == V_OK) v = compare_trace(c, &pts[k].inst, &tr, (int)order, (int)ndates, detail, sizeof detail);
        if (v != V_OK && !(cmode & 4) && strchr(txt, '%')) {
          /* known finding MODSIGN: is the sign of the remainder in bounded
           * modulo guards the only thing that is wrong? */
          char d2[600];
          g_bmod_floor = 1;
          int w = text_run(tp, parname, c->npar, pts[k].par, 0, 0, NULL, budget, &tr, &steps, d2, sizeof d2);
          g_bmod_floor = 0;
          if (w == V_OK) w = compare_trace(c, &pts[k].inst, &tr, (int)order, (int)ndates, d2, sizeof d2);
          if (w == V_OK) { v = V_OK; modsign++; }
        }
        execs++; h = hmix(h, trace_hash(&tr)); if (tr.n) nontriv++;
      }
    }
    if (v != V_OK) {
      printf("R %ld FAIL %s opt=%d par=", id, verdict_name[v], oi);
      if (k > 0) for (int i = 0; i < c->npar; i++) printf("%s%s", i ? "," : "", i128str(pts[k - 1].par[i], b1));
      printf(" :: [%s] %s\n", what, detail);
      bad = 1;
    }
    tmo_set((unsigned)tmo);
    cur_phase = "freeing";
    if (tp) text_free(tp);
    free(txt);
    if (root) cloog_clast_free(root);
    cloog_program_free(prog);
    cloog_options_free(opt);
    if (!bad && counters_off(state, detail, sizeof detail)) {
      printf("R %ld FAIL COUNTERS opt=%d par= :: %s\n", id, oi, detail);
      bad = 1;
    }
    cloog_state_free(state);
    tmo_set(0);
    if (bad) break;
  }
  if (!bad)
    printf("R %ld ok pts=%d inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%lu modsign=%ld h=%lx\n", id, npts, ninst, gens, execs, steps, nontriv, modsign, h);
  free(tr.v);
  for (int k = 0; k < npts; k++) free(pts[k].inst.v);
  free(pts);
  case_free(c);
}

int main(int argc, char **argv)
{
  long skip = argc > 1 ? atol(argv[1]) : 0, n = 0;
  static char line[65536];
  int asan = getenv("MC_KEEP_SIGNALS") != NULL;
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
  setvbuf(stdout, NULL, _IOLBF, 0);
  signal(SIGALRM, on_sig); signal(SIGPROF, on_sig);
  if (!asan) { signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); }
  atexit(on_exit_);
  while (fgets(line, sizeof line, stdin)) {
    long id, nb;
    if (sscanf(line, "CASE %ld %ld", &id, &nb) != 2) { fprintf(stderr, "bad header %s", line); quiet_exit = 1; return 9; }
    char *text = malloc(nb + 1);
    if (fread(text, 1, nb, stdin) != (size_t)nb) { fprintf(stderr, "short\n"); quiet_exit = 1; return 9; }
    text[nb] = 0;
    if (n++ >= skip) {
      char *nlp = strchr(line, '\n'); if (nlp) *nlp = 0;
      char *bar = strchr(line, '|');
      char *opts = bar ? bar + 1 : line + strlen(line);
      if (bar) *bar = 0;
      printf("B %ld\n", id);
      cur_id = id;
      char optbuf[65536]; snprintf(optbuf, sizeof optbuf, "%s", *opts ? opts : " ");
      if (strstr(line, " kind=")) ext_case(id, line, optbuf, text);
      else do_case(id, line, optbuf, text);
    }
    free(text);
  }
  quiet_exit = 1;
  printf("DONE %ld\n", n);
  return 0;
}
