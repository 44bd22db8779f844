/* Histories of library operations: every sequence of operations up to a depth,
 * in one process each (the tree of sequences is walked by forking), each
 * result compared with the one obtained first thing in a fresh process. */
#include "mc.h"
#include <ctype.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cloog/isl/cloog.h>

void apply_opts(CloogOptions *o, const char *s);
int counters_off(CloogState *s, char *d, int nd);

enum { HP = 16, HO = 16 };
static char *prog_t[HP]; static int np_;
static char opt_t[HO][200]; static int no_;

typedef struct { int p, o, lang, share, keep, how; } Op;
typedef struct { volatile long nodes, seqs, nontriv; volatile int failed; char det[900]; volatile unsigned long h; } Shm;
static Shm *S;
static Op *L; static int nl;
static unsigned long *ref; static int *reflen;
static CloogState *sh_state; static CloogOptions *sh_opt[HO];
static struct { CloogProgram *p; struct clast_stmt *c; CloogOptions *o; CloogState *s; } kept[8];
static int nkept;

/* the first comment says when the text was generated */
static unsigned long text_hash(const char *t, int *len)
{
  unsigned long h = 1469598103934665603ul; int n = 0;
  if (!strncmp(t, "/* Generated", 12) || !strncmp(t, "! Generated", 11)) { const char *e = strchr(t, '\n'); if (e) t = e + 1; }
  for (; *t; t++, n++) h = hmix(h, (unsigned char)*t);
  *len = n;
  return h;
}

static char *do_op(const Op *op)
{
  CloogState *s; CloogOptions *o;
  if (op->share < 2) { if (!sh_state) sh_state = cloog_state_malloc(); s = sh_state; } else s = cloog_state_malloc();
  if (op->share == 0) {
    if (!sh_opt[op->o]) { sh_opt[op->o] = cloog_options_malloc(s); apply_opts(sh_opt[op->o], opt_t[op->o]); }
    o = sh_opt[op->o];
  } else { o = cloog_options_malloc(s); apply_opts(o, opt_t[op->o]); }
  /* the text says which language to print; any other letter than f means C */
  prog_t[op->p][0] = "cfx"[op->lang];
  FILE *f = fmemopen(prog_t[op->p], strlen(prog_t[op->p]), "r");
  CloogInput *in = cloog_input_read(f, o);
  fclose(f);
  char *t = NULL; size_t n = 0;
  FILE *m = open_memstream(&t, &n);
  CloogProgram *p = NULL; struct clast_stmt *c = NULL;
  if (op->how == 2) {           /* write the input back */
    cloog_input_dump_cloog(m, in, o);
    cloog_input_free(in);
  } else if (op->how == 1) {    /* straight to the AST */
    c = cloog_clast_create_from_input(in, o);
    clast_pprint(m, c, 0, o);
  } else {
    p = cloog_program_alloc(in->context, in->ud, o);
    free(in);
    p = cloog_program_generate(p, o);
    cloog_program_pprint(m, p, o);
  }
  fclose(m);
  if (op->keep && nkept < 8) {
    kept[nkept].p = p; kept[nkept].c = c; kept[nkept].o = op->share ? o : NULL; kept[nkept].s = op->share == 2 ? s : NULL; nkept++;
  } else {
    if (c) cloog_clast_free(c);
    if (p) cloog_program_free(p);
    if (op->share) cloog_options_free(o);
    if (op->share == 2) cloog_state_free(s);
  }
  return t;
}

static const char *seqstr(int *seq, int n)
{
  static char b[600]; int k = 0;
  for (int i = 0; i < n; i++) {
    Op *o = &L[seq[i]];
    k += snprintf(b + k, sizeof b - k, "%s(program %d, options %d '%s', %s, %s, %s, %s)", i ? " then " : "", o->p, o->o, opt_t[o->o], o->lang == 1 ? "Fortran" : o->lang ? "C (other letter)" : "C",
                  o->share == 0 ? "shared state and options" : o->share == 1 ? "shared state" : "new state", o->keep ? "kept" : "freed", o->how == 2 ? "written back" : o->how ? "ast" : "text");
  }
  return b;
}

static void finish_leaf(int *seq, int n)
{
  char d[300];
  for (int i = nkept - 1; i >= 0; i--) {
    if (kept[i].c) cloog_clast_free(kept[i].c);
    if (kept[i].p) cloog_program_free(kept[i].p);
    if (kept[i].o) cloog_options_free(kept[i].o);
    if (kept[i].s) cloog_state_free(kept[i].s);
  }
  for (int i = 0; i < no_; i++) if (sh_opt[i]) cloog_options_free(sh_opt[i]);
  if (sh_state) {
    if (counters_off(sh_state, d, sizeof d) && !S->failed) { S->failed = 1; snprintf(S->det, sizeof S->det, "%s: %s", seqstr(seq, n), d); }
    cloog_state_free(sh_state);
  }
}

static void walk(int *seq, int n, int depth, int first)
{
  for (int i = first < 0 ? 0 : first; i < (first < 0 ? nl : first + 1) && !S->failed; i++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      seq[n] = i;
      alarm(60);
      char *t = do_op(&L[i]); int len;
      unsigned long h = text_hash(t, &len);
      S->nodes++;
      S->h = hmix(S->h, h);
      if (h != ref[i] && !S->failed) {
        S->failed = 1;
        snprintf(S->det, sizeof S->det, "the last result of %s differs from that of a fresh process (%d bytes, expected %d)", seqstr(seq, n + 1), len, reflen[i]);
        if (getenv("MC_DUMP")) fprintf(stderr, "%s", t);
      }
      free(t);
      if (len > 0 && n > 0) S->nontriv++;
      if (n + 1 < depth && !S->failed) walk(seq, n + 1, depth, -1);
      else S->seqs++;
      if (n + 1 == depth) finish_leaf(seq, n + 1);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if ((!WIFEXITED(st) || WEXITSTATUS(st)) && !S->failed) {
      seq[n] = i;
      S->failed = 1;
      snprintf(S->det, sizeof S->det, "%s: the process ended with status 0x%x", seqstr(seq, n + 1), st);
    }
  }
}

void hist_case(long id, const char *hdr, char *optstr, char *text)
{
  long depth = 2, first = 0, tmo = 20, modes = 3, langs = 2, keeps = 2, hows = 1, count = 1, chain = 0;
  GETI("depth", depth); GETI("first", first); GETI("tmo", tmo); GETI("modes", modes); GETI("langs", langs); GETI("keeps", keeps); GETI("hows", hows); GETI("count", count); GETI("chain", chain);
  np_ = no_ = 0; nl = 0;
  for (char *p = text; p && np_ < HP;) { char *q = strchr(p, 1); if (q) *q++ = 0; prog_t[np_++] = p; p = q; }
  char *save = NULL;
  for (char *o = strtok_r(optstr, "|", &save); o && no_ < HO; o = strtok_r(NULL, "|", &save)) snprintf(opt_t[no_++], 200, "%s", o);
  long tot = (long)np_ * no_ * langs * modes * keeps * hows;
  L = calloc(tot, sizeof *L);
  for (int p = 0; p < np_; p++) for (int o = 0; o < no_; o++) for (int l = 0; l < langs; l++)
    for (int m = 0; m < modes; m++) for (int k = 0; k < keeps; k++) for (int h = 0; h < hows; h++) {
      /* modes: 2 = {all shared, nothing shared} */
      Op x = { p, o, l, modes == 2 ? 2 * m : m, k, h };
      L[nl++] = x;
    }
  if (first >= nl) { printf("R %ld ok pts=0 inst=0 gens=0 execs=0 steps=0 nontriv=0 modsign=0 h=0\n", id); free(L); return; }
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ref = calloc(nl, sizeof *ref); reflen = calloc(nl, sizeof *reflen);
  cur_phase = "histories"; cur_opt = 0;
  signal(SIGPROF, SIG_DFL);
  /* references: fresh processes with differently filled memory */
  for (int i = 0; i < nl && !S->failed; i++) {
    Op x = L[i];
    if (x.share || x.keep) {          /* same text as the plain one */
      for (int j = 0; j < i; j++) if (L[j].p == x.p && L[j].o == x.o && L[j].lang == x.lang && L[j].how == x.how && !L[j].share && !L[j].keep) { ref[i] = ref[j]; reflen[i] = reflen[j]; }
      if (reflen[i]) continue;
    }
    int fd[2]; if (pipe(fd)) abort();
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      mallopt(M_PERTURB, 0x5a);
      x.share = 2; x.keep = 0;
      char *t = do_op(&x); int len; unsigned long h = text_hash(t, &len);
      if (write(fd[1], &h, sizeof h) < 0 || write(fd[1], &len, sizeof len) < 0) _exit(2);
      _exit(0);
    }
    close(fd[1]);
    if (read(fd[0], &ref[i], sizeof ref[i]) != sizeof ref[i] || read(fd[0], &reflen[i], sizeof(int)) != sizeof(int)) {
      S->failed = 1; snprintf(S->det, sizeof S->det, "no reference for program %d options '%s'", x.p, opt_t[x.o]);
    }
    close(fd[0]);
    waitpid(pid, NULL, 0);
  }
  int seq[8];
  mallopt(M_PERTURB, 0xa5);
  if (chain) {
    /* one long history: every operation, `chain` times over, forwards and backwards in turn */
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      alarm((unsigned)tmo);
      for (long r = 0; r < chain && !S->failed; r++)
        for (int q = 0; q < nl && !S->failed; q++) {
          int i = r & 1 ? nl - 1 - q : q, len;
          char *t = do_op(&L[i]);
          unsigned long h = text_hash(t, &len);
          S->nodes++; S->h = hmix(S->h, h); if (len > 0) S->nontriv++;
          if (h != ref[i]) {
            S->failed = 1;
            seq[0] = i;
            snprintf(S->det, sizeof S->det, "after %ld operations the result of %s differs from that of a fresh process (%d bytes, expected %d)", r * nl + q, seqstr(seq, 1), len, reflen[i]);
          }
          free(t);
        }
      S->seqs++;
      if (!S->failed) finish_leaf(seq, 0);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if ((!WIFEXITED(st) || WEXITSTATUS(st)) && !S->failed) { S->failed = 1; snprintf(S->det, sizeof S->det, "long history: the process ended with status 0x%x", st); }
    count = 0;
  }
  for (long f = first; f < first + count && f < nl && !S->failed; f++) walk(seq, 0, (int)depth, (int)f);
  mallopt(M_PERTURB, 0);
  if (S->failed) printf("R %ld FAIL HISTORY opt=0 par= :: %s\n", id, S->det);
  else printf("R %ld ok pts=0 inst=%ld gens=%ld execs=%ld steps=%ld nontriv=%ld modsign=0 h=%lx\n", id, S->nodes, S->nodes, S->seqs, S->nodes, S->nontriv, S->h);
  munmap((void *)S, sizeof *S);
  free(L); free(ref); free(reflen);
}
