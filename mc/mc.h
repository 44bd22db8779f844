/* Shared machinery of the bounded model checker for CLooG:
 *   - an independent reader of CLooG input text            (case.c)
 *   - the reference semantics: explicit enumeration of all
 *     statement instances and their dates                  (oracle.c)
 *   - an interpreter of CLooG's AST                        (astinterp.c)
 *   - an interpreter of the printed C / Fortran text       (textinterp.c)
 */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

typedef __int128 I;
#define MAXPAR 24
#define MAXDATE 24
#define MAXD 72            /* scattering + iterators + divs + params         */

typedef struct { int eq; I c[MAXD + 1]; } Row;    /* eq: 1 equality          */
typedef struct { int nrow; Row *row; int ndiv; } BSet;
typedef struct { int n; BSet *b; } Set;           /* union of basic sets     */

/* variable layout inside a row:
 *  context: [params | divs | cst]
 *  domain : [iters | divs | params | cst]
 *  scatt  : [scat | iters | divs | params | cst]                            */
typedef struct {
  int dim;                 /* number of iterators                            */
  Set dom;
  int nscat;               /* -1: no scattering                              */
  Set scat;
} Stmt;

typedef struct {
  char lang;
  int npar;
  Set ctx;
  char **parname;          /* NULL: default                                  */
  int nstmt;
  Stmt *st;
  char **itername;         /* NULL: default                                  */
  int maxdim;
  int nscatfun;            /* 0: none                                        */
  int maxscat;
  char **scatname;
} Case;

Case *case_parse(const char *text, const char **err);
void case_free(Case *c);

typedef struct {
  int stmt;                /* 1-based                                        */
  int dim, ndate;
  I it[24];
  I date[MAXDATE];
  int seen;
  int multi;               /* same point carries several dates               */
  int needed;              /* how many times it must be executed             */
} Inst;

typedef struct { int n, cap; Inst *v; int overflow; } InstList;

/* is `par` inside the context? */
extern I g_scat_box, g_div_box;
extern int g_safe;
int oracle_in_context(Case *c, const I *par);
/* all instances, sorted by (stmt, point); box limits iterators              */
void oracle_instances(Case *c, const I *par, I box, InstList *out);

/* ---- traces ---- */
typedef struct {
  int stmt; int dim; I it[24];
} Ev;
typedef struct { int n, cap; Ev *v; } Trace;
void trace_push(Trace *t, int stmt, int dim, const I *it);

/* verdicts of comparing a trace to the reference */
enum { V_OK, V_MISSING, V_EXTRA, V_DUP, V_ORDER, V_TIE, V_ARITY, V_RUNAWAY,
       V_UNBOUNDED, V_UNDEF, V_PARSE, V_OTHER };
extern const char *verdict_name[];

/* order: 0 none, 1 by scattering date, 2 also by iterators when there is no
 * scattering */
int compare_trace(Case *c, InstList *ref, Trace *t, int order, int ndates,
                  char *detail, int ndetail);

char *i128str(I v, char *buf);      /* buf >= 48 */

static inline I fdivI(I a, I b) { I q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
static inline I cdivI(I a, I b) { return -fdivI(-a, b); }

/* ---- AST ---- */
struct clast_stmt;
int ast_run(struct clast_stmt *root, Case *c, char **parname, const I *par,
            long budget, Trace *t, long *steps, char *detail, int nd);

/* hooks called by ast_run */
typedef struct {
  /* an executed statement call; env answers 1 and the value when the name is set */
  void (*user)(void *u, void *node, int ev, int (*get)(void *, const char *, I *), void *env);
  void (*enter)(void *u, void *fornode);   /* one iteration of a loop begins */
  void (*leave)(void *u, void *fornode);
  void *u;
} AstHooks;
extern AstHooks *g_hooks;

/* ---- worker ---- */
typedef struct { I par[MAXPAR]; InstList inst; } Point;
extern int g_pseq;         /* parameters take consecutive values, starting at every value of the box */
Point *enum_points(Case *c, long plo, long phi, I ibox, long maxinst, int *on, long *oinst);
unsigned long hmix(unsigned long h, unsigned long v);
unsigned long trace_hash(Trace *t);
extern long cur_id; extern int cur_opt; extern const char *cur_phase;
#define GETI(key, var) do { char *_k = strstr(hdr, " " key "="); if (_k) var = atol(_k + strlen(key) + 2); } while (0)
void hist_case(long id, const char *hdr, char *optstr, char *text);
void cc_case(long id, const char *hdr, char *optstr, char *text);
void set_case(long id, const char *hdr, char *text);
void ext_case(long id, const char *hdr, char *optstr, char *text);

/* ---- text ---- */
extern int g_bmod_floor;
typedef struct TProg TProg;
TProg *text_parse_c(const char *src, char *err, int nerr);
TProg *text_parse_f(const char *src, char *err, int nerr);
void text_free(TProg *p);
/* call names must be S<number> or one of stname[] (1-based, may be NULL) */
int text_run(TProg *p, char **parname, int npar, const I *par, int lang,
             int nstname, const char **stname, long budget, Trace *t, long *steps,
             char *detail, int nd);
void tmo_set(unsigned s);
#endif
