/*
 * Independent reference model of ccalc: tokens, grammar, operator values, definitions, history.
 * Written from README.md and the header comments, in a different style (precedence climbing over
 * plain arrays) than the implementation.  Memory comes from an arena that ref_reset() empties.
 */
#pragma once
#include "mc.h"
#include "engine/parsing/context.h"
#include "engine/parsing/parser.h"
#include "engine/tree/node.h"
#include "engine/tree/operator.h"

void *ref_alloc(size_t n);
void ref_reset(void);
void ref_keep(void);                  /* everything allocated so far survives ref_reset */
size_t ref_mark(void);
void ref_release(size_t mark);
char *ref_strdup(const char *s);
const char *ref_intern(const char *s);    /* never released */
char *ref_printf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---- operators ---- */
#define R_DYN (-1)
typedef enum { R_PREFIX, R_INFIX, R_POSTFIX, R_FUNCTION } RPlace;
typedef struct {
    const char *name;     /* interned */
    RPlace place;
    int arity;            /* R_DYN: any */
    int prec;
    bool left;            /* infix associativity */
} ROp;

typedef struct {
    ROp ops[256];
    int n;
    int glue;             /* index into ops or -1 */
} RCtx;

void rctx_init(RCtx *c);
int rctx_add(RCtx *c, const char *name, RPlace place, int arity, int prec, bool left);
const ROp *rctx_find(const RCtx *c, const char *name, RPlace place);
void rctx_arith(RCtx *c);                                  /* the documented operator set */
ParsingContext rctx_build(const RCtx *c);                  /* the implementation's context for the same set */

/* ---- tokens ---- */
int ref_tokenize(const RCtx *c, const char *s, char ***out);      /* keywords = names of c's operators */
int ref_tokenize_kw(const char **kw, int nkw, const char *s, char ***out);

/* ---- trees ---- */
typedef struct RT {
    char kind;            /* 'n' number, 'v' variable, 'o' operator */
    double num;
    const char *name;     /* variable or operator name */
    RPlace place;
    int arity_decl;
    int n;
    struct RT **ch;
    int tok;              /* operators read from text: index of the token */
} RT;
RT *rt_num(double v);
RT *rt_var(const char *name);
RT *rt_op(const ROp *op, int n, RT **ch);
RT *rt_named(const char *name, RPlace place, int n, RT **ch);
RT *ref_parse_tokens(const RCtx *c, int n, char **tok);   /* NULL: not in the language */
RT *ref_parse(const RCtx *c, const char *s);
extern int ref_err_tok;                                   /* after a NULL: the token at which the text stops being the beginning of a correct one (end: count), */
extern bool ref_err_arity;                                /* or the function that has the wrong number of arguments */
bool rt_equals_node(const RT *t, const Node *n);
bool rt_equals(const RT *a, const RT *b);
RT *rt_from_node(const Node *n);
const char *rt_show(const RT *t);                         /* unambiguous prefix notation */
u64 rt_hash(const RT *t);
int rt_count_vars(const RT *t, const char **names, int cap);   /* distinct variables */
RT *rt_subst(const RT *t, int nv, const char **names, RT *const *with);
Node *rt_to_node(const RT *t, const ParsingContext *ctx); /* builds the implementation's tree */
int rt_size(const RT *t);
int rt_depth(const RT *t);

/* ---- enumeration of trees: a tree is written as its preorder string of symbol codes ---- */
typedef struct { char code; char kind; const char *name; RPlace place; int arity; double num; } TSym;   /* kind n, v or o; zero-arity operators are leaves */
/* every tree with at most maxops (non-leaf) operators; cyc: the i-th leaf is fixed to leaf symbol i mod #leaves (plus shift) */
void tsym_enum(const TSym *syms, int n, int maxops, bool cyc, int shift, void (*emit)(const char *code));
RT *tsym_decode(const TSym *syms, int n, const char *code);     /* NULL when the code is no tree */

/* ---- values ---- */
typedef enum { RV_OK, RV_VAR, RV_DIVZERO, RV_COMPLEX, RV_HISTORY, RV_DERIV, RV_UNKNOWN } RStatus;
typedef struct { int n; double v[64]; } RHist;            /* v[n-1] is the latest */
RStatus ref_op_value(const char *name, RPlace place, int n, const double *a, const RHist *h, double *out);
RStatus ref_eval(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double *out);
bool ref_spread(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double *v, double *spread);
bool ref_never_defined(const RT *t, const RHist *h, int nv, const char **names, const double *vals);
/* is the value insensitive to rounding of inexact intermediate values? */
bool ref_well_conditioned(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double rel);
bool ref_close(double a, double b, double rel);

/* ---- sessions ---- */
typedef struct { const char *name; int np; const char *params[12]; RT *body; bool constant; } RDef;
typedef struct { RCtx ctx; int ndefs; RDef defs[160]; RHist hist; } RSession;
