#define _GNU_SOURCE
#include "ref.h"
#include <math.h>
#include <sys/mman.h>

/* ---------------------------------------------------------------- arena */
static char *arena; static size_t arena_off; static const size_t arena_cap = 1u << 30;
void *ref_alloc(size_t n)
{
    if (!arena) arena = mmap(NULL, arena_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    n = (n + 15) & ~(size_t)15;
    if (arena_off + n > arena_cap) { fprintf(stderr, "reference arena full\n"); abort(); }
    void *p = arena + arena_off;
    arena_off += n;
    return p;
}
static size_t arena_base;
void ref_reset(void) { arena_off = arena_base; }
void ref_keep(void) { arena_base = arena_off; }
size_t ref_mark(void) { return arena_off; }
void ref_release(size_t m) { arena_off = m; }
char *ref_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = ref_alloc(n); memcpy(p, s, n); return p; }
char *ref_printf(const char *fmt, ...)
{
    va_list a; va_start(a, fmt);
    va_list b; va_copy(b, a);
    int n = vsnprintf(NULL, 0, fmt, a);
    va_end(a);
    char *p = ref_alloc((size_t)n + 1);
    vsnprintf(p, (size_t)n + 1, fmt, b);
    va_end(b);
    return p;
}

/* ---------------------------------------------------------------- operator sets */
void rctx_init(RCtx *c) { c->n = 0; c->glue = -1; }
const char *ref_intern(const char *s)
{
    static const char *slot[1 << 16];
    static char *room;
    static size_t left;
    size_t n = strlen(s) + 1;
    u64 h = mc_hash_str(s, 77);
    for (;; h++)
    {
        const char **p = &slot[h & 0xffff];
        if (*p && strcmp(*p, s)) continue;
        if (*p) return *p;
        if (left < n)
        {
            left = n > (1 << 20) ? n : 1 << 20;
            room = mmap(NULL, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (room == MAP_FAILED) abort();
        }
        memcpy(room, s, n);
        *p = room;
        room += n;
        left -= n;
        return *p;
    }
}
int rctx_add(RCtx *c, const char *name, RPlace place, int arity, int prec, bool left)
{
    ROp *o = &c->ops[c->n];
    memset(o, 0, sizeof *o);
    o->name = ref_intern(name);
    o->place = place; o->arity = arity; o->prec = prec; o->left = left;
    return c->n++;
}
const ROp *rctx_find(const RCtx *c, const char *name, RPlace place)
{
    for (int i = 0; i < c->n; i++) if (c->ops[i].place == place && !strcmp(c->ops[i].name, name)) return &c->ops[i];
    return NULL;
}
void rctx_arith(RCtx *c)
{
    /* README.md, sections "Infix operators" ... "Constants" */
    static const char *fn1[] = { "exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
        "tanh", "asinh", "acosh", "atanh", "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "fib", "gamma" };
    static const char *fn2[] = { "deriv", "root", "log", "gcd", "lcm", "rand" };
    static const char *fnd[] = { "max", "min", "sum", "prod", "avg", "var" };
    static const char *cst[] = { "pi", "e", "phi", "clight", "csound", "ans" };
    rctx_init(c);
    rctx_add(c, "+", R_INFIX, 2, 2, true);
    rctx_add(c, "-", R_INFIX, 2, 2, true);
    c->glue = rctx_add(c, "*", R_INFIX, 2, 4, true);
    rctx_add(c, "/", R_INFIX, 2, 3, true);
    rctx_add(c, "^", R_INFIX, 2, 5, false);
    rctx_add(c, "C", R_INFIX, 2, 1, true);
    rctx_add(c, "mod", R_INFIX, 2, 1, true);
    rctx_add(c, "$", R_PREFIX, 1, 0, true);
    rctx_add(c, "@", R_PREFIX, 1, 8, true);
    rctx_add(c, "+", R_PREFIX, 1, 7, true);
    rctx_add(c, "-", R_PREFIX, 1, 7, true);
    rctx_add(c, "!", R_POSTFIX, 1, 6, true);
    rctx_add(c, "%", R_POSTFIX, 1, 6, true);
    rctx_add(c, "'", R_POSTFIX, 1, 7, true);
    for (size_t i = 0; i < sizeof fn1 / sizeof *fn1; i++) rctx_add(c, fn1[i], R_FUNCTION, 1, 255, true);
    for (size_t i = 0; i < sizeof fn2 / sizeof *fn2; i++) rctx_add(c, fn2[i], R_FUNCTION, 2, 255, true);
    for (size_t i = 0; i < sizeof fnd / sizeof *fnd; i++) rctx_add(c, fnd[i], R_FUNCTION, R_DYN, 255, true);
    for (size_t i = 0; i < sizeof cst / sizeof *cst; i++) rctx_add(c, cst[i], R_FUNCTION, 0, 255, true);
}
ParsingContext rctx_build(const RCtx *c)
{
    ParsingContext res = ctx_create();
    for (int i = 0; i < c->n; i++)
    {
        const ROp *o = &c->ops[i];
        Operator op;
        switch (o->place)
        {
            case R_PREFIX: op = op_get_prefix(o->name, (Precedence)o->prec); break;
            case R_POSTFIX: op = op_get_postfix(o->name, (Precedence)o->prec); break;
            case R_INFIX: op = op_get_infix(o->name, (Precedence)o->prec, o->left ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT); break;
            default: op = op_get_function(o->name, o->arity == R_DYN ? OP_DYNAMIC_ARITY : (size_t)o->arity); break;
        }
        if (ctx_add_op(&res, op) == NULL) { fprintf(stderr, "ctx_add_op refuses %s\n", o->name); abort(); }
    }
    if (c->glue >= 0)
    {
        static const OpPlacement pl[] = { OP_PLACE_PREFIX, OP_PLACE_INFIX, OP_PLACE_POSTFIX, OP_PLACE_FUNCTION };
        const Operator *g = ctx_lookup_op(&res, c->ops[c->glue].name, pl[c->ops[c->glue].place]);
        ctx_set_glue_op(&res, g);
    }
    return res;
}

/* ---------------------------------------------------------------- tokens */
static bool letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'; }
static bool digit(char c) { return (c >= '0' && c <= '9') || c == '.'; }

static size_t longest_kw(const char **kw, int nkw, const char *s)
{
    size_t best = 0;
    for (int i = 0; i < nkw; i++)
    {
        size_t l = strlen(kw[i]);
        if (l > best && strncmp(kw[i], s, l) == 0) best = l;
    }
    return best;
}
int ref_tokenize_kw(const char **kw, int nkw, const char *s, char ***out)
{
    size_t len = strlen(s), i = 0;
    char **t = ref_alloc((len + 1) * sizeof(char *));
    int n = 0;
    while (i < len)
    {
        size_t j = i, k;
        if (letter(s[i])) { while (letter(s[j])) j++; }
        else if ((k = longest_kw(kw, nkw, s + i)) > 0) j = i + k;
        else if (digit(s[i])) { do j++; while (digit(s[j]) && longest_kw(kw, nkw, s + j) == 0); }
        else j = i + 1;
        char *p = ref_alloc(j - i + 1);
        memcpy(p, s + i, j - i);
        p[j - i] = 0;
        t[n++] = p;
        i = j;
    }
    *out = t;
    return n;
}
int ref_tokenize(const RCtx *c, const char *s, char ***out)
{
    const char *kw[256];
    for (int i = 0; i < c->n; i++) kw[i] = c->ops[i].name;
    return ref_tokenize_kw(kw, c->n, s, out);
}

/* ---------------------------------------------------------------- trees */
RT *rt_num(double v) { RT *t = ref_alloc(sizeof *t); *t = (RT){ .kind = 'n', .num = v }; return t; }
RT *rt_var(const char *name) { RT *t = ref_alloc(sizeof *t); *t = (RT){ .kind = 'v', .name = ref_strdup(name) }; return t; }
RT *rt_named(const char *name, RPlace place, int n, RT **ch)
{
    RT *t = ref_alloc(sizeof *t);
    RT **c = ref_alloc(sizeof(RT *) * (size_t)(n + 1));
    for (int i = 0; i < n; i++) c[i] = ch[i];
    *t = (RT){ .kind = 'o', .name = ref_strdup(name), .place = place, .n = n, .ch = c };
    return t;
}
RT *rt_op(const ROp *op, int n, RT **ch) { RT *t = rt_named(op->name, op->place, n, ch); t->arity_decl = op->arity; return t; }

typedef struct { const RCtx *c; char **t; int n, i; bool bad; } P;
static const char *pk(P *p) { while (p->i < p->n && p->t[p->i][0] == ' ') p->i++; return p->i < p->n ? p->t[p->i] : NULL; }
static bool is_open(const char *s) { return s && (!strcmp(s, "(") || !strcmp(s, "{")); }
static bool is_close(const char *s) { return s && (!strcmp(s, ")") || !strcmp(s, "}")); }
int ref_err_tok;
bool ref_err_arity;
static RT *bad(P *p) { pk(p); p->bad = true; ref_err_tok = p->i; ref_err_arity = false; return NULL; }
static RT *at(RT *t, int tok) { t->tok = tok; return t; }
static RT *expr(P *p, const ROp *frame);

static RT *primary(P *p)
{
    const char *s = pk(p);
    if (s == NULL || is_close(s) || !strcmp(s, ",")) return bad(p);
    if (is_open(s))
    {
        p->i++;
        RT *r = expr(p, NULL);
        if (p->bad || !is_close(pk(p))) return bad(p);
        p->i++;
        return r;
    }
    const ROp *f = rctx_find(p->c, s, R_FUNCTION);
    int here = p->i;
    if (f)
    {
        p->i++;
        if (f->arity == 0) return at(rt_op(f, 0, NULL), here);
        if (!is_open(pk(p))) return bad(p);
        p->i++;
        int cap_ = 16;
        RT **args = ref_alloc(sizeof(RT *) * 16);
        int n = 0;
        if (is_close(pk(p))) p->i++;
        else
        {
            for (;;)
            {
                if (n == cap_) { RT **q = ref_alloc(sizeof(RT *) * (size_t)(cap_ *= 4)); memcpy(q, args, sizeof(RT *) * (size_t)n); args = q; }
                args[n] = expr(p, NULL);
                if (p->bad) return NULL;
                n++;
                const char *d = pk(p);
                if (is_close(d)) { p->i++; break; }
                if (d == NULL || strcmp(d, ",") != 0) return bad(p);
                p->i++;
            }
        }
        if (f->arity != R_DYN && f->arity != n) { p->i = here; bad(p); ref_err_arity = true; return NULL; }
        return at(rt_op(f, n, args), here);
    }
    const ROp *pre = rctx_find(p->c, s, R_PREFIX);
    if (pre)
    {
        p->i++;
        RT *x = expr(p, pre);
        if (p->bad) return NULL;
        return at(rt_op(pre, 1, &x), here);
    }
    char *end;
    double v = strtod(s, &end);
    if (*end == 0) { p->i++; return rt_num(v); }
    if (rctx_find(p->c, s, R_INFIX) || rctx_find(p->c, s, R_POSTFIX)) return bad(p);
    if (!letter(s[0])) return bad(p);
    p->i++;
    return rt_var(s);
}

/* an operand of `frame` (NULL: of nothing): takes in every following operator that binds tighter */
static RT *expr(P *p, const ROp *frame)
{
    RT *l = primary(p);
    while (!p->bad)
    {
        const char *s = pk(p);
        if (s == NULL || is_close(s) || !strcmp(s, ",")) return l;
        const ROp *o = rctx_find(p->c, s, R_INFIX);
        bool glue = false;
        if (!o) o = rctx_find(p->c, s, R_POSTFIX);
        if (!o)
        {
            if (p->c->glue < 0) return bad(p);
            o = &p->c->ops[p->c->glue];
            glue = true;
        }
        if (o->place != R_FUNCTION && frame && (o->prec < frame->prec || (o->prec == frame->prec && (o->place == R_POSTFIX || o->left))))
            return l;
        int here = p->i;
        if (o->place == R_POSTFIX) { p->i++; l = at(rt_op(o, 1, &l), here); continue; }
        if (!glue) p->i++;
        RT *r = expr(p, o);
        if (p->bad) return NULL;
        l = at(rt_op(o, 2, (RT *[]){ l, r }), glue ? -1 : here);
    }
    return NULL;
}

RT *ref_parse_tokens(const RCtx *c, int n, char **tok)
{
    P p = { c, tok, n, 0, false };
    RT *r = expr(&p, NULL);
    if (p.bad) return NULL;
    if (pk(&p) != NULL) return bad(&p);
    return r;
}
RT *ref_parse(const RCtx *c, const char *s)
{
    char **t;
    int n = ref_tokenize(c, s, &t);
    return ref_parse_tokens(c, n, t);
}

static RPlace place_of(const Operator *o)
{
    switch (o->placement)
    {
        case OP_PLACE_PREFIX: return R_PREFIX;
        case OP_PLACE_INFIX: return R_INFIX;
        case OP_PLACE_POSTFIX: return R_POSTFIX;
        default: return R_FUNCTION;
    }
}
static bool num_eq(double a, double b) { return a == b || (isnan(a) && isnan(b)); }
bool rt_equals_node(const RT *t, const Node *n)
{
    if (t == NULL || n == NULL) return false;
    switch (get_type(n))
    {
        case NTYPE_CONSTANT: return t->kind == 'n' && num_eq(t->num, get_const_value(n));
        case NTYPE_VARIABLE: return t->kind == 'v' && !strcmp(t->name, get_var_name(n));
        case NTYPE_OPERATOR:
            if (t->kind != 'o' || strcmp(t->name, get_op(n)->name) || t->place != place_of(get_op(n))
                || (size_t)t->n != get_num_children(n)) return false;
            for (int i = 0; i < t->n; i++) if (!rt_equals_node(t->ch[i], get_child(n, (size_t)i))) return false;
            return true;
    }
    return false;
}
bool rt_equals(const RT *a, const RT *b)
{
    if (a == b) return true;
    if (!a || !b || a->kind != b->kind) return false;
    if (a->kind == 'n') return num_eq(a->num, b->num);
    if (strcmp(a->name, b->name)) return false;
    if (a->kind == 'v') return true;
    if (a->place != b->place || a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) if (!rt_equals(a->ch[i], b->ch[i])) return false;
    return true;
}
RT *rt_from_node(const Node *n)
{
    switch (get_type(n))
    {
        case NTYPE_CONSTANT: return rt_num(get_const_value(n));
        case NTYPE_VARIABLE: return rt_var(get_var_name(n));
        default: break;
    }
    size_t k = get_num_children(n);
    RT **ch = ref_alloc(sizeof(RT *) * (k + 1));
    for (size_t i = 0; i < k; i++) ch[i] = rt_from_node(get_child(n, i));
    RT *t = rt_named(get_op(n)->name, place_of(get_op(n)), (int)k, ch);
    t->arity_decl = get_op(n)->arity == OP_DYNAMIC_ARITY ? R_DYN : (int)get_op(n)->arity;
    return t;
}
static void show(const RT *t, char **p, char *end)
{
    if (*p + 400 >= end) { if (*p + 4 < end) *p += sprintf(*p, ".."); return; }
    if (t == NULL) { *p += sprintf(*p, "NULL"); return; }
    if (t->kind == 'n') { *p += sprintf(*p, "%.17g", t->num); return; }
    if (t->kind == 'v') { *p += sprintf(*p, "%.100s", t->name); return; }
    static const char *pl[] = { "pre", "in", "post", "fn" };
    *p += sprintf(*p, "%s:%.100s(", pl[t->place], t->name);
    for (int i = 0; i < t->n; i++)
    {
        if (i) *p += sprintf(*p, ", ");
        show(t->ch[i], p, end);
    }
    *p += sprintf(*p, ")");
}
const char *rt_show(const RT *t)
{
    size_t cap = 6000;
    char *b = ref_alloc(cap), *p = b;
    *b = 0;
    show(t, &p, b + cap);
    return b;
}
u64 rt_hash(const RT *t)
{
    if (t == NULL) return 17;
    u64 h = mc_mix((u64)t->kind, (u64)t->n);
    if (t->kind == 'n') return mc_mix(h, mc_hash(&t->num, sizeof t->num, 3));
    h = mc_mix(h, mc_hash_str(t->name, 5 + (u64)t->place));
    for (int i = 0; i < t->n; i++) h = mc_mix(h, rt_hash(t->ch[i]));
    return h;
}
static void vars(const RT *t, const char **names, int cap, int *n)
{
    if (t->kind == 'v')
    {
        for (int i = 0; i < *n && i < cap; i++) if (!strcmp(names[i], t->name)) return;
        if (*n < cap) names[*n] = t->name;
        (*n)++;
    }
    else if (t->kind == 'o') for (int i = 0; i < t->n; i++) vars(t->ch[i], names, cap, n);
}
int rt_count_vars(const RT *t, const char **names, int cap) { int n = 0; vars(t, names, cap, &n); return n; }
RT *rt_subst(const RT *t, int nv, const char **names, RT *const *with)
{
    if (t->kind == 'n') return (RT *)t;
    if (t->kind == 'v')
    {
        for (int i = 0; i < nv; i++) if (!strcmp(names[i], t->name)) return with[i];
        return (RT *)t;
    }
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(t->n + 1));
    for (int i = 0; i < t->n; i++) ch[i] = rt_subst(t->ch[i], nv, names, with);
    RT *r = rt_named(t->name, t->place, t->n, ch);
    r->arity_decl = t->arity_decl;
    return r;
}
Node *rt_to_node(const RT *t, const ParsingContext *ctx)
{
    if (t->kind == 'n') return malloc_constant_node(t->num, 0);
    if (t->kind == 'v') return malloc_variable_node(t->name, 0, 0);
    static const OpPlacement pl[] = { OP_PLACE_PREFIX, OP_PLACE_INFIX, OP_PLACE_POSTFIX, OP_PLACE_FUNCTION };
    const Operator *op = ctx_lookup_op(ctx, t->name, pl[t->place]);
    if (!op) { fprintf(stderr, "rt_to_node: no operator %s\n", t->name); abort(); }
    Node *n = malloc_operator_node(op, (size_t)t->n, 0);
    for (int i = 0; i < t->n; i++) set_child(n, (size_t)i, rt_to_node(t->ch[i], ctx));
    return n;
}
int rt_size(const RT *t) { int s = 1; for (int i = 0; i < t->n; i++) s += rt_size(t->ch[i]); return s; }
int rt_depth(const RT *t) { int d = 0; for (int i = 0; i < t->n; i++) { int x = rt_depth(t->ch[i]); if (x > d) d = x; } return d + 1; }

/* ---------------------------------------------------------------- enumeration of trees */
typedef struct { const TSym *s; int n; bool cyc; int shift, nleaf, leaf[64]; void (*emit)(const char *); char buf[256]; } TE;
static bool is_leaf(const TSym *s) { return s->kind != 'o' || s->arity == 0; }
static void te_rec(TE *e, int len, int pending, int ops, int leaves)
{
    if (pending == 0) { e->buf[len] = 0; e->emit(e->buf); return; }
    if (e->cyc) { e->buf[len] = e->s[e->leaf[(leaves + e->shift) % e->nleaf]].code; te_rec(e, len + 1, pending - 1, ops, leaves + 1); }
    else for (int i = 0; i < e->nleaf; i++) { e->buf[len] = e->s[e->leaf[i]].code; te_rec(e, len + 1, pending - 1, ops, leaves + 1); }
    if (ops > 0)
        for (int i = 0; i < e->n; i++)
        {
            if (is_leaf(&e->s[i])) continue;
            e->buf[len] = e->s[i].code;
            te_rec(e, len + 1, pending - 1 + e->s[i].arity, ops - 1, leaves);
        }
}
void tsym_enum(const TSym *syms, int n, int maxops, bool cyc, int shift, void (*emit)(const char *))
{
    TE e = { .s = syms, .n = n, .cyc = cyc, .shift = shift, .emit = emit };
    for (int i = 0; i < n; i++) if (is_leaf(&syms[i])) e.leaf[e.nleaf++] = i;
    te_rec(&e, 0, 1, maxops, 0);
}
static RT *td_rec(const TSym *s, int n, const char **p)
{
    for (int i = 0; i < n; i++)
    {
        if (s[i].code != **p || **p == 0) continue;
        (*p)++;
        if (s[i].kind == 'n') return rt_num(s[i].num);
        if (s[i].kind == 'v') return rt_var(s[i].name);
        RT *ch[16];
        for (int k = 0; k < s[i].arity; k++) { ch[k] = td_rec(s, n, p); if (!ch[k]) return NULL; }
        return rt_named(s[i].name, s[i].place, s[i].arity, ch);
    }
    return NULL;
}
RT *tsym_decode(const TSym *syms, int n, const char *code)
{
    RT *t = td_rec(syms, n, &code);
    return *code ? NULL : t;
}

/* ---------------------------------------------------------------- values */
bool ref_close(double a, double b, double rel)
{
    if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
    if (isinf(a) || isinf(b)) return a == b;
    double d = fabs(a - b), m = fmax(fabs(a), fabs(b));
    return d <= rel * m || d <= rel * 1e-3;
}

static double gcd_d(double a, double b)
{
    a = fabs(trunc(a)); b = fabs(trunc(b));
    if (!isfinite(a) || !isfinite(b)) return NAN;
    while (b != 0) { double r = fmod(a, b); a = b; b = r; }
    return a;
}

RStatus ref_op_value(const char *name, RPlace place, int n, const double *a, const RHist *h, double *out)
{
    double r = 0;
#define IS(s) (strcmp(name, s) == 0)
    if (place == R_INFIX)
    {
        double x = a[0], y = a[1];
        if (IS("+")) r = x + y;
        else if (IS("-")) r = x - y;
        else if (IS("*")) r = x * y;
        else if (IS("/")) { if (y == 0) return RV_DIVZERO; r = x / y; }
        else if (IS("^"))
        {
            if (x == 0 && y <= 0) return RV_DIVZERO;
            if (x < 0 && y != trunc(y)) return RV_COMPLEX;
            r = pow(x, y);
        }
        else if (IS("C"))
        {
            /* n choose k over the truncated magnitudes */
            double nn = fabs(trunc(x)), k = fabs(trunc(y));
            if (k > nn) r = 0;
            else
            {
                if (k > nn - k) k = nn - k;
                r = 1;
                for (double i = 1; i <= k && !isinf(r); i++) r = r * (nn - k + i) / i;
            }
        }
        else if (IS("mod")) r = fmod(x, y);
        else return RV_UNKNOWN;
    }
    else if (place == R_PREFIX)
    {
        if (IS("$") || IS("+")) r = a[0];
        else if (IS("-")) r = -a[0];
        else if (IS("@"))
        {
            double i = trunc(a[0]);
            if (!(i >= 0 && i < h->n)) return RV_HISTORY;
            r = h->v[h->n - 1 - (int)i];
        }
        else return RV_UNKNOWN;
    }
    else if (place == R_POSTFIX)
    {
        if (IS("!"))
        {
            r = 1;
            if (isinf(a[0])) r = INFINITY;
            else for (double i = 2; i <= trunc(a[0]); i++) { r *= i; if (isinf(r)) break; }
        }
        else if (IS("%")) r = a[0] / 100;
        else if (IS("'")) return RV_DERIV;
        else return RV_UNKNOWN;
    }
    else
    {
        double x = n > 0 ? a[0] : 0, y = n > 1 ? a[1] : 0;
        if (IS("deriv")) return RV_DERIV;
        else if (IS("exp")) r = exp(x);
        else if (IS("root")) { if (!(x >= 0)) return RV_COMPLEX; r = pow(x, 1 / y); }
        else if (IS("sqrt")) { if (!(x >= 0)) return RV_COMPLEX; r = sqrt(x); }
        else if (IS("log")) r = log(x) / log(y);
        else if (IS("ln")) r = log(x);
        else if (IS("ld")) r = log2(x);
        else if (IS("lg")) r = log10(x);
        else if (IS("sin")) r = sin(x);
        else if (IS("cos")) r = cos(x);
        else if (IS("tan")) r = tan(x);
        else if (IS("asin")) r = asin(x);
        else if (IS("acos")) r = acos(x);
        else if (IS("atan")) r = atan(x);
        else if (IS("sinh")) r = sinh(x);
        else if (IS("cosh")) r = cosh(x);
        else if (IS("tanh")) r = tanh(x);
        else if (IS("asinh")) r = asinh(x);
        else if (IS("acosh")) r = acosh(x);
        else if (IS("atanh")) r = atanh(x);
        else if (IS("abs")) r = fabs(x);
        else if (IS("ceil")) r = ceil(x);
        else if (IS("floor")) r = floor(x);
        else if (IS("round")) r = round(x);
        else if (IS("trunc")) r = trunc(x);
        else if (IS("frac")) r = x - floor(x);
        else if (IS("sgn")) r = x < 0 ? -1 : x > 0 ? 1 : 0;
        else if (IS("max")) { r = -INFINITY; for (int i = 0; i < n; i++) if (a[i] > r) r = a[i]; }
        else if (IS("min")) { r = INFINITY; for (int i = 0; i < n; i++) if (a[i] < r) r = a[i]; }
        else if (IS("sum")) { r = 0; for (int i = 0; i < n; i++) r += a[i]; }
        else if (IS("prod")) { r = 1; for (int i = 0; i < n; i++) r *= a[i]; }
        else if (IS("avg")) { r = 0; for (int i = 0; i < n; i++) r += a[i]; if (n) r /= n; }
        else if (IS("var"))
        {
            double m = 0; r = 0;
            for (int i = 0; i < n; i++) m += a[i];
            m /= n;
            for (int i = 0; i < n; i++) r += (a[i] - m) * (a[i] - m);
            r /= n;
        }
        else if (IS("gcd")) r = gcd_d(x, y);
        else if (IS("lcm")) { double g = gcd_d(x, y); r = fabs(trunc(x) * trunc(y)) / g; }
        else if (IS("fib"))
        {
            double k = fabs(trunc(x)), f0 = 0, f1 = 1;
            for (double i = 0; i < k && i < 2000; i++) { double t = f0 + f1; f0 = f1; f1 = t; }
            r = f0;
            if (x < 0 && fmod(k, 2) == 0) r = -r;
        }
        else if (IS("gamma")) r = tgamma(x);
        else if (IS("pi")) r = 3.14159265359;
        else if (IS("e")) r = 2.71828182846;
        else if (IS("phi")) r = 1.61803398874;
        else if (IS("clight")) r = 299792458;
        else if (IS("csound")) r = 343.2;
        else if (IS("ans")) { if (h->n == 0) return RV_HISTORY; r = h->v[h->n - 1]; }
        else return RV_UNKNOWN;
    }
#undef IS
    *out = r;
    return RV_OK;
}

/* every inexact intermediate value moved by a few ulps; mode 0..2: up, down, alternating */
static double jig(double v, int mode, int *cnt)
{
    if (isnan(v) || isinf(v)) return v;
    if (fabs(v) < 1e13 && v * 1024 == trunc(v * 1024)) return v;
    int up = mode == 0 ? 1 : mode == 1 ? 0 : (*cnt)++ & 1;
    return v * (1 + (up ? 8e-16 : -8e-16));
}
static RStatus jig_eval(const RT *t, const RHist *h, int nv, const char **names, const double *vals, int mode, int *cnt, double *out)
{
    double *a = t->n > 16 ? ref_alloc(sizeof(double) * (size_t)t->n) : (double[16]){ 0 }, v;
    RStatus s;
    if (t->kind == 'n') v = t->num;
    else if (t->kind == 'v') return ref_eval(t, h, nv, names, vals, out);
    else
    {
        for (int i = 0; i < t->n; i++) if ((s = jig_eval(t->ch[i], h, nv, names, vals, mode, cnt, &a[i])) != RV_OK) return s;
        if ((s = ref_op_value(t->name, t->place, t->n, a, h, &v)) != RV_OK) return s;
    }
    *out = jig(v, mode, cnt);
    /* exp may be computed with the documented e, which has 12 digits */
    if (t->kind == 'o' && t->n == 1 && !strcmp(t->name, "exp")) *out = v * (1 + (mode ? -1 : 1) * 4e-12 * (1 + fabs(a[0])));
    return RV_OK;
}
/* the value and how far rounding of inexact intermediate values moves it; false when it is undefined or rounding decides whether it is */
bool ref_spread(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double *v, double *spread)
{
    double w;
    *spread = 0;
    if (ref_eval(t, h, nv, names, vals, v) != RV_OK || !isfinite(*v)) return false;
    for (int m = 0; m < 3; m++)
    {
        int cnt = 0;
        if (jig_eval(t, h, nv, names, vals, m, &cnt, &w) != RV_OK || !isfinite(w)) return false;
        if (fabs(*v - w) > *spread) *spread = fabs(*v - w);
    }
    return true;
}
/* undefined however the inexact intermediate values are rounded */
bool ref_never_defined(const RT *t, const RHist *h, int nv, const char **names, const double *vals)
{
    double w;
    for (int m = 0; m < 3; m++)
    {
        int cnt = 0;
        if (jig_eval(t, h, nv, names, vals, m, &cnt, &w) == RV_OK && isfinite(w)) return false;
    }
    return true;
}
bool ref_well_conditioned(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double rel)
{
    double v, w;
    if (ref_eval(t, h, nv, names, vals, &v) != RV_OK) return false;
    for (int m = 0; m < 3; m++)
    {
        int cnt = 0;
        if (jig_eval(t, h, nv, names, vals, m, &cnt, &w) != RV_OK || isnan(v) != isnan(w) || isinf(v) != isinf(w)) return false;
        if (!isnan(v) && !isinf(v) && fabs(v - w) > rel * fmax(fabs(v), fabs(w))) return false;
    }
    return true;
}

RStatus ref_eval(const RT *t, const RHist *h, int nv, const char **names, const double *vals, double *out)
{
    if (t->kind == 'n') { *out = t->num; return RV_OK; }
    if (t->kind == 'v')
    {
        for (int i = 0; i < nv; i++) if (!strcmp(names[i], t->name)) { *out = vals[i]; return RV_OK; }
        return RV_VAR;
    }
    double small[16], *a = t->n > 16 ? ref_alloc(sizeof(double) * (size_t)t->n) : small;
    for (int i = 0; i < t->n; i++)
    {
        RStatus s = ref_eval(t->ch[i], h, nv, names, vals, &a[i]);
        if (s != RV_OK) return s;
    }
    return ref_op_value(t->name, t->place, t->n, a, h, out);
}
