/* C16: get_all_matchings / get_matching / find_matching against the definition of matching. */
#include "refmatch.h"
#include "engine/tree/tree_util.h"
#include "engine/transformation/matching.h"

const char *mc_property = "C16";
static RCtx rc;
static ParsingContext ctx;

/* patterns and subjects are written in preorder with these symbols */
static const TSym psyms[] = {
    { 'x', 'v', "x" }, { 'y', 'v', "y" }, { 'a', 'v', "[a" }, { 'b', 'v', "[b" }, { '1', 'n', 0, 0, 0, 1 }, { 'z', 'v', "z" }, { '2', 'n', 0, 0, 0, 2 },
    { 'p', 'o', "pi", R_FUNCTION, 0 }, { 'c', 'v', "[c" }, { 'd', 'v', "[d" }, { 'u', 'v', "u" }, { 'v', 'v', "v" }, { 'w', 'v', "w" }, { 'q', 'v', "q" },
    { '+', 'o', "+", R_INFIX, 2 }, { '-', 'o', "-", R_PREFIX, 1 }, { '!', 'o', "-", R_INFIX, 2 },
    { 'Z', 'o', "sum", R_FUNCTION, 0 }, { 'A', 'o', "sum", R_FUNCTION, 1 }, { 'B', 'o', "sum", R_FUNCTION, 2 }, { 'C', 'o', "sum", R_FUNCTION, 3 }, { 'D', 'o', "sum", R_FUNCTION, 4 },
    { 'E', 'o', "sum", R_FUNCTION, 5 }, { 'F', 'o', "sum", R_FUNCTION, 6 }, { 'Q', 'o', "prod", R_FUNCTION, 2 }, { 'R', 'o', "prod", R_FUNCTION, 1 }, { 'S', 'o', "prod", R_FUNCTION, 3 },
};
static const int np = (int)(sizeof psyms / sizeof *psyms);

static const char *pelem[] = { "x", "y", "a", "b", "1", "-x", "Aa", "Bxb", "+xy", "Z" };      /* operands of patterns */
static const char *selem[] = { "1", "z", "Z", "A1", "Bz1", "+1z", "-1", "-z" };                /* operands of subjects */
#define NPE 10
#define NSE 8
static const char rootof[] = "ZABCDEF";

typedef struct { RT *t; Node *n; } Subj;
static Subj *subj[3];
static int nsubj[3];
static void subj_add(int set, const char *code)
{
    RT *t = tsym_decode(psyms, np, code);
    if (!t) { fprintf(stderr, "bad subject %s\n", code); abort(); }
    subj[set][nsubj[set]++] = (Subj){ t, rt_to_node(t, &ctx) };
}
static void lists(const char *const *elem, int ne, int len, char root, void (*cb)(const char *))
{
    int i[8] = { 0 };
    for (;;)
    {
        char buf[64] = { root, 0 };
        for (int k = 0; k < len; k++) strcat(buf, elem[i[k]]);
        cb(buf);
        int k = len - 1;
        while (k >= 0 && ++i[k] == ne) i[k--] = 0;
        if (k < 0) return;
    }
}
static void add0(const char *c) { subj_add(0, c); }
static void add1(const char *c) { subj_add(1, c); }
static void add2(const char *c) { if (nsubj[2] < 60000) subj_add(2, c); }
/* subjects of general shape */
static const TSym gsyms[] = {
    { '1', 'n', 0, 0, 0, 1 }, { 'z', 'v', "z" }, { 'x', 'v', "x" }, { '+', 'o', "+", R_INFIX, 2 }, { '-', 'o', "-", R_PREFIX, 1 }, { 'B', 'o', "sum", R_FUNCTION, 2 },
    { 'C', 'o', "sum", R_FUNCTION, 3 }, { 'R', 'o', "prod", R_FUNCTION, 1 }, { 'Z', 'o', "sum", R_FUNCTION, 0 },
};
static const int ng = (int)(sizeof gsyms / sizeof *gsyms);
void mc_worker_init(void)
{
    rctx_arith(&rc);
    ctx = rctx_build(&rc);
    for (int i = 0; i < 3; i++) subj[i] = malloc(sizeof(Subj) * 70000);
    for (int l = 0; l <= 3; l++) lists(selem, NSE, l, rootof[l], add0);      /* 585 */
    for (int l = 0; l <= 4; l++) lists(selem, l < 4 ? NSE : 5, l, rootof[l], add1);
    for (int l = 5; l <= 6; l++) lists(selem, 2, l, rootof[l], add1);
    tsym_enum(gsyms, ng, 2, false, 0, add2);
    tsym_enum(gsyms, ng, 3, true, 0, add2);
    ref_keep();
}

/* a matching as a hash over (variable, list of trees) */
static u64 h_node(const Node *n)
{
    u64 h;
    if (get_type(n) == NTYPE_CONSTANT) { double v = get_const_value(n); return mc_mix(1, mc_hash(&v, sizeof v, 1)); }
    if (get_type(n) == NTYPE_VARIABLE) return mc_mix(2, mc_hash_str(get_var_name(n), 2));
    h = mc_mix(3, mc_hash_str(get_op(n)->name, 3));
    h = mc_mix(h, get_num_children(n) * 4 + (u64)(get_op(n)->placement == OP_PLACE_INFIX));
    for (size_t i = 0; i < get_num_children(n); i++) h = mc_mix(h, h_node(get_child(n, i)));
    return h;
}
static u64 h_rt(const RT *t)
{
    if (t->kind == 'n') return mc_mix(1, mc_hash(&t->num, sizeof t->num, 1));
    if (t->kind == 'v') return mc_mix(2, mc_hash_str(t->name, 2));
    u64 h = mc_mix(3, mc_hash_str(t->name, 3));
    h = mc_mix(h, (u64)t->n * 4 + (u64)(t->place == R_INFIX));
    for (int i = 0; i < t->n; i++) h = mc_mix(h, h_rt(t->ch[i]));
    return h;
}
/* conditions hold for about half of all trees, as a function of the whole (substituted) condition */
static bool holds(u64 h) { return (mc_mix(h, 99) >> 20) % 3 != 0; }
static long nchecks;
static bool checker(Node **t) { nchecks++; return holds(h_node(*t)); }

#define MAXM 4096
typedef struct { int n; u64 h[MAXM]; int ncons; RT *cons[12]; bool bad; } Set;
static void collect(const RMatch *m, void *arg)
{
    Set *s = arg;
    for (int i = 0; i < s->ncons; i++)
    {
        bool bad = false;
        size_t mk = ref_mark();
        RT *c = ref_subst_match(s->cons[i], m, &bad);
        bool ok = holds(h_rt(c));
        ref_release(mk);
        if (bad) s->bad = true;
        if (!ok) return;
    }
    u64 h = 7;
    for (int i = 0; i < m->nv; i++)
    {
        h = mc_mix(h, (u64)m->b[i].n);
        for (int k = 0; k < m->b[i].n; k++) h = mc_mix(h, h_rt(m->b[i].items[k]));
    }
    if (s->n < MAXM) s->h[s->n++] = h;
}
static int cmp(const void *a, const void *b) { u64 x = *(const u64 *)a, y = *(const u64 *)b; return x < y ? -1 : x > y; }

static size_t id_of(const Node *p, const char *name)
{
    if (get_type(p) == NTYPE_VARIABLE) return strcmp(get_var_name(p), name) ? (size_t)-1 : get_id(p);
    if (get_type(p) == NTYPE_OPERATOR)
        for (size_t i = 0; i < get_num_children(p); i++) { size_t r = id_of(get_child(p, i), name); if (r != (size_t)-1) return r; }
    return (size_t)-1;
}
static u64 h_matching(const Matching *m, const RMatch *names, const size_t *id)
{
    u64 h = 7;
    for (int i = 0; i < names->nv; i++)
    {
        const NodeList *l = &m->mapped_nodes[id[i]];
        h = mc_mix(h, l->size);
        for (size_t k = 0; k < l->size; k++) h = mc_mix(h, h_node(l->nodes[k]));
    }
    return h;
}

static Set want, have;
/* pre-order first node with a matching */
static RT *ref_find(RT *pat, RT *t, Set *s)
{
    s->n = 0;
    ref_match(pat, t, collect, s);
    if (s->n) return t;
    for (int i = 0; i < t->n; i++) { RT *r = ref_find(pat, t->ch[i], s); if (r) return r; }
    return NULL;
}
/* the node of the implementation's tree at the same place as r in t */
static Node **locate(Node **n, const RT *t, const RT *r)
{
    if (t == r) return n;
    for (int i = 0; i < t->n; i++) { Node **x = locate(get_child_addr(*n, (size_t)i), t->ch[i], r); if (x) return x; }
    return NULL;
}

static bool reads_list_at_root(const RT *c) { return c->kind == 'v' && c->name[0] == '['; }

static void one(RT *pat, const Pattern *p, const RMatch *names, const size_t *id, Subj *s, bool deep)
{
    want.n = 0;
    want.bad = false;
    ref_match(pat, s->t, collect, &want);
    Matching *ms = NULL;
    Node *tree = s->n;
    size_t n = get_all_matchings((const Node **)&tree, p, checker, &ms);
    have.n = 0;
    for (size_t i = 0; i < n && i < MAXM; i++) have.h[have.n++] = h_matching(&ms[i], names, id);
    Matching first;
    bool got = get_matching((const Node **)&tree, p, checker, &first);
    u64 fh = got ? h_matching(&first, names, id) : 0;
    free(ms);
    qsort(want.h, (size_t)want.n, sizeof(u64), cmp);
    qsort(have.h, (size_t)have.n, sizeof(u64), cmp);
    bool same = want.n == have.n && memcmp(want.h, have.h, sizeof(u64) * (size_t)want.n) == 0;
    if (!same) { mc_fail("pattern %s on %s: %d matchings reported, %d exist, or they differ", rt_show(pat), rt_show(s->t), have.n, want.n); return; }
    for (int i = 1; i < have.n; i++) if (have.h[i] == have.h[i - 1]) { mc_fail("pattern %s on %s: a matching is reported twice", rt_show(pat), rt_show(s->t)); return; }
    if (got != (want.n > 0) || (got && !bsearch(&fh, want.h, (size_t)want.n, sizeof(u64), cmp)))
    { mc_fail("pattern %s on %s: get_matching returns %d and %s matching", rt_show(pat), rt_show(s->t), got, got ? "a wrong" : "no"); return; }
    if (get_all_matchings((const Node **)&tree, p, checker, NULL) != n) { mc_fail("pattern %s on %s: another count without result buffer", rt_show(pat), rt_show(s->t)); return; }
    mc_trans(3);
    if (deep)
    {
        RT *r = ref_find(pat, s->t, &want);
        Node **w = r ? locate(&tree, s->t, r) : NULL;
        Node **f = find_matching((const Node **)&tree, p, checker, &first);
        if (f != w) { mc_fail("pattern %s in %s: found at %s, expected at %s", rt_show(pat), rt_show(s->t), f ? rt_show(rt_from_node(*f)) : "no node", r ? rt_show(r) : "no node"); return; }
        if (f)
        {
            fh = h_matching(&first, names, id);
            qsort(want.h, (size_t)want.n, sizeof(u64), cmp);
            if (!bsearch(&fh, want.h, (size_t)want.n, sizeof(u64), cmp)) mc_fail("pattern %s in %s: wrong assignment", rt_show(pat), rt_show(s->t));
        }
        mc_trans(1);
    }
}

/* key: <subject set> <pattern> [conditions] */
/* wide and deep trees: what has to be found is known */
static RT *op_n(const char *name, int n, RT **ch) { return rt_op(rctx_find(&rc, name, R_FUNCTION), n, ch); }
static RT *neg_n(RT *t, int n) { for (int i = 0; i < n; i++) t = rt_op(rctx_find(&rc, "-", R_PREFIX), 1, &t); return t; }
static void w_pattern(RT *pat, Pattern *p, size_t *id, int nv, const char **names)
{
    Node *pn = rt_to_node(pat, &ctx);
    if (get_pattern(pn, 0, NULL, p) != 0) mc_fail("pattern refused");
    for (int i = 0; i < nv; i++) id[i] = id_of(pn, names[i]);
}
static void large(int kind, int n)
{
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(n + 2));
    for (int i = 0; i < n; i++) ch[i] = i % 3 == 1 ? neg_n(rt_num(i), 1) : rt_num(i);
    static const char *V[] = { "[a", "x", "[b", "[c", "y" };
    RT *a = rt_var("[a"), *x = rt_var("x"), *b = rt_var("[b"), *c = rt_var("[c"), *y = rt_var("y"), *pat = NULL, *sub = op_n("sum", n, ch);
    int p1 = n / 3, p2 = n - 1 - n / 4, nv = 0, k = 0;
    switch (kind)
    {
        case 0: pat = op_n("sum", 3, (RT *[]){ a, x, b }); nv = 3; k = n; break;
        case 1: pat = op_n("sum", 2, (RT *[]){ a, neg_n(b, 0) }); nv = 3; k = n + 1; break;
        case 2: if (p1 == p2) return; ch[p2] = ch[p1]; sub = op_n("sum", n, ch); pat = op_n("sum", 5, (RT *[]){ a, x, b, x, c }); nv = 4; k = 1; break;
        case 3: pat = neg_n(x, n); sub = neg_n(rt_num(7), n + 1); k = 1; break;
        case 4: pat = neg_n(x, n + 1); sub = neg_n(rt_num(7), n); k = 0; break;
        case 5: { RT **q = ref_alloc(sizeof(RT *) * (size_t)n); for (int i = 0; i < n; i++) q[i] = i == p1 ? x : i == p2 && p1 != p2 ? y : ch[i]; pat = op_n("sum", n, q); k = 1; break; }
        case 6: { RT **q = ref_alloc(sizeof(RT *) * (size_t)n); for (int i = 0; i < n; i++) q[i] = i == n - 1 ? rt_num(-5) : ch[i]; pat = op_n("sum", n, q); k = 0; break; }
        case 7: pat = op_n("sum", 4, (RT *[]){ x, a, ch[n - 1], b }); nv = 3; k = n > 1; break;
        default: pat = op_n("prod", 1, &x); break;
    }
    Pattern p;
    size_t id[5] = { 0 };
    static const char *VX[] = { "x" };
    if (kind == 3 || kind == 5) { nv = 0; w_pattern(pat, &p, id, 1, VX); }
    else if (nv) w_pattern(pat, &p, id, 0, V);
    else w_pattern(pat, &p, id, 0, V);
    if (nv || kind == 1) for (int i = 0; i < nv; i++) if (kind != 1 || i != 1) id[i] = id_of(p.pattern, V[i]);
    if (kind == 8)
    {
        /* the only matching node is the one at place m, one level deeper for odd m */
        for (int q = 0; q < 5 && !mc_failed(); q++)
        {
            int m = (int[]){ 0, 1, n / 2, n - 2, n - 1 }[q];
            if (m < 0 || m >= n) continue;
            for (int d = 0; d < 3 && !mc_failed(); d++)
            {
                RT *old = ch[m];
                RT *hit = op_n("prod", 1, (RT *[]){ rt_num(3) });
                ch[m] = neg_n(hit, d);
                Node *t = rt_to_node(op_n("sum", n, ch), &ctx), *e = get_child(t, (size_t)m);
                for (int i = 0; i < d; i++) e = get_child(e, 0);
                Matching got;
                Node **f = find_matching((const Node **)&t, &p, checker, &got);
                if (!f || *f != e) mc_fail("in a sum of %d operands the match at operand %d is not found", n, m + 1);
                free_tree(t);
                ch[m] = old;
                mc_trans(1);
            }
        }
        free_pattern(&p);
        return;
    }
    Node *t = rt_to_node(sub, &ctx);
    Matching *out = NULL;
    size_t got = get_all_matchings((const Node **)&t, &p, checker, &out);
    mc_trans(1);
    if (got != (size_t)k) mc_fail("%zu matchings of kind %d in a tree of %d operands, expected %d", got, kind, n, k);
    char *seen = ref_alloc((size_t)n + 2);
    memset(seen, 0, (size_t)n + 2);
    #define L(v) (out[i].mapped_nodes[id[v]])
    #define AT(v, pos, len) (L(v).size == (size_t)(len) && (L(v).size == 0 || L(v).nodes[0] == get_child(t, (size_t)(pos))) && (L(v).size < 2 || L(v).nodes[L(v).size - 1] == get_child(t, (size_t)((pos) + (len) - 1))))
    for (size_t i = 0; i < got && !mc_failed(); i++)
    {
        int at = (int)L(0).size;
        bool ok = true;
        if (kind == 0) ok = at < n && !seen[at]++ && AT(0, 0, at) && AT(1, at, 1) && AT(2, at + 1, n - 1 - at);
        if (kind == 1) ok = at <= n && !seen[at]++ && AT(0, 0, at) && AT(2, at, n - at);
        if (kind == 2) ok = AT(0, 0, p1) && AT(1, p1, 1) && AT(2, p1 + 1, p2 - p1 - 1) && AT(3, p2 + 1, n - 1 - p2);
        if (kind == 3) { const Node *q = t; for (int j = 0; j < n; j++) q = get_child(q, 0); ok = L(0).size == 1 && L(0).nodes[0] == q; }
        if (kind == 5) ok = L(0).size == 1 && L(0).nodes[0] == get_child(t, (size_t)p1);
        if (kind == 7) ok = AT(1, 0, 1) && AT(0, 1, n - 2) && AT(2, n, 0);
        if (!ok) mc_fail("matching %zu of kind %d in a tree of %d operands binds other operands", i, kind, n);
    }
    free(out);
    if (!mc_failed() && get_matching((const Node **)&t, &p, checker, NULL) != (k > 0)) mc_fail("get_matching of kind %d, %d operands", kind, n);
    free_tree(t);
    free_pattern(&p);
    mc_state(mc_mix((u64)kind * 100000 + (u64)n, got));
    mc_trace(1);
}
void mc_run(const char *key)
{
    ref_reset();
    long live0 = mc_live_blocks();
    { int wk, wn; if (sscanf(key, "W %d %d", &wk, &wn) == 2) { large(wk, wn); if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left", mc_live_blocks() - live0); return; } }
    int set, off = 0;
    char code[64];
    if (sscanf(key, "%d %63s%n", &set, code, &off) < 2) return;
    RT *pat = tsym_decode(psyms, np, code);
    if (!pat) { mc_fail("bad key"); return; }
    RMatch names = { 0 };
    rm_names(pat, &names);
    Node *cons[12];
    int nc = 0;
    want.ncons = 0;
    char c[64];
    int k = 0;
    while (nc < 12 && sscanf(key + off, " %63s%n", c, &k) == 1)
    {
        off += k;
        RT *ct = tsym_decode(psyms, np, c);
        if (!ct) { mc_fail("bad key"); return; }
        want.cons[want.ncons++] = ct;
        cons[nc++] = rt_to_node(ct, &ctx);
    }
    /* number of conditions per last bound variable */
    int per[12] = { 0 };
    bool over = false;
    for (int i = 0; i < nc; i++)
    {
        const char *v[12];
        int n = rt_count_vars(want.cons[i], v, 12), last = 0;
        for (int j = 0; j < n; j++) for (int q = 0; q < names.nv; q++) if (!strcmp(v[j], names.b[q].name) && q > last) last = q;
        if (++per[last] > MATCHING_MAX_CONSTRAINTS) over = true;
    }
    Node *pn = rt_to_node(pat, &ctx);
    Pattern p;
    int e = get_pattern(pn, (size_t)nc, cons, &p);
    int we = names.nv > MAX_MAPPED_VARS ? MAX_MAPPED_VARS_EXCEEDED : over ? MATCHING_MAX_CONSTRAINTS_EXCEEDED : 0;
    mc_trace(1);
    if (e != we) { mc_fail("get_pattern(%s, %d conditions) returns %d, expected %d", rt_show(pat), nc, e, we); return; }
    if (e != 0) { free_tree(pn); for (int i = 0; i < nc; i++) free_tree(cons[i]); mc_trans(1); return; }
    size_t id[12];
    for (int i = 0; i < names.nv; i++)
    {
        id[i] = id_of(pn, names.b[i].name);
        for (int j = 0; j < i; j++) if (id[j] == id[i]) mc_fail("two variables of %s share an index", rt_show(pat));
        if (id[i] >= MAX_MAPPED_VARS) { mc_fail("variable index out of range"); return; }
    }
    for (int i = 0; i < nsubj[set] && !mc_failed(); i++)
    {
        size_t mk = ref_mark();
        one(pat, &p, &names, id, &subj[set][i], set == 2);
        if (!mc_failed() && have.n) mc_state(mc_mix(mc_mix(rt_hash(pat), (u64)nc), mc_mix((u64)set * 100000 + (u64)i, (u64)have.n)));
        ref_release(mk);
    }
    free_pattern(&p);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("pattern %s: %ld heap blocks left", rt_show(pat), mc_live_blocks() - live0);
    mc_count(0, (u64)nsubj[set]);
}
static int cur_set;
static int limit_vars;
/* variables are used in order: y only after x, [b only after [a */
static bool ordered(const char *c)
{
    const char *x = strchr(c, 'x'), *y = strchr(c, 'y'), *a = strchr(c, 'a'), *b = strchr(c, 'b');
    return !(y && (!x || x > y)) && !(b && (!a || a > b));
}
static void emitp(const char *c) { if (ordered(c)) MC_CASE("%d %s", cur_set, c); }
static const char *conds[] = { "x", "y", "-x", "Bxy", "Baa", "Cxab", "Bab", "Z", "1", "Bxa", "+xAb" };
#define NCO 11
static bool uses_only(const char *cond, const char *pat)
{
    for (; *cond; cond++) if (strchr("xyab", *cond) && !strchr(pat, *cond)) return false;
    return true;
}
static void emitc(const char *c)
{
    if (!ordered(c)) return;
    for (int i = 0; i < NCO; i++)
    {
        if (!uses_only(conds[i], c)) continue;
        MC_CASE("%d %s %s", cur_set, c, conds[i]);
        if (limit_vars) continue;
        for (int j = 0; j < NCO; j++) if (uses_only(conds[j], c)) MC_CASE("%d %s %s %s", cur_set, c, conds[i], conds[j]);
    }
}
void mc_enumerate(int thorough)
{
    (void)reads_list_at_root;
    for (int k = 0; k < 9; k++)
    {
        for (int n = 1; n < 64; n++) MC_CASE("W %d %d", k, n);
        MC_SIZES(n, 63, k == 2 ? (thorough ? 101 : 65) : thorough ? 2049 : 1025) MC_CASE("W %d %d", k, n);
    }
    cur_set = 1;
    for (int l = 0; l <= (thorough ? 4 : 3); l++) lists(pelem, NPE, l, rootof[l], emitp);
    if (thorough) { cur_set = 0; lists(pelem, 5, 5, 'E', emitp); cur_set = 1; lists(pelem, 4, 5, 'E', emitp); lists(pelem, 4, 6, 'F', emitp); }
    else { cur_set = 0; lists(pelem, 5, 4, 'D', emitp); lists(pelem, 3, 5, 'E', emitp); }
    /* nested operators of two kinds, where a list is bound in one and used in the other */
    cur_set = 2;
    static const TSym gp[] = { { 'x', 'v', "x" }, { 'a', 'v', "[a" }, { 'y', 'v', "y" }, { 'b', 'v', "[b" }, { '1', 'n', 0, 0, 0, 1 }, { '+', 'o', "+", R_INFIX, 2 }, { '-', 'o', "-", R_PREFIX, 1 },
        { 'B', 'o', "sum", R_FUNCTION, 2 }, { 'A', 'o', "sum", R_FUNCTION, 1 }, { 'C', 'o', "sum", R_FUNCTION, 3 }, { 'R', 'o', "prod", R_FUNCTION, 1 }, { 'Z', 'o', "sum", R_FUNCTION, 0 } };
    tsym_enum(gp, 12, thorough ? 2 : 1, false, 0, emitp);
    for (int s = 0; s < 5; s++) tsym_enum(gp, 12, thorough ? 3 : 2, true, s, emitp);
    /* conditions */
    cur_set = 0;
    limit_vars = 0;
    for (int l = 0; l <= (thorough ? 3 : 2); l++) lists(pelem, NPE, l, rootof[l], emitc);
    limit_vars = 1;
    lists(pelem, 4, 3, 'C', emitc);
    /* limits: many variables, many conditions on one variable */
    static const char *many[] = { "FFxyabczFduvwqxZZZZ", "FFxyabczFduvwxxZZZZ", "FFxyabczFduvwxqZZZZ x", "ExyuCvwzCabCcdq", "ExyuCvwzCabBcd", "ExyuCvwzCabBcd d d d", "ExyuCvwzCabBcd d c x d d", "Bxy x x x", "Bxy x x x x", "Bxy x y x y x y", "Bxy y y y Bxy", "Bxy Bxy Bxy Bxy x x x", "Bxy Z 1 x", "Bxy Z 1 x 1", "A1 Z", "A1 1 Z 2", "A1 1 1 1 1", "Z 1", "p 1", "1 2" };
    for (size_t i = 0; i < sizeof many / sizeof *many; i++) MC_CASE("0 %s", many[i]);
}
