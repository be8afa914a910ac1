/* C24: every operation of tree_util on every small tree, against definitions on the reference tree. */
#include "ref.h"
#include <math.h>
#include "engine/tree/tree_util.h"
#include "client/core/arith_context.h"

const char *mc_property = "C24";
static RCtx rc;
static ParsingContext ctx;
static const TSym syms[] = {
    { 'x', 'v', "x" }, { 'y', 'v', "y" }, { '1', 'n', 0, 0, 0, 1 }, { '0', 'n', 0, 0, 0, 0 }, { 'p', 'o', "pi", R_FUNCTION, 0 },
    { '+', 'o', "+", R_INFIX, 2 }, { '/', 'o', "/", R_INFIX, 2 }, { '-', 'o', "-", R_PREFIX, 1 }, { 's', 'o', "sum", R_FUNCTION, 2 }, { 'e', 'o', "sum", R_FUNCTION, 0 },
    { 't', 'o', "sum", R_FUNCTION, 3 }, { 'i', 'o', "sin", R_FUNCTION, 1 },
};
static const int nsyms = (int)(sizeof syms / sizeof *syms);

void mc_worker_init(void) { rctx_arith(&rc); ctx = rctx_build(&rc); }

static int tok_next;
static void number_tokens(Node *n)
{
    set_token_index(n, (size_t)tok_next++);
    if (get_type(n) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(n); i++) number_tokens(get_child(n, i));
}
static bool same_tokens(const Node *a, const Node *b)
{
    if (get_token_index(a) != get_token_index(b)) return false;
    if (get_type(a) == NTYPE_VARIABLE && get_id(a) != get_id(b)) return false;
    if (get_type(a) == NTYPE_OPERATOR)
    {
        if (get_op(a) != get_op(b)) return false;
        for (size_t i = 0; i < get_num_children(a); i++) if (!same_tokens(get_child(a, i), get_child(b, i))) return false;
    }
    return true;
}
static int collect(const Node *n, const Node **out, int k)
{
    out[k++] = n;
    if (get_type(n) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(n); i++) k = collect(get_child(n, i), out, k);
    return k;
}
static int vars_preorder(Node **slot, const char *name, Node ***out, int k)
{
    Node *n = *slot;
    if (get_type(n) == NTYPE_VARIABLE && (!name || !strcmp(get_var_name(n), name))) out[k++] = slot;
    if (get_type(n) == NTYPE_OPERATOR) for (size_t i = 0; i < get_num_children(n); i++) k = vars_preorder(get_child_addr(n, i), name, out, k);
    return k;
}

/* evaluation used as listener: x/0 fails with code 7, sin of anything negative with 8 */
static ListenerError listener(const Operator *op, size_t n, const double *a, double *out)
{
    if (!strcmp(op->name, "pi")) { *out = 3; return 0; }
    if (!strcmp(op->name, "+")) { *out = a[0] + a[1]; return 0; }
    if (!strcmp(op->name, "/")) { if (a[1] == 0) return 7; *out = a[0] / a[1]; return 0; }
    if (!strcmp(op->name, "-")) { *out = -a[0]; return 0; }
    if (!strcmp(op->name, "sin")) { if (a[0] < 0) return 8; *out = a[0] + 100; return 0; }
    double s = 0;
    for (size_t i = 0; i < n; i++) s = s * 10 + a[i];
    *out = s;
    return 0;
}
/* definition: first failure in left-to-right post order; node = preorder number */
static int refeval(const RT *t, double *out, int *pre, int *bad)
{
    int me_ = (*pre)++;
    if (t->kind == 'n') { *out = t->num; return 0; }
    if (t->kind == 'v') { *bad = me_; return LISTENERERR_VARIABLE_ENCOUNTERED; }
    double a[1100];
    for (int i = 0; i < t->n; i++)
    {
        int e = refeval(t->ch[i], &a[i], pre, bad);
        if (e) return e;
    }
    if (!strcmp(t->name, "pi")) { *out = 3; return 0; }
    if (!strcmp(t->name, "+")) { *out = a[0] + a[1]; return 0; }
    if (!strcmp(t->name, "/")) { if (a[1] == 0) { *bad = me_; return 7; } *out = a[0] / a[1]; return 0; }
    if (!strcmp(t->name, "-")) { *out = -a[0]; return 0; }
    if (!strcmp(t->name, "sin")) { if (a[0] < 0) { *bad = me_; return 8; } *out = a[0] + 100; return 0; }
    double s = 0;
    for (int i = 0; i < t->n; i++) s = s * 10 + a[i];
    *out = s;
    return 0;
}
static int nvars(const RT *t) { int n = t->kind == 'v'; for (int i = 0; i < t->n; i++) n += nvars(t->ch[i]); return n; }
/* maximal variable-free subtrees become their value; *err gets the first failure */
static RT *refreduce(const RT *t, int *err)
{
    if (*err) return (RT *)t;
    if (nvars(t) == 0)
    {
        double v; int pre = 0, bad = 0;
        int e = refeval(t, &v, &pre, &bad);
        if (e) { *err = e; return (RT *)t; }
        return rt_num(v);
    }
    if (t->kind != 'o') return (RT *)t;
    RT *ch[1100];
    for (int i = 0; i < t->n; i++) ch[i] = refreduce(t->ch[i], err);
    RT *r = rt_named(t->name, t->place, t->n, ch);
    return r;
}
static double op_cb(size_t n, Node **ch)
{
    double s = 1000 * (double)n;
    for (size_t i = 0; i < n; i++) s += get_type(ch[i]) == NTYPE_CONSTANT ? get_const_value(ch[i]) : get_type(ch[i]) == NTYPE_VARIABLE ? 50 : 7;
    return s;
}
static RT *refreduceops(const RT *t, const char *name, RPlace place)
{
    if (t->kind != 'o') return (RT *)t;
    RT *ch[1100];
    for (int i = 0; i < t->n; i++) ch[i] = refreduceops(t->ch[i], name, place);
    if (strcmp(t->name, name) || t->place != place) return rt_named(t->name, t->place, t->n, ch);
    double s = 1000.0 * t->n;
    for (int i = 0; i < t->n; i++) s += ch[i]->kind == 'n' ? ch[i]->num : ch[i]->kind == 'v' ? 50 : 7;
    return rt_num(s);
}
static const RT *find_ref(const RT *t, const char *name, RPlace place, int *pre)
{
    if (t->kind == 'o' && !strcmp(t->name, name) && t->place == place) return t;
    (*pre)++;
    for (int i = 0; i < t->n; i++) { const RT *r = find_ref(t->ch[i], name, place, pre); if (r) return r; }
    return NULL;
}
static RT *parse_ref(const char *code) { RT *t = tsym_decode(syms, nsyms, code); if (!t) abort(); return t; }

static bool wide_case;
/* every size up to 70; then the smallest, middle and largest */
#define STEP(b, n) ((n) <= 70 || (b) < 3 || (b) >= (n) - 2 ? 1 : (b) < (n) / 2 ? (n) / 2 - (b) : (n) - 2 - (b))
static void single(RT *t)
{
    Node *n = rt_to_node(t, &ctx);
    tok_next = 3;
    number_tokens(n);
    static const Node *all[6000], *all2[6000];
    int k = collect(n, all, 0);

    /* copy */
    Node *c = tree_copy(n);
    if (!rt_equals_node(t, c) || !same_tokens(n, c) || !tree_equals(n, c)) mc_fail("the copy of %s differs", rt_show(t));
    int k2 = collect(c, all2, 0);
    for (int i = 0; i < k; i++) for (int j = 0; j < k2; j++) if (k < 300 && all[i] == all2[j]) mc_fail("the copy of %s shares a node", rt_show(t));
    free_tree(c);
    if (tree_copy(NULL) != NULL || tree_equals(NULL, n) || tree_equals(n, NULL)) mc_fail("NULL is copied or equal");
    if (count_all_variable_nodes(NULL) != 0 || get_variable_nodes(NULL, "x", 0, NULL) != 0 || get_variable_nodes((const Node **)&n, NULL, 0, NULL) != 0) mc_fail("variables are counted where there is no tree");

    /* counting and listing variables */
    if (count_all_variable_nodes(n) != (size_t)nvars(t)) mc_fail("count_all_variable_nodes(%s) = %zu", rt_show(t), count_all_variable_nodes(n));
    static const char *vn[] = { "x", "y", "z" };
    for (int v = 0; v < 3 && !mc_failed(); v++)
    {
        Node **want[1100];
        int nw = vars_preorder(&n, vn[v], want, 0);
        for (int b = 0; b <= nw + 1 && !mc_failed(); b += STEP(b, nw))
        {
            Node ***buf = malloc(sizeof(Node **) * (size_t)(b ? b : 1));
            size_t got = get_variable_nodes((const Node **)&n, vn[v], (size_t)b, b ? buf : NULL);
            if (got != (size_t)nw) mc_fail("get_variable_nodes(%s, %s, buffer %d) = %zu, expected %d", rt_show(t), vn[v], b, got, nw);
            for (int i = 0; i < b && i < nw && !mc_failed(); i++)
                if (buf[i] != want[i]) mc_fail("get_variable_nodes(%s, %s, buffer %d): entry %d is wrong", rt_show(t), vn[v], b, i);
            free(buf);
        }
    }
    const char *rn[1100];
    int rv = rt_count_vars(t, rn, 1100);
    for (int b = 0; b <= rv + 1 && !mc_failed(); b += STEP(b, rv))
    {
        const char **buf = malloc(sizeof(char *) * (size_t)(b ? b : 1));
        bool ok = b % 2;
        size_t got = list_variables(n, (size_t)b, buf, &ok);
        if (ok != (b >= rv) || got != (size_t)(b >= rv ? rv : b)) mc_fail("list_variables(%s, buffer %d) = %zu, sufficient %d; %d variables", rt_show(t), b, got, ok, rv);
        for (size_t i = 0; i < got && !mc_failed(); i++) if (strcmp(buf[i], rn[i])) mc_fail("list_variables(%s): entry %zu is %s", rt_show(t), i, buf[i]);
        if (ok && !mc_failed())
            for (int i = 0; i < k; i++)
                if (get_type(all[i]) == NTYPE_VARIABLE && strcmp(rn[get_id(all[i])], get_var_name(all[i]))) mc_fail("list_variables(%s) gives variable %s id %zu", rt_show(t), get_var_name(all[i]), get_id(all[i]));
        if (list_variables(n, (size_t)b, buf, NULL) != got) mc_fail("list_variables without flag differs");
        free(buf);
    }
    /* ids by name */
    if (!mc_failed())
    {
        const char *idn[1130] = { "q" };
        for (int i = 0; i < rv; i++) idn[1 + i] = rn[rv - 1 - i];
        tree_copy_IDs(n, (size_t)rv + 1, idn);
        for (int i = 0; i < k; i++)
            if (get_type(all[i]) == NTYPE_VARIABLE && strcmp(idn[get_id(all[i])], get_var_name(all[i]))) mc_fail("tree_copy_IDs gives %s id %zu", get_var_name(all[i]), get_id(all[i]));
    }
    /* find_op */
    static const struct { const char *n; RPlace p; OpPlacement op; } fo[] = { { "+", R_INFIX, OP_PLACE_INFIX }, { "-", R_PREFIX, OP_PLACE_PREFIX }, { "sum", R_FUNCTION, OP_PLACE_FUNCTION },
        { "pi", R_FUNCTION, OP_PLACE_FUNCTION }, { "cos", R_FUNCTION, OP_PLACE_FUNCTION }, { "+", R_PREFIX, OP_PLACE_PREFIX } };
    for (int f = 0; f < 6 && !mc_failed(); f++)
    {
        int pre = 0;
        const RT *w = find_ref(t, fo[f].n, fo[f].p, &pre);
        Node **g = find_op((const Node **)&n, ctx_lookup_op(&ctx, fo[f].n, fo[f].op));
        if ((g != NULL) != (w != NULL) || (g && *g != all[pre])) mc_fail("find_op(%s, %s) finds %s", rt_show(t), fo[f].n, g ? "another node" : "nothing");
        if (g == &n && pre != 0) mc_fail("find_op returns a wrong address");
    }
    /* evaluation */
    if (!mc_failed())
    {
        double v = -77, w = 0;
        int pre = 0, bad = -1;
        int e = refeval(t, &w, &pre, &bad);
        const Node *err = NULL;
        int g = tree_reduce(n, listener, &v, &err);
        if (g != e) mc_fail("tree_reduce(%s) returns %d, expected %d", rt_show(t), g, e);
        else if (e == 0 && !(v == w || (isnan(v) && isnan(w)))) mc_fail("tree_reduce(%s) = %g, expected %g", rt_show(t), v, w);
        else if (e != 0 && err != all[bad]) mc_fail("tree_reduce(%s) blames another node", rt_show(t));
        else if (tree_reduce(n, listener, &v, NULL) != e) mc_fail("tree_reduce without error node differs");
        if (!rt_equals_node(t, n)) mc_fail("tree_reduce changes %s", rt_show(t));
    }
    if (!mc_failed())
    {
        Node *c2 = tree_copy(n);
        int err = 0;
        RT *w = refreduce(t, &err);
        const Node *en = NULL;
        int g = tree_reduce_constant_subtrees(&c2, listener, &en);
        if (g != err) mc_fail("tree_reduce_constant_subtrees(%s) returns %d, expected %d", rt_show(t), g, err);
        else if (!err && !rt_equals_node(w, c2)) mc_fail("tree_reduce_constant_subtrees(%s) yields %s, expected %s", rt_show(t), rt_show(rt_from_node(c2)), rt_show(w));
        else if (err)
        {
            int q = collect(c2, all2, 0);
            bool in = false;
            for (int i = 0; i < q; i++) in |= all2[i] == en;
            if (!in) mc_fail("tree_reduce_constant_subtrees(%s) blames a node outside the tree", rt_show(t));
        }
        free_tree(c2);
    }
    for (int f = 0; f < 4 && !mc_failed(); f++)
    {
        Node *c2 = tree_copy(n);
        tree_reduce_ops(&c2, ctx_lookup_op(&ctx, fo[f].n, fo[f].op), op_cb);
        RT *w = refreduceops(t, fo[f].n, fo[f].p);
        if (!rt_equals_node(w, c2)) mc_fail("tree_reduce_ops(%s, %s) yields %s, expected %s", rt_show(t), fo[f].n, rt_show(rt_from_node(c2)), rt_show(w));
        free_tree(c2);
    }
    /* replacing variables */
    static const char *with[] = { "x", "1", "+xy", "sx/1x", "e", "y" };
    for (int w = 0; w < 6 && !mc_failed(); w++)
        for (int v = 0; v < 3 && !mc_failed(); v++)
        {
            Node *c2 = tree_copy(n);
            RT *rw = parse_ref(with[w]);
            Node *nw = rt_to_node(rw, &ctx);
            Node **slots[1100];
            int cnt = vars_preorder(&c2, vn[v], slots, 0);
            size_t g = replace_variable_nodes(&c2, nw, vn[v]);
            RT *wt = rt_subst(t, 1, &vn[v], &rw);
            if (g != (size_t)cnt || !rt_equals_node(wt, c2)) mc_fail("replacing %s in %s by %s: %zu replacements, %s", vn[v], rt_show(t), with[w], g, rt_show(rt_from_node(c2)));
            if (!rt_equals_node(rw, nw)) mc_fail("the replacement itself changed");
            free_tree(nw);       /* nothing of it may be shared */
            if (!mc_failed() && !rt_equals_node(wt, c2)) mc_fail("replacement shares nodes");
            free_tree(c2);
        }
    /* replacing a child by a list */
    static const char *items[] = { "x", "+1y", "p", "0", "-y", "e", "y", "1", "ix" };
    int ni = wide_case ? 9 : 3;
    if (t->kind == 'o')
        for (int ch = 0; ch < t->n && !mc_failed(); ch++)
            for (int sz = 0; sz <= ni && !mc_failed(); sz++)
            {
                Node *c2 = tree_copy(n);
                const Node *list[9];
                RT *rl[9], *out[1120];
                for (int i = 0; i < ni; i++) { rl[i] = parse_ref(items[i]); list[i] = rt_to_node(rl[i], &ctx); }
                int m = 0;
                for (int i = 0; i < t->n; i++)
                {
                    if (i != ch) out[m++] = t->ch[i];
                    else for (int j = 0; j < sz; j++) out[m++] = rl[j];
                }
                RT *w = rt_named(t->name, t->place, m, out);
                size_t ti = get_token_index(c2);
                tree_replace_by_list(&c2, (size_t)ch, (NodeList){ .size = (size_t)sz, .nodes = list });
                if (!rt_equals_node(w, c2)) mc_fail("replacing child %d of %s by %d nodes yields %s, expected %s", ch, rt_show(t), sz, rt_show(rt_from_node(c2)), rt_show(w));
                if (get_token_index(c2) != ti) mc_fail("replacing a child by a list changes the position of the parent");
                for (int i = 0; i < ni; i++) { if (!rt_equals_node(rl[i], list[i])) mc_fail("list element changed"); free_tree((Node *)list[i]); }
                if (!mc_failed() && !rt_equals_node(w, c2)) mc_fail("list elements are shared");
                free_tree(c2);
            }
    if (!mc_failed() && !rt_equals_node(t, n)) mc_fail("the original %s changed", rt_show(t));
    mc_state(rt_hash(t));
    mc_trans(30);
    free_tree(n);
}

/* trees of any width, depth and number of variables */
static RT *leaf(int i)
{
    switch (i % 5) { case 0: return rt_var("x"); case 1: return rt_var("y"); case 2: return rt_num(1); case 3: return rt_var("x"); default: return rt_num(4); }
}
static RT *sum_(int n, RT **ch) { return rt_op(rctx_find(&rc, "sum", R_FUNCTION), n, ch); }
static RT *bin(const char *op, RT *a, RT *b) { RT *c[] = { a, b }; return rt_op(rctx_find(&rc, op, R_INFIX), 2, c); }
static RT *neg(RT *a) { return rt_op(rctx_find(&rc, "-", R_PREFIX), 1, &a); }
static RT *wide(int kind, int n, int m)
{
    RT *ch[1100], *t;
    switch (kind)
    {
        case 0: for (int i = 0; i < n; i++) ch[i] = leaf(i + m); return sum_(n, ch);
        case 1: for (int i = 0; i < n; i++) ch[i] = i >= 63 ? rt_var(ref_printf(m % 2 ? "v%c%c" : "%c%c_", 'A' + i / 26 % 52 + (i / 26 % 52 > 25 ? 6 : 0), 'a' + i % 26)) : rt_var(ref_printf(m % 2 ? "v%.*s" : "%.*s", i + 1, "xabcdefghijklmnopqrstuvwABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklm")); return sum_(n, ch);
        case 2: t = leaf(m); for (int i = 0; i < n; i++) t = m % 2 ? bin("+", t, leaf(i)) : bin("+", leaf(i), t); return t;
        case 3: t = leaf(m); for (int i = 0; i < n; i++) t = neg(t); return t;
        case 4: for (int i = 0; i < n; i++) ch[i] = rt_num(i == m ? 0 : i + 1); t = sum_(n, ch); return bin("/", t, m < n ? rt_num(2) : rt_num(0));
        case 5: for (int i = 0; i < n; i++) ch[i] = i == m ? bin("/", rt_num(3), rt_num(0)) : i == m + 2 ? rt_var("y") : rt_num(i); return sum_(n, ch);
        case 6: for (int i = 0; i < n; i++) { RT *c[8]; int k = (i + m) % 6; for (int j = 0; j < k; j++) c[j] = leaf(i + j); ch[i] = sum_(k, c); } return bin("+", sum_(n, ch), rt_num(1));
        default: for (int i = 0; i < n; i++) ch[i] = i == m ? rt_var("y") : rt_var("x"); return neg(sum_(n, ch));
    }
}
/* trees that are nearly equal */
static RT *near_(int i)
{
    static const double V[] = { 0, 1, 1 + 1e-15, 1 + 1e-10, 1 - 1e-7, 2, -1, 1e-10, 2e-10, 1e-300, 1e300, 1.0000001e300, INFINITY, -INFINITY, 0.1, 0.30000000000000004, 0.3, 123456789, 123456789.000001, 4294967296.0, 4294967297.0, -0.5, 0.5 };
    static const char *W[] = { "x", "X", "xx", "y", "x_", "xy", "pi_", "sum_x" };
    static const char *F[] = { "sum", "prod", "max", "min", "avg", "var" };
    int nv = (int)(sizeof V / sizeof *V), nw = 8;
    RT *x = rt_var("x"), *y = rt_var("y"), *c[5] = { x, y, x, rt_num(1), y };
    if (i < nv) return rt_num(V[i]);
    i -= nv;
    if (i < nw) return rt_var(W[i]);
    i -= nw;
    if (i < nv) return bin("+", x, rt_num(V[i]));
    i -= nv;
    if (i < 36) return rt_op(rctx_find(&rc, F[i / 6], R_FUNCTION), i % 6 == 5 ? 5 : i % 6, c);
    i -= 36;
    if (i < 6) { RT *q[5] = { x, y, x, rt_num(1), y }; q[i == 5 ? 0 : i] = i == 5 ? y : rt_num(2); return sum_(5, q); }
    i -= 6;
    static const char *IN[] = { "+", "-", "*", "/", "^", "C", "mod" }, *FN[] = { "sin", "sinh", "asin", "asinh", "cos", "exp", "ln" }, *KN[] = { "pi", "e", "phi", "clight", "ans" };
    if (i < 14) return i % 2 ? bin(IN[i / 2], x, y) : bin(IN[i / 2], y, x);
    i -= 14;
    if (i < 7) return rt_op(rctx_find(&rc, FN[i], R_FUNCTION), 1, &x);
    i -= 7;
    if (i < 5) return rt_op(rctx_find(&rc, KN[i], R_FUNCTION), 0, NULL);
    i -= 5;
    switch (i)
    {
        case 0: return neg(x);
        case 1: return rt_op(rctx_find(&rc, "+", R_PREFIX), 1, &x);
        case 2: return rt_op(rctx_find(&rc, "$", R_PREFIX), 1, &x);
        case 3: return rt_op(rctx_find(&rc, "!", R_POSTFIX), 1, &x);
        case 4: return rt_op(rctx_find(&rc, "%", R_POSTFIX), 1, &x);
        case 5: return neg(neg(x));
        case 6: return neg(bin("+", bin("+", x, x), bin("*", x, x)));
        case 7: return neg(bin("+", bin("+", x, x), bin("*", x, y)));
        case 8: return neg(bin("+", bin("+", x, x), bin("*", y, x)));
        case 9: return neg(bin("+", bin("+", x, y), bin("*", x, x)));
        case 10: return neg(bin("+", bin("-", x, x), bin("*", x, x)));
        case 11: return bin("+", x, bin("+", x, x));
        case 12: return bin("+", bin("+", x, x), x);
        case 13: { RT *q[3] = { sum_(2, c), sum_(0, NULL), x }; return sum_(3, q); }
        case 14: { RT *q[3] = { sum_(0, NULL), sum_(2, c), x }; return sum_(3, q); }
        default: return NULL;
    }
}
static void pair(RT *ta, RT *tb)
{
    Node *na = rt_to_node(ta, &ctx), *nb = rt_to_node(tb, &ctx);
    tok_next = 5;
    number_tokens(nb);
    bool w = rt_equals(ta, tb);
    if (tree_equals(na, nb) != w) mc_fail("tree_equals(%s, %s) is %d", rt_show(ta), rt_show(tb), !w);
    tree_replace(&na, tree_copy(nb));
    if (!rt_equals_node(tb, na)) mc_fail("tree_replace does not install the new tree");
    free_tree(na);
    free_tree(nb);
    mc_trans(2);
    mc_state(mc_mix(rt_hash(ta), rt_hash(tb)));
}

void mc_run(const char *key)
{
    ref_reset();
    long live0 = mc_live_blocks();
    char a[128], b[128];
    int k, n, m;
    wide_case = false;
    if (sscanf(key, "= %127s %127s", a, b) == 2) pair(parse_ref(a), parse_ref(b));
    else if (sscanf(key, "w %d %d %d", &k, &n, &m) == 3) { wide_case = true; single(wide(k, n, m)); }
    else if (sscanf(key, "~ %d %d", &n, &m) == 2) pair(near_(n), near_(m));
    else single(parse_ref(key));
    mc_trace(1);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left", mc_live_blocks() - live0);
}

static char codes[4000][8];
static int ncodes;
static bool storing;
static void emit(const char *c)
{
    if (storing) { if (ncodes < 4000 && strlen(c) < 8) strcpy(codes[ncodes++], c); }
    else MC_CASE("%s", c);
}
void mc_enumerate(int thorough)
{
    for (int s = 0; s < 3; s++) tsym_enum(syms, nsyms, thorough ? 5 : 4, true, s, emit);
    tsym_enum(syms, nsyms, thorough ? 3 : 2, false, 0, emit);
    for (int k = 0; k < 8; k++) for (int n = 0; n <= (thorough ? 60 : 24); n++) for (int m = 0; m <= (k == 4 || k == 5 || k == 7 ? n : 5); m++) MC_CASE("w %d %d %d", k, n, m);
    for (int k = 0; k < 8; k++) MC_SIZES(n, thorough ? 60 : 24, thorough ? 1025 : 257) for (int j = 0; j < 5; j++) { int m = (int[]){ 0, 1, n / 2, n - 1, n }[j]; MC_CASE("w %d %d %d", k, n, m); }
    ref_reset();
    int nn = 0;
    while (near_(nn)) nn++;
    for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) MC_CASE("~ %d %d", i, j);
    storing = true;
    ncodes = 0;
    tsym_enum(syms, nsyms, 1, false, 0, emit);
    tsym_enum(syms, nsyms, 2, true, 0, emit);
    storing = false;
    int lim = thorough ? ncodes : ncodes < 700 ? ncodes : 700;
    for (int i = 0; i < lim; i++) for (int j = 0; j < lim; j++) MC_CASE("= %s %s", codes[i], codes[j]);
}
