/* C17: apply_rule / apply_ruleset and conditions against rewriting by definition. */
#include "refmatch.h"
#include <math.h>
#include "engine/tree/tree_util.h"
#include "engine/transformation/matching.h"
#include "engine/transformation/rewrite_rule.h"
#include "client/core/arith_context.h"
#include "client/simplification/propositional_context.h"
#include "client/simplification/propositional_evaluation.h"

const char *mc_property = "C17";
static RCtx rc, pc;
static ParsingContext ctx;

/* {pattern, result, condition, condition} */
static const char *RULES[][5] = {
    { "x+y", "y+x" }, { "sum([a],x,[b])", "sum([b],[a])" }, { "sum(x,[a])", "x+sum([a])" }, { "--x", "x" }, { "sum()", "0" },
    { "x", "sum(x,1)", "type(x) == CONST" }, { "sum([a],x,[b],x,[c])", "sum([a],2*x,[b],[c])" }, { "x+x", "2*x" },
    { "x*y", "prod(x,y)", "type(x) != OP", "type(y) != VAR" }, { "prod([a],prod([b]),[c])", "prod([a],[b],[c])" }, { "1", "0" },
    { "sum([a])", "prod([a],[a])" }, { "-x", "x-1" }, { "sum([a],[b])", "sum([b])", "equal(sum([a]), sum(1))" }, { "0", "1", "FALSE" },
    { "x+y", "x", "equal(x,y)" }, { "x*y", "y", "x > 1 || type(y) == VAR" }, { "sum([a],x)", "sum(x)", "equal(sum([a]),sum(x,x))", "type(x) == VAR" },
    { "x-y", "x+(-y)" }, { "sum(x,y)", "sum(y,x,y)", "type(x) == CONST", "type(y) == VAR", "x < 2" }, { "0", "2", "TRUE" }, { "-(x+y)", "-x-y" },
    { "x", "1", "type(x) == VAR" }, { "sum([a],x)", "prod(x,[a])", "count([a]) == 1 || count([a],x) > 3" }, { "sum([a],sum([b]),[c])", "sum([c],[b],[a])" }, { "sum([a])", "[a]" }, { "x+y", "x+y+0" }, { "prod([a])", "sum(sum([a]),[a])" },
};
#define NRULES ((int)(sizeof RULES / sizeof *RULES))
static const TSym gs[] = {
    { '1', 'n', 0, 0, 0, 1 }, { 'z', 'v', "z" }, { 'x', 'v', "x" }, { '0', 'n', 0, 0, 0, 0 }, { '+', 'o', "+", R_INFIX, 2 }, { '*', 'o', "*", R_INFIX, 2 }, { '-', 'o', "-", R_PREFIX, 1 },
    { '!', 'o', "-", R_INFIX, 2 },
    { 'Z', 'o', "sum", R_FUNCTION, 0 }, { 'A', 'o', "sum", R_FUNCTION, 1 }, { 'B', 'o', "sum", R_FUNCTION, 2 }, { 'C', 'o', "sum", R_FUNCTION, 3 }, { 'Q', 'o', "prod", R_FUNCTION, 2 },
    { 'D', 'o', "sum", R_FUNCTION, 4 },
};
static const int ng = (int)(sizeof gs / sizeof *gs);
static const TSym cs[] = {
    { '1', 'n', 0, 0, 0, 1 }, { '0', 'n', 0, 0, 0, 0 }, { 'z', 'v', "z" }, { 'p', 'o', "pi", R_FUNCTION, 0 }, { 'c', 'o', "CONST", R_FUNCTION, 0 }, { 'v', 'o', "VAR", R_FUNCTION, 0 },
    { 'o', 'o', "OP", R_FUNCTION, 0 }, { 'T', 'o', "TRUE", R_FUNCTION, 0 }, { 'F', 'o', "FALSE", R_FUNCTION, 0 },
    { 't', 'o', "type", R_FUNCTION, 1 }, { 'e', 'o', "equal", R_FUNCTION, 2 }, { '=', 'o', "==", R_INFIX, 2 }, { '#', 'o', "!=", R_INFIX, 2 }, { '>', 'o', ">", R_INFIX, 2 },
    { '<', 'o', "<", R_INFIX, 2 }, { 'G', 'o', ">=", R_INFIX, 2 }, { 'L', 'o', "<=", R_INFIX, 2 }, { '|', 'o', "||", R_INFIX, 2 }, { '!', 'o', "!", R_PREFIX, 1 },
    { '+', 'o', "+", R_INFIX, 2 }, { '/', 'o', "/", R_INFIX, 2 },
    { 'n', 'o', "count", R_FUNCTION, 0 }, { 'N', 'o', "count", R_FUNCTION, 1 }, { 'M', 'o', "count", R_FUNCTION, 2 },
};
static const int ncs = (int)(sizeof cs / sizeof *cs);

/* ---- conditions by definition ---- */
static RT *fold_fn(RT *t, const char *name)
{
    if (t->kind != 'o') return t;
    RT *ch[16];
    for (int i = 0; i < t->n; i++) ch[i] = fold_fn(t->ch[i], name);
    if (t->place == R_FUNCTION && !strcmp(t->name, name))
    {
        if (!strcmp(name, "equal")) return rt_num(rt_equals(ch[0], ch[1]) ? 1 : 0);
        if (!strcmp(name, "count")) return rt_num(t->n);
        return rt_num(ch[0]->kind == 'n' ? 2 : ch[0]->kind == 'v' ? 3 : 4);
    }
    return rt_named(t->name, t->place, t->n, ch);
}
static const RHist no_history;
static bool cond_eval(const RT *t, double *out)
{
    if (t->kind == 'n') { *out = t->num; return true; }
    if (t->kind == 'v') return false;
    double a[16] = { 0 };
    for (int i = 0; i < t->n; i++) if (!cond_eval(t->ch[i], &a[i])) return false;
    const char *s = t->name;
    if (t->place == R_INFIX)
    {
        if (!strcmp(s, "==")) { *out = a[0] == a[1]; return true; }
        if (!strcmp(s, "!=")) { *out = a[0] != a[1]; return true; }
        if (!strcmp(s, ">")) { *out = a[0] > a[1]; return true; }
        if (!strcmp(s, "<")) { *out = a[0] < a[1]; return true; }
        if (!strcmp(s, ">=")) { *out = a[0] >= a[1]; return true; }
        if (!strcmp(s, "<=")) { *out = a[0] <= a[1]; return true; }
        if (!strcmp(s, "||")) { *out = a[0] != 0 || a[1] != 0; return true; }
    }
    if (t->place == R_PREFIX && !strcmp(s, "!")) { *out = a[0] == 0; return true; }
    if (t->place == R_FUNCTION && t->n == 0)
    {
        static const struct { const char *n; double v; } K[] = { { "CONST", 2 }, { "VAR", 3 }, { "OP", 4 }, { "TRUE", 1 }, { "FALSE", 0 } };
        for (int i = 0; i < 5; i++) if (!strcmp(s, K[i].n)) { *out = K[i].v; return true; }
    }
    return ref_op_value(s, t->place, t->n, a, &no_history, out) == RV_OK;
}
static bool ref_condition(RT *t)
{
    double v;
    return cond_eval(fold_fn(fold_fn(fold_fn(t, "type"), "equal"), "count"), &v) && v != 0;
}

typedef struct { RT *l, *r, *c[3]; int nc; RewriteRule rule; } Rule;
static Rule rules[64];
typedef struct { RT *t; char code[24]; } Subj;
static Subj *subj;
static int nsubj, quick_subj;
static void add_subj(const char *c)
{
    if (nsubj >= 20000 || strlen(c) > 22) return;
    strcpy(subj[nsubj].code, c);
    subj[nsubj++].t = tsym_decode(gs, ng, c);
}
#define OPS_MAX 200
/* the operators rules may use */
static void prop_ops(RCtx *c)
{
    rctx_arith(c);
    c->glue = -1;
    rctx_add(c, "type", R_FUNCTION, 1, 0, false); rctx_add(c, "equal", R_FUNCTION, 2, 0, false);
    static const char *in1[] = { "==", "!=", ">", "<", ">=", "<=" };
    for (int i = 0; i < 6; i++) rctx_add(c, in1[i], R_INFIX, 2, 1, true);
    rctx_add(c, "||", R_INFIX, 2, 0, true);
    static const char *k[] = { "CONST", "VAR", "OP", "TRUE", "FALSE" };
    for (int i = 0; i < 5; i++) rctx_add(c, k[i], R_FUNCTION, 0, 0, false);
    rctx_add(c, "!", R_PREFIX, 1, 4, false);
    rctx_add(c, "count", R_FUNCTION, R_DYN, 0, false);
}
void mc_worker_init(void)
{
    rctx_arith(&rc);
    ctx = get_arith_ctx();
    init_propositional_ctx();
    prop_ops(&pc);
    for (int i = 0; i < NRULES; i++)
    {
        Rule *r = &rules[i];
        r->l = ref_parse(&pc, RULES[i][0]);
        r->r = ref_parse(&pc, RULES[i][1]);
        for (int j = 2; j < 5 && RULES[i][j]; j++) r->c[r->nc++] = ref_parse(&pc, RULES[i][j]);
        if (!r->l || !r->r) abort();
        Node *cn[3];
        for (int j = 0; j < r->nc; j++) cn[j] = rt_to_node(r->c[j], g_propositional_ctx);
        Pattern p;
        if (get_pattern(rt_to_node(r->l, g_propositional_ctx), (size_t)r->nc, cn, &p) != 0) abort();
        if (!get_rule(p, rt_to_node(r->r, g_propositional_ctx), &r->rule)) abort();
    }
    subj = malloc(sizeof(Subj) * 20000);
    tsym_enum(gs, ng, 1, false, 0, add_subj);
    for (int s = 0; s < 4; s++) tsym_enum(gs, ng, 2, true, s, add_subj);
    quick_subj = nsubj;
    tsym_enum(gs, ng, 3, true, 0, add_subj);
    ref_keep();
}

typedef struct { Rule *r; RT *at; RT *root; int n; RT *res[600]; bool bad; int nbad; } Results;
static RT *put(RT *t, const RT *at, RT *with)
{
    if (t == at) return with;
    if (t->kind != 'o') return t;
    RT *ch[64];
    for (int i = 0; i < t->n; i++) ch[i] = put(t->ch[i], at, with);
    return rt_named(t->name, t->place, t->n, ch);
}
static void on_match(const RMatch *m, void *arg)
{
    Results *q = arg;
    for (int i = 0; i < q->r->nc; i++)
    {
        bool b = false;
        if (!ref_condition(ref_subst_match(q->r->c[i], m, &b))) return;
    }
    bool b = false;
    RT *w = ref_subst_match(q->r->r, m, &b);
    if (b) { q->nbad++; return; }
    if (q->n < 600) q->res[q->n++] = put(q->root, q->at, w);
}
static bool find_first(Results *q, RT *t)
{
    q->at = t;
    ref_match(q->r->l, t, on_match, q);
    if (q->n || q->nbad) return true;
    for (int i = 0; i < t->n; i++) if (find_first(q, t->ch[i])) return true;
    return false;
}
/* all trees one step may lead to; false: rule does not apply */
static Results results;
static bool step(Rule *r, RT *t)
{
    memset(&results, 0, offsetof(Results, res));
    results.nbad = 0;
    results.r = r;
    results.root = t;
    return find_first(&results, t);
}
static bool among(const Node *n)
{
    for (int i = 0; i < results.n; i++) if (rt_equals_node(results.res[i], n)) return true;
    return false;
}

typedef struct { Node **t; const Vector *rs; size_t cap; size_t got; RewriteRule *rule; bool applied; } Call;
static void call_rule(void *a) { Call *c = a; c->applied = apply_rule(c->t, c->rule, propositional_checker); }
static void call_set(void *a) { Call *c = a; c->got = apply_ruleset(c->t, c->rs, propositional_checker, c->cap); }

static const char *rule_text(int i) { return ref_printf("%s -> %s%s%s", RULES[i][0], RULES[i][1], RULES[i][2] ? " WHERE " : "", RULES[i][2] ? RULES[i][2] : ""); }

static void ruleset(int k, const int *ix, Subj *s)
{
    Vector rs = get_empty_ruleset();
    for (int i = 0; i < k; i++) add_to_ruleset(&rs, rules[ix[i]].rule);
    const char *what = k == 1 ? rule_text(ix[0]) : ref_printf("%s | %s%s%s", rule_text(ix[0]), rule_text(ix[1]), k > 2 ? " | " : "", k > 2 ? rule_text(ix[2]) : "");
    enum { MAX = 6 };
    RT *chain[MAX + 1];
    int n = 0;
    bool stuck = false, exits = false;
    chain[0] = s->t;
    Node *cur = rt_to_node(s->t, &ctx);
    while (n < MAX && !stuck)
    {
        int first = -1;
        for (int i = 0; i < k && first < 0; i++) if (step(&rules[ix[i]], chain[n])) first = i;
        if (first >= 0 && results.nbad) { exits = true; break; }        /* the rule would replace a node by a list */
        Call c = { .t = &cur, .rs = &rs, .cap = 1 };
        if (k == 1) { c.rule = &rules[ix[0]].rule; call_rule(&c); c.got = c.applied; }
        else call_set(&c);
        mc_trans(1);
        if (first < 0)
        {
            if (c.got != 0) mc_fail("{%s} on %s: %zu steps reported, but no rule applies", what, rt_show(chain[n]), c.got);
            if (!rt_equals_node(chain[n], cur)) mc_fail("{%s} changed %s although no rule applies", what, rt_show(chain[n]));
            stuck = true;
            break;
        }
        if (c.got != 1) { mc_fail("{%s} on %s: %zu steps reported, expected 1", what, rt_show(chain[n]), c.got); break; }
        if (!among(cur)) { mc_fail("{%s} turns %s into %s, expected e.g. %s", what, rt_show(chain[n]), rt_show(rt_from_node(cur)), rt_show(results.res[0])); break; }
        chain[++n] = rt_from_node(cur);
        if (rt_size(chain[n]) > 60) break;
        mc_state(mc_mix(rt_hash(chain[n]), mc_hash_str(what, 1)));
    }
    free_tree(cur);
    /* several steps at once */
    for (int cap = 1; cap <= n + 1 && !mc_failed() && !exits; cap++)
    {
        if (cap > n && !stuck) break;
        cur = rt_to_node(s->t, &ctx);
        Call c = { .t = &cur, .rs = &rs, .cap = cap > n ? SIZE_MAX : (size_t)cap };
        call_set(&c);
        int w = cap > n ? n : cap;
        if (c.got != (size_t)w || !rt_equals_node(chain[w], cur))
            mc_fail("{%s} on %s with limit %d: %zu steps to %s, expected %d to %s", what, rt_show(s->t), cap > n ? -1 : cap, c.got, rt_show(rt_from_node(cur)), w, rt_show(chain[w]));
        free_tree(cur);
        mc_trans(1);
    }
    vec_destroy(&rs);
}

/* validity of rules: every variable on the right occurs on the left */
static void validity(const char *key)
{
    char a[32], b[32];
    if (sscanf(key, "%31s %31s", a, b) != 2) return;
    RT *l = tsym_decode(gs, ng, a), *r = tsym_decode(gs, ng, b);
    const char *v[8], *w[8];
    int nv = rt_count_vars(l, v, 8), nw = rt_count_vars(r, w, 8);
    bool ok = true;
    for (int i = 0; i < nw; i++) { bool f = false; for (int j = 0; j < nv; j++) if (!strcmp(v[j], w[i])) f = true; if (!f) ok = false; }
    Pattern p;
    Node *rn = rt_to_node(r, g_propositional_ctx);
    if (get_pattern(rt_to_node(l, g_propositional_ctx), 0, NULL, &p) != 0) mc_fail("pattern refused");
    RewriteRule rule;
    bool got = get_rule(p, rn, &rule);
    if (got != ok) mc_fail("rule %s -> %s is %s", rt_show(l), rt_show(r), got ? "accepted although a variable is unbound" : "refused");
    if (got)
    {
        /* swapping the variables of the subject must not confuse the substitution */
        RT *sub = rt_subst(l, 2, (const char *[]){ "x", "z" }, (RT *[]){ ref_parse(&rc, "z+x"), ref_parse(&rc, "sum(x)") });
        RT *exp = rt_subst(r, 2, (const char *[]){ "x", "z" }, (RT *[]){ ref_parse(&rc, "z+x"), ref_parse(&rc, "sum(x)") });
        Node *n = rt_to_node(sub, &ctx);
        if (!apply_rule(&n, &rule, propositional_checker)) mc_fail("rule %s -> %s does not apply to %s", rt_show(l), rt_show(r), rt_show(sub));
        else if (!rt_equals_node(exp, n)) mc_fail("rule %s -> %s turns %s into %s, expected %s", rt_show(l), rt_show(r), rt_show(sub), rt_show(rt_from_node(n)), rt_show(exp));
        free_tree(n);
        free_rule(&rule);
        mc_trans(2);
    }
    else { free_pattern(&p); free_tree(rn); mc_trans(1); }
    mc_state(mc_mix(rt_hash(l), rt_hash(r)));
}

/* conditions made of one operator: every operator of the rule language on every small tuple of constants */
static void every_op(const char *key)
{
    int o, n, a[3] = { 0 };
    if (sscanf(key, "%d %d %d %d %d", &o, &n, &a[0], &a[1], &a[2]) != 5 || o >= pc.n) return;
    static const double V[] = { 0, 1, 2, -1, 0.5 };
    RT *ch[3];
    for (int i = 0; i < n; i++) ch[i] = a[i] < 5 ? rt_num(V[a[i]]) : rt_var("z");
    RT *t = rt_op(&pc.ops[o], n, ch);
    double v;
    RT *f = fold_fn(fold_fn(fold_fn(t, "type"), "equal"), "count");
    bool known = f->kind != 'o' || (pc.ops[o].name[0] && strcmp(f->name, "rand"));
    bool has = cond_eval(f, &v), w = has && v != 0;
    if (f->kind == 'o') for (int i = 0; i < n; i++) if (a[i] == 5) { has = w = false; known = true; }
    if (known && !has && f->kind == 'o')
    {
        bool var = false;
        for (int i = 0; i < n; i++) if (a[i] == 5) var = true;
        RStatus st = var ? RV_VAR : ref_op_value(f->name, f->place, n, (double[]){ V[a[0] % 5], V[a[1] % 5], V[a[2] % 5] }, &no_history, &v);
        if (st == RV_UNKNOWN) known = false;
    }
    Node *c = rt_to_node(t, g_propositional_ctx);
    bool got = propositional_checker(&c);
    if (known && got != w) mc_fail("condition %s is %s", rt_show(t), got ? "taken as true" : "taken as false");
    free_tree(c);
    mc_trans(1);
    mc_state(rt_hash(t));
}
/* many steps on wide and deep trees: result and number of steps are known */
static void large(int kind, int n)
{
    static const char *R[] = { "sum([a],0,[b]) -> sum([a],[b])", "-(-x) -> x", "x+y -> sum(x,y)", "sum(x,[a]) -> prod([a],x) WHERE type(x) == CONST", "sum([a],x,[b],x,[c]) -> sum([a],x,[b],[c])", "x -> x+1" };
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(n + 2)), **w = ref_alloc(sizeof(RT *) * (size_t)(n + 2)), *t, *e;
    const ROp *sum = rctx_find(&rc, "sum", R_FUNCTION), *prod = rctx_find(&rc, "prod", R_FUNCTION), *neg = rctx_find(&rc, "-", R_PREFIX), *plus = rctx_find(&rc, "+", R_INFIX);
    int k = 0, steps = 0;
    for (int c = 0; c < 3 && !mc_failed(); c++)
    {
        size_t cap = c == 0 ? SIZE_MAX : c == 1 ? (size_t)(n / 3 + 1) : 1;
        steps = k = 0;
        if (kind == 0 || kind == 4)
        {
            for (int i = 0; i < n; i++)
            {
                bool del = kind == 0 ? i % 3 == 1 : i >= n / 2 + n % 2;
                ch[i] = rt_num(kind == 0 ? (del ? 0 : i + 1) : del ? i - (n / 2 + n % 2) : i);
                if (del && (size_t)steps < cap) steps++;
                else w[k++] = ch[i];
            }
            t = rt_op(sum, n, ch);
            e = rt_op(sum, k, w);
            if (kind == 4 && cap < (size_t)n) { if (c) continue; }
        }
        else if (kind == 1)
        {
            t = rt_var("z");
            for (int i = 0; i < n; i++) t = rt_op(neg, 1, &t);
            steps = n / 2;
            if ((size_t)steps > cap) steps = (int)cap;
            e = rt_var("z");
            for (int i = 0; i < n - 2 * steps; i++) e = rt_op(neg, 1, &e);
        }
        else if (kind == 2)
        {
            /* outermost first: the last summands are rewritten first */
            t = e = rt_var("z");
            steps = (size_t)n < cap ? n : (int)cap;
            for (int i = 0; i < n; i++)
            {
                RT *l[] = { t, rt_num(i) }, *r[] = { e, rt_num(i) };
                t = rt_op(plus, 2, l);
                e = i >= n - steps ? rt_op(sum, 2, r) : rt_op(plus, 2, r);
            }
        }
        else if (kind == 3)
        {
            if (c) continue;
            for (int i = 0; i < n; i++) { ch[i] = rt_num(i); w[(i + n - 1) % n] = ch[i]; }
            t = rt_op(sum, n, ch);
            e = rt_op(prod, n, w);
            steps = 1;
        }
        else
        {
            if (c == 0) cap = (size_t)n;
            t = e = rt_var("z");
            steps = (int)cap;
            for (int i = 0; i < steps; i++) e = rt_op(plus, 2, (RT *[]){ e, rt_num(1) });
        }
        RewriteRule rule;
        if (!parse_rule(R[kind], g_propositional_ctx, &rule)) { mc_fail("rule %s is refused", R[kind]); return; }
        Vector rs = get_empty_ruleset();
        add_to_ruleset(&rs, rule);
        Node *cur = rt_to_node(t, &ctx);
        size_t got = apply_ruleset(&cur, &rs, propositional_checker, cap);
        if (got != (size_t)steps || !rt_equals_node(e, cur)) mc_fail("%s on %d operands with limit %zd: %zu steps, expected %d%s", R[kind], n, (ssize_t)cap, got, steps, rt_equals_node(e, cur) ? "" : ", and another result");
        free_tree(cur);
        free_ruleset(&rs);
        mc_trans(1);
        mc_state(mc_mix((u64)kind * 100000 + (u64)n, (u64)steps));
    }
}
void mc_run(const char *key)
{
    ref_reset();
    long live0 = mc_live_blocks();
    int lk, ln;
    if (sscanf(key, "W %d %d", &lk, &ln) == 2) large(lk, ln);
    else if (key[0] == 'c')
    {
        RT *t = tsym_decode(cs, ncs, key + 2);
        Node *n = rt_to_node(t, g_propositional_ctx);
        bool got = propositional_checker(&n), w = ref_condition(t);
        if (got != w) mc_fail("condition %s is %s", rt_show(t), got ? "taken as true" : "taken as false");
        free_tree(n);
        mc_trans(1);
        mc_state(rt_hash(t));
    }
    else if (key[0] == 'o') every_op(key + 2);
    else if (key[0] == 'v') validity(key + 2);
    else
    {
        int ix[3], n = 0, lim = 0;
        if (key[0] == 'r') n = sscanf(key, "r %d %d %d %d", &lim, &ix[0], &ix[1], &ix[2]) - 1;
        for (int i = 0; i < n; i++) if (ix[i] < 0 || ix[i] >= NRULES) n = 0;
        if (n < 1) { mc_fail("bad key"); return; }
        for (int i = 0; i < nsubj && i < lim && !mc_failed(); i++)
        {
            size_t mk = ref_mark();
            ruleset(n, ix, &subj[i]);
            ref_release(mk);
        }
    }
    mc_trace(1);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left", mc_live_blocks() - live0);
}
static void emit_c(const char *c) { MC_CASE("c %s", c); }
static char vl[400][12];
static int nvl;
static void store_v(const char *c) { if (nvl < 400 && strlen(c) < 8) strcpy(vl[nvl++], c); }
void mc_enumerate(int thorough)
{
    for (int i = 0; i < NRULES; i++) MC_CASE("r %d %d", thorough ? 20000 : 4000, i);
    for (int i = 0; i < NRULES; i++) for (int j = 0; j < NRULES; j++) if (i != j) MC_CASE("r %d %d %d", thorough ? 20000 : quick_subj / 3, i, j);
    for (int k = 0; k < 6; k++)
    {
        for (int n = 1; n < 64; n++) if (k != 4 || n <= 40) MC_CASE("W %d %d", k, n);
        MC_SIZES(n, 63, k == 4 ? 0 : k == 0 ? (thorough ? 513 : 257) : thorough ? 1025 : 513) MC_CASE("W %d %d", k, n);
    }
    int few = thorough ? 1200 : 40;
    for (int i = 0; i < NRULES; i++) for (int j = 0; j < NRULES; j++) for (int k = 0; k < NRULES; k++)
        if (i != j && j != k && i != k && (thorough || (i + 2 * j + 3 * k) % 5 == 0)) MC_CASE("r %d %d %d %d", few, i, j, k);
    tsym_enum(cs, ncs, 2, false, 0, emit_c);
    for (int o = 0; o < OPS_MAX; o++) for (int n = 0; n <= 3; n++)
    {
        static RCtx all;
        if (!all.n) prop_ops(&all);
        if (o >= all.n || (all.ops[o].arity != n && all.ops[o].arity != R_DYN)) continue;
        int a[3] = { 0 };
        for (;;)
        {
            MC_CASE("o %d %d %d %d %d", o, n, a[0], a[1], a[2]);
            int k = n - 1;
            while (k >= 0 && ++a[k] == 6) a[k--] = 0;
            if (k < 0) break;
        }
    }
    for (int s = 0; s < 9; s++) tsym_enum(cs, ncs, thorough ? 4 : 3, true, s, emit_c);
    nvl = 0;
    tsym_enum(gs, 8, 1, false, 0, store_v);
    tsym_enum(gs, 8, 2, true, 1, store_v);
    for (int i = 0; i < nvl; i++) for (int j = 0; j < nvl; j++) MC_CASE("v %s %s", vl[i], vl[j]);
}
