/* C01: the parser accepts exactly the documented language and builds exactly the documented tree. */
#include "ref.h"
#include "engine/tree/tree_util.h"
#include "client/core/arith_context.h"

const char *mc_property = "C01";

/* ---- contexts: id 0 is the documented arithmetic set; others are systematic small sets ---- */
typedef struct { RCtx r; ParsingContext c; bool ready; } Ctx;
#define MAXCTX 4000
static Ctx *ctxs[MAXCTX];
static int n_cfg;
static struct { int ap, al, bp, bl, pp, qp, glue, shape; } cfg[MAXCTX];

static void make_cfgs(void)
{
    /* infix a, b; prefix p; postfix q; every consistent combination of 3 precedences x associativity.
       shape 0: distinct names; 1: prefix shares its name with infix a; 2: postfix shares with b as infix-less */
    n_cfg = 1;
    for (int shape = 0; shape < 2; shape++)
    for (int ap = 1; ap <= 3; ap++) for (int al = 0; al < 2; al++)
    for (int bp = 1; bp <= 3; bp++) for (int bl = 0; bl < 2; bl++)
    {
        if (ap == bp && al != bl) continue;
        for (int pp = 0; pp <= 4; pp += shape ? 2 : 1) for (int qp = 0; qp <= 4; qp += shape ? 2 : 1)
        for (int glue = 0; glue < 3; glue++)
        {
            if (n_cfg >= MAXCTX) abort();
            cfg[n_cfg].ap = ap; cfg[n_cfg].al = al; cfg[n_cfg].bp = bp; cfg[n_cfg].bl = bl;
            cfg[n_cfg].pp = pp; cfg[n_cfg].qp = qp; cfg[n_cfg].glue = glue; cfg[n_cfg].shape = shape;
            n_cfg++;
        }
    }
}

static Ctx *get(int id)
{
    if (id < 0 || id >= n_cfg) abort();
    if (ctxs[id]) return ctxs[id];
    Ctx *x = calloc(1, sizeof *x);
    if (id == 0)
    {
        rctx_arith(&x->r);
        x->c = get_arith_ctx();
    }
    else
    {
        rctx_init(&x->r);
        int a = rctx_add(&x->r, "a", R_INFIX, 2, cfg[id].ap, cfg[id].al);
        int b = rctx_add(&x->r, "&", R_INFIX, 2, cfg[id].bp, cfg[id].bl);
        rctx_add(&x->r, cfg[id].shape == 1 ? "a" : "p", R_PREFIX, 1, cfg[id].pp, true);
        rctx_add(&x->r, "q", R_POSTFIX, 1, cfg[id].qp, true);
        rctx_add(&x->r, "f", R_FUNCTION, R_DYN, 255, true);
        rctx_add(&x->r, "g", R_FUNCTION, 1, 255, true);
        rctx_add(&x->r, "k", R_FUNCTION, 0, 255, true);
        x->r.glue = cfg[id].glue == 0 ? -1 : cfg[id].glue == 1 ? a : b;
        x->c = rctx_build(&x->r);
    }
    ctxs[id] = x;
    return x;
}

/* key: "<ctx>|t<SP>t<SP>..." token list, or "<ctx>=text" whole input line */
void mc_run(const char *key)
{
    ref_reset();
    char *end;
    int id = (int)strtol(key, &end, 10);
    Ctx *x = get(id);
    RT *want, *got = NULL;
    bool ok;
    size_t nsteps = 0;
    if (*end == '|')
    {
        char *copy = ref_strdup(end + 1);
        char **tok = ref_alloc((strlen(copy) + 2) * sizeof(char *));
        int n = 0;
        for (char *t = strtok(copy, " "); t; t = strtok(NULL, " ")) tok[n++] = t;
        want = ref_parse_tokens(&x->r, n, tok);
        nsteps = (size_t)n;
        Node *tree = NULL;
        size_t et = 12345678;
        ParserError e = parse_tokens(&x->c, (size_t)n, (const char **)tok, &tree, &et);
        ok = e == PERR_SUCCESS;
        if (ok && tree == NULL) { mc_fail("success without a tree"); return; }
        if (ok) { got = rt_from_node(tree); }
        if (ok && want && !rt_equals_node(want, tree)) mc_fail("tree is %s, the grammar gives %s", rt_show(got), rt_show(want));
        if (ok) free_tree(tree);
        if (!ok && et > (size_t)n) mc_fail("error position %zu lies behind the end", et);
        if (!ok && tree != NULL) mc_fail("error, yet a tree was stored");
        /* asking only whether it is an expression */
        size_t et2 = et;
        long live = mc_live_blocks();
        ParserError e2 = parse_tokens(&x->c, (size_t)n, (const char **)tok, NULL, &et2), e3 = parse_tokens(&x->c, (size_t)n, (const char **)tok, NULL, NULL);
        if (e2 != e || e3 != e) mc_fail("the error is %d, without a place for the tree %d and %d", e, e2, e3);
        if (!ok && et2 != et) mc_fail("the error is at %zu, without a place for the tree at %zu", et, et2);
        if (mc_live_blocks() != live) mc_fail("%ld heap blocks left after parsing without a place for the tree", mc_live_blocks() - live);
        if (parse_tokens(NULL, (size_t)n, (const char **)tok, NULL, NULL) != PERR_ARGS_MALFORMED || parse_tokens(&x->c, 0, NULL, NULL, NULL) != PERR_ARGS_MALFORMED) mc_fail("missing arguments are not refused");
    }
    else
    {
        want = ref_parse(&x->r, end + 1);
        ParsingResult res;
        ok = parse_input(&x->c, end + 1, &res);
        nsteps = vec_count(&res.tokens);
        if (ok != (res.error == PERR_SUCCESS)) mc_fail("parse_input result and error field disagree");
        if (ok) got = rt_from_node(res.tree);
        if (ok && want && !rt_equals_node(want, res.tree)) mc_fail("tree is %s, the grammar gives %s", rt_show(got), rt_show(want));
        if (!ok && res.error_token > vec_count(&res.tokens)) mc_fail("error position behind the end");
        free_result(&res, true);
        Node *n2 = parse_easy(&x->c, end + 1);
        if ((n2 != NULL) != ok) mc_fail("parse_easy and parse_input disagree");
        free_tree(n2);
    }
    mc_trans((u64)nsteps); mc_trace(1);
    if (ok) mc_count(0, 1);
    if (ok && !want) mc_fail("accepted as %s, but it is not in the grammar", rt_show(got));
    if (!ok && want) mc_fail("rejected, but the grammar gives %s", rt_show(want));
    mc_state(mc_mix((u64)id, ok ? rt_hash(got) : mc_hash_str(key, 9)));
}

void mc_worker_init(void) { make_cfgs(); }

static void all_seqs(int ctx, const char **al, int n, int minlen, int maxlen)
{
    int ix[16];
    for (int len = minlen; len <= maxlen; len++)
    {
        memset(ix, 0, sizeof ix);
        for (;;)
        {
            if (mc_want())
            {
                char b[600];
                int o = 0;
                for (int i = 0; i < len; i++) o += sprintf(b + o, "%s%s", i ? " " : "", al[ix[i]]);
                b[o] = 0;
                mc_do("%d|%s", ctx, b);
            }
            int i = len - 1;
            while (i >= 0 && ++ix[i] == n) ix[i--] = 0;
            if (i < 0) break;
        }
    }
}

/* sentences of the grammar (every derivation up to a number of tokens), over a small alphabet */
static const char **g_leaf, **g_in, **g_pre, **g_post; static int nl, ni, np, nq;
static int g_ctx_id;
static char sent[600];
static void emit_sentence(void) { MC_CASE("%d|%s", g_ctx_id, sent); }
/* depth-first over token strings; `need` = operand expected, `open` = open parens */
static void sentences(int budget, bool need, int open, size_t o)
{
    if (!need && open == 0) { sent[o] = 0; emit_sentence(); }
    if (budget == 0) return;
#define PUT(s, n2, op2) do { size_t k = (size_t)sprintf(sent + o, "%s%s", o ? " " : "", s); sentences(budget - 1, n2, op2, o + k); sent[o] = 0; } while (0)
    if (need)
    {
        if (budget <= open) return;
        for (int i = 0; i < nl; i++) PUT(g_leaf[i], false, open);
        for (int i = 0; i < np; i++) PUT(g_pre[i], true, open);
        if (open < 3) PUT("(", true, open + 1);
    }
    else
    {
        for (int i = 0; i < ni; i++) PUT(g_in[i], true, open);
        for (int i = 0; i < nq; i++) PUT(g_post[i], false, open);
        if (open) PUT(")", false, open - 1);
    }
}

static void text_cases(int thorough)
{
    static const char *al[] = { "1", ".", "x", "e", "(", ")", "{", "}", " ", "-", "*", ",", "max", "sin", "@", "?", "C" };
    int n = (int)(sizeof al / sizeof *al), maxlen = thorough ? 6 : 5;
    int ix[16];
    for (int len = 0; len <= maxlen; len++)
    {
        memset(ix, 0, sizeof ix);
        for (;;)
        {
            if (mc_want())
            {
                char b[200] = "";
                for (int i = 0; i < len; i++) strcat(b, al[ix[i]]);
                mc_do("0=%s", b);
            }
            int i = len - 1;
            while (i >= 0 && ++ix[i] == n) ix[i--] = 0;
            if (i < 0) break;
        }
    }
    /* numerals */
    static const char *nu[] = { "0", "1", "9", ".", "e", "x", "+" };
    for (int len = 1; len <= (thorough ? 8 : 6); len++)
    {
        memset(ix, 0, sizeof ix);
        for (;;)
        {
            if (mc_want())
            {
                char b[64] = "";
                for (int i = 0; i < len; i++) strcat(b, nu[ix[i]]);
                mc_do("0=%s", b);
            }
            int i = len - 1;
            while (i >= 0 && ++ix[i] == 7) ix[i--] = 0;
            if (i < 0) break;
        }
    }
}

static void big_cases(int thorough)
{
    /* sizes around and beyond every growth step of the parser's buffers */
    static const char *shapes[] = { "paren", "sum", "pow", "neg", "post", "args", "nest", "glue", "name", "digits", "mixed", "brace", "dangling" };
    int max = thorough ? 400 : 130;
    for (size_t s = 0; s < sizeof shapes / sizeof *shapes; s++)
        for (int q = 1; q <= max + (int)(sizeof mc_sizes / sizeof *mc_sizes); q++)
        {
            int n = q <= max ? q : mc_sizes[q - max - 1];
            if (q > max && (n <= max || n > (thorough ? 4097 : 1025))) continue;
            if (!mc_want()) continue;
            char *b = malloc((size_t)n * 40 + 100), *p = b;
            const char *h = shapes[s];
            if (!strcmp(h, "paren")) { for (int i = 0; i < n; i++) *p++ = '('; *p++ = 'x'; for (int i = 0; i < n; i++) *p++ = ')'; *p = 0; }
            else if (!strcmp(h, "brace")) { for (int i = 0; i < n; i++) *p++ = i % 2 ? '{' : '('; *p++ = 'x'; for (int i = n; i-- > 0;) *p++ = i % 2 ? '}' : ')'; *p = 0; }
            else if (!strcmp(h, "sum")) { p += sprintf(p, "x"); for (int i = 0; i < n; i++) p += sprintf(p, "%c%d", i % 3 == 0 ? '+' : i % 3 == 1 ? '-' : '*', i); }
            else if (!strcmp(h, "pow")) { p += sprintf(p, "x"); for (int i = 0; i < n; i++) p += sprintf(p, "^%d", i); }
            else if (!strcmp(h, "neg")) { for (int i = 0; i < n; i++) *p++ = i % 3 ? '-' : '+'; *p++ = 'x'; *p = 0; }
            else if (!strcmp(h, "post")) { *p++ = 'x'; for (int i = 0; i < n; i++) *p++ = i % 2 ? '!' : '%'; *p = 0; }
            else if (!strcmp(h, "args")) { p += sprintf(p, "sum(x"); for (int i = 0; i < n; i++) p += sprintf(p, ",%d*y", i); p += sprintf(p, ")"); }
            else if (!strcmp(h, "nest")) { for (int i = 0; i < n; i++) p += sprintf(p, "max(%d,", i); p += sprintf(p, "x"); for (int i = 0; i < n; i++) *p++ = ')'; *p = 0; }
            else if (!strcmp(h, "glue")) { for (int i = 0; i < n; i++) p += sprintf(p, i % 2 ? "(x)" : "2 y "); }
            else if (!strcmp(h, "name")) { for (int i = 0; i < n; i++) *p++ = (char)('a' + i % 26); p += sprintf(p, "+1"); }
            else if (!strcmp(h, "digits")) { for (int i = 0; i < n; i++) *p++ = (char)('0' + (i * 7 + 1) % 10); p += sprintf(p, ".25"); }
            else if (!strcmp(h, "mixed")) { for (int i = 0; i < n; i++) p += sprintf(p, "-(x+%d*", i); p += sprintf(p, "y"); for (int i = 0; i < n; i++) p += sprintf(p, "!)^2"); }
            else { for (int i = 0; i < n; i++) p += sprintf(p, "sin(x)+"); if (n % 2) p += sprintf(p, "("); *p = 0; }
            mc_do("0=%s", b);
            free(b);
        }
}

void mc_enumerate(int thorough)
{
    mc_counter_names[0] = "accepted_inputs";
    /* 1. every token sequence over the documented operators */
    static const char *full[] = { "2", "x", "+", "-", "*", "/", "^", "!", "(", ")", ",", "max", "sin", "pi", "$", "@", "root", "mod" };
    all_seqs(0, full, 18, 0, thorough ? 6 : 4);
    static const char *lean[] = { "2", "x", "-", "^", "!", "(", ")", ",", "sum", "gcd", "sin" };
    all_seqs(0, lean, 11, 5, thorough ? 7 : 5);
    static const char *fn[] = { "1", "(", ")", ",", "sum", "-" };
    all_seqs(0, fn, 6, 6, thorough ? 9 : 7);
    /* 2. every sentence of the language over all infix/prefix/postfix operators */
    static const char *lf[] = { "x" }, *in_[] = { "+", "-", "*", "/", "^", "C" }, *pr[] = { "-", "$", "@" }, *po[] = { "!", "'" };
    g_leaf = lf; nl = 1; g_in = in_; ni = 6; g_pre = pr; np = 3; g_post = po; nq = 2; g_ctx_id = 0;
    sentences(thorough ? 8 : 7, true, 0, 0);
    static const char *in2[] = { "+", "*", "^", "mod" }, *pr2[] = { "-" }, *po2[] = { "%" };
    g_in = in2; ni = 4; g_pre = pr2; np = 1; g_post = po2; nq = 1;
    sentences(thorough ? 11 : 9, true, 0, 0);
    /* 3. whole lines with spaces, braces, numerals, foreign characters */
    text_cases(thorough);
    big_cases(thorough);
    /* 4. every consistent small operator set */
    for (int id = 1; id < n_cfg; id++)
    {
        bool s1 = cfg[id].shape == 1;
        const char *al[] = { "x", "a", "&", "q", "(", ")", "p" };
        all_seqs(id, al, s1 ? 6 : 7, 0, thorough ? 5 : 3);
        const char *l2[] = { "x" }, *i2[] = { "a", "&" }, *p2[] = { s1 ? "a" : "p" }, *q2[] = { "q" };
        g_leaf = l2; nl = 1; g_in = i2; ni = 2; g_pre = p2; np = 1; g_post = q2; nq = 1; g_ctx_id = id;
        sentences(thorough ? 8 : 6, true, 0, 0);
        if (cfg[id].glue && id % 7 == 0)
        {
            const char *af[] = { "x", "f", "g", "k", "(", ")", ",", "&" };
            all_seqs(id, af, 8, 1, thorough ? 5 : 4);
        }
    }
}
