/* C02: every expression tree up to a size is printed and read back by the real parser and by the reference parser. */
#include "ref.h"
#include "engine/tree/tree_to_string.h"
#include "engine/tree/tree_util.h"
#include "client/core/arith_context.h"

const char *mc_property = "C02";
static RCtx rc_doc, rc;
static ParsingContext ctx_doc, ctx;

/* other operator sets: two infix, a prefix, a postfix operator in every consistent combination of precedences */
#define SHAPES 9
static const struct { const char *a, *b, *p, *q; } shape[SHAPES] = {
    { "+", "&", "?", "!" },     /* distinct names */
    { "+", "&", "+", "!" },     /* prefix and infix of the same name */
    { "a", "&", "%", "!" },     /* an infix operator of letters, a name that printf would read */
    { "<", "<<", "<", ">" },    /* names that begin with each other */
    { "%d", "and", "%s", "%n" },
    { "-", "--", "-", "'" },
    { "a", "and", "not", "q" },
    { "or", "&", "or", "sq" },
    { "+", "-+", "!", "!" },
};
#define SETS 7000
static struct { int sh, ap, al, bp, bl, pp, qp; RCtx r; ParsingContext c; bool ready; } set[SETS];
static int nset;
static void make_sets(void)
{
    nset = 0;
    for (int sh = 0; sh < SHAPES; sh++)
    for (int ap = 1; ap <= 3; ap++) for (int al = 0; al < 2; al++)
    for (int bp = 1; bp <= 3; bp++) for (int bl = 0; bl < 2; bl++)
    {
        if (ap == bp && al != bl) continue;
        for (int pp = 0; pp <= 4; pp++) for (int qp = 0; qp <= 4; qp++)
        {
            if (nset == SETS) abort();
            set[nset].sh = sh; set[nset].ap = ap; set[nset].al = al; set[nset].bp = bp; set[nset].bl = bl; set[nset].pp = pp; set[nset].qp = qp;
            nset++;
        }
    }
}
static void use_set(int id)
{
    if (id < 0 || id >= nset) abort();
    if (!set[id].ready)
    {
        RCtx *r = &set[id].r;
        rctx_init(r);
        rctx_add(r, shape[set[id].sh].a, R_INFIX, 2, set[id].ap, set[id].al);
        rctx_add(r, shape[set[id].sh].b, R_INFIX, 2, set[id].bp, set[id].bl);
        rctx_add(r, shape[set[id].sh].p, R_PREFIX, 1, set[id].pp, true);
        rctx_add(r, shape[set[id].sh].q, R_POSTFIX, 1, set[id].qp, true);
        rctx_add(r, "f", R_FUNCTION, R_DYN, 255, true);
        rctx_add(r, "k", R_FUNCTION, 0, 255, true);
        set[id].c = rctx_build(r);
        set[id].ready = true;
    }
    rc = set[id].r;
    ctx = set[id].c;
}

/* table 0: one representative of every precedence class; 1: every documented operator; 2: leaves of every kind; 3: user-defined names */
static TSym tab[4 + SHAPES][100];
static int ntab[4 + SHAPES];
static void put(int t, char kind, const char *name, RPlace place, int arity, double num)
{
    /* codes: printable, without space and comma */
    static const char codes[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&()*+-./:;<=>?@[]^_{|}~";
    tab[t][ntab[t]] = (TSym){ codes[ntab[t]], kind, name, place, arity, num };
    ntab[t]++;
    if (ntab[t] > 88) abort();
}

void mc_worker_init(void)
{
    make_sets();
    rctx_arith(&rc_doc);
    static const char *un[] = { "f", "sinx", "mod_", "xC" };
    for (int i = 0; i < 4; i++) rctx_add(&rc_doc, un[i], R_FUNCTION, i == 0 ? 2 : i == 3 ? 0 : 1, 255, true);
    rctx_add(&rc_doc, "k", R_FUNCTION, 0, 255, true);
    ctx_doc = rctx_build(&rc_doc);
}

static void tables(void)
{
    put(0, 'v', "x", 0, 0, 0); put(0, 'n', 0, 0, 0, 2); put(0, 'v', "ab", 0, 0, 0);
    put(0, 'o', "pi", R_FUNCTION, 0, 0); put(0, 'n', 0, 0, 0, 0.5);
    put(0, 'o', "mod", R_INFIX, 2, 0); put(0, 'o', "-", R_INFIX, 2, 0); put(0, 'o', "/", R_INFIX, 2, 0); put(0, 'o', "*", R_INFIX, 2, 0);
    put(0, 'o', "^", R_INFIX, 2, 0); put(0, 'o', "-", R_PREFIX, 1, 0); put(0, 'o', "@", R_PREFIX, 1, 0); put(0, 'o', "$", R_PREFIX, 1, 0);
    put(0, 'o', "!", R_POSTFIX, 1, 0); put(0, 'o', "'", R_POSTFIX, 1, 0); put(0, 'o', "sin", R_FUNCTION, 1, 0); put(0, 'o', "sum", R_FUNCTION, 2, 0);
    RCtx c;
    rctx_arith(&c);
    put(1, 'v', "x", 0, 0, 0); put(1, 'n', 0, 0, 0, 7);
    for (int i = 0; i < c.n; i++)
    {
        if (c.ops[i].arity == 0) continue;
        if (c.ops[i].arity == R_DYN) put(1, 'o', strdup(c.ops[i].name), R_FUNCTION, 2, 0);
        else put(1, 'o', strdup(c.ops[i].name), c.ops[i].place, c.ops[i].arity, 0);
    }
    put(1, 'o', "sum", R_FUNCTION, 0, 0);
    put(1, 'o', "max", R_FUNCTION, 1, 0);
    put(1, 'o', "prod", R_FUNCTION, 3, 0);
    static const double nums[] = { 0, 1, 0.5, 10, 123456, 1234567890, 0.1234567891, 0.0001, 3.25, 100.125 };
    for (int i = 0; i < 10; i++) put(2, 'n', 0, 0, 0, nums[i]);
    static const char *vars[] = { "x", "[xs]", "Variable_name", "_", "x_y", "e_" };
    for (int i = 0; i < 6; i++) put(2, 'v', vars[i], 0, 0, 0);
    static const char *cs[] = { "pi", "e", "phi", "clight", "csound", "ans", "k", "sum", "xC" };
    for (int i = 0; i < 9; i++) put(2, 'o', cs[i], R_FUNCTION, 0, 0);
    put(2, 'o', "C", R_INFIX, 2, 0); put(2, 'o', "+", R_INFIX, 2, 0); put(2, 'o', "^", R_INFIX, 2, 0); put(2, 'o', "-", R_PREFIX, 1, 0);
    put(2, 'o', "%", R_POSTFIX, 1, 0); put(2, 'o', "'", R_POSTFIX, 1, 0); put(2, 'o', "cos", R_FUNCTION, 1, 0); put(2, 'o', "deriv", R_FUNCTION, 2, 0);
    put(3, 'v', "x", 0, 0, 0); put(3, 'o', "k", R_FUNCTION, 0, 0); put(3, 'n', 0, 0, 0, 3); put(3, 'o', "xC", R_FUNCTION, 0, 0);
    put(3, 'o', "f", R_FUNCTION, 2, 0); put(3, 'o', "sinx", R_FUNCTION, 1, 0); put(3, 'o', "mod_", R_FUNCTION, 1, 0);
    put(3, 'o', "C", R_INFIX, 2, 0); put(3, 'o', "*", R_INFIX, 2, 0); put(3, 'o', "-", R_PREFIX, 1, 0); put(3, 'o', "!", R_POSTFIX, 1, 0);
    for (int i = 0; i < SHAPES; i++)
    {
        put(4 + i, 'v', "x", 0, 0, 0); put(4 + i, 'n', 0, 0, 0, 2); put(4 + i, 'o', "k", R_FUNCTION, 0, 0);
        put(4 + i, 'o', shape[i].a, R_INFIX, 2, 0); put(4 + i, 'o', shape[i].b, R_INFIX, 2, 0);
        put(4 + i, 'o', shape[i].p, R_PREFIX, 1, 0); put(4 + i, 'o', shape[i].q, R_POSTFIX, 1, 0);
        put(4 + i, 'o', "f", R_FUNCTION, 1, 0);
    }
}
__attribute__((constructor)) static void init_tables(void) { tables(); }

static void strip_colors(const char *s, char *d)
{
    while (*s)
    {
        if (*s == 27) { while (*s && *s != 'm') s++; if (*s) s++; }
        else *d++ = *s++;
    }
    *d = 0;
}

/* the drawing: one line per node, in order, under its operator */
static char *drawn, *draw_end;
static void draw(const RT *t, const char *lead, const char *first)
{
    draw_end += sprintf(draw_end, t->kind == 'n' ? "%s%s%.10g\n" : "%s%s", lead, first, t->num);
    if (t->kind != 'n') draw_end += sprintf(draw_end, "%s\n", t->name);
    char *l = ref_printf("%s%s", lead, !*first ? "" : !strcmp(first, "└── ") ? "    " : "│   ");
    if (t->kind == 'o') for (int i = 0; i < t->n; i++) draw(t->ch[i], l, i == t->n - 1 ? "└── " : "├── ");
}
static long draw_size(const RT *t, long depth)
{
    long s = 6 * depth + 60;
    if (t->kind == 'o') for (int i = 0; i < t->n; i++) s += draw_size(t->ch[i], depth + 1);
    return s;
}
static void check(RT *t)
{
    Node *n = rt_to_node(t, &ctx);
    long live0 = mc_live_blocks();
    char *txt = tree_to_str(n, false);
    RT *r = ref_parse(&rc, txt);
    if (!r || !rt_equals(r, t)) mc_fail("%s is printed as \"%s\", which reads as %s by the documented grammar", rt_show(t), txt, rt_show(r));
    ParsingResult res;
    if (!mc_failed())
    {
        bool ok = parse_input(&ctx, txt, &res);
        if (!ok || !rt_equals_node(t, res.tree)) mc_fail("%s is printed as \"%s\", which is %s", rt_show(t), txt, ok ? "parsed as another expression" : "rejected by the parser");
        free_result(&res, true);
    }
    if (!mc_failed())
    {
        char *col = tree_to_str(n, true);
        char *pl = ref_alloc(strlen(col) + 1);
        strip_colors(col, pl);
        if (strcmp(pl, txt)) mc_fail("without color codes the colored text of \"%s\" is \"%s\"", txt, pl);
        free(col);
    }
    if (!mc_failed())
    {
        StringBuilder b = strbuilder_create(1);
        strbuilder_append(&b, "<%d>", 42);
        tree_append_to_strbuilder(&b, n, false);
        strbuilder_append(&b, "!");
        char *want = ref_printf("<42>%s!", txt);
        if (strcmp(strbuilder_to_str(&b), want)) mc_fail("appending \"%s\" to a string builder yields \"%s\"", txt, strbuilder_to_str(&b));
        vec_destroy(&b);
        mc_capture_begin();
        print_tree(n, false);
        mc_capture_end();
        if (!mc_failed() && strcmp(mc_out, txt)) mc_fail("print_tree prints \"%s\", the text is \"%s\"", mc_out, txt);
    }
    if (!mc_failed() && draw_size(t, 0) < 1000000)
    {
        drawn = draw_end = ref_alloc((size_t)draw_size(t, 0) + 100);
        *drawn = 0;
        draw(t, "", "");
        mc_capture_begin();
        print_tree_visually(n);
        mc_capture_end();
        char *pl = ref_alloc((size_t)mc_out_len + 1);
        strip_colors(mc_out, pl);
        if (!mc_failed() && strcmp(pl, drawn)) mc_fail("%s is drawn as\n%s\nexpected\n%s", rt_show(t), pl, drawn);
    }
    if (!mc_failed())
    {
        /* printing leaves the tree alone */
        if (!rt_equals_node(t, n)) mc_fail("printing changes the tree %s", rt_show(t));
    }
    mc_state(mc_hash_str(txt, 2));
    free(txt);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("printing and parsing leaves heap blocks");
    free_tree(n);
    mc_trans(3);
    mc_trace(1);
}

/* key: t<table> <preorder code>   |   s<operator set> <preorder code>   |   chain <kind> <n>   |   num <value> */
void mc_run(const char *key)
{
    ref_reset();
    rc = rc_doc;
    ctx = ctx_doc;
    if (key[0] == 's')
    {
        char *end;
        int id = (int)strtol(key + 1, &end, 10);
        use_set(id);
        RT *r = tsym_decode(tab[4 + set[id].sh], ntab[4 + set[id].sh], end + 1);
        if (!r) abort();
        check(r);
    }
    else if (key[0] == 't')
    {
        int t = key[1] - '0';
        RT *r = tsym_decode(tab[t], ntab[t], key + 3);
        if (!r) abort();
        check(r);
    }
    else if (!strncmp(key, "num", 3)) 
    {
        RT *x = rt_num(strtod(key + 4, NULL));
        check(x);
        RT *c[] = { x, rt_var("x") };
        check(rt_named("*", R_INFIX, 2, c));
        check(rt_named("-", R_PREFIX, 1, c));
        check(rt_named("!", R_POSTFIX, 1, c));
    }
    else
    {
        int kind, n;
        sscanf(key, "chain %d %d", &kind, &n);
        RT *t = rt_var("x");
        for (int i = 0; i < n; i++)
        {
            RT *two = rt_num(2), *l[] = { t, two }, *r[] = { two, t };
            switch (kind)
            {
                case 0: t = rt_named("-", R_PREFIX, 1, l); break;
                case 1: t = rt_named("!", R_POSTFIX, 1, l); break;
                case 2: t = rt_named("^", R_INFIX, 2, l); break;
                case 3: t = rt_named("^", R_INFIX, 2, r); break;
                case 4: t = rt_named("-", R_INFIX, 2, l); break;
                case 5: t = rt_named("-", R_INFIX, 2, r); break;
                case 6: t = rt_named("sin", R_FUNCTION, 1, l); break;
                case 7: t = rt_named(i % 2 ? "*" : "/", R_INFIX, 2, i % 3 ? l : r); break;
                case 8: t = rt_named(i % 2 ? "$" : "-", R_PREFIX, 1, l); break;
                case 9:
                {
                    RT *a[1100];
                    for (int k = 0; k <= i && k < 1100 && i == n - 1; k++) a[k] = k % 2 ? two : rt_var("y");
                    if (i == n - 1) t = rt_named("sum", R_FUNCTION, i + 1, a);
                    break;
                }
            }
        }
        check(t);
    }
}

static int et;
static void emit(const char *code) { MC_CASE("t%d %s", et, code); }
static void emit_set(const char *code) { MC_CASE("s%d %s", et, code); }

void mc_enumerate(int thorough)
{
    for (int s = 0; s < (thorough ? 5 : 1); s++) { et = 0; tsym_enum(tab[0], ntab[0], 4, true, s, emit); }
    if (thorough) { et = 0; tsym_enum(tab[0], ntab[0], 5, true, 0, emit); }
    et = 0; tsym_enum(tab[0], ntab[0], 2, false, 0, emit);
    et = 1; tsym_enum(tab[1], ntab[1], thorough ? 3 : 2, true, 0, emit);
    et = 1; tsym_enum(tab[1], ntab[1], 2, true, 1, emit);
    et = 2; tsym_enum(tab[2], ntab[2], thorough ? 2 : 1, false, 0, emit);
    et = 2; tsym_enum(tab[2], ntab[2], 2, true, 0, emit);
    et = 3; tsym_enum(tab[3], ntab[3], thorough ? 3 : 2, false, 0, emit);
    et = 3; tsym_enum(tab[3], ntab[3], 4, true, 0, emit);
    make_sets();
    for (et = 0; et < nset; et++) tsym_enum(tab[4 + set[et].sh], ntab[4 + set[et].sh], thorough ? 4 : 3, true, et % 3, emit_set);
    for (int k = 0; k < 10; k++)
        for (int n = 1; n <= (k == 9 ? 100 : thorough ? 400 : 150); n++) MC_CASE("chain %d %d", k, n);
    for (int k = 0; k < 10; k++) MC_SIZES(n, k == 9 ? 100 : thorough ? 400 : 150, thorough ? 1025 : k == 9 ? 1025 : 513) MC_CASE("chain %d %d", k, n);
    for (int i = 0; i <= (thorough ? 20000 : 2000); i++) MC_CASE("num %d", i);
    for (int i = 1; i <= (thorough ? 20000 : 2000); i++) MC_CASE("num %.10g", i / 1000.0);
    for (int d = 1; d <= 10; d++) { MC_CASE("num %.*s", d, "1234567891"); MC_CASE("num 0.%.*s", d, "9876543219"); MC_CASE("num %.*s", d, "9999999999"); MC_CASE("num 1%.*s", d - 1, "0000000000"); }
}
