/* C07: simplification of every expression up to a size ends; the same expression gives the same result again, whatever was simplified in between. */
#include "simp.h"

const char *mc_property = "C07";

static void tables(void)
{
    /* 0: every kind of leaf the rules test for; also undefined operands */
    sv(0, "x"); sv(0, "y"); sn(0, 0); sn(0, 1); sn(0, 2); sn(0, 0.5); si(0, "+-*/^"); sp(0, "-");
    /* 1: like 0, and derivatives */
    sv(1, "x"); sn(1, 2); sv(1, "y"); sn(1, 0); si(1, "+*^/"); sp(1, "-"); spost(1, "'"); sf(1, "deriv", 2); sf(1, "sin", 1); sf(1, "ln", 1);
    /* 2: every documented operator */
    sv(2, "x"); sn(2, 2); sv(2, "y");
    RCtx c;
    rctx_arith(&c);
    for (int i = 0; i < c.n; i++)
    {
        if (c.ops[i].arity == 0 || !strcmp(c.ops[i].name, "rand") || !strcmp(c.ops[i].name, "@")) continue;
        sput(2, 'o', strdup(c.ops[i].name), c.ops[i].place, c.ops[i].arity == R_DYN ? 2 : c.ops[i].arity, 0);
    }
    /* 3: flat lists */
    sv(3, "x"); sn(3, 2); sv(3, "y"); sn(3, 0); sf(3, "sum", 3); sf(3, "prod", 3); sf(3, "sum", 1); sf(3, "prod", 0); sf(3, "sum", 0); si(3, "^-/"); sf(3, "max", 3); sf(3, "avg", 2); sf(3, "avg", 0);
    /* 4: powers and trigonometry, as in the rules */
    sv(4, "x"); sn(4, 2); sf(4, "e", 0); si(4, "^*+"); sp(4, "-"); sf(4, "sin", 1); sf(4, "cos", 1); sf(4, "sqrt", 1);
    /* 5: three variables */
    sv(5, "x"); sv(5, "y"); sv(5, "z"); sn(5, 3); si(5, "+*-^");
    /* 6: opposite terms */
    sv(6, "x"); sn(6, 1); si(6, "+-*/"); sp(6, "-");
    /* 7: division by what folds to zero */
    sv(7, "x"); sn(7, 0); sn(7, 1); si(7, "/*-^"); spost(7, "'"); sf(7, "ln", 1);
}
__attribute__((constructor)) static void init_tables(void) { tables(); }

static const char *outcome(const RT *t)
{
    RT *r;
    ListenerError e = simplified(t, &r);
    if (e != LISTENERERR_SUCCESS) return ref_printf("error %d", (int)e);
    return rt_show(r);
}
static void check(const RT *t)
{
    const char *a = outcome(t), *b = outcome(t);
    mc_state(mc_hash_str(a, 0));
    if (strcmp(a, b)) { mc_fail("'%s' is simplified to %s at first and then to %s", show(t), a, b); return; }
    mc_trace(1);
}
/* histories: A, B, A over fixed expressions, in one session */
static const char *HIST[] = { "x+x", "x^2*x^3", "(x+1)'", "deriv(x*y,x)", "x/0", "sqrt(x)/sqrt(x y)", "avg(x,y,3)", "x-x-0.5-0.5", "tan(x)'", "sum(x,y,z)*prod(x,y)", "abs(x)'", "deriv(x,2)", "(x y)'", "(x-5)^2+4*x", "sin(x)^2+cos(x)^2", "-(-x)", "5", "1/0" };
#define NH ((int)(sizeof HIST / sizeof *HIST))
static void history(int i, int j, int k)
{
    int idx[] = { i, j, k, i, j, k };
    const char *first[NH] = { NULL };
    for (int s = 0; s < 6; s++)
    {
        const RT *t = ref_parse(&rc, HIST[idx[s]]);
        if (!t) abort();
        const char *o = outcome(t);
        if (!first[idx[s]]) first[idx[s]] = o;
        else if (strcmp(o, first[idx[s]])) { mc_fail("after simplifying '%s', '%s' and '%s', '%s' becomes %s; it was %s before", HIST[i], HIST[j], HIST[k], HIST[idx[s]], o, first[idx[s]]); return; }
    }
    mc_trace(1);
}
/* long expressions */
static void size(int kind, int n)
{
    char *s = ref_strdup("x");
    for (int i = 1; i < n; i++)
    {
        static const char *const OPS[] = { "+x", "-x", "*x", "/x", "+y", "*2", "-1", "+0.5", "^1", "*(-x)", "/2", "+x^2" };
        static const int PAT[][4] = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { 2, 2, 2, 2 }, { 3, 3, 3, 3 }, { 0, 4, 6, 1 }, { 2, 5, 3, 10 }, { 0, 5, 1, 7 }, { 9, 2, 3, 5 }, { 11, 0, 1, 4 } };
        if (kind < 9) s = ref_printf("%s%s", s, OPS[PAT[kind][i % 4]]);
        else if (kind == 9) s = ref_printf("-(%s)", s);
        else if (kind == 10) s = ref_printf("(%s+1)^2", s);
        else if (kind == 11) s = ref_printf("sin(%s)", s);
        else if (kind == 12) s = ref_printf("(%s)'", i == 1 ? "x^9+3*x^2" : s);
        else if (kind == 13) s = ref_printf("1/(1+%s)", s);
        else if (kind == 14) s = ref_printf("sqrt(%s)", s);
        else if (kind == 15) s = ref_printf("2*(%s-1)", s);
    }
    RT *t = ref_parse(&rc, s);
    if (!t) abort();
    check(t);
}
void mc_worker_init(void)
{
    mc_case_timeout = 20;
    rctx_arith(&rc);
    read_rules();
    if (chdir(mc_scratch()) != 0) abort();
    ses_begin(true);
    ref_keep();
}
void mc_run(const char *key)
{
    ref_reset();
    int a, b, c;
    if (key[0] == 'h' && sscanf(key + 2, "%d %d %d", &a, &b, &c) == 3) { history(a, b, c); return; }
    if (key[0] == 's' && sscanf(key + 2, "%d %d", &a, &b) == 2) { size(a, b); return; }
    if (key[0] == 'i')
    {
        int nb, n = 0;
        if (sscanf(key, "i %d/%d %d %n", &b, &nb, &c, &n) < 3) abort();
        inst_of = check;
        instances(key + n, b, nb, c);
        return;
    }
    int t = key[1] - '0';
    RT *r = tsym_decode(stab[t], nstab[t], key + 3);
    if (!r) abort();
    check(r);
}
static int et;
static unsigned stride = 1, cnt;
static void emit(const char *code) { if (cnt++ % stride == 0) MC_CASE("t%d %s", et, code); }
static void go(int tab, int ops, bool cyc, int shift, unsigned st)
{
    et = tab; stride = st; cnt = 0;
    tsym_enum(stab[tab], nstab[tab], ops, cyc, shift, emit);
}
void mc_enumerate(int thorough)
{
    rule_instances(thorough ? 12000 : 1000, true);
    go(0, 2, false, 0, 1);
    go(0, 3, false, 0, thorough ? 1 : 19);
    for (int i = 0; i < 6; i++) go(0, 3, true, i, 1);
    for (int i = 0; i < (thorough ? 4 : 1); i++) go(0, 4, true, i, thorough ? 1 : 3);
    for (int i = 0; i < 4; i++) go(1, 3, true, i, thorough ? 1 : 2);
    go(1, 2, false, 0, 1);
    for (int i = 0; i < 3; i++) go(2, 2, true, i, 1);
    if (thorough) for (int i = 0; i < 3; i++) go(2, 3, true, i, 2);
    for (int i = 0; i < 4; i++) go(3, 3, true, i, thorough ? 1 : 4);
    for (int i = 0; i < 3; i++) go(4, 4, true, i, thorough ? 1 : 4);
    for (int i = 0; i < 4; i++) go(5, 5, true, i, thorough ? 1 : 20);
    for (int i = 0; i < 2; i++) go(6, 4, true, i, 1);
    go(6, 3, false, 0, 1);
    if (thorough) { go(6, 4, false, 0, 1); go(6, 6, true, 0, 2); go(4, 5, true, 0, 2); }
    go(7, 3, false, 0, thorough ? 1 : 2);
    for (int i = 0; i < 3; i++) go(7, 4, true, i, thorough ? 1 : 3);
    for (int i = 0; i < NH; i++) for (int j = 0; j < NH; j++) for (int k = 0; k < NH; k++) if (thorough || k == (i + j) % NH) MC_CASE("h %d %d %d", i, j, k);
    for (int k = 0; k < 16; k++)
        for (int n = 1; n <= (k == 10 || k == 12 ? 5 : thorough ? 24 : 14); n++) MC_CASE("s %d %d", k, n);
}
