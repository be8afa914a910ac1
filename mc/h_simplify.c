/* C06: the simplified expression has the value of the original at every positive point where that is defined. */
#include "simp.h"

const char *mc_property = "C06";

static void tables(void)
{
    /* 0: field operations and powers with every leaf combination */
    sv(0, "x"); sv(0, "y"); sn(0, 2); sn(0, 3); si(0, "+-*/^"); sp(0, "-");
    /* 1: more constants */
    sv(1, "x"); sn(1, 0); sn(1, 1); sn(1, 0.5); sn(1, 2); si(1, "+-*/^"); sp(1, "-"); sf(1, "sqrt", 1);
    /* 2: all documented operators with a meaning over the reals */
    sv(2, "x"); sv(2, "y"); sn(2, 2);
    si(2, "+-*/^C"); sput(2, 'o', "mod", R_INFIX, 2, 0); sp(2, "-"); sp(2, "+"); sp(2, "$"); spost(2, "!"); spost(2, "%");
    static const char *f1[] = { "exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "fib", "gamma" };
    for (int i = 0; i < 26; i++) sf(2, f1[i], 1);
    sf(2, "root", 2); sf(2, "log", 2); sf(2, "gcd", 2); sf(2, "lcm", 2); sf(2, "max", 2); sf(2, "min", 2); sf(2, "sum", 2); sf(2, "prod", 2); sf(2, "avg", 2); sf(2, "var", 2); sf(2, "e", 0);
    /* 3: what the rules speak about */
    sv(3, "x"); sn(3, 2); sv(3, "y"); si(3, "+*^"); sp(3, "-"); sf(3, "sin", 1); sf(3, "cos", 1); sf(3, "tan", 1); sf(3, "exp", 1); sf(3, "ln", 1); sf(3, "e", 0);
    /* 4: lists */
    sv(4, "x"); sn(4, 3); sv(4, "y"); sf(4, "sum", 3); sf(4, "prod", 3); sf(4, "avg", 3); sf(4, "max", 3); sf(4, "min", 2); si(4, "^-"); sf(4, "sum", 1); sf(4, "prod", 0); sf(4, "sum", 0);
    /* 5: many sums and products of three variables */
    sv(5, "x"); sn(5, 2); sv(5, "y"); sv(5, "z"); si(5, "+*-");
    /* 6: powers */
    sv(6, "x"); sn(6, 2); sv(6, "y"); sn(6, 3); sn(6, 0.5); si(6, "^*/"); sp(6, "-");
}
__attribute__((constructor)) static void init_tables(void) { tables(); }

static void check(const RT *t)
{
    RT *r;
    ListenerError e = simplified(t, &r);
    if (e != LISTENERERR_SUCCESS)
    {
        double v;
        for (int i = 0; i < NPTS; i++) if (strict(t, PTS[i], &v)) { mc_fail("'%s' is refused (error %d), its value at x=%g, y=%g, z=%g is %.10g", show(t), (int)e, PTS[i][0], PTS[i][1], PTS[i][2], v); return; }
        mc_count(1, 1);
        return;
    }
    int decided = 0;
    for (int i = 0; i < NPTS; i++)
    {
        double a, b;
        Verdict v = same_value(t, r, PTS[i], &a, &b);
        if (v == DIFFERENT)
        {
            mc_fail("'%s' is simplified to '%s': at x=%g, y=%g, z=%g the value is %.10g, of the simplified one %.10g", show(t), show(r), PTS[i][0], PTS[i][1], PTS[i][2], a, b);
            return;
        }
        if (v == SAME) decided++;
    }
    mc_count(0, (u64)decided);
    if (decided) mc_trace(1);
    mc_state(rt_hash(r));
}
static void check_line(const RT *t)
{
    char *s = show(t);
    if (!ses_line(s)) return;
    RT *r;
    if (simplified(t, &r) != LISTENERERR_SUCCESS) { mc_fail("'%s' is answered with '%s', but its simplification is refused", s, mc_out); return; }
    char *want = ref_printf("%s\n", show(r));
    if (strcmp(want, mc_out)) { mc_fail("'%s' prints '%s', its simplification is '%s'", s, mc_out, want); return; }
    mc_trace(1);
}
/* key: t<table> <preorder code> | l<table> <code> (as a line) */
void mc_run(const char *key)
{
    ref_reset();
    if (key[0] == 'i')
    {
        int b, nb, limit, n = 0;
        if (sscanf(key, "i %d/%d %d %n", &b, &nb, &limit, &n) < 3) abort();
        inst_of = check;
        instances(key + n, b, nb, limit);
        return;
    }
    int t = key[1] - '0';
    RT *r = tsym_decode(stab[t], nstab[t], key + 3);
    if (!r) abort();
    if (key[0] == 't') check(r); else check_line(r);
}
static int et;
static char ek = 't';
static unsigned stride = 1, cnt;
static void emit(const char *code) { if (cnt++ % stride == 0) MC_CASE("%c%d %s", ek, et, code); }
static void go(char k, int tab, int ops, bool cyc, int shift, unsigned st)
{
    ek = k; et = tab; stride = st; cnt = 0;
    tsym_enum(stab[tab], nstab[tab], ops, cyc, shift, emit);
}
void mc_worker_init(void)
{
    mc_counter_names[0] = "points compared";
    mc_counter_names[1] = "refused";
    rctx_arith(&rc);
    read_rules();
    if (chdir(mc_scratch()) != 0) abort();
    ses_begin(true);
    ref_keep();
}
void mc_enumerate(int thorough)
{
    rule_instances(thorough ? 12000 : 900, false);
    go('t', 0, 3, false, 0, thorough ? 1 : 3);
    for (int i = 0; i < (thorough ? 4 : 2); i++) go('t', 0, 4, true, i, thorough ? 1 : 2);
    go('t', 1, 2, false, 0, 1);
    go('t', 1, 3, false, 0, thorough ? 1 : 11);
    go('t', 2, 2, false, 0, 1);
    for (int i = 0; i < 3; i++) go('t', 2, 3, true, i, thorough ? 1 : 15);
    for (int i = 0; i < 3; i++) go('t', 3, 3, true, i, 1);
    go('t', 3, 3, false, 0, thorough ? 1 : 60);
    go('t', 4, 2, true, 0, 1);
    for (int i = 0; i < 3; i++) go('t', 4, 3, true, i, thorough ? 1 : 2);
    for (int s = 0; s < 4; s++) go('t', 5, 5, true, s, thorough ? 1 : 4);
    for (int s = 0; s < 5; s++) go('t', 6, 4, true, s, thorough ? 1 : 2);
    go('t', 6, 2, false, 0, 1);
    if (thorough) { go('t', 6, 3, false, 0, 1); go('t', 0, 5, true, 0, 3); go('t', 3, 4, true, 0, 5); go('t', 5, 6, true, 0, 2); }
    go('l', 0, 2, false, 0, thorough ? 1 : 3);
    go('l', 2, 2, true, 0, 1);
}
