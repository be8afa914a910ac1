/* C08: derivatives against an independent symbolic differentiation, compared as values at positive points. */
#include "simp.h"

const char *mc_property = "C08";

static void tables(void)
{
    /* 0: field operations and powers */
    sv(0, "x"); sn(0, 2); sn(0, 3); si(0, "+-*/^"); sp(0, "-");
    /* 1: all functions */
    sv(1, "x"); sn(1, 2); si(1, "+*^/-"); sp(1, "-"); sp(1, "+"); sp(1, "$"); spost(1, "%");
    static const char *f1[] = { "exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "fib", "gamma" };
    for (int i = 0; i < 26; i++) sf(1, f1[i], 1);
    sf(1, "root", 2); sf(1, "log", 2); sf(1, "gcd", 2); sf(1, "max", 2); sf(1, "sum", 2); sf(1, "prod", 2); sf(1, "avg", 2); sf(1, "var", 2); sf(1, "e", 0);
    /* 2: what has a rule */
    sv(2, "x"); sn(2, 2); sf(2, "e", 0); si(2, "+*^/"); sp(2, "-"); sf(2, "sin", 1); sf(2, "cos", 1); sf(2, "tan", 1); sf(2, "ln", 1); sf(2, "sqrt", 1); sf(2, "exp", 1); sf(2, "atan", 1);
    /* 3: two variables */
    sv(3, "x"); sv(3, "y"); sn(3, 2); si(3, "+*-^/"); sf(3, "sin", 1); sf(3, "ln", 1); sf(3, "exp", 1);
    /* 4: derivatives inside */
    sv(4, "x"); sn(4, 3); sv(4, "y"); si(4, "+*^"); spost(4, "'"); sf(4, "deriv", 2); sf(4, "sin", 1);
    /* 5: lists */
    sv(5, "x"); sn(5, 2); sf(5, "sum", 3); sf(5, "prod", 3); si(5, "^-"); sf(5, "avg", 2); sf(5, "sin", 1);
    /* 6: calls of any number of operands, with and without a rule */
    sv(6, "x"); sn(6, 2); sn(6, 0.5); si(6, "*"); sf(6, "sin", 1);
    static const char *dyn[] = { "max", "min", "sum", "prod", "avg", "var", "gcd", "lcm" };
    for (int i = 0; i < 8; i++) for (int n = i < 2 ? 1 : 3; n <= 4; n++) sf(6, dyn[i], n);
    for (int i = 0; i < 2; i++) sf(6, dyn[i], 5);
    sf(6, "log", 2); sf(6, "root", 2); si(6, "C"); sput(6, 'o', "mod", R_INFIX, 2, 0);
}
__attribute__((constructor)) static void init_tables(void) { tables(); }

/* ---- reference differentiation; NULL: no derivative is known here */
static RT *I2(const char *o, RT *a, RT *b) { RT *c[] = { a, b }; return rt_named(o, R_INFIX, 2, c); }
static RT *F1(const char *f, RT *a) { return rt_named(f, R_FUNCTION, 1, &a); }
static RT *neg(RT *a) { return rt_named("-", R_PREFIX, 1, &a); }
static RT *num(double v) { return rt_num(v); }
static bool has_var(const RT *t, const char *v)
{
    if (t->kind == 'v') return !strcmp(t->name, v);
    for (int i = 0; i < t->n; i++) if (has_var(t->ch[i], v)) return true;
    return false;
}
static bool has_any_var(const RT *t) { const char *n[4]; return rt_count_vars(t, n, 4) > 0; }
static RT *diff(RT *t, const char *v)
{
    if (!has_var(t, v)) return num(0);
    if (t->kind == 'v') return num(1);
    RT *a = t->n > 0 ? t->ch[0] : NULL, *b = t->n > 1 ? t->ch[1] : NULL;
    const char *s = t->name;
#define IS(x) (!strcmp(s, x))
    if (t->place == R_FUNCTION && (IS("sum") || IS("avg") || IS("prod")))
    {
        RT *r = num(0);
        for (int i = 0; i < t->n; i++)
        {
            RT *d = diff(t->ch[i], v);
            if (!d) return NULL;
            if (IS("prod")) for (int k = 0; k < t->n; k++) if (k != i) d = I2("*", d, t->ch[k]);
            r = I2("+", r, d);
        }
        return IS("avg") ? I2("/", r, num(t->n)) : r;
    }
    RT *da = a ? diff(a, v) : NULL, *db = b ? diff(b, v) : NULL;
    if ((a && !da) || (b && !db)) return NULL;
    if (t->place == R_INFIX)
    {
        if (IS("+") || IS("-")) return I2(s, da, db);
        if (IS("*")) return I2("+", I2("*", da, b), I2("*", a, db));
        if (IS("/")) return I2("/", I2("-", I2("*", da, b), I2("*", a, db)), I2("*", b, b));
        if (IS("^"))
        {
            if (!has_var(b, v)) return I2("*", I2("*", b, I2("^", a, I2("-", b, num(1)))), da);
            if (!has_var(a, v)) return I2("*", I2("*", I2("^", a, b), F1("ln", a)), db);
            return I2("*", I2("^", a, b), I2("+", I2("*", db, F1("ln", a)), I2("/", I2("*", b, da), a)));
        }
        return NULL;
    }
    if (t->place == R_PREFIX) return IS("-") ? neg(da) : IS("+") || IS("$") ? da : NULL;
    if (t->place == R_POSTFIX) return IS("%") ? I2("/", da, num(100)) : NULL;
    RT *aa = I2("*", a, a), *d = NULL;
    if (IS("exp")) d = t;
    else if (IS("sqrt")) d = I2("/", num(0.5), t);
    else if (IS("root") && b) return diff(I2("^", a, I2("/", num(1), b)), v);
    else if (IS("log") && b) return diff(I2("/", F1("ln", a), F1("ln", b)), v);
    else if (IS("ln")) d = I2("/", num(1), a);
    else if (IS("ld")) d = I2("/", num(1), I2("*", a, F1("ln", num(2))));
    else if (IS("lg")) d = I2("/", num(1), I2("*", a, F1("ln", num(10))));
    else if (IS("sin")) d = F1("cos", a);
    else if (IS("cos")) d = neg(F1("sin", a));
    else if (IS("tan")) d = I2("+", num(1), I2("*", t, t));
    else if (IS("asin")) d = I2("/", num(1), F1("sqrt", I2("-", num(1), aa)));
    else if (IS("acos")) d = I2("/", num(-1), F1("sqrt", I2("-", num(1), aa)));
    else if (IS("atan")) d = I2("/", num(1), I2("+", num(1), aa));
    else if (IS("sinh")) d = F1("cosh", a);
    else if (IS("cosh")) d = F1("sinh", a);
    else if (IS("tanh")) d = I2("-", num(1), I2("*", t, t));
    else if (IS("asinh")) d = I2("/", num(1), F1("sqrt", I2("+", aa, num(1))));
    else if (IS("acosh")) d = I2("/", num(1), F1("sqrt", I2("-", aa, num(1))));
    else if (IS("atanh")) d = I2("/", num(1), I2("-", num(1), aa));
    else if (IS("abs")) d = F1("sgn", a);
    else if (IS("var") && t->n == 2) return diff(I2("/", I2("^", I2("-", a, b), num(2)), num(4)), v);
    return d ? I2("*", d, da) : NULL;
#undef IS
}
/* what the expression with derivatives stands for. open: no statement is made; refuse: it has to be refused unless
   it does not depend on the impossible derivative, which becomes the variable z */
static bool open_, refuse;
static int depends(const RT *t, const char **on)      /* variables its value depends on, by comparing points; -1 unknown */
{
    int n = 0;
    for (int k = 0; k < 3; k++)
    {
        bool dep = false;
        for (int i = 0; i < NPTS && !dep; i++)
        {
            double p[3], q[3], v, w;
            memcpy(p, PTS[i], sizeof p);
            memcpy(q, p, sizeof p);
            q[k] *= 1.37;
            if (!strict(t, p, &v) || !strict(t, q, &w)) continue;
            dep = fabs(v - w) > 1e-6 * fmax(fabs(v), fabs(w)) + 1e-12;
        }
        if (dep) on[n++] = VARS[k];
    }
    return n;
}
static RT *expand(RT *t)
{
    if (t->kind != 'o' || t->n == 0) return t;
    RT *ch[16];
    for (int i = 0; i < t->n; i++)
    {
        ch[i] = expand(t->ch[i]);
        if (!ch[i] || open_) return NULL;
    }
    const char *on[3], *names[3];
    if ((!strcmp(t->name, "'") || !strcmp(t->name, "deriv")) && has_var(ch[0], "z"))
    {
        int n = depends(ch[0], on);
        for (int i = 0; i < n; i++) if (!strcmp(on[i], "z")) { refuse = true; return rt_var("z"); }
        open_ = true;
        return NULL;
    }
    if (!strcmp(t->name, "'") && t->place == R_POSTFIX)
    {
        int n = depends(ch[0], on), m = rt_count_vars(ch[0], names, 3);
        if (n > 1) { refuse = true; return rt_var("z"); }
        if (m > 1) { open_ = true; return NULL; }
        if (m == 0) return rt_num(0);
        RT *d = diff(ch[0], names[0]);
        if (!d) open_ = true;
        return d;
    }
    if (!strcmp(t->name, "deriv"))
    {
        const RT *y = ch[1];
        if (y->kind != 'v')
        {
            /* it may still be simplified to a variable */
            bool same[3] = { true, true, true }, any = false;
            for (int i = 0; i < NPTS; i++)
            {
                double v;
                if (!strict(y, PTS[i], &v)) continue;
                any = true;
                for (int k = 0; k < 3; k++) if (fabs(v - PTS[i][k]) > 1e-9 * fabs(v)) same[k] = false;
            }
            if (any && !same[0] && !same[1] && !same[2]) { refuse = true; return rt_var("z"); }
            open_ = true;
            return NULL;
        }
        RT *d = diff(ch[0], y->name);
        if (!d) open_ = true;
        return d;
    }
    return rt_named(t->name, t->place, t->n, ch);
}
/* the parts under a derivative sign have to be defined at the point, too */
static bool parts_defined(const RT *t, const double *p)
{
    double v;
    if (t->kind != 'o') return true;
    for (int i = 0; i < t->n; i++) if (!parts_defined(t->ch[i], p)) return false;
    if (!strcmp(t->name, "'") || !strcmp(t->name, "deriv")) return true;
    /* a power with a variable exponent is smooth for positive bases only */
    if (!strcmp(t->name, "^") && has_any_var(t->ch[1]) && (ref_eval(t->ch[0], NULL, 3, VARS, p, &v) != RV_OK || v <= 0)) return false;
    for (int i = 0; i < t->n; i++) if (t->ch[i]->kind == 'o' && (!strcmp(t->ch[i]->name, "'") || !strcmp(t->ch[i]->name, "deriv"))) return true;
    RStatus s = ref_eval(t, NULL, 3, VARS, p, &v);
    return s == RV_DERIV || strict(t, p, &v);
}
/* numerical derivative, for functions the reference does not differentiate */
static void by_difference(const RT *f, const char *by, RT *res, const char *txt)
{
    int k = 0;
    const char *names[3];
    if (!by && rt_count_vars(f, names, 3) != 1) return;
    for (int i = 0; i < 3; i++) if (!strcmp(VARS[i], by ? by : names[0])) k = i;
    for (int i = 0; i < NPTS; i++)
    {
        double p[3], v, d[3], got, lo, hi;
        bool ok = true;
        if (!strict(f, PTS[i], &v)) continue;
        for (int h = 0; h < 3; h++)
        {
            double eps = PTS[i][k] * (h == 0 ? 1e-4 : h == 1 ? 3e-4 : 1e-3);
            memcpy(p, PTS[i], sizeof p);
            p[k] = PTS[i][k] - eps; ok = ok && strict(f, p, &lo);
            p[k] = PTS[i][k] + eps; ok = ok && strict(f, p, &hi);
            d[h] = (hi - lo) / (2 * eps);
        }
        if (!ok || fabs(d[0] - d[2]) > 1e-3 * fabs(d[0]) + 1e-3 || fabs(d[0] - d[1]) > 1e-3 * fabs(d[0]) + 1e-3) continue;
        if (ref_eval(res, NULL, 3, VARS, PTS[i], &got) != RV_OK || !isfinite(got)) continue;
        if (fabs(got - d[0]) > 0.02 * (fabs(d[0]) + 1)) { mc_fail("'%s' becomes '%s': %.10g at x=%g, y=%g; the difference quotient is %.10g", txt, show(res), got, PTS[i][0], PTS[i][1], d[0]); return; }
        mc_count(2, 1);
    }
}
static void check(RT *t)
{
    RT *r;
    open_ = refuse = false;
    ListenerError e = simplified(t, &r);
    RT *w = expand(t);
    char *txt = show(t);
    if (refuse)
    {
        const char *on[3];
        bool dep = false;
        if (w) { int n = depends(w, on); for (int i = 0; i < n; i++) dep |= !strcmp(on[i], "z"); }
        if (!dep) return;
        if (e == LISTENERERR_SUCCESS) { mc_fail("'%s' has to be refused, it becomes '%s'", txt, show(r)); return; }
        mc_count(1, 1);
        mc_trace(1);
        return;
    }
    if (e != LISTENERERR_SUCCESS) { mc_count(1, 1); return; }
    if (!w || open_)
    {
        if (!strcmp(t->name, "'")) by_difference(t->ch[0], NULL, r, txt);
        else if (!strcmp(t->name, "deriv") && t->ch[1]->kind == 'v') by_difference(t->ch[0], t->ch[1]->name, r, txt);
        return;
    }
    mc_state(rt_hash(r));
    int decided = 0, undefined = 0, defined = 0;
    for (int i = 0; i < NPTS; i++)
    {
        double a, b, v;
        if (!parts_defined(t, PTS[i]) || !strict(w, PTS[i], &v)) continue;
        defined++;
        Verdict x = same_value(w, r, PTS[i], &a, &b);
        if (x == DIFFERENT && isnan(b)) { undefined++; continue; }
        if (x == DIFFERENT) { mc_fail("'%s' becomes '%s': %.10g at x=%g, y=%g; the derivative is %.10g", txt, show(r), b, PTS[i][0], PTS[i][1], a); return; }
        if (x == SAME) decided++;
    }
    if (undefined && undefined == defined) { mc_fail("'%s' becomes '%s', which is undefined at all %d points where the derivative exists", txt, show(r), defined); return; }
    if (undefined) mc_count(3, (u64)undefined);
    mc_count(0, (u64)decided);
    if (decided) mc_trace(1);
}
static void check_line(const char *s, int refused)
{
    bool ok = ses_line(s);
    if (refused && ok) mc_fail("'%s' has to be refused, it prints '%s'", s, mc_out);
    if (refused && (mc_out_len || !mc_err_len)) mc_fail("'%s' is refused with '%s', '%s'", s, mc_out, mc_err);
    if (refused && !mc_failed()) mc_trace(1);
    if (!refused)
    {
        RT *t = ref_parse(&rc, s);
        if (!t) abort();
        if (!ok) mc_fail("'%s' is refused: %s", s, mc_err);
        else check(t);
    }
}
/* refused always (the message is that of a bad derivative); defined always */
static const char *REFUSED[] = { "deriv(x,2)", "deriv(x^2,x+1)", "deriv(x,sin(x))", "deriv(2,3)", "(x*y)'", "(x+y)'", "(x^y)'", "sin(x y)'", "x'+(x y)'", "deriv(x, x*y)", "deriv(deriv(x,2),x)", "2*(x+y)'", "deriv(x^2,pi)", "deriv(x,-x)",
    "deriv(x y,x')", "(a+b)'", "deriv(x^2, 2x)", "(x y z)'", "((x+y)')'", "deriv((x+y)', x)", "deriv(5, 5)", "1+deriv(x,1/x)", "sqrt((x*y)')", "deriv(2, 2)'", "deriv(x, 1)+y" };
static const char *ACCEPTED[] = { "x'", "5'", "(x^2)'", "deriv(x*y,x)", "deriv(x*y,y)", "deriv(y,x)", "deriv(5,x)", "(x^2)''", "deriv((x^3)',x)", "sin(x)'", "cos(x)'", "tan(x)'", "ln(x)'", "exp(x)'", "(e^x)'", "(2^x)'", "(x^x)'", 
    "asin(x)'", "acos(x)'", "atan(x)'", "deriv(x^y,y)", "deriv(x^y,x)", "(3*x^5)'", "(x^2+3*x+1)'", "(x%)'", "root(x,3)'", "deriv(deriv(x*y,x),y)", "pi'", "(-x)'", "(sin(x)*cos(x))'", "deriv(2,x)'", "sin(x^2)'", "(x-3)'''" };
void mc_worker_init(void)
{
    mc_counter_names[0] = "points compared";
    mc_counter_names[1] = "refused";
    mc_counter_names[2] = "difference quotients";
    mc_counter_names[3] = "points where only the reference is defined";
    rctx_arith(&rc);
    if (chdir(mc_scratch()) != 0) abort();
    ses_begin(true);
    ref_keep();
}
/* key: p<table> code: (tree)'   d<table> code: deriv(tree, x)   y: deriv(tree, y)  2: (tree)''   D: deriv(deriv(tree,x),y)   t: tree as it is (contains derivatives) */
void mc_run(const char *key)
{
    ref_reset();
    if (key[0] == 'R') { check_line(REFUSED[atoi(key + 1)], 1); return; }
    if (key[0] == 'A') { check_line(ACCEPTED[atoi(key + 1)], 0); return; }
    int t = key[1] - '0';
    RT *r = tsym_decode(stab[t], nstab[t], key + 3);
    if (!r) abort();
    RT *x = rt_var("x"), *y = rt_var("y");
    switch (key[0])
    {
        case 'p': r = rt_named("'", R_POSTFIX, 1, &r); break;
        case '2': r = rt_named("'", R_POSTFIX, 1, &r); r = rt_named("'", R_POSTFIX, 1, &r); break;
        case 'd': { RT *c[] = { r, x }; r = rt_named("deriv", R_FUNCTION, 2, c); break; }
        case 'y': { RT *c[] = { r, y }; r = rt_named("deriv", R_FUNCTION, 2, c); break; }
        case 'D': { RT *c[] = { r, x }, *c2[] = { rt_named("deriv", R_FUNCTION, 2, c), y }; r = rt_named("deriv", R_FUNCTION, 2, c2); break; }
    }
    check(r);
}
static int et;
static char ek;
static unsigned stride = 1, cnt;
static void emit(const char *code) { if (cnt++ % stride == 0) MC_CASE("%c%d %s", ek, et, code); }
static void go(const char *kinds, int tab, int ops, bool cyc, int shift, unsigned st)
{
    for (; *kinds; kinds++)
    {
        ek = *kinds; et = tab; stride = st; cnt = 0;
        tsym_enum(stab[tab], nstab[tab], ops, cyc, shift, emit);
    }
}
void mc_enumerate(int thorough)
{
    for (int i = 0; i < (int)(sizeof REFUSED / sizeof *REFUSED); i++) MC_CASE("R%d", i);
    for (int i = 0; i < (int)(sizeof ACCEPTED / sizeof *ACCEPTED); i++) MC_CASE("A%d", i);
    go("pd", 0, 2, false, 0, 1);
    go("p", 0, 3, false, 0, 1);
    go("2", 0, 2, false, 0, 1);
    go("pd", 1, 2, false, 0, 1);
    for (int i = 0; i < 2; i++) go("p", 1, 3, true, i, thorough ? 1 : 6);
    for (int i = 0; i < 3; i++) go("pd", 2, 3, true, i, 1);
    go("2", 2, 2, true, 0, 1);
    go("dyp", 3, 2, false, 0, 1);
    for (int i = 0; i < 3; i++) go("dypD", 3, 3, true, i, thorough ? 1 : 2);
    go("t", 4, 3, false, 0, thorough ? 1 : 6);
    for (int i = 0; i < 3; i++) go("t", 4, 3, true, i, 1);
    if (thorough) for (int i = 0; i < 3; i++) go("t", 4, 4, true, i, 1);
    go("pd", 5, 2, true, 0, 1);
    go("pd", 5, 2, true, 1, 1);
    go("pd", 6, 1, false, 0, 1);
    for (int i = 0; i < 3; i++) go("pd", 6, 2, true, i, 1);
    if (thorough) { go("pd", 2, 3, false, 0, 1); for (int i = 0; i < 3; i++) { go("p", 0, 4, true, i, 1); go("p", 3, 4, true, i, 8); go("p", 2, 4, true, i, 16); } go("2", 2, 3, true, 0, 1); go("2", 0, 3, true, 0, 1); go("p", 5, 3, true, 0, 1); }
}
