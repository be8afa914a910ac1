/* C04: printed results of constant expressions against the documented values. */
#include "session.h"
#include "forms.h"

const char *mc_property = "C04";
static RCtx rc;

/* operands outside the documented domain of an operator, for which no value is documented */
static bool outside(const RT *t)
{
    double a[1100];
    if (t->kind != 'o') return false;
    for (int i = 0; i < t->n; i++) { if (outside(t->ch[i])) return true; if (ref_eval(t->ch[i], NULL, 0, NULL, NULL, &a[i]) != RV_OK) return true; }
    const char *s = t->name;
    for (int i = 0; i < t->n; i++) if (isnan(a[i]) || isinf(a[i])) return true;
    if (!strcmp(s, "!")) return a[0] < 0;
    if (!strcmp(s, "gamma")) return a[0] <= 0 && a[0] == trunc(a[0]);
    if (!strcmp(s, "C")) return a[0] < 0 || a[1] < 0;
    if (!strcmp(s, "root")) return a[1] == 0 || (a[0] == 0 && a[1] < 0);
    if (!strcmp(s, "log")) return a[0] <= 0 || a[1] <= 0 || a[1] == 1;
    if (!strcmp(s, "lcm")) return trunc(a[0]) == 0 && trunc(a[1]) == 0;
    if (!strcmp(s, "var") || !strcmp(s, "max") || !strcmp(s, "min") || !strcmp(s, "avg")) return t->n == 0;
    return false;
}
static int rules_on;
static void eval_line(const char *s)
{
    RT *t = ref_parse(&rc, s);
    if (!t) { mc_fail("'%s' is not in the grammar", s); return; }
    double want, got;
    if (ref_eval(t, NULL, 0, NULL, NULL, &want) != RV_OK || outside(t) || !ref_well_conditioned(t, NULL, 0, NULL, NULL, 1e-11)) { mc_count(0, 1); return; }
    bool ok = ses_line(s);
    if (!ok || mc_err_len) { mc_fail("'%s' is refused: %s", s, mc_err); return; }
    if (!ses_number(mc_out, &got)) { mc_fail("'%s' prints '%s', expected the number %.10g", s, mc_out, want); return; }
    if (!ses_close(got, want)) { mc_fail("'%s' prints %s, expected %.10g", s, mc_out, want); return; }
    double h;
    if (!history_get(0, &h) || !ses_close(h, want)) mc_fail("'%s': history has %.17g, expected %.17g", s, h, want);
    mc_state(mc_hash_str(s, (u64)rules_on));
    mc_trace(1);
}
/* tuple number n over the values */
static void tuples(int f, int first)
{
    int ar = form_arity(f);
    const char *a[4];
    int i[4] = { first };
    for (;;)
    {
        for (int k = 0; k < ar; k++) a[k] = V[i[k]];
        size_t mk = ref_mark();
        eval_line(form(f, a));
        ref_release(mk);
        if (mc_failed()) return;
        int k = ar - 1;
        int top = ar > 3 ? 7 : NV;
        while (k >= 1 && ++i[k] >= top) i[k--] = 0;
        if (k < 1) return;
    }
}
static void nested(int f, int pos, int th)
{
    int ar = form_arity(f);
    static const char *OTHER[] = { "2", "(-1.5)", "9" };
    for (int g = 0; g < nforms; g++)
    {
        int ag = form_arity(g);
        for (int v = 0; v < (th ? 64 : 12); v++)
        {
            const char *b[4], *a[4];
            int x = v;
            for (int k = 0; k < ag; k++) { b[k] = V[(x + k * 5 + v / NV) % NV]; x += 3; }
            if (ag == 0 && v) break;
            size_t mk = ref_mark();
            for (int k = 0; k < ar; k++) a[k] = k == pos ? form(g, b) : OTHER[(v + k) % 3];
            eval_line(form(f, a));
            ref_release(mk);
            if (mc_failed()) return;
        }
    }
}
static void nested3(int f, int g)
{
    for (int h = 0; h < nforms; h++) for (int v = 0; v < 4; v++)
    {
        const char *a[4], *b[4], *c[4];
        static const char *X[] = { "2", "0.3", "5", "(-1)" };
        size_t mk = ref_mark();
        for (int k = 0; k < 4; k++) c[k] = X[(v + k) % 4];
        const char *hh = form(h, c);
        for (int k = 0; k < 4; k++) b[k] = k == v % 2 ? hh : X[(v + k + 1) % 4];
        const char *gg = form(g, b);
        for (int k = 0; k < 4; k++) a[k] = k == v / 2 ? gg : X[(v + k + 2) % 4];
        eval_line(form(f, a));
        ref_release(mk);
        if (mc_failed()) return;
    }
}
/* every pair of grid operands */
static void grid(int f, int i)
{
    const char *a[4] = { GX[i] };
    if (form_arity(f) == 1) { eval_line(form(f, a)); return; }
    for (int j = 0; j < NGX && !mc_failed(); j++)
    {
        size_t mk = ref_mark();
        a[1] = GX[j];
        eval_line(form(f, a));
        ref_release(mk);
    }
}
/* n C k for every k, n!, fib and gamma of consecutive operands */
static void dense(int n)
{
    for (int k = 0; k <= n + 1 && k < 1100 && !mc_failed(); k += n > 150 ? 7 : 1) { size_t mk = ref_mark(); eval_line(ref_printf("%dC%d", n, k)); ref_release(mk); }
    static const char *FRAC[] = { "", ".25", ".5", ".75", ".999" };
    static const char *ONE[] = { "%s!", "gamma(%s)", "fib(%s)", "floor(%s)", "ceil(%s)", "round(%s)", "trunc(%s)", "frac(%s)", "floor(-%s)", "ceil(-%s)", "round(-%s)", "trunc(-%s)", "frac(-%s)", "sgn(-%s)", "abs(-%s)",
        "sqrt(%s)", "exp(%s)", "exp(-%s)", "ln(%s)", "lg(%s)", "ld(%s)", "sin(%s)", "cos(%s)", "tan(%s)", "atan(%s)", "sinh(%s)", "cosh(%s)", "tanh(%s)", "asinh(%s)", "acosh(%s)", "2^%s", "%s^2", "%s%%", "%s mod 7", "(-%s) mod 7", "gcd(%s, 360)", "lcm(%s, 12)" };
    for (int i = 0; i < (int)(sizeof ONE / sizeof *ONE); i++) for (int q = 0; q < 5 && !mc_failed(); q++)
    {
        size_t mk = ref_mark();
        eval_line(ref_printf(ONE[i], ref_printf("%d%s", n, FRAC[q])));
        ref_release(mk);
    }
}
static void wide_calls(int fn, int n)
{
    for (int v = 0; v < 12 && !mc_failed(); v += n > 40 ? 5 : 1)
    {
        size_t mk = ref_mark();
        eval_line(wide(fn, n, -1, v, NULL));
        for (int p = 0; p < n && !mc_failed(); p += n <= 40 || p == 0 || p >= n - 2 ? 1 : p < n / 2 ? n / 2 - p : n - 2 - p) { eval_line(wide(fn, n, p, v, "123")); if (!mc_failed()) eval_line(wide(fn, n, p, v, "(-77.5)")); }
        ref_release(mk);
    }
}
static void numbers(int n)
{
    /* literals: every number of digits before and after the point */
    for (int a = 0; a < 12; a++) for (int b = 0; b < 8; b++)
    {
        char s[64] = "", *p = s;
        for (int i = 0; i < a; i++) *p++ = (char)('0' + (n * 7 + i * 3 + 1) % 10);
        if (b) *p++ = '.';
        for (int i = 0; i < b; i++) *p++ = (char)('0' + (n * 3 + i * 7 + 2) % 10);
        *p = '\0';
        if (a + b == 0) continue;
        double want = 0, scale = 1, got;
        for (const char *q = s; *q; q++) { if (*q == '.') { scale = 0; continue; } if (scale == 1) want = want * 10 + (*q - '0'); }
        if (b) { double f = 0; for (const char *q = s + strlen(s) - 1; *q != '.'; q--) f = (f + (*q - '0')) / 10; want += f; }
        if (!ses_line(s)) { mc_fail("number %s is refused", s); return; }
        if (!ses_number(mc_out, &got) || !ses_close(got, want)) { mc_fail("number %s is printed as %s", s, mc_out); return; }
        mc_trace(1);
    }
}
static void random_numbers(int lo, int hi)
{
    char *s = ref_printf("rand(%d.7, %d.2)", lo, hi);
    if (lo < 0) s = ref_printf("rand(-%d.7, %d.2)", -lo, hi);
    bool seen[64] = { 0 };
    for (int i = 0; i < 60; i++)
    {
        double got;
        if (!ses_line(s) || !ses_number(mc_out, &got)) { mc_fail("'%s' gives %s%s", s, mc_out, mc_err); return; }
        if (hi <= lo) { if (!isnan(got)) mc_fail("'%s' gives %s, expected NaN", s, mc_out); return; }
        if (got != trunc(got) || got < lo || got >= hi) { mc_fail("'%s' gives %s", s, mc_out); return; }
        if (got - lo < 64) seen[(int)got - lo] = true;
    }
    if (hi - lo <= 3) for (int i = 0; i < hi - lo; i++) if (!seen[i]) mc_fail("'%s' never gives %d in 60 draws", s, lo + i);
    mc_trace(1);
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    nforms = N1 + 4 + 30 + 7 + 5 + 5;
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
void mc_run(const char *key)
{
    ref_reset();
    long live = mc_live_blocks();
    int a, b, c;
    char kind = key[0];
    rules_on = key[1] == 'r';
    const char *rest = key + 3;
    ses_begin(rules_on);
    if (kind == 't' && sscanf(rest, "%d %d", &a, &b) == 2) tuples(a, b);
    else if (kind == 'n' && sscanf(rest, "%d %d %d", &a, &b, &c) == 3) nested(a, b, c);
    else if (kind == '3' && sscanf(rest, "%d %d", &a, &b) == 2) nested3(a, b);
    else if (kind == 'g' && sscanf(rest, "%d %d", &a, &b) == 2) grid(a, b);
    else if (kind == 'b' && sscanf(rest, "%d", &a) == 1) dense(a);
    else if (kind == 'w' && sscanf(rest, "%d %d", &a, &b) == 2) wide_calls(a, b);
    else if (kind == 'd' && sscanf(rest, "%d", &a) == 1) numbers(a);
    else if (kind == 'r' && sscanf(rest, "%d %d", &a, &b) == 2) random_numbers(a, b);
    else if (kind == 'l') eval_line(rest);
    else mc_fail("bad key");
    ses_end();
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
static const char *LINES[] = { "1/2/2", "2^3^2", "2-3-4", "-2^2", "2*3C2", "5 C 2 mod 3", "3!!", "-3!", "2^-1", "50%%", "2 3", "2pi", "(1+2)(3+4)", "$1+2*3", "2*$1+3", "sum()", "prod()", "max(1)", "7 mod 4 mod 2",
    "1/2*3", "2*3/4", "1+2%", "4!/2", "--5", "+-+5", "{1+2}*3", "sin(pi/2)", "e^2", "10 C 10 ", "1e" };
void mc_enumerate(int thorough)
{
    for (int r = 0; r < 2; r++)
    {
        char m = r ? 'r' : 'p';
        for (int f = 0; f < nforms; f++)
        {
            int ar = form_arity(f);
            for (int i = 0; i < (ar ? NV : 1); i++) MC_CASE("t%c %d %d", m, f, i);
            for (int k = 0; k < ar; k++) MC_CASE("n%c %d %d %d", m, f, k, thorough);
            if (ar == 1 || (ar == 2 && (f < N1 + 4 || f >= N1 + 34))) for (int i = 0; i < NGX; i++) if (thorough || !r || (i + f) % 4 == 0) MC_CASE("g%c %d %d", m, f, i);
            for (int g = 0; g < nforms; g++) if (thorough || (f + g) % 7 == 0) MC_CASE("3%c %d %d", m, f, g);
        }
        for (int i = 0; i < (thorough ? 1050 : 200); i++) if (thorough || !r || i % 4 == 1) MC_CASE("b%c %d", m, i);
        for (int f = 0; f < 6; f++) for (int n = 5; n <= (thorough ? 40 : 20); n++) MC_CASE("w%c %d %d", m, f, n);
        for (int f = 0; f < 6; f++) MC_SIZES(n, 40, r ? (thorough ? 129 : 65) : thorough ? 1025 : 257) MC_CASE("w%c %d %d", m, f, n);
        for (int i = 0; i < 40; i++) MC_CASE("d%c %d", m, i);
        for (int lo = -4; lo < 5; lo++) for (int hi = 0; hi < 6; hi++) MC_CASE("r%c %d %d", m, lo, hi);
        for (int i = 0; i < (int)(sizeof LINES / sizeof *LINES); i++) MC_CASE("l%c %s", m, LINES[i]);
    }
}
