/* C09: sequences of definitions, clears and evaluations against substitution. */
#include "refsess.h"

const char *mc_property = "C09";

/* three alphabets; the last is used with rules */
static const char *A[] = {
    "f(x)=x^2+1", "f(x,y)=x-2y", "f=7", "g(x)=f(x)+x", "g(a,b)=f(b)-a", "g(y,x)=x/y", "k=ans+1", "k=f(2)", "clear", "clear f", "clear g", "clear k",
    "f(x)=f(x)+1", "f(x)=x+q", "f(x,x)=1", "f()=3", "g(x)=k*x+f", "x=5", "clear x", "3+4", "f(g(2))", "g(x,y)", "sin(x)=2", "f(k)=k+1", "k(x)=g(x,f(x))", "f=1/0", "g(x)=" };
static const char *PA[] = { "f", "f(2)", "f(2,3)", "g(4)", "g(4,5)", "g(x,y)", "g(y,x)", "k", "k(3)", "f(g(k))", "f(z)", "2f(1)g(1)", "x", "y+x", "ans", "@1", "sin(0)" };
/* names that are prefixes of one another, operators and builtins as parts of names, many parameters */
static const char *B[] = {
    "a(x)=2x", "ab(x)=3x", "abc=4", "a=9", "ab=8", "clear a", "clear ab", "clear abc", "clear", "C=5", "clear C", "mod(x)=x-1", "clear mod", "sine=3", "clear sine", "si=2", "clear si",
    "a(x,y,z)=x+10y+100z", "ab(p,q,r,s)=p-q+r*s", "e=3", "clear e", "clear sin", "abc(x)=ab(a(x))", "pi(x)=3", "a(b)=b*b", "clear q", "ab(c)=a(c+1)" };
static const char *PB[] = { "a", "a(2)", "a(1,2,3)", "ab", "ab(2)", "ab(1,2,3,4)", "abc", "abc(2)", "a(x)", "C", "5C", "5C2", "mod(4)", "7mod 4", "sine", "si", "sin(0)", "e", "pi", "ac", "a(z,y,x)" };
/* histories and bodies that are fixed at definition time */
static const char *D[] = {
    "f(x)=x+ans", "f(x)=@x", "f(x)=x+@1", "g=ans*2", "g(x)=f(x)*f(x)", "g(x,y)=f(x)-f(y)", "h(x)=g(x,x)", "h(x,y)=g(f(x),y)", "1", "2", "3-5", "f(ans)", "g", "h(1,2)", "x", "ans",
    "clear f", "clear g", "clear h", "clear", "f(y,x)=10x+y", "h(y,x)=f(x,y)" };
static const char *PD[] = { "f(0)", "f(1)", "f(1,2)", "g", "g(2)", "g(1,2)", "h(1)", "h(1,2)", "h(y,x)", "g(y,x)", "f(f(1))", "f(f(1,2),f(3,4))", "f(x+y,x*y)", "ans", "@1", "@2", "@3" };
/* with the shipped rules */
static const char *E[] = {
    "f(x)=x^2+1", "f(x,y)=x-2y", "f=7", "g(x)=f(x)+x", "g(y,x)=x/y", "g(x)=x-x+2", "k=ans+1", "k(x)=x^3*x", "k(x)=f(x)*g(x)", "f(y)=(y+1)^2-y", "clear", "clear f", "clear g", "3+4", "x-x", "g(x,y)", "f(x)=f(x)", "f(x)=1/0", "k(x)=f(x)^g(x)" };
static const char *PE[] = { "f(2)", "f(2,3)", "g(4)", "g(4,5)", "g(x,y)", "k", "k(3)", "f(g(x))", "f(z)-f(z)", "f(x)", "f(y)", "k(y)", "ans", "@1" };

typedef struct { const char **l, **p; int nl, np; bool rules; } Alpha;
#define N(a) (int)(sizeof a / sizeof *a)
static Alpha AL[] = { { A, PA, N(A), N(PA), false }, { B, PB, N(B), N(PB), false }, { D, PD, N(D), N(PD), false }, { E, PE, N(E), N(PE), true } };
static bool loaded;                        /* a session with rules is kept */

static void play(const Alpha *al, const int *seq, int n)
{
    rs_begin(al->rules);
    char shown[600] = "";
    for (int i = 0; i < n && !mc_failed(); i++)
    {
        mc_context("after: %s", shown);
        rs_check(al->l[seq[i]]);
        snprintf(shown + strlen(shown), sizeof shown - strlen(shown), "%s%s", i ? " | " : "", al->l[seq[i]]);
        mc_state(rs_hash());
    }
    mc_context("after: %s", shown);
    for (int i = 0; i < al->np && !mc_failed(); i++) rs_check(al->p[i]);
    mc_context("%s", "");
}
static void one(int a, const int *seq, int n)
{
    size_t mk = ref_mark();
    if (AL[a].rules)
    {
        if (!loaded) { ses_begin(true); loaded = true; }
        play(&AL[a], seq, n);
        clear_composite_functions();
        unload_history();
        init_history();
    }
    else
    {
        long live = mc_live_blocks();
        ses_begin(false);
        play(&AL[a], seq, n);
        ses_end();
        if (!mc_failed() && mc_live_blocks() != live)
        {
            char s[400] = "";
            for (int i = 0; i < n; i++) snprintf(s + strlen(s), sizeof s - strlen(s), " %s |", AL[a].l[seq[i]]);
            mc_fail("%ld heap blocks left after the session:%s", mc_live_blocks() - live, s);
        }
    }
    ref_release(mk);
}
/* ---- scripted families: sizes beyond what the sequences reach ---- */
static void say(const char *fmt, ...)
{
    if (mc_failed()) return;
    char b[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rs_check(b);
}
static const char *LISTFN[] = { "sum", "prod", "max", "min", "avg", "var" };
static char *args(int n, int pos, const char *inner)
{
    char *s = ref_strdup("");
    for (int i = 0; i < n; i++) s = ref_printf("%s%s%s", s, i ? "," : "", i == pos ? inner : ref_printf("%d", i + 2));
    return s;
}
static char *lname(int i) { return ref_printf("g%c%c", 'a' + i / 26, 'a' + i % 26); }
static const char *NAMES[] = { "area", "area_a", "area_b", "area_ab", "areab", "arex", "a_rea", "Area", "areaa", "ar", "longname_one", "longname_two", "longname_", "longname_one_two", "sine", "sina", "logx", "summe", "pie", "ee" };
#define NNAMES N(NAMES)
static const char *BODY[] = { "=%d", "(x)=x+%d", "(x,y)=x-y*%d", "(y,x,z)=x+10y+%dz" };
static const char *CALL[] = { "%s", "%s(4)", "%s(4,5)", "%s(4,5,6)" };
static void family(int kind, int n, int m)
{
    if (kind == 0)
    {
        /* the new function at every operand of calls, plain and deeper */
        static const char *USE[] = { "f(x)", "-f(x)", "2*f(x+1)", "f(1)", "(x+f(f(x)))", "sqrt(abs(f(x)))" };
        for (int p = 0; p < n; p++) for (int u = 0; u < N(USE); u++)
        {
            say("f(x)=%s(%s)", LISTFN[m], args(n, p, USE[u]));
            say("f(x)=x+%s(%s)", LISTFN[m], args(n, p, ref_printf("%s(%s)", LISTFN[(m + 1) % 6], args(4, (p + u) % 4, USE[u]))));
            say("f(2)");
            say("f=%s(%s)", LISTFN[m], args(n, p, "f"));
            say("f(x,y)=%s(%s)", LISTFN[m], args(n, p, "y+f(x,y)"));
        }
        say("f(x)=%s(%s)", LISTFN[m], args(n, n / 2, "x"));
        say("f(5)");
        say("g(x)=%s(%s)", LISTFN[m], args(n, n - 1, "f(x)"));
        say("g(5)");
        say("f(x)=x");
        say("clear f");
        say("f(x)=%s(%s)", LISTFN[m], args(n, 0, "g(x)"));
        say("f(7)");
    }
    else if (kind == 1)
    {
        /* many uses in one line */
        say("f(x)=x+1");
        say("g(x,y)=x-2y");
        say("k=3");
        char *a = ref_strdup("1"), *b = ref_strdup("f(1)"), *c = ref_strdup("k"), *d = ref_strdup("x"), *e = ref_strdup("0");
        for (int i = 1; i < n; i++)
        {
            a = ref_printf("f(%s)", a);
            b = ref_printf("%s+f(%d)", b, i + 1);
            c = ref_printf("g(%s,%s)", i % 2 ? c : "k", i % 2 ? "f(k)" : c);
            d = ref_printf("f(g(%s,%d))", d, i);
            e = ref_printf("%s-k*f(%d)", e, i);
        }
        say("%s", a); say("%s", b); say("%s", c); say("%s", d); say("%s", e);
        say("sum(%s)", b);
        say("h(x)=%s", d);
        say("h(2)");
        say("h(h(x))");
        say("q=%s", b);
        say("clear f");
        say("q");
        say("h(1)");
    }
    else if (kind == 2)
    {
        /* a chain of n functions, each defined by the one before; cleared in different orders */
        say("%s(x)=x+1", lname(0));
        for (int i = 1; i < n; i++) say("%s(x)=%s(x)%s", lname(i), lname(i - 1), i % 3 ? "+x" : "*2");
        for (int i = 0; i < n; i++) say("%s(%d)", lname(i), i % 4);
        for (int i = 0; i < n; i++)
        {
            int k = m == 0 ? i : m == 1 ? n - 1 - i : m == 2 ? (i * 2 < n ? i * 2 : (i - (n + 1) / 2) * 2 + 1) : (i * 7 + 3) % n;
            if (m == 3 && n % 7 == 0) k = i;
            say("clear %s", lname(k));
            for (int j = 0; j < n; j += n > 12 ? 3 : 1) say("%s(3)", lname(j));
            if (i % 4 == 1) { say("%s(x)=x*x", lname(k)); say("%s(5)", lname(k)); say("clear %s", lname(k)); }
        }
    }
    else if (kind == 3)
    {
        /* n parameters, used in every order; calls with other numbers of arguments */
        char *ps = ref_strdup(""), *body = ref_strdup("0"), *rev = ref_strdup("0");
        for (int i = 0; i < n; i++)
        {
            const char *p = m ? ref_printf("par%.*s", i + 1, "aaaaaaaaaaaaaaa") : ref_printf("%c", 'a' + i);
            ps = ref_printf("%s%s%s", ps, i ? "," : "", p);
            body = ref_printf("%s+%d*%s", body, i * i + 1, p);
            rev = ref_printf("%s*%s+%s", p, i % 2 ? "2" : "3", rev);
        }
        say("f(%s)=%s", ps, body);
        say("g(%s)=%s", ps, rev);
        for (int k = 0; k <= n + 1; k++) { say("f(%s)", args(k, -1, "")); say("g(%s)", args(k, k - 1, "x")); }
        say("h(x)=f(%s)-g(%s)", args(n, n / 2, "x"), args(n, 0, "x"));
        say("h(2)");
        say("f(%s)", args(n, n / 2, ref_printf("g(%s)", args(n, 1, "f"))));
    }
    else
    {
        /* two names that resemble each other, every pair of numbers of parameters */
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
        {
            say(ref_printf("%s%s", NAMES[n], BODY[i]), 2);
            say(ref_printf("%s%s", NAMES[m], BODY[j]), 3);
            for (int c = 0; c < 4; c++) { say(CALL[c], NAMES[n]); say(CALL[c], NAMES[m]); }
            say("clear %s", (i + j) % 2 ? NAMES[n] : NAMES[m]);
            for (int c = 0; c < 4; c++) { say(CALL[c], NAMES[n]); say(CALL[c], NAMES[m]); }
            say(ref_printf("%s%s", (i + j) % 2 ? NAMES[n] : NAMES[m], BODY[(i + 1) % 4]), 5);
            for (int c = 0; c < 4; c++) { say(CALL[c], NAMES[n]); say(CALL[c], NAMES[m]); }
            say("clear");
            say(CALL[j], NAMES[n]);
        }
    }
}
/* n definitions at the same time; expected values computed directly */
static int many_def[2100];                  /* -1: not defined, else the added number */
static void many_check(int n, int i, const char *when)
{
    const char *nm = ref_printf("q%c%c%c", 'a' + i / 676, 'a' + i / 26 % 26, 'a' + i % 26);
    bool cst = i % 5 == 0;
    bool ok = ses_line(cst ? ref_printf("%s+0.5", nm) : i % 5 == 4 ? ref_printf("%s(2,10)", nm) : ref_printf("%s(2)", nm));
    double v, w = cst ? many_def[i] + 0.5 : i % 5 == 4 ? 2 + 30 + many_def[i] : 2 + many_def[i];
    if (many_def[i] >= 0) { if (!ok || !ses_number(mc_out, &v) || !ses_close(v, w)) mc_fail("%s: definition %d of %d (%s) yields '%s%s', expected %.10g", when, i + 1, n, nm, mc_out, mc_err, w); }
    else if (ok && ses_number(mc_out, &v)) mc_fail("%s: %s is not defined but evaluated to %s", when, nm, mc_out);
    mc_trace(1);
}
static void many_define(int n, int i, int v, bool expect)
{
    const char *nm = ref_printf("q%c%c%c", 'a' + i / 676, 'a' + i / 26 % 26, 'a' + i % 26);
    bool ok = ses_line(i % 5 == 0 ? ref_printf("%s=%d", nm, v) : i % 5 == 4 ? ref_printf("%s(x,y)=x+3y+%d", nm, v) : ref_printf("%s(x)=x+%d", nm, v));
    if (ok != expect) mc_fail("definition %d of %d (%s) is %s: %s", i + 1, n, nm, ok ? "accepted" : "refused", mc_err);
    if (ok) many_def[i] = v;
}
static void many(int n)
{
    for (int i = 0; i < n; i++) many_def[i] = -1;
    for (int i = 0; i < n && !mc_failed(); i++) { size_t mk = ref_mark(); many_define(n, i, i + 1, true); ref_release(mk); }
    for (int i = 0; i < n && !mc_failed(); i++) { size_t mk = ref_mark(); many_check(n, i, "all defined"); if (i % 16 == 3) many_define(n, i, 7, false); ref_release(mk); }
    for (int i = 1; i < n && !mc_failed(); i += 3)
    {
        size_t mk = ref_mark();
        if (!ses_line(ref_printf("clear q%c%c%c", 'a' + i / 676, 'a' + i / 26 % 26, 'a' + i % 26))) mc_fail("clearing definition %d of %d is refused: %s", i + 1, n, mc_err);
        many_def[i] = -1;
        ref_release(mk);
    }
    for (int i = 0; i < n && !mc_failed(); i++) { size_t mk = ref_mark(); many_check(n, i, "every third cleared"); ref_release(mk); }
    for (int i = 1; i < n && !mc_failed(); i += 6) { size_t mk = ref_mark(); many_define(n, i, 2 * i, true); ref_release(mk); }
    for (int i = 0; i < n && !mc_failed(); i++) { size_t mk = ref_mark(); many_check(n, i, "some defined again"); ref_release(mk); }
    if (!mc_failed() && !ses_line("clear")) mc_fail("clear is refused: %s", mc_err);
    for (int i = 0; i < n && !mc_failed(); i++) { size_t mk = ref_mark(); many_def[i] = -1; many_check(n, i, "all cleared"); ref_release(mk); }
    for (int i = n - 1; i >= 0 && i > n - 9 && !mc_failed(); i--) { size_t mk = ref_mark(); many_define(n, i, i, true); many_check(n, i, "after clearing"); ref_release(mk); }
}
/* two names of n characters that differ in the last one, and one that is a character shorter */
static void long_names(int n)
{
    char *a = ref_alloc((size_t)n + 1), *b, *c, *p, *q;
    memset(a, 'w', (size_t)n);
    a[n] = 0;
    b = ref_strdup(a);
    b[n - 1] = 'v';
    c = ref_strdup(a);
    c[n - 1] = 0;
    p = ref_strdup(b);
    p[0] = 'p';
    q = ref_strdup(a);
    q[0] = 'p';
    #define RS(...) do { if (!mc_failed()) rs_check(ref_printf(__VA_ARGS__)); } while (0)
    const char *nm[] = { a, b, c };
    for (int i = 0; i < 3; i++) RS("%s(%s,%s)=%s-%d*%s", nm[i], p, q, p, i + 2, q);
    for (int i = 0; i < 3; i++) { RS("%s(7,2)", nm[i]); RS("%s(7)", nm[i]); RS("%s", nm[i]); RS("1+%s(%s,%s)", nm[i], q, p); RS("%s(x,y)=3", nm[i]); }
    RS("%s(1,%s(2,%s(3,4)))", a, b, c);
    for (int k = 0; k < 3; k++)
    {
        RS("clear %s", nm[k]);
        for (int i = 0; i < 3; i++) RS("%s(7,2)", nm[i]);
        RS("%s(%s)=%s(%s,1)", nm[k], q, nm[(k + 1) % 3], q);
        for (int i = 0; i < 3; i++) { RS("%s(7,2)", nm[i]); RS("%s(5)", nm[i]); }
        RS("%s=4", nm[k]);
        RS("clear %s", nm[k]);
        RS("%s=%d", nm[k], 3 - k);
        for (int i = 0; i < 3; i++) { RS("%s*2", nm[i]); RS("%s(5,1)", nm[i]); }
    }
    RS("clear %.*s", n / 2, a);
    RS("clear");
    for (int i = 0; i < 3; i++) RS("%s+1", nm[i]);
}
/* bodies of n operands, and calls of them at the end of long lines */
static void long_body(int n, int m)
{
    static const char *T[] = { "x", "2", "y", "k", "x*y", "g(x)", "3x" };
    char *b = ref_alloc((size_t)n * 8 + 50), *o = b;
    if (m == 2) o += sprintf(o, "sum(0");
    for (int i = 0; i < n; i++) o += sprintf(o, "%s%s", m == 2 ? "," : i ? m ? i % 3 ? "-" : "+" : "+" : "", T[(i * 3 + m) % 7]);
    if (m == 2) sprintf(o, ")");
    RS("k=3");
    RS("g(x)=x-1");
    RS("f(x,y)=%s", b);
    RS("f(2,5)");
    RS("f(a,1)");
    o = b;
    if (m == 2) o += sprintf(o, "prod(1,");
    for (int i = 0; i < n - 1; i++) o += sprintf(o, "%s", m == 2 ? "1," : m ? "1-" : "1+");
    sprintf(o, "f(1,2)%s", m == 2 ? ")" : "");
    RS("%s", b);
    RS("clear k");
    RS("f(2,5)");
    RS("h(x)=%s+x", b);
    RS("h(x)=%s*f(x,y)", b);
    RS("h(x)=%s*h(x)", b);
    RS("h(4)");
    RS("clear f");
    RS("h(4)");
}
/* names defined, used, refused and cleared n times in one session */
static void cycles(int n, int m)
{
    static const char *R[] = { "f(x)=f(x)", "q(x)=y", "q(x)=1/0", "f=3", "sin(x)=2", "q(x)=x+", "clear q", "q(1)", "q(1=2", "=" };
    RS("g(x)=2x-1");
    RS("k=4");
    for (int i = 0; i < n; i++)
    {
        size_t mk = ref_mark();
        RS(m == 1 ? "f(x)=g(x)+%d" : m == 2 ? "f(a,x)=x-a*%d" : "f(x)=x-%d", i);
        RS(m == 2 ? "f(3,2)" : "f(2)");
        if (m == 3) for (int k = 0; k < N(R); k += 1 + i % 3) RS("%s", R[k]);
        RS("f(x)=9");
        RS("%s", m == 1 && i % 5 == 4 ? "clear" : "clear f");
        RS("f(2)");
        if (m == 1 && i % 5 == 4) { RS("g(x)=2x-%d", i); RS("k=%d", i); }
        /* definitions of the reference outlive the mark */
        if (rs.ndefs <= 2 && m != 1) ref_release(mk);
    }
    RS("g(3)");
    RS("k+1");
    RS("f(x)=x*x");
    RS("f(3)");
    RS("h=f(g(k))");
    RS("h");
}
static void families(int kind, int n, int m, bool rules)
{
    long live = mc_live_blocks();
    ses_begin(rules);
    rs_begin(rules);
    if (kind == 5) many(n);
    else if (kind == 8) cycles(n, m);
    else if (kind == 6) long_names(n);
    else if (kind == 7) long_body(n, m);
    else family(kind, n, m);
    mc_state(rs_hash());
    ses_end();
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after the session", mc_live_blocks() - live);
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
/* key: alphabet, depth, first elements (-1: the empty sequence only); the rest is enumerated */
void mc_run(const char *key)
{
    ref_reset();
    int a, depth, s[6] = { 0 }, n;
    char m;
    if (sscanf(key, "s%c %d %d %d", &m, &a, &s[0], &s[1]) == 4)
    {
        if (loaded) { ses_end(); loaded = false; }
        families(a, s[0], s[1], m == 'r');
        return;
    }
    n = sscanf(key, "%d %d %d %d", &a, &depth, &s[0], &s[1]) - 2;
    if (n < 1) { mc_fail("bad key"); return; }
    if (s[0] < 0) n = 0;
    if (!AL[a].rules && loaded) { ses_end(); loaded = false; }
    int fixed = n < depth ? n : depth, i[6] = { 0 };
    for (;;)
    {
        for (int k = fixed; k < depth; k++) s[k] = i[k];
        one(a, s, depth);
        if (mc_failed()) break;
        int k = depth - 1;
        while (k >= fixed && ++i[k] == AL[a].nl) i[k--] = 0;
        if (k < fixed) break;
    }
    if (loaded) { ses_end(); loaded = false; }
}
void mc_enumerate(int thorough)
{
    static const int Q[] = { 3, 3, 3, 3 }, T[] = { 4, 4, 4, 3 };
    for (int r = 0; r < 2; r++)
    {
        char m = r ? 'r' : 'p';
        for (int n = 1; n <= (thorough ? 20 : 10); n++) for (int f = 0; f < 6; f++) if (thorough || !r || n < 6) MC_CASE("s%c 0 %d %d", m, n, f);
        for (int n = 1; n <= (thorough ? 64 : r ? 14 : 40); n++) MC_CASE("s%c 1 %d 0", m, n);
        for (int n = 1; n <= (thorough ? 60 : r ? 10 : 36); n += r ? 3 : n > 16 ? 5 : 1) for (int o = 0; o < 4; o++) MC_CASE("s%c 2 %d %d", m, n, o);
        for (int n = 1; n < 64; n += r ? 7 : 1) MC_CASE("s%c 5 %d 0", m, n);
        MC_SIZES(n, 63, r ? (thorough ? 513 : 129) : thorough ? 2049 : 513) MC_CASE("s%c 5 %d 0", m, n);
        for (int n = 2; n <= 64; n += r ? 9 : 1) MC_CASE("s%c 6 %d 0", m, n);
        MC_SIZES(n, 64, thorough ? 4097 : 1025) MC_CASE("s%c 6 %d 0", m, n);
        for (int n = 1; n <= (r ? thorough ? 37 : 19 : 64); n += r ? 6 : 1) for (int o = 0; o < 3; o++) MC_CASE("s%c 7 %d %d", m, n, o);
        if (!r) MC_SIZES(n, 64, thorough ? 1025 : 513) for (int o = 0; o < 3; o++) MC_CASE("s%c 7 %d %d", m, n, o);
        for (int o = 0; o < 4; o++) { MC_CASE("s%c 8 20 %d", m, o); MC_SIZES(n, 63, r ? (thorough ? 513 : 65) : thorough ? 2049 : 257) MC_CASE("s%c 8 %d %d", m, n, o); }
        for (int n = 1; n <= 13; n++) for (int o = 0; o < 2; o++) MC_CASE("s%c 3 %d %d", m, n, o);
        for (int n = 0; n < NNAMES; n++) for (int o = 0; o < NNAMES; o++) if (n != o && (thorough || !r || (n + o) % 5 == 0)) MC_CASE("s%c 4 %d %d", m, n, o);
    }
    for (int a = 0; a < 4; a++)
    {
        int max = thorough ? T[a] : Q[a];
        MC_CASE("%d 0 -1", a);
        for (int d = 1; d <= max; d++)
            for (int x = 0; x < AL[a].nl; x++)
            {
                if (d == 1) { MC_CASE("%d 1 %d", a, x); continue; }
                for (int y = 0; y < AL[a].nl; y++) MC_CASE("%d %d %d %d", a, d, x, y);
            }
    }
}
