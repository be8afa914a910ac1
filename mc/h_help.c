/* C28: what help lists after every history, against the documented operators and the definitions in force. */
#include "refsess.h"

const char *mc_property = "C28";

static const char *A[] = {
    "f(x)=x^2+1", "f(x,y)=x-2y", "f=7", "g(x)=f(x)+x", "g(a,b)=f(b)-a", "g(y,x)=x/y", "k=ans+1", "k=f(2)", "clear", "clear f", "clear g", "clear k",
    "f(x)=f(x)+1", "f(x)=x+q", "f(x,x)=1", "f()=3", "g(x)=k*x+f", "clear x", "3+4", "sin(x)=2", "k(x)=g(x,f(x))", "k=-3", "f(x)=(-4)^x-(-k)", "1/0", "help", "table x;1;3;1 fold x+y;0" };
static const char *B[] = {
    "a(x)=2x", "ab(x)=3x", "abc=4", "a=9", "ab=8", "clear a", "clear ab", "clear abc", "clear", "C=5", "clear C", "mod(x)=x-1", "clear mod", "sine=3", "clear sine", "clear pi",
    "a(x,y,z)=x+10y+100z", "ab(p,q,r,s)=p-q+r*s", "e=3", "clear e", "clear sin", "abc(x)=ab(a(x))", "pi(x)=3", "a(b)=b*b", "ab(c)=a(c+1)", "long_name_of_a_function(long_name_of_a_parameter)=sqrt(long_name_of_a_parameter)" };
/* with the shipped rules */
static const char *E[] = {
    "f(x)=x^2+1", "f(x,y)=x-2y", "f=7", "g(x)=f(x)+x", "g(y,x)=x/y", "g(x)=x-x+2", "k=ans+1", "k(x)=x^3*x", "k(x)=f(x)*g(x)", "f(y)=(y+1)^2-y", "clear", "clear f", "clear g", "3+4", "x-x", "f(x)=f(x)", "k(x)=f(x)^g(x)", "k=0-5" };
typedef struct { const char **l; int nl; bool rules; } Alpha;
#define N(a) (int)(sizeof a / sizeof *a)
static Alpha AL[] = { { A, N(A), false }, { B, N(B), false }, { E, N(E), true } };

/* what an operator is described by; lower case */
static const char *DESC[][3] = {
    { "$", "p", "identity" }, { "@", "p", "history" }, { "'", "s", "derivative" }, { "deriv", "f", "derivative" }, { "+", "i", "addition" }, { "-", "i", "subtraction" }, { "*", "i", "multiplication" },
    { "/", "i", "division" }, { "^", "i", "exponentiation" }, { "C", "i", "binomial" }, { "mod", "i", "modulo" }, { "+", "p", "identity" }, { "-", "p", "negation" }, { "!", "s", "factorial" }, { "%", "s", "100" },
    { "exp", "f", "natural exponential" }, { "root", "f", "nth root" }, { "sqrt", "f", "square root" }, { "log", "f", "base n" }, { "ln", "f", "natural log" }, { "ld", "f", "binary log" }, { "lg", "f", "base 10" },
    { "sin", "f", "sine" }, { "cos", "f", "cosine" }, { "tan", "f", "tangen" }, { "asin", "f", "inverse sine" }, { "acos", "f", "inverse cosine" }, { "atan", "f", "inverse tang" },
    { "sinh", "f", "hyperbolic sine" }, { "cosh", "f", "hyperbolic cosine" }, { "tanh", "f", "hyperbolic tang" }, { "asinh", "f", "inverse hyperbolic sine" }, { "acosh", "f", "inverse hyperbolic cosine" }, { "atanh", "f", "inverse hyperbolic tang" },
    { "max", "f", "max" }, { "min", "f", "min" }, { "abs", "f", "absolute" }, { "ceil", "f", "up to" }, { "floor", "f", "down to" }, { "round", "f", "round to nearest" }, { "trunc", "f", "towards zero" }, { "frac", "f", "fraction" },
    { "sgn", "f", "sign" }, { "sum", "f", "sum" }, { "prod", "f", "product" }, { "avg", "f", "mean" }, { "gcd", "f", "greatest common" }, { "lcm", "f", "least common" }, { "rand", "f", "random" }, { "fib", "f", "fibonacci" },
    { "gamma", "f", "gamma" }, { "var", "f", "variance" }, { "pi", "f", "archimedes" }, { "e", "f", "euler" }, { "phi", "f", "golden" }, { "clight", "f", "light" }, { "csound", "f", "sound" }, { "ans", "f", "last result" } };

static char *plain(const char *s)          /* without color codes */
{
    char *r = ref_strdup(s), *o = r;
    for (; *s; )
    {
        if (*s == 27) { while (*s && *s != 'm') s++; if (*s) s++; }
        else *o++ = *s++;
    }
    *o = 0;
    return r;
}
static char *trim(char *s)
{
    while (*s == ' ') s++;
    size_t n = strlen(s);
    while (n && s[n - 1] == ' ') s[--n] = 0;
    return s;
}
/* the exact text of an operator in the short list */
static char *shown(const ROp *o)
{
    bool letter = rs_lett(o->name[0]);
    switch (o->place)
    {
        case R_PREFIX: return ref_printf("%sx", o->name);
        case R_POSTFIX: return ref_printf("x%s", o->name);
        case R_INFIX: return letter ? ref_printf("x %s y", o->name) : ref_printf("x%sy", o->name);
        default: return o->arity == 0 ? ref_strdup(o->name) : o->arity == R_DYN ? ref_printf("%s(*)", o->name) : ref_printf("%s(%d)", o->name, o->arity);
    }
}
static bool exact_constants(const RT *t)    /* ten digits without exponent show every constant up to rounding */
{
    if (t->kind == 'n') { char b[64]; snprintf(b, sizeof b, "%.10g", t->num); return !strpbrk(b, "einaINA") && (t->num == 0 || strchr(b, '.') == NULL || fabs(t->num) > 1e-3); }
    if (t->kind == 'o') for (int i = 0; i < t->n; i++) if (!exact_constants(t->ch[i])) return false;
    return true;
}
static bool rounded(const RT *t)            /* has a constant with all ten digits, which is rounded */
{
    if (t->kind == 'n') { char b[64]; snprintf(b, sizeof b, "%.9g", t->num); return strtod(b, NULL) != t->num; }
    for (int i = 0; t->kind == 'o' && i < t->n; i++) if (rounded(t->ch[i])) return true;
    return false;
}
static bool unsteady(const RT *t)           /* values that jump with the tenth digit of a constant */
{
    static const char *STEADY[] = { "+", "-", "*", "/", "sum", "prod", "avg", "max", "min", "abs", "sin", "cos", "exp", "atan", "sinh", "cosh", "tanh", "asinh", "var", "$", "%" };
    if (t->kind != 'o') return false;
    bool steady = false;
    for (int i = 0; i < N(STEADY); i++) if (!strcmp(STEADY[i], t->name)) steady = true;
    if (!steady && rounded(t)) return true;
    for (int i = 0; i < t->n; i++) if (unsteady(t->ch[i])) return true;
    return false;
}
static bool listed_once(char *left, char *right, bool *seen)
{
    /* the listed line, entered in a session without definitions, defines the same function again */
    RT *l, *r;
    char *name = ref_strdup(left);
    name[strcspn(name, "( ")] = 0;
    int d = rs_find(name);
    if (d < 0) { mc_fail("help lists '%s = %s', which is not defined", left, right); return false; }
    if (seen[d]) { mc_fail("help lists '%s' twice", left); return false; }
    seen[d] = true;
    const RDef *f = &rs.defs[d];
    RCtx with = rc;
    rctx_add(&with, name, R_FUNCTION, f->np, 255, true);
    l = ref_parse(&with, left);
    if (!l || l->kind != 'o' || l->place != R_FUNCTION || strcmp(l->name, name) || l->n != f->np) { mc_fail("help lists '%s', which is defined with %d parameters", left, f->np); return false; }
    for (int i = 0; i < l->n; i++) if (l->ch[i]->kind != 'v' || strcmp(l->ch[i]->name, f->params[i])) { mc_fail("help lists '%s', but parameter %d is %s", left, i + 1, f->params[i]); return false; }
    if (!exact_constants(f->body)) return true;
    if (strstr(right, "nan") || strstr(right, "inf")) return true;      /* undefined by documentation, or beyond the range */
    r = ref_parse(&rc, right);
    if (!r) { mc_fail("help lists '%s = %s', and the right side is no expression", left, right); return false; }
    const char *names[12];
    RT *with3[12];
    for (int i = 0; i < f->np; i++) { names[i] = f->params[i]; with3[i] = i < 3 ? rt_var(VARS[i]) : rt_num(1.25 + i); }
    RT *want = rt_subst(f->body, f->np, names, with3), *got = rt_subst(r, f->np, names, with3);
    double va = 0, vb = 0;
    if (rounded(want) ? unsteady(want) : rounded(got) && unsteady(got)) return true;
    if (rs_rules)
    {
        for (int i = 0; i < NPTS; i++)
            if (same_value(want, got, PTS[i], &va, &vb) == DIFFERENT && !(rounded(got) && fabs(va - vb) < 1e-7))
            {
                mc_fail("help lists '%s = %s', which is %.12g at x=%g y=%g z=%g, expected %.12g", left, right, vb, PTS[i][0], PTS[i][1], PTS[i][2], va);
                return false;
            }
        return true;
    }
    rs_fold(&got);
    if (rs_same_tree(want, got)) return true;
    for (int i = 0; i < NPTS; i++) for (int m = 0; m < 8; m++)
    {
        double p[3] = { m & 1 ? -PTS[i][0] : PTS[i][0], m & 2 ? -PTS[i][1] : PTS[i][1], m & 4 ? -PTS[i][2] : PTS[i][2] };
        RStatus a = ref_eval(want, NULL, 3, VARS, p, &va), b = ref_eval(got, NULL, 3, VARS, p, &vb);
        if ((a == RV_OK) != (b == RV_OK) || (a == RV_OK && !ref_close(va, vb, 1e-7) && !(rounded(got) && fabs(va - vb) < 1e-7)))
        {
            mc_fail("help lists '%s = %s', which is %.12g at x=%g y=%g z=%g, expected %.12g", left, right, vb, p[0], p[1], p[2], va);
            return false;
        }
    }
    return true;
}
static void check_help(void)
{
    if (!ses_line("help")) { if (!mc_failed()) mc_fail("'help' fails: %s", mc_err); return; }
    if (mc_err_len) { mc_fail("'help' prints an error: %s", mc_err); return; }
    char *t = plain(mc_out), *user = strstr(t, "\nUser-defined");
    /* every operator once */
    if (user) { *user++ = 0; user = strchr(user, '\n'); if (user) user++; }
    char *ops = strstr(t, "\nPseudo operators");
    if (!ops) { mc_fail("help has no list of operators: %s", t); return; }
    static int seen[256];
    memset(seen, 0, sizeof seen);
    char *line, *save = NULL;
    for (line = strtok_r(ops, "\n", &save); line; line = strtok_r(NULL, "\n", &save))
    {
        char *p = trim(line);
        if (*p == 0 || p[strlen(p) - 1] == ':') continue;
        while (*p)
        {
            int best = -1;
            size_t bl = 0;
            for (int i = 0; i < rc.n; i++)
            {
                char *s = shown(&rc.ops[i]);
                size_t n = strlen(s);
                if (!strncmp(p, s, n) && (p[n] == ' ' || p[n] == 0) && n > bl) { best = i; bl = n; }
            }
            if (best < 0) { mc_fail("help lists an operator that is not documented: %s", p); return; }
            seen[best]++;
            p += bl;
            while (*p == ' ') p++;
        }
    }
    for (int i = 0; i < rc.n; i++) if (seen[i] != 1) { mc_fail("help lists %s %d times", shown(&rc.ops[i]), seen[i]); return; }
    /* every definition once */
    bool ds[160] = { 0 };
    int n = 0;
    if (user)
        for (line = strtok_r(user, "\n", &save); line; line = strtok_r(NULL, "\n", &save))
        {
            char *eq = strstr(line, " = ");
            if (!eq) { mc_fail("help lists a definition without '=': %s", line); return; }
            *eq = 0;
            if (!listed_once(trim(line), trim(eq + 3), ds)) return;
            n++;
        }
    if (n != rs.ndefs) { for (int i = 0; i < rs.ndefs; i++) if (!ds[i]) { mc_fail("help does not list %s", rs.defs[i].name); return; } }
    mc_trace(1);
}
static void check_operators(void)
{
    if (!ses_line("help operators")) { if (!mc_failed()) mc_fail("'help operators' fails: %s", mc_err); return; }
    if (mc_err_len) { mc_fail("'help operators' prints an error: %s", mc_err); return; }
    char *t = plain(mc_out), *line, *save = NULL;
    char place = 0;
    static int seen[256];
    memset(seen, 0, sizeof seen);
    for (line = strtok_r(t, "\n", &save); line; line = strtok_r(NULL, "\n", &save))
    {
        char *p = trim(line);
        if (!*p) continue;
        if (p[strlen(p) - 1] == ':') { place = p[1] == 'n' ? 'i' : !strncmp(p, "Pre", 3) ? 'p' : !strncmp(p, "Post", 4) ? 's' : p[0] == 'F' ? 'f' : 'c'; continue; }
        char *w[5] = { 0 }, *s2 = NULL, *rest;
        int want = place == 'i' ? 3 : 2, n = 0;
        char *copy = ref_strdup(p);
        for (char *x = strtok_r(copy, " ", &s2); x && n < want; x = strtok_r(NULL, " ", &s2)) w[n++] = x;
        if (!strcmp(w[0], "Name"))
        {
            /* the heading has as many columns as the lines below */
            int cols = 0;
            bool in = false;
            for (const char *c = p; *c; c++) { if (*c != ' ' && !in) cols++; in = *c != ' '; }
            if (cols != (place == 'i' ? 4 : 3)) { mc_fail("the heading of 'help operators' has %d columns: %s", cols, p); return; }
            continue;
        }
        static const RPlace PL[] = { ['i'] = R_INFIX, ['p'] = R_PREFIX, ['s'] = R_POSTFIX, ['f'] = R_FUNCTION, ['c'] = R_FUNCTION };
        const ROp *o = rctx_find(&rc, w[0], PL[(int)place]);
        if (!o || n < 2 || (place == 'c') != (o->place == R_FUNCTION && o->arity == 0)) { mc_fail("'help operators' lists in the wrong place: %s", p); return; }
        seen[o - rc.ops]++;
        rest = p;
        double v = 0, have;
        bool none = false;
        if (place == 'c')
        {
            if (ref_op_value(o->name, R_FUNCTION, 0, NULL, &rs.hist, &v) != RV_OK) none = true;
            else { have = strtod(w[1], NULL); if (!ses_close(have, v)) { mc_fail("'help operators' shows %s as the value of %s, expected %.10g", w[1], o->name, v); return; } }
        }
        else if (place == 'f')
        {
            char *ar = o->arity == R_DYN ? ref_strdup("*") : ref_printf("%d", o->arity);
            if (strcmp(ar, w[1])) { mc_fail("'help operators' shows %s operands for %s, expected %s", w[1], o->name, ar); return; }
        }
        else
        {
            if (strcmp(w[1], ref_printf("%d", o->prec))) { mc_fail("'help operators' shows precedence %s for %s, expected %d", w[1], o->name, o->prec); return; }
            if (place == 'i' && (n < 3 || strcmp(w[2], o->left ? "Left" : "Right"))) { mc_fail("'help operators' shows associativity %s for %s", w[2], o->name); return; }
        }
        for (int i = 0; i < (none ? 1 : want); i++) { while (*rest && *rest != ' ') rest++; while (*rest == ' ') rest++; }
        char *low = ref_strdup(rest);
        for (char *c = low; *c; c++) if (*c >= 'A' && *c <= 'Z') *c += 32;
        for (int i = 0; i < N(DESC); i++)
            if (!strcmp(DESC[i][0], w[0]) && DESC[i][1][0] == (place == 'c' ? 'f' : place) && !strstr(low, DESC[i][2])) { mc_fail("'help operators' describes %s as '%s'", w[0], rest); return; }
    }
    for (int i = 0; i < rc.n; i++) if (seen[i] != 1) { mc_fail("'help operators' lists %s %d times", shown(&rc.ops[i]), seen[i]); return; }
    mc_trace(1);
}
/* the session after help is the session before */
static void check_all(bool operators)
{
    check_help();
    if (mc_failed()) return;
    if (operators) check_operators();
    static const char *P[] = { "ans", "@1", "f(2)", "g(1,2)", "a(2)", "k", "pi" };
    for (int i = 0; i < N(P) && !mc_failed(); i++) rs_check(P[i]);
}
static void play(const Alpha *al, const int *seq, int n)
{
    rs_begin(al->rules);
    char done[600] = "";
    for (int i = 0; i < n && !mc_failed(); i++)
    {
        mc_context("after: %s", done);
        const char *s = al->l[seq[i]];
        if (!strncmp(s, "table", 5)) { if (!ses_line(s)) { if (!mc_failed()) mc_fail("'%s' fails", s); } rs_push(6); }
        else rs_check(s);
        snprintf(done + strlen(done), sizeof done - strlen(done), "%s%s", i ? " | " : "", s);
        mc_state(rs_hash());
    }
    mc_context("after: %s", done);
    if (!mc_failed()) check_all(n < 3);
    mc_context("%s", "");
}
static bool loaded;
static void one(int a, const int *seq, int n)
{
    size_t mk = ref_mark();
    if (AL[a].rules)
    {
        if (!loaded) { ses_begin(true); loaded = true; }
        play(&AL[a], seq, n);
        clear_composite_functions();
        unload_history();
        init_history();
    }
    else
    {
        long live = mc_live_blocks();
        ses_begin(false);
        play(&AL[a], seq, n);
        ses_end();
        if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after the session", mc_live_blocks() - live);
    }
    ref_release(mk);
}
/* ---- definitions with every body up to a size ---- */
static TSym bt[2][100];
static int nbt[2];
static void put(int t, char kind, const char *name, RPlace place, int arity, double num)
{
    static const char CODES[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&*+-./:;<=>?@^_~|(){}[]";
    bt[t][nbt[t]] = (TSym){ CODES[nbt[t]], kind, name, place, arity, num };
    nbt[t]++;
}
static void tables(void)
{
    put(0, 'v', "x", 0, 0, 0); put(0, 'v', "y", 0, 0, 0); put(0, 'n', 0, 0, 0, 2); put(0, 'n', 0, 0, 0, -3); put(0, 'n', 0, 0, 0, 0.5);
    static const char *IN[] = { "+", "-", "*", "/", "^", "C", "mod" };
    for (int i = 0; i < 7; i++) put(0, 'o', IN[i], R_INFIX, 2, 0);
    put(0, 'o', "-", R_PREFIX, 1, 0); put(0, 'o', "+", R_PREFIX, 1, 0); put(0, 'o', "$", R_PREFIX, 1, 0); put(0, 'o', "!", R_POSTFIX, 1, 0); put(0, 'o', "%", R_POSTFIX, 1, 0);
    put(0, 'o', "sin", R_FUNCTION, 1, 0); put(0, 'o', "max", R_FUNCTION, 2, 0); put(0, 'o', "sum", R_FUNCTION, 0, 0);
    put(1, 'v', "x", 0, 0, 0); put(1, 'v', "y", 0, 0, 0); put(1, 'n', 0, 0, 0, -1); put(1, 'o', "pi", R_FUNCTION, 0, 0);
    for (int i = 0; i < rc.n; i++)
        if (rc.ops[i].place == R_FUNCTION && strcmp(rc.ops[i].name, "deriv") && strcmp(rc.ops[i].name, "rand") && strcmp(rc.ops[i].name, "pi") && strcmp(rc.ops[i].name, "ans"))
            put(1, 'o', rc.ops[i].name, R_FUNCTION, rc.ops[i].arity == R_DYN ? 3 : rc.ops[i].arity, 0);
    put(1, 'o', "-", R_INFIX, 2, 0); put(1, 'o', "-", R_PREFIX, 1, 0);
}
static char *full(const RT *t)
{
    if (t->kind == 'n') return t->num < 0 ? ref_printf("(0-%.10g)", -t->num) : ref_printf("%.10g", t->num);
    if (t->kind == 'v') return ref_strdup(t->name);
    char *c[4] = { 0 };
    for (int i = 0; i < t->n; i++) c[i] = full(t->ch[i]);
    if (t->place == R_PREFIX) return ref_printf("(%s(%s))", t->name, c[0]);
    if (t->place == R_POSTFIX) return ref_printf("((%s)%s)", c[0], t->name);
    if (t->place == R_INFIX) return ref_printf("((%s) %s (%s))", c[0], t->name, c[1]);
    return t->n == 0 ? ref_printf("%s%s", t->name, t->arity_decl == R_DYN ? "()" : "") : t->n == 1 ? ref_printf("%s(%s)", t->name, c[0]) : t->n == 2 ? ref_printf("%s(%s,%s)", t->name, c[0], c[1]) : ref_printf("%s(%s,%s,%s)", t->name, c[0], c[1], c[2]);
}
static void bodies(int tab, const char *codes, bool rules)
{
    /* up to 20 bodies in one session */
    ses_begin(rules);
    rs_begin(rules);
    char *c = ref_strdup(codes), *save = NULL;
    int i = 0;
    for (char *s = strtok_r(c, " ", &save); s && !mc_failed(); s = strtok_r(NULL, " ", &save), i++)
    {
        RT *t = tsym_decode(bt[tab], nbt[tab], s);
        if (!t) { mc_fail("bad key"); break; }
        if (rules)
        {
            /* what is undefined everywhere may be refused or not */
            int def = 0;
            double v;
            for (int k = 0; k < NPTS; k++) def += strict(t, PTS[k], &v);
            if (!def) continue;
        }
        mc_state(rt_hash(t));
        rs_check(ref_printf("f%c%c(x,y)=%s", 'a' + i / 26, 'a' + i % 26, full(t)));
    }
    if (!mc_failed()) check_help();
    ses_end();
}
static int btab;
static char bmode;
static char bkey[2000];
static int bcount;
static unsigned bstride, bcnt;
static void flush(void)
{
    if (bcount) MC_CASE("b%c %d%s", bmode, btab, bkey);
    bkey[0] = 0;
    bcount = 0;
}
static void emit(const char *code)
{
    if (bcnt++ % bstride) return;
    snprintf(bkey + strlen(bkey), sizeof bkey - strlen(bkey), " %s", code);
    if (++bcount == 20) flush();
}
static void go(char mode, int tab, int ops, bool cyc, int shift, unsigned stride)
{
    bmode = mode; btab = tab; bstride = stride; bcnt = 0;
    tsym_enum(bt[tab], nbt[tab], ops, cyc, shift, emit);
    flush();
}
/* ---- many definitions, long names, many parameters, long bodies ---- */
static void family(int kind, int n, int m)
{
    if (kind == 0)
    {
        for (int i = 0; i < n; i++)
            rs_check(m == 0 ? ref_printf("g%c%c(x)=x+%d", 'a' + i / 26, 'a' + i % 26, i) : m == 1 ? ref_printf("g%c%c=%d", 'a' + i / 26, 'a' + i % 26, 7 - i)
                : i == 0 ? ref_strdup("gaa(x,y)=x-y") : ref_printf("g%c%c(y,x)=g%c%c(x,%d)", 'a' + i / 26, 'a' + i % 26, 'a' + (i - 1) / 26, 'a' + (i - 1) % 26, i));
        check_help();
        for (int i = n - 1; i >= 0 && !mc_failed(); i -= 3) rs_check(ref_printf("clear g%c%c", 'a' + i / 26, 'a' + i % 26));
        if (!mc_failed()) check_help();
        if (!mc_failed() && n) rs_check("clear");
        if (!mc_failed()) check_help();
    }
    else if (kind == 1)
    {
        char *nm = ref_alloc((size_t)n + 1), *par = ref_alloc((size_t)m + 1);
        memset(nm, 'n', (size_t)n); nm[n] = 0;
        memset(par, 'p', (size_t)m); par[m] = 0;
        rs_check(ref_printf("%s(%s)=%s+2", nm, par, par));
        rs_check("f=5");
        check_help();
    }
    else if (kind == 2)
    {
        char *ps = ref_strdup(""), *body = ref_strdup("0-4");
        for (int i = 0; i < n; i++) { ps = ref_printf("%s%s%c", ps, i ? "," : "", 'a' + i); body = ref_printf(m ? "%s*%c-%d" : "%s-%c*%d", body, 'a' + i, i + 2); }
        rs_check(ref_printf("f(%s)=%s", ps, body));
        check_help();
    }
    else if (kind == 5)
    {
        /* defined, listed and cleared again and again */
        rs_check("g(x)=x/2");
        rs_check("k=3");
        for (int i = 0; i < n && !mc_failed(); i++)
        {
            rs_check(ref_printf(m == 0 ? "f(x)=x+%d" : m == 1 ? "f=%d" : "f(y,x)=y-%d*x", i));
            if (i % 3 != m) { if (i % 5 == 0) check_operators(); else check_help(); }
            if (!mc_failed()) rs_check(m == 2 && i % 4 == 3 ? "clear" : "clear f");
            if (!mc_failed() && i % 4 == 2) check_help();
        }
        if (!mc_failed()) check_help();
        if (!mc_failed()) check_operators();
    }
    else if (kind == 4)
    {
        /* calls with n operands as bodies, and inside bodies */
        static const char *F[] = { "sum", "prod", "min", "max", "avg", "var" };
        static const char *AR[] = { "x", "0-3", "y^2", "2x-y", "-x", "h(x)", "sum(x,y,1,y)", "7", "(x+1)/y", "h(h(y))", "prod(x)", "0.5" };
        static const char *W[] = { "%s", "-%s", "1-%s", "%s*y", "sqrt(%s)", "max(1,%s,x)" };
        rs_check("h(a)=sum(a,1,a*a,2)");
        for (int f = 0; f < 6; f++)
        {
            char *b = ref_printf("%s(", F[f]);
            for (int i = 0; i < n; i++) b = ref_printf("%s%s%s", b, i ? "," : "", AR[(i * 5 + m + f) % N(AR)]);
            b = ref_printf("%s)", b);
            rs_check(ref_printf("f%c(x,y)=%s", 'a' + f, ref_printf(W[(m + f) % 6], b)));
        }
        check_help();
    }
    else
    {
        char *b = ref_strdup("x");
        for (int i = 0; i < n; i++) b = m == 0 ? ref_printf("sin(%s)", b) : m == 1 ? ref_printf("%s-(x-%d)", b, i) : m == 2 ? ref_printf("(%s)*(x+%d)", b, i) : ref_printf("-(%s+1)^2", b);
        rs_check(ref_printf("f(x)=%s", b));
        rs_check("g=5");
        check_help();
    }
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    tables();
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
void mc_run(const char *key)
{
    ref_reset();
    int a, depth, s[6] = { 0 }, n;
    char m;
    if (loaded && key[0] != '2') { ses_end(); loaded = false; }
    if (sscanf(key, "s%c %d %d %d", &m, &a, &s[0], &s[1]) == 4)
    {
        long live = mc_live_blocks();
        ses_begin(m == 'r');
        rs_begin(m == 'r');
        family(a, s[0], s[1]);
        ses_end();
        if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after the session", mc_live_blocks() - live);
        return;
    }
    if (sscanf(key, "b%c %d", &m, &a) == 2) { bodies(a, strchr(strchr(key, ' ') + 1, ' '), m == 'r'); return; }
    n = sscanf(key, "%d %d %d %d", &a, &depth, &s[0], &s[1]) - 2;
    if (n < 1) { mc_fail("bad key"); return; }
    if (s[0] < 0) n = 0;
    int fixed = n < depth ? n : depth, i[6] = { 0 };
    for (;;)
    {
        for (int k = fixed; k < depth; k++) s[k] = i[k];
        one(a, s, depth);
        if (mc_failed()) break;
        int k = depth - 1;
        while (k >= fixed && ++i[k] == AL[a].nl) i[k--] = 0;
        if (k < fixed) break;
    }
    if (loaded) { ses_end(); loaded = false; }
}
void mc_enumerate(int thorough)
{
    static const int Q[] = { 3, 3, 2 }, T[] = { 4, 3, 3 };
    for (int r = 0; r < 2; r++)
    {
        char m = r ? 'r' : 'p';
        for (int n = 0; n <= (r ? 12 : thorough ? 120 : 60); n += n > 16 ? 4 : 1) for (int k = 0; k < 3; k++) MC_CASE("s%c 0 %d %d", m, n, k);
        for (int n = 1; n <= (thorough ? 60 : 40); n += r ? 5 : 1) for (int k = 1; k <= 40; k += 3) MC_CASE("s%c 1 %d %d", m, n, k);
        for (int n = 1; n <= 10; n++) for (int k = 0; k < 2; k++) MC_CASE("s%c 2 %d %d", m, n, k);
        MC_SIZES(n, 40, thorough ? 4097 : 1025) { MC_CASE("s%c 1 %d 1", m, n); MC_CASE("s%c 1 1 %d", m, n); MC_CASE("s%c 1 %d %d", m, n, n); }
        if (!r) MC_SIZES(n, 40, thorough ? 257 : 129) for (int k = 0; k < 4; k++) MC_CASE("s%c 3 %d %d", m, n, k);
        if (!r) for (int k = 0; k < 3; k++) { MC_CASE("s%c 5 20 %d", m, k); MC_SIZES(n, 60, thorough ? 257 : 129) MC_CASE("s%c 5 %d %d", m, n, k); }
        if (!r) MC_SIZES(n, 16, 129) for (int k = 0; k < 12; k++) MC_CASE("s%c 4 %d %d", m, n, k);
        for (int n = 1; n <= (r ? 4 : thorough ? 60 : 24); n++) for (int k = 0; k < 4; k++) MC_CASE("s%c 3 %d %d", m, n, k);
        for (int n = 1; n <= (thorough ? 40 : 12); n++) for (int k = 0; k < 12; k++) MC_CASE("s%c 4 %d %d", m, n, k);
    }
    go('p', 0, 2, false, 0, 1);
    go('p', 1, 2, true, 0, 1);
    go('p', 1, 2, true, 1, 1);
    go('p', 0, 3, true, 0, thorough ? 1 : 3);
    go('r', 0, 2, true, 0, thorough ? 1 : 3);
    go('r', 1, 2, true, 0, thorough ? 1 : 3);
    if (thorough) { go('p', 1, 2, false, 0, 1); go('p', 0, 3, true, 1, 1); go('r', 0, 2, false, 0, 1); }
    for (int a = 0; a < 3; a++)
    {
        int max = thorough ? T[a] : Q[a];
        MC_CASE("%d 0 -1", a);
        for (int d = 1; d <= max; d++)
            for (int x = 0; x < AL[a].nl; x++)
            {
                if (d == 1) { MC_CASE("%d 1 %d", a, x); continue; }
                for (int y = 0; y < AL[a].nl; y++) MC_CASE("%d %d %d %d", a, d, x, y);
            }
    }
}
