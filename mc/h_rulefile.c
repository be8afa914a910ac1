/* C18: parse_rule, parse_rulesets_from_file and "load simplification" against the rule file format. */
#include "ref.h"
#include "engine/tree/tree_util.h"
#include "engine/transformation/rule_parsing.h"
#include "client/commands/commands.h"
#include "client/core/arith_context.h"
#include "client/simplification/simplification.h"
#include "client/simplification/propositional_context.h"
#include "util/console_util.h"

const char *mc_property = "C18";
static RCtx pc;
#define N(a) ((int)(sizeof(a) / sizeof *(a)))

typedef struct { RT *l, *r, *c[4]; int nc; } RRule;
typedef enum { LINE_OK, LINE_BAD, LINE_UNSPECIFIED } LineKind;

static const char *find(const char *s, const char *what)
{
    size_t n = strlen(what);
    for (; *s; s++) if (!strncmp(s, what, n)) return s;
    return NULL;
}
static char *cut(const char *from, const char *to)
{
    char *r = ref_alloc((size_t)(to - from) + 1);
    memcpy(r, from, (size_t)(to - from));
    r[to - from] = '\0';
    return r;
}
/* a list variable stands for any number of operands: only a function that takes any number can have it */
static bool lists_ok(const RT *t, bool allowed)
{
    if (t->kind == 'v') return allowed || t->name[0] != '[';
    for (int i = 0; i < t->n; i++) if (!lists_ok(t->ch[i], t->arity_decl == R_DYN)) return false;
    return true;
}
/* <left> [ WHERE <condition> { ; <condition> } ] alone: no arrow, no right side */
static bool pattern_only;
/* <left> -> <right> [ WHERE <condition> { ; <condition> } ] */
static LineKind ref_rule(const char *s, RRule *o)
{
    memset(o, 0, sizeof *o);
    const char *arrow = find(s, "->"), *where = find(s, " WHERE "), *end = s + strlen(s);
    if (!pattern_only && !arrow) return LINE_BAD;
    if (!pattern_only && where && where < arrow + 2) return LINE_UNSPECIFIED;
    o->l = ref_parse(&pc, cut(s, pattern_only ? where ? where : end : arrow));
    o->r = pattern_only ? o->l : ref_parse(&pc, cut(arrow + 2, where ? where : end));
    bool bad = !o->l || !o->r || (!pattern_only && !lists_ok(o->r, false));
    if (where)
    {
        const char *p = where + 7;
        for (;;)
        {
            const char *n = find(p, " ; ");
            RT *c = ref_parse(&pc, cut(p, n ? n : end));
            if (!c || !lists_ok(c, false) || o->nc == 3) bad = true;
            else o->c[o->nc++] = c;
            if (!n) break;
            p = n + 3;
        }
    }
    if (bad) return LINE_BAD;
    const char *lv[64], *v[64];
    int nl = rt_count_vars(o->l, lv, 64), n = rt_count_vars(o->r, v, 64);
    for (int i = 0; i < n; i++) { bool f = false; for (int k = 0; k < nl; k++) f |= !strcmp(v[i], lv[k]); if (!f) return LINE_BAD; }
    for (int j = 0; j < o->nc; j++)
    {
        n = rt_count_vars(o->c[j], v, 64);
        for (int i = 0; i < n; i++) { bool f = false; for (int k = 0; k < nl; k++) f |= !strcmp(v[i], lv[k]); if (!f) return LINE_UNSPECIFIED; }
    }
    if (nl > 10) return LINE_BAD;
    return LINE_OK;
}
static void compare_pattern(const char *what, const RRule *w, const Pattern *g)
{
    if (!rt_equals_node(w->l, g->pattern)) { mc_fail("%s: pattern is %s, expected %s", what, rt_show(rt_from_node(g->pattern)), rt_show(w->l)); return; }
    bool used[4] = { 0 };
    int n = 0;
    for (int i = 0; i < MAX_MAPPED_VARS; i++) for (size_t j = 0; j < g->num_constraints[i]; j++, n++)
    {
        bool f = false;
        for (int k = 0; k < w->nc && !f; k++) if (!used[k] && rt_equals_node(w->c[k], g->constraints[i][j])) { used[k] = true; f = true; }
        if (!f) { mc_fail("%s: rule has condition %s", what, rt_show(rt_from_node(g->constraints[i][j]))); return; }
    }
    if (n != w->nc) mc_fail("%s: %d conditions, expected %d", what, n, w->nc);
}
static void compare_rule(const char *what, const RRule *w, const RewriteRule *g)
{
    if (!rt_equals_node(w->r, g->after)) mc_fail("%s: right side is %s, expected %s", what, rt_show(rt_from_node(g->after)), rt_show(w->r));
    else compare_pattern(what, w, &g->pattern);
}

/* ---------------------------------------------------------------- single lines */
static int kinds[3];
static void one_line(const char *s)
{
    RRule w;
    size_t mk = ref_mark();
    LineKind k = ref_rule(s, &w);
    RewriteRule r;
    long live = mc_live_blocks();
    mc_capture_begin();
    bool got = parse_rule(s, g_propositional_ctx, &r);
    mc_capture_end();
    mc_trans(1);
    kinds[k]++;
    if (k == LINE_OK && !got) mc_fail("rule '%s' is refused: %s", s, mc_err);
    else if (k == LINE_BAD && got) mc_fail("'%s' is accepted as %s -> %s", s, rt_show(rt_from_node(r.pattern.pattern)), rt_show(rt_from_node(r.after)));
    else if (k == LINE_OK) compare_rule(s, &w, &r);
    if (got && mc_err_len) mc_fail("'%s' is accepted with the message %s", s, mc_err);
    if (got) { mc_state(mc_mix(rt_hash(rt_from_node(r.pattern.pattern)), rt_hash(rt_from_node(r.after)))); free_rule(&r); }
    else mc_state(mc_hash_str(s, 3));
    if (mc_live_blocks() != live && !mc_failed()) mc_fail("'%s': %ld heap blocks left", s, mc_live_blocks() - live);
    mc_trace(1);
    ref_release(mk);
}

/* the same text without its right side, read as a pattern */
static void one_pattern(const char *s)
{
    RRule w;
    size_t mk = ref_mark();
    pattern_only = true;
    LineKind k = ref_rule(s, &w);
    pattern_only = false;
    Pattern p;
    if (k != LINE_UNSPECIFIED)
    {
        long live = mc_live_blocks();
        mc_capture_begin();
        bool got = parse_pattern(s, g_propositional_ctx, &p);
        mc_capture_end();
        mc_trans(1);
        if (k == LINE_OK && !got) mc_fail("pattern '%s' is refused: %s", s, mc_err);
        else if (k == LINE_BAD && got) mc_fail("'%s' is accepted as pattern %s", s, rt_show(rt_from_node(p.pattern)));
        else if (k == LINE_OK) compare_pattern(s, &w, &p);
        if (got) free_pattern(&p);
        if (mc_live_blocks() != live && !mc_failed()) mc_fail("pattern '%s': %ld heap blocks left", s, mc_live_blocks() - live);
        mc_trace(1);
    }
    ref_release(mk);
}

/* ---------------------------------------------------------------- rule files */
static const char *LINES[] = {
    "RULESET", "x+y -> y+x", "  RULESET # c", "", "sum([a],x) -> sum(x,[a]) WHERE type(x) == CONST", "# only a comment", "-x -> x #-> y", "x -> y", "x -> -> x", "   ",
    "   x*0 -> 0   # c", "x y", "RULESETS", "x -> x WHERE x > 1 ; x < 3 ; type(x) != OP", "x -> x WHERE x > 1 ; ", "x # -> y", " #", "1 -> 2",
    "x+y -> y # first # x -> -> y", "RULESET ## x # y", "x*y -> x# a -> b WHERE c ; d #",
};
#define NL ((int)(sizeof LINES / sizeof *LINES))

#define RSECT 500
typedef struct { int count; int n[RSECT]; RRule *r[RSECT]; int bad_line; bool ignored; } RFile;
static bool ref_file(const char *text, int cap, RFile *o)
{
    memset(o, 0, sizeof *o);
    int line = 0;
    const char *p = text;
    while (*p)
    {
        const char *e = strchr(p, '\n');
        if (!e) e = p + strlen(p);
        line++;
        char *l = cut(p, e);
        char *h = strchr(l, '#');
        if (h) *h = '\0';
        while (*l == ' ') l++;
        if (!strncmp(l, "RULESET", 7))
        {
            if (o->count == cap) return true;
            o->r[o->count] = NULL;
            o->count++;
        }
        else if (*l)
        {
            if (!o->count) o->ignored = true;
            else
            {
                int have = o->n[o->count - 1];
                RRule **rr = &o->r[o->count - 1];
                if ((have & (have - 1)) == 0) { RRule *q = ref_alloc(sizeof(RRule) * (size_t)(have ? have * 2 : 1)); if (have) memcpy(q, *rr, sizeof(RRule) * (size_t)have); *rr = q; }
                LineKind k = ref_rule(l, &o->r[o->count - 1][o->n[o->count - 1]]);
                if (k == LINE_BAD) { o->bad_line = line; return false; }
                if (k != LINE_OK) abort();
                o->n[o->count - 1]++;
            }
        }
        p = *e ? e + 1 : e;
    }
    return true;
}
static void one_file(const char *text, size_t len, int cap)
{
    RFile w;
    size_t mk = ref_mark();
    bool ok = ref_file(text, cap, &w);
    long live = mc_live_blocks();
    Vector *sets = malloc(sizeof(Vector) * (size_t)cap);
    for (int i = 0; i < cap; i++) sets[i] = get_empty_ruleset();
    FILE *f = len ? fmemopen((void *)text, len, "r") : fopen("/dev/null", "r");
    mc_capture_begin();
    ssize_t got = parse_rulesets_from_file(f, g_propositional_ctx, (size_t)cap, sets);
    mc_capture_end();
    fclose(f);
    mc_trans(1);
    if (!ok)
    {
        if (got != -1) mc_fail("file with a malformed line %d is loaded (%zd sections)", w.bad_line, got);
        else if (!strstr(mc_err, ref_printf("line %d", w.bad_line))) mc_fail("malformed line %d is not named: %s", w.bad_line, mc_err);
    }
    else if (got != w.count) mc_fail("%zd sections, expected %d: %s", got, w.count, mc_err);
    else if ((mc_err_len != 0) != w.ignored) mc_fail("message '%s'%s", mc_err, w.ignored ? ", expected one for the line before the first section" : "");
    if (!mc_failed()) for (int i = 0; i < cap; i++)
    {
        int n = i < w.count ? w.n[i] : 0;
        if ((int)vec_count(&sets[i]) != n) { mc_fail("section %d has %zu rules, expected %d", i, vec_count(&sets[i]), n); break; }
        for (int k = 0; k < n && !mc_failed(); k++) compare_rule(ref_printf("section %d, rule %d", i, k), &w.r[i][k], vec_get(&sets[i], (size_t)k));
    }
    for (int i = 0; i < cap; i++) free_ruleset(&sets[i]);
    free(sets);
    if (mc_live_blocks() != live && !mc_failed()) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
    mc_state(mc_hash(text, len, (u64)cap));
    mc_trace(1);
    ref_release(mk);
}

/* ---------------------------------------------------------------- loading into the session */
/* files: what is loaded is seen by rewriting probes */
static char path[16][300];
static const struct { const char *probe_map; int count; } FILES[] = {
    { "ln", 2 }, { "ld", 2 }, { NULL, 0 }, { NULL, 0 }, { NULL, 0 }, { "lg", 2 }, { "abs", 9 }, { "ship", 0 }, { NULL, 0 }, { NULL, 0 }
};
#define NFILES 10
static const char *OPS[] = { "x=5", "z=3", "clear", "q(x,y)=x+y" };
#define NOPS 4
static void write_files(void)
{
    const char *d = mc_scratch();
    for (int i = 0; i < NFILES; i++) snprintf(path[i], sizeof path[i], "%s/f%d", d, i);
    const char *good = "%sRULESET\nRULESET\nRULESET\nRULESET\nsin(x) -> %s(x)\nRULESET\nRULESET\nRULESET\ncos(x) -> %s(x)%s";
#define W(i, ...) do { char *t = ref_printf(__VA_ARGS__); mc_write_file(path[i], t, strlen(t)); } while (0)
    W(0, good, "", "ln", "ln", "\n");
    W(1, good, "# c\n\n", "ld", "ld", "");
    W(2, "RULESET\nRULESET\nRULESET\nsin(x) -> tan(x)\nRULESET\nRULESET\nRULESET\n");                            /* too few */
    W(3, "RULESET\nRULESET\nRULESET\nsin(x) -> tan(x)\nRULESET\nRULESET\nRULESET\nRULESET\ncos(x) -> \n");       /* malformed at the end */
    /* 4: not there */
    W(5, good, "", "lg", "lg", "\nRULESET\nsin(x) -> sgn(x)\nRULESET\nRULESET\ncos(x) -> -> 1");                 /* surplus sections */
    W(6, "RULESET\nsin(x) -> abs(x)\ncos(x) -> abs(x)\nx^2 -> x*x\nRULESET\nx*0->0\nRULESET\nx*0->0\nRULESET\nx*0->0\nRULESET\nx*0->0\nRULESET\nx*0->0\nRULESET\nx*0->0\n");
    W(8, "%s", "");
    W(9, "RULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nRULESET\nsin(x) -> tan(y)\n");                    /* unbound */
    snprintf(path[7], sizeof path[7], REPO "/simplification.ruleset");
}
static bool line(const char *s)
{
    char *c = malloc(strlen(s) + 1);
    strcpy(c, s);
    mc_capture_begin();
    bool ok = exec_command(c);
    mc_capture_end();
    free(c);
    return ok;
}
static void expect(const char *in, const char *out)
{
    bool ok = line(in);
    if (!ok || strcmp(mc_out, ref_printf("%s\n", out))) mc_fail("'%s' gives '%s' %s, expected '%s'", in, mc_out, mc_err, out);
}
/* how the shipped rules answer in a session that saw nothing else */
static char ship_probe[4][200];
static const char *SHIP[] = { "(a^2)'", "deriv(a*b,b)", "sqrt(a^4)", "sin(a)/cos(a)" };
static void session(const char *key)
{
    mc_capture_begin();
    init_commands();
    mc_capture_end();
    bool ship_ok[128] = { 0 };
    (void)ship_ok;
    if (ship_probe[0][0] == '\0')
    {
        line(ref_printf("load simplification %s", path[7]));
        for (int i = 0; i < 4; i++) { line(SHIP[i]); snprintf(ship_probe[i], sizeof ship_probe[i], "%s", mc_out); if (i == 0 && strcmp(mc_out, "2*a\n")) mc_fail("shipped rules: (a^2)' gives %s", mc_out); }
    }
    unload_commands();
    mc_capture_begin();
    init_commands();
    mc_capture_end();
    int cur = -1;
    for (const char *p = key; *p && !mc_failed(); p++)
    {
        if (*p >= 'a' && *p < 'a' + NOPS) { line(OPS[*p - 'a']); mc_trans(1); continue; }
        int f = *p - '0';
        set_interactive(true);
        bool ok = line(ref_printf("load simplification %s", path[f]));
        set_interactive(false);
        mc_trans(1);
        bool want = FILES[f].probe_map != NULL;
        if (ok != want) { mc_fail("step %d: loading file %d %s", (int)(p - key), f, ok ? "succeeds" : "fails"); break; }
        if (!ok && mc_err_len == 0) mc_fail("failing load has no message");
        if (ok)
        {
            int n = FILES[f].count;
            if (n && !strstr(mc_out, ref_printf("(%d rules)", n))) mc_fail("%d rules expected: %s", n, mc_out);
            cur = f;
        }
        /* whatever happened, exactly the last set that was loaded is in force */
        if (cur < 0) { expect("sin(a)", "sin(a)"); expect("a+a", "a+a"); }
        else if (FILES[cur].count)
        {
            expect("sin(a)", ref_printf("%s(a)", FILES[cur].probe_map));
            expect("2*cos(a)", ref_printf("2*%s(a)", FILES[cur].probe_map));
            expect("a+a", "a+a");
        }
        else for (int i = 0; i < 4; i++)
        {
            line(SHIP[i]);
            if (strcmp(mc_out, ship_probe[i])) mc_fail("after step %d, %s gives %s%s, expected %s", (int)(p - key), SHIP[i], mc_out, mc_err, ship_probe[i]);
        }
        mc_trans(4);
        mc_state(mc_hash(key, (size_t)(p - key) + 1, 9));
    }
    unload_commands();
}

/* ---------------------------------------------------------------- cases */
static const char *FR[] = { "x", "->", " WHERE ", " ; ", "y", " ", "+", "sum(", ")", "1", "type(x) == OP", ",", "[a]", "-", "x > 1" };
#define NFR ((int)(sizeof FR / sizeof *FR))
static const char *LHS[] = { "x", "x+y", "sum([a],x,[b])", "1", "-x", "prod(x,[a])*y", "sin(x)^2", "f(x)", "x+", "", "sum(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10)", "sum(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,x)", "(x)", "x'", "count([a])", "2x" };
static const char *RHS[] = { "x", "y", "1", "sum([a])", "x*(", "", "x+0", "[a]", "x -> 1", "--x", "sin([a])", "sum(x,[a])-[b]" };
static const char *CND[] = { "type(x) == CONST", "x > 1", "equal(x,1) || TRUE", "x +", "!(x < 2)", "", "count([a]) >= 2", "[a] > 1" };
static void pool_line(const char *key)
{
    int l, r, nc, c[4] = { 0 }, deco;
    if (sscanf(key, "%d %d %d %d %d %d %d %d", &l, &r, &nc, &deco, &c[0], &c[1], &c[2], &c[3]) != 8) return;
    char *s = ref_printf("%s%s->%s%s", LHS[l], deco & 1 ? " " : "", deco & 1 ? " " : "", RHS[r]);
    for (int i = 0; i < nc; i++) s = ref_printf("%s%s%s", s, i ? " ; " : " WHERE ", CND[c[i]]);
    if (deco & 2) s = ref_printf("%s  ", s);
    RRule w;
    if (ref_rule(s, &w) != LINE_UNSPECIFIED) one_line(s);
    if (r) return;
    s = ref_printf("%s", LHS[l]);
    for (int i = 0; i < nc; i++) s = ref_printf("%s%s%s", s, i ? " ; " : " WHERE ", CND[c[i]]);
    if (deco & 2) s = ref_printf("%s  ", s);
    one_pattern(s);
}
/* conditions: every pair of operators with every combination of signs, as condition of a rule and of a pattern */
static const char *COP[] = { "==", "!=", ">", "<", ">=", "<=", "||", "+", "-", "*", "/", "^", "" };
static const char *CPRE[] = { "", "!", "-", "!-", "type(", "(" }, *CSP[] = { "", " " };
static void conditions(int a, int b, int sp)
{
    for (int i = 0; i < N(CPRE); i++) for (int j = 0; j < N(CPRE); j++) for (int k = 0; k < N(CPRE); k++) for (int last = 0; last < 3 && !mc_failed(); last++)
    {
        size_t mk = ref_mark();
        /* a parenthesis opened by one operand is closed after the last one or after itself */
        int pi = CPRE[i][0] && CPRE[i][strlen(CPRE[i]) - 1] == '(', pj = CPRE[j][0] && CPRE[j][strlen(CPRE[j]) - 1] == '(', pk = CPRE[k][0] && CPRE[k][strlen(CPRE[k]) - 1] == '(';
        char *c = ref_printf("%sx%s%s%s%s%s%sy%s%s%s%s%s%s%s%s%s", CPRE[i], pi && last != 1 ? ")" : "", CSP[sp], COP[a], CSP[sp], CPRE[j], "", pj && last != 2 ? ")" : "",
            CSP[sp], COP[b], CSP[sp], CPRE[k], last == 2 ? "CONST" : "x", pk ? ")" : "", pi && last == 1 ? ")" : "", pj && last == 2 ? ")" : "", "");
        one_line(ref_printf("x+y -> y WHERE %s", c));
        if (!k || !i) one_pattern(ref_printf("x+y WHERE %s", c));
        ref_release(mk);
    }
}
static void frags(int len, int first, int second)
{
    int i[8] = { first, second };
    for (;;)
    {
        char s[200] = "";
        for (int k = 0; k < len; k++) strcat(s, FR[i[k]]);
        one_line(s);
        if (mc_failed()) return;
        int k = len - 1;
        while (k >= 2 && ++i[k] == NFR) i[k--] = 0;
        if (k < 2) return;
    }
}
static void files(int len, int cap, int a, int b)
{
    int i[8] = { a, b };
    for (;;)
    {
        char s[600] = "";
        for (int k = 0; k < len; k++) { if (k) strcat(s, "\n"); strcat(s, LINES[i[k]]); }
        for (int nl = 0; nl < 2; nl++)
        {
            mc_context("file <<%s>>", s);
            one_file(s, strlen(s), cap);
            if (mc_failed()) return;
            strcat(s, "\n");
        }
        int k = len - 1;
        while (k >= 2 && ++i[k] == NL) i[k--] = 0;
        if (k < 2) return;
    }
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&pc);
    pc.glue = -1;
    rctx_add(&pc, "type", R_FUNCTION, 1, 0, false); rctx_add(&pc, "equal", R_FUNCTION, 2, 0, false);
    static const char *in1[] = { "==", "!=", ">", "<", ">=", "<=" };
    for (int i = 0; i < 6; i++) rctx_add(&pc, in1[i], R_INFIX, 2, 1, true);
    rctx_add(&pc, "||", R_INFIX, 2, 0, true);
    static const char *k[] = { "CONST", "VAR", "OP", "TRUE", "FALSE" };
    for (int i = 0; i < 5; i++) rctx_add(&pc, k[i], R_FUNCTION, 0, 0, false);
    rctx_add(&pc, "!", R_PREFIX, 1, 4, false);
    rctx_add(&pc, "count", R_FUNCTION, R_DYN, 0, false);
    ref_keep();
    write_files();
    init_propositional_ctx();
    if (chdir(mc_scratch()) != 0) abort();
}
void mc_run(const char *key)
{
    ref_reset();
    int a, b, c, d;
    if (sscanf(key, "frag %d %d %d", &a, &b, &c) == 3) frags(a, b, c);
    else if (!strncmp(key, "pool ", 5)) pool_line(key + 5);
    else if (sscanf(key, "cond %d %d %d", &a, &b, &c) == 3) conditions(a, b, c);
    else if (sscanf(key, "file %d %d %d %d", &a, &b, &c, &d) == 4) files(a, b, c, d);
    else if (sscanf(key, "long %d", &a) == 1)
    {
        char *s = ref_alloc((size_t)a * 4 + 100);
        strcpy(s, "RULESET\nx -> sum(x");
        for (int i = 0; i < a; i++) strcat(s, ",x");
        strcat(s, ")\n");
        for (int i = 0; i < a; i++) strcat(s, " ");
        strcat(s, "x+y -> y # c");
        one_file(s, strlen(s), 1);
    }
    else if (sscanf(key, "many %d %d %d", &a, &b, &c) == 3)     /* a rules; b: in one section, with comments, in many sections; c: a malformed line at the end */
    {
        char *s = ref_alloc((size_t)a * 80 + 100);
        strcpy(s, "RULESET\n");
        for (int i = 0; i < a; i++)
        {
            if (b == 1) strcat(s, i % 3 ? "\n" : "# comment\n\n");
            if (b == 2 && i % 5 == 4) strcat(s, "RULESET # again\n");
            sprintf(s + strlen(s), i % 4 ? "x+%d -> %d*x WHERE x > %d\n" : "sum([a],%d) -> sum([a],%d)%.0d\n", i, i + 1, i);
        }
        if (c) strcat(s, "x+y -> -> x\nx -> 1\n");
        one_file(s, strlen(s), b == 2 ? RSECT - 1 : 1);
    }
    else if (!strncmp(key, "load ", 5) || sscanf(key, "rep %d %d", &a, &b) == 2)
    {
        unload_propositional_ctx();
        long live = mc_live_blocks();
        static const char *PAT[] = { "0", "01", "03", "5", "20", "4", "803", "6a", "9b0", "1cd", "2", "3", "77732" };
        char *again = NULL;
        if (key[0] == 'r')
        {
            again = malloc((size_t)a + 4);
            for (int i = 0; i < a; i++) again[i] = PAT[b][i % (int)strlen(PAT[b])];
            strcpy(again + a, "10");
        }
        live = mc_live_blocks();
        session(again ? again : key + 5);
        if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after the session", mc_live_blocks() - live);
        free(again);
        init_propositional_ctx();
    }
    else mc_fail("bad key");
}
static void seqs(int depth, int max, char *buf, int thorough)
{
    buf[depth] = '\0';
    if (depth && buf[depth - 1] < 'a') MC_CASE("load %s", buf);
    if (depth == max) return;
    for (int i = 0; i < NFILES; i++) { buf[depth] = (char)('0' + i); seqs(depth + 1, max, buf, thorough); }
    for (int i = 0; i < NOPS; i++) { buf[depth] = (char)('a' + i); seqs(depth + 1, max, buf, thorough); }
}
void mc_enumerate(int thorough)
{
    for (int p = 0; p < (thorough ? 13 : 12); p++) { for (int n = 4; n < 40; n += 5) MC_CASE("rep %d %d", n, p); MC_SIZES(n, 63, thorough ? 1025 : 257) if (p < 12 || n < 100) MC_CASE("rep %d %d", n, p); }
    for (int len = 2; len <= (thorough ? 6 : 5); len++) for (int a = 0; a < NFR; a++) for (int b = 0; b < NFR; b++) MC_CASE("frag %d %d %d", len, a, b);
    for (int l = 0; l < N(LHS); l++) for (int r = 0; r < N(RHS); r++) for (int deco = 0; deco < 4; deco++)
    {
        MC_CASE("pool %d %d 0 %d 0 0 0 0", l, r, deco);
        for (int nc = 1; nc <= 4; nc++)
        {
            int top = nc == 4 && !thorough ? 3 : N(CND);
            int c[4] = { 0 };
            if (deco && nc > 2 && !thorough) continue;
            for (;;)
            {
                MC_CASE("pool %d %d %d %d %d %d %d %d", l, r, nc, deco, c[0], c[1], c[2], c[3]);
                int k = nc - 1;
                while (k >= 0 && ++c[k] == top) c[k--] = 0;
                if (k < 0) break;
            }
        }
    }
    for (int a = 0; a < N(COP); a++) for (int b = 0; b < N(COP); b++) for (int sp = 0; sp < 2; sp++) MC_CASE("cond %d %d %d", a, b, sp);
    for (int len = 2; len <= (thorough ? 5 : 4); len++) for (int cap = 1; cap <= 3; cap++) for (int a = 0; a < NL; a++) for (int b = 0; b < NL; b++) MC_CASE("file %d %d %d %d", len, cap, a, b);
    for (int i = 0; i < (thorough ? 2000 : 400); i++) MC_CASE("long %d", i);
    MC_SIZES(i, thorough ? 2000 : 400, thorough ? 10001 : 4097) MC_CASE("long %d", i);
    for (int b = 0; b < 3; b++) for (int c = 0; c < 2; c++)
    {
        for (int i = 1; i < 64; i++) MC_CASE("many %d %d %d", i, b, c);
        MC_SIZES(i, 63, thorough ? 2049 : 513) MC_CASE("many %d %d %d", i, b, c);
    }
    char buf[16];
    seqs(0, thorough ? 4 : 3, buf, thorough);
}
