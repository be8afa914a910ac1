/* C05: constant expressions with an undefined subexpression are refused, wherever it stands. */
#include "session.h"
#include "forms.h"

const char *mc_property = "C05";
static RCtx rc;
static int rules_on, hist_n;
static RHist hist;

/* with 0, 1 or 2 results in the history */
static const struct { const char *s; RStatus st; int max_hist; } SEED[] = {
    { "(1/0)", RV_DIVZERO, 9 }, { "(0/0)", RV_DIVZERO, 9 }, { "(2/(1-1))", RV_DIVZERO, 9 }, { "(0^0)", RV_DIVZERO, 9 }, { "(0^(-1))", RV_DIVZERO, 9 },
    { "((2-2)^(-0.5))", RV_DIVZERO, 9 }, { "(1/sin(0))", RV_DIVZERO, 9 }, { "(3/(-0))", RV_DIVZERO, 9 }, { "(5/floor(0.5))", RV_DIVZERO, 9 },
    { "((-8)^(1/3))", RV_COMPLEX, 9 }, { "((-2)^0.5)", RV_COMPLEX, 9 }, { "((1-3)^(-1.5))", RV_COMPLEX, 9 }, { "sqrt(-1)", RV_COMPLEX, 9 }, { "sqrt(2-3)", RV_COMPLEX, 9 },
    { "root(-8,3)", RV_COMPLEX, 9 }, { "root(-1,2)", RV_COMPLEX, 9 }, { "sqrt(-0.001)", RV_COMPLEX, 9 },
    { "@5", RV_HISTORY, 9 }, { "@2", RV_HISTORY, 2 }, { "@1", RV_HISTORY, 1 }, { "@0", RV_HISTORY, 0 }, { "ans", RV_HISTORY, 0 }, { "@(-1)", RV_HISTORY, 9 },
    { "@10000000000", RV_HISTORY, 9 }, { "@4294967296", RV_HISTORY, 9 }, { "@(2^40)", RV_HISTORY, 9 },
    { "(1/(2*0))", RV_DIVZERO, 9 }, { "(1/(0/5))", RV_DIVZERO, 9 }, { "(0^$0)", RV_DIVZERO, 9 }, { "(1/sum())", RV_DIVZERO, 9 }, { "((-1)^50%)", RV_COMPLEX, 9 }, { "(1/frac(2))", RV_DIVZERO, 9 },
};
#define NS ((int)(sizeof SEED / sizeof *SEED))
static const char *text_of(RStatus s) { return s == RV_DIVZERO ? "Division by zero" : s == RV_COMPLEX ? "Complex solution" : "This part of the history is not set yet"; }

/* the line is refused and leaves nothing; before and after, the history is the same */
static void refused(const char *s, RStatus want)
{
    bool ok = ses_line(s);
    if (ok) { mc_fail("'%s' is not refused; it prints '%s'", s, mc_out); return; }
    if (mc_out_len) { mc_fail("'%s' prints '%s' although it is refused", s, mc_out); return; }
    if (!mc_err_len) { mc_fail("'%s' is refused without a message", s); return; }
    if (want != RV_OK && !strstr(mc_err, text_of(want))) { mc_fail("'%s' is refused with '%s', expected '%s'", s, mc_err, text_of(want)); return; }
    double d;
    if (ses_history_count() != hist_n) { mc_fail("'%s' leaves %d results in the history, expected %d", s, ses_history_count(), hist_n); return; }
    for (int i = 0; i < hist_n; i++) if (!history_get((size_t)i, &d) || d != hist.v[hist_n - 1 - i]) { mc_fail("'%s' changes the history", s); return; }
    mc_state(mc_hash_str(s, (u64)(rules_on * 3 + hist_n)));
    mc_trace(1);
}
/* where operands stand besides the seed */
static const char *OTHER[] = { "0", "1", "2", "(-3)" };
static const char *wrapped(int f, int pos, int v, const char *inner)
{
    const char *a[4];
    for (int k = 0; k < 4; k++) a[k] = k == pos ? inner : OTHER[(v + k) % 4];
    return form(f, a);
}
static int nf;                                  /* forms, then x', rand(x,9) and rand(0,x) */
static int arity(int f) { return f < nforms ? form_arity(f) : 1; }
static const char *wrap(int f, int pos, int v, const char *inner)
{
    if (f == nforms) return ref_printf("((%s)')", inner);
    if (f == nforms + 1) return ref_printf("rand(%s, 9)", inner);
    if (f == nforms + 2) return ref_printf("rand(0, %s)", inner);
    return wrapped(f, pos, v, inner);
}
static bool usable(int s) { return hist_n <= SEED[s].max_hist; }
static RStatus expected(int f, RStatus st) { return st; (void)f; }

static void one(int s, int f)
{
    refused(SEED[s].s, SEED[s].st);
    for (int p = 0; p < arity(f); p++) for (int v = 0; v < 4; v++)
    {
        size_t mk = ref_mark();
        refused(wrap(f, p, v, SEED[s].s), expected(f, SEED[s].st));
        ref_release(mk);
        if (mc_failed()) return;
    }
}
static void two(int s, int f)
{
    for (int g = 0; g < nf; g++) for (int q = 0; q < arity(g); q++) for (int p = 0; p < arity(f); p++) for (int v = 0; v < 2; v++)
    {
        size_t mk = ref_mark();
        /* an outer operand may itself be undefined (0^0, ...): which message comes first is then open only if it precedes the seed */
        refused(wrap(f, p, v, wrap(g, q, v + p, SEED[s].s)), SEED[s].st);
        ref_release(mk);
        if (mc_failed()) return;
    }
}
static void three(int s, int f)
{
    for (int g = f % 3; g < nf; g += 3) for (int h = (f + g) % 4; h < nf; h += 4)
        for (int r = 0; r < arity(h); r++) for (int q = 0; q < arity(g); q++) for (int p = 0; p < arity(f); p++)
        {
            size_t mk = ref_mark();
            refused(wrap(f, p, p, wrap(g, q, q + 1, wrap(h, r, r, SEED[s].s))), SEED[s].st);
            ref_release(mk);
            if (mc_failed()) return;
        }
}
/* two undefined subexpressions: the first from the left is reported */
static void both(int s, int f)
{
    for (int t = 0; t < NS; t++)
    {
        if (!usable(t)) continue;
        if (form_arity(f) < 2) return;
        for (int p = 0; p < form_arity(f); p++) for (int q = 0; q < form_arity(f); q++)
        {
            if (p == q) continue;
            const char *a[4];
            for (int k = 0; k < 4; k++) a[k] = k == p ? SEED[s].s : k == q ? SEED[t].s : OTHER[k];
            size_t mk = ref_mark();
            refused(form(f, a), RV_OK);
            ref_release(mk);
            if (mc_failed()) return;
        }
    }
}
/* the last operand of the documented domain: a defined expression next to each seed is answered */
static void border(void)
{
    static const char *OKL[] = { "1/0.001", "0/1", "0^1", "0^0.5", "(-8)^3", "(-8)^(-3)", "(-2)^2", "(-1)^0", "sqrt(0)", "root(0,3)", "root(8,3)", "0*5", "1/(1-2)", "(-2)^-2", "5^0", "(-0.5)^4", "0^0.001", "1/0.0000000000001", "1/(-0.00000000000000000001)", "0.0000000001^0", "(-0.0000001)^2", "sqrt(0.000000000001)" };
    for (int i = 0; i < (int)(sizeof OKL / sizeof *OKL); i++)
    {
        RT *t = ref_parse(&rc, OKL[i]);
        double want, got;
        if (!t || ref_eval(t, &hist, 0, NULL, NULL, &want) != RV_OK) { mc_fail("border case %s", OKL[i]); return; }
        if (!ses_line(OKL[i]) || !ses_number(mc_out, &got) || !ses_close(got, want)) { mc_fail("'%s' is answered with %s%s, expected %.10g", OKL[i], mc_out, mc_err, want); return; }
        mc_trace(1);
    }
}
/* every pair of grid operands: refused with the documented message or answered, as the operands say */
static void graded(const char *s)
{
    RT *t = ref_parse(&rc, s);
    double want, got;
    if (!t) { mc_fail("'%s' is not in the grammar", s); return; }
    RStatus st = ref_eval(t, &hist, 0, NULL, NULL, &want);
    if (st == RV_DIVZERO || st == RV_COMPLEX || st == RV_HISTORY) { refused(s, st); return; }
    if (st != RV_OK) return;
    if (!ses_line(s)) { mc_fail("'%s' is refused (%s), expected %.10g", s, mc_err, want); return; }
    if (!ses_number(mc_out, &got)) { mc_fail("'%s' prints '%s'", s, mc_out); return; }
    mc_trace(1);
}
static void grid(int op, int i)
{
    static const char *OP[] = { "(%s / %s)", "(%s ^ %s)", "root(%s,%s)", "(0-%s^%s)", "(1/(%s-%s))", "sqrt(%s-%s)", "@(%s*%s)", "(2^(%s))/(%s)", "sum(1,2,%s/%s,4)" };
    /* refused ones first: they must leave the history alone; then the answered ones */
    for (int pass = 0; pass < 2; pass++) for (int j = 0; j < NGX && !mc_failed(); j++)
    {
        size_t mk = ref_mark();
        char *l = ref_printf(OP[op], GX[i], GX[j]);
        RT *t = ref_parse(&rc, l);
        double want;
        bool def = t && ref_eval(t, &hist, 0, NULL, NULL, &want) == RV_OK;
        if (def && pass == 1 && op != 6) graded(l);
        else if (!def && pass == 0) graded(l);
        ref_release(mk);
    }
}
/* an undefined operand at every position of calls with many operands */
static void wide_seed(int s, int fn)
{
    for (int n = 1; n <= 20; n++) for (int p = 0; p < n; p++)
    {
        size_t mk = ref_mark();
        refused(wide(fn, n, p, n + p, SEED[s].s), SEED[s].st);
        if (!mc_failed() && (n + p) % 5 == 0) refused(ref_printf("2*%s^2+1", wide(fn, n, p, n + p, SEED[s].s)), SEED[s].st);
        if (!mc_failed() && n <= 8) refused(wide((fn + p) % 6, n, p, p, wide(fn, 4 + n % 3, p % 4, n, SEED[s].s)), SEED[s].st);
        ref_release(mk);
        if (mc_failed()) return;
    }
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    nforms = N1 + 4 + 30 + 7 + 5 + 5;
    nf = nforms + 3;
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
void mc_run(const char *key)
{
    ref_reset();
    long live = mc_live_blocks();
    char kind, mode;
    int a, b = 0;
    if (sscanf(key, "%c%c%d %d %d", &kind, &mode, &hist_n, &a, &b) < 4) { mc_fail("bad key"); return; }
    rules_on = mode == 'r';
    ses_begin(rules_on);
    hist.n = hist_n;
    for (int i = 0; i < hist_n; i++) { hist.v[i] = 4 + i; ses_line(ref_printf("%d", 4 + i)); }
    if (kind == '1') one(a, b);
    else if (kind == '2') two(a, b);
    else if (kind == '3') three(a, b);
    else if (kind == 'b') both(a, b);
    else if (kind == 'd') border();
    else if (kind == 'g') grid(a, b);
    else if (kind == 'w') wide_seed(a, b);
    ses_end();
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
void mc_enumerate(int thorough)
{
    static const int S3[] = { 0, 10, 17, 3 };
    for (int r = 0; r < 2; r++) for (int h = 0; h < 3; h++)
    {
        char m = r ? 'r' : 'p';
        hist_n = h;
        MC_CASE("d%c%d 0 0", m, h);
        for (int o = 0; o < 9; o++) for (int i = 0; i < NGX; i++) if (thorough || (o + i + 2 * r) % 3 == h) MC_CASE("g%c%d %d %d", m, h, o, i);
        for (int s = 0; s < NS; s++)
        {
            if (!usable(s)) continue;
            for (int fn = 0; fn < 6; fn++) if (thorough || (s + fn + r) % 3 == h) MC_CASE("w%c%d %d %d", m, h, s, fn);
            for (int f = 0; f < nf; f++)
            {
                MC_CASE("1%c%d %d %d", m, h, s, f);
                if (f < nforms) MC_CASE("b%c%d %d %d", m, h, s, f);
                if (thorough || ((s + f) % 8 == h && s < 26)) MC_CASE("2%c%d %d %d", m, h, s, f);
            }
        }
        for (int i = 0; i < 4; i++) for (int f = 0; f < nf; f++) if (thorough || (f + i + h + r) % 16 == 0) MC_CASE("3%c%d %d %d", m, h, S3[i], f);
    }
}
