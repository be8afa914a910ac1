/* C11: what is in the history after every sequence of lines. */
#include "refsess.h"

const char *mc_property = "C11";

static const char *L[] = {
    "5", "ans*2", "0-ans/4", "@1", "@2-@0", "x", "x+ans", "1/0", "k=ans+3", "k", "clear", "help", "@ans", "y-y",
    "table x;1;2;1", "table x;1;3;1 fold x+y;ans", "table x;0;1;1 fold y/x;0", "load two", "2^1024", "-3", "table 1/x;0;2;1 fold 10x+y;1", "table x;1;3;1 fold x;@1", "@(0-1)", "1=1",
    "load quiet", "load nofile", "table ans;1;1;1 fold x+y;7", "@0", "@1.5+1", "table 1;1;0;-1 fold x/0;1" };
/* many results, put there directly */
static void filled(int n)
{
    ses_begin(false);
    for (int i = 0; i < n; i++) history_add((double)((long)i * 7919 % 100003) / 4);
    double d;
    int made = 0;
    for (int i = 0; i < n && !mc_failed(); i++)
        if (!history_get((size_t)i, &d) || !ses_close(d, (double)((long)(n - 1 - i) * 7919 % 100003) / 4)) mc_fail("with %d results @%d is wrong", n, i);
    if (!mc_failed() && history_get((size_t)n, &d)) mc_fail("with %d results there is a result beyond the first", n);
    for (int k = 0; k < 40 && !mc_failed(); k++)
    {
        /* earlier ones by reference; each appends one */
        int at = k < 10 ? k : k < 20 ? n - 1 + 9 - k : (int)((long)k * n / 41) - 3;
        if (at < 0 || at >= n) continue;
        char *e = ref_printf("@%d", at + made);
        size_t ok = (size_t)ses_line(e);
        double want = (double)((long)(n - 1 - at) * 7919 % 100003) / 4;
        if (!ok || !ses_number(mc_out, &d) || !ses_close(d, want)) mc_fail("with %d results %s is %s%s, expected %.10g", n + made, e, mc_out, mc_err, want);
        else if (history_get((size_t)(n + made + 1), &d) || !history_get((size_t)(n + made), &d)) mc_fail("'%s' adds another number of results than one", e);
        made++;
    }
    ses_end();
}
#define NL (int)(sizeof L / sizeof *L)
static const char *Q[] = { "ans", "@0", "@1", "@2", "@3", "@5", "@8", "ans+@1", "@(1+1)", "@7" };

/* expectation for the history */
static bool same_history(const char *line)
{
    int n = ses_history_count();
    if (n != rs.hist.n) { mc_fail("%d results after '%s', expected %d", n, line, rs.hist.n); return false; }
    for (int i = 0; i < n; i++)
    {
        double d;
        history_get((size_t)i, &d);
        if (!ses_close(d, rs.hist.v[n - 1 - i])) { mc_fail("after '%s' result @%d is %.12g, expected %.12g", line, i, d, rs.hist.v[n - 1 - i]); return false; }
    }
    double d;
    if (history_get((size_t)n, &d) || history_get((size_t)n + 7, &d)) { mc_fail("after '%s' there is a result beyond the first", line); return false; }
    return true;
}
/* the fold of a table, by the reference evaluation */
static void table(const char *line)
{
    char e[8][80];
    int n = 0;
    memset(e, 0, sizeof e);
    char *copy = ref_strdup(line + 6), *p = copy;
    char *fold = strstr(copy, " fold ");
    if (fold) *fold = 0;
    for (char *q; n < 4; n++) { q = strchr(p, ';'); if (q) *q = 0; snprintf(e[n], 80, "%s", p); if (!q) { n++; break; } p = q + 1; }
    if (fold)
    {
        char *q = strchr(fold + 6, ';');
        *q = 0;
        snprintf(e[4], 80, "%s", fold + 6);
        snprintf(e[5], 80, "%s", q + 1);
        n = 6;
    }
    double v[6] = { 0 };
    bool bad = false;
    for (int i = 1; i < n; i++)
    {
        if (i == 4) continue;
        RT *t = ref_parse(&rs.ctx, e[i]);
        if (!t || ref_eval(rs_expand(t), &rs.hist, 0, NULL, NULL, &v[i]) != RV_OK) bad = true;
    }
    RT *ex = rs_expand(ref_parse(&rs.ctx, e[0])), *fo = fold ? rs_expand(ref_parse(&rs.ctx, e[4])) : NULL;
    if (!rs_fold(&ex)) bad = true;
    if (!bad)
    {
        double step = fabs(v[3]) * (v[1] <= v[2] ? 1 : -1), acc = v[5];
        for (double x = v[1]; step > 0 ? x <= v[2] : x >= v[2]; x += step)
        {
            double r;
            const char *X[] = { "x" }, *XY[] = { "x", "y" };
            if (ref_eval(ex, &rs.hist, 1, X, &x, &r) == RV_OK && fo && !bad)
                if (ref_eval(fo, &rs.hist, 2, XY, (double[]){ acc, r }, &acc) != RV_OK) bad = true;
        }
        if (fo && rt_count_vars(fo, (const char *[2]){ 0 }, 2) == 0) { double r; if (ref_eval(fo, &rs.hist, 0, NULL, NULL, &r) != RV_OK) bad = true; }
        v[5] = acc;
    }
    bool ok = ses_line(line);
    if (mc_failed()) return;
    mc_trace(1);
    if (ok == bad) { mc_fail("'%s' is %s", line, ok ? "accepted" : ref_printf("refused: %s", mc_err)); return; }
    if (ok && fold)
    {
        char *f = strstr(mc_out, "Fold result: ");
        double got;
        if (!f || !ses_number(f + 13, &got) || !ses_close(got, v[5])) { mc_fail("'%s' prints %s, expected a fold result of %.10g", line, mc_out, v[5]); return; }
        rs_push(v[5]);
    }
    else if (strstr(mc_out, "Fold")) mc_fail("'%s' prints a fold result: %s", line, mc_out);
}
static void step(const char *line)
{
    if (!strncmp(line, "table ", 6)) table(line);
    else if (!strcmp(line, "load nofile")) { if (ses_line(line) && !mc_failed()) mc_fail("'%s' succeeds", line); }
    else if (!strncmp(line, "load ", 5))
    {
        static const char *TWO[] = { "ans+1", "x", "7", "@99999" }, *QUIET[] = { "x", "clear" };
        bool two = !strcmp(line, "load two");
        for (int i = 0; i < (two ? 4 : 2); i++)
        {
            RAns a = rs_line((two ? TWO : QUIET)[i]);
            if (a.ok && a.kind == 'n') rs_push(a.v);
        }
        bool ok = ses_line(line);
        mc_trace(1);
        if (!mc_failed() && ok == two) mc_fail("'%s' %s", line, ok ? "succeeds although a line fails" : "fails");
    }
    else rs_check(line);
    if (!mc_failed()) same_history(line);
}
static void play(const int *seq, int n, bool rules)
{
    char shown[500] = "";
    rs_begin(rules);
    for (int i = 0; i < n && !mc_failed(); i++)
    {
        mc_context("after: %s", shown);
        step(L[seq[i]]);
        snprintf(shown + strlen(shown), sizeof shown - strlen(shown), "%s%s", i ? " | " : "", L[seq[i]]);
        mc_state(rs_hash());
    }
    mc_context("after: %s", shown);
    for (int i = 0; i < (int)(sizeof Q / sizeof *Q) && !mc_failed(); i++) step(Q[i]);
    mc_context("%s", "");
}
static bool loaded;
static void one(const int *seq, int n, bool rules)
{
    size_t mk = ref_mark();
    if (rules)
    {
        if (!loaded) { ses_begin(true); loaded = true; }
        play(seq, n, true);
        clear_composite_functions();
        unload_history();
        init_history();
    }
    else
    {
        long live = mc_live_blocks();
        ses_begin(false);
        play(seq, n, false);
        ses_end();
        if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
    }
    ref_release(mk);
}
/* n results, every index asked for */
static void longer(int n)
{
    double *v = ref_alloc(sizeof(double) * (size_t)(4 * n + 20));
    int k = 0;
    ses_begin(false);
    for (int i = 0; i < n && !mc_failed(); i++)
    {
        double d = (i * 37) % 101 - 50 + i / 8.0;
        ses_line(ref_printf("%.3f", d));
        v[k++] = d;
        if (i % 3 == 0) ses_line("x");
        if (i % 5 == 0) ses_line("1/0");
        if (i % 7 == 0) { ses_line("table x;1;2;1 fold x+y;0"); v[k++] = 3; }
    }
    int m = k;
    for (int i = 0; i < m + 2 && !mc_failed(); i++)
    {
        bool ok = ses_line(ref_printf("@%d", i + k - m));
        double got;
        int at = k - 1 - (i + k - m);
        if (at < 0) { if (ok) mc_fail("with %d results @%d is answered with %s", k, i + k - m, mc_out); continue; }
        if (!ok || !ses_number(mc_out, &got) || !ses_close(got, v[at])) { mc_fail("with %d results @%d is %s%s, expected %.10g", k, i + k - m, mc_out, mc_err, v[at]); break; }
        v[k++] = got;
        mc_trace(1);
        if (k > 4 * n + 10) break;
        if (k > 3 * m + 3) break;
    }
    for (int i = 0; i < k && !mc_failed(); i++)
    {
        double d;
        if (!history_get((size_t)i, &d) || !ses_close(d, v[k - 1 - i])) mc_fail("with %d results @%d is wrong", k, i);
    }
    ses_end();
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
    mc_write_file("two", "ans+1\nx\n7\n@99999", 16);
    mc_write_file("quiet", "# 1\nx\nclear", 11);
}
void mc_run(const char *key)
{
    ref_reset();
    char mode;
    int depth, limit, s[6] = { 0 }, i[6] = { 0 }, n;
    n = sscanf(key, "%c %d %d %d %d", &mode, &depth, &limit, &s[0], &s[1]) - 3;
    if (mode == 'l') { longer(depth); return; }
    if (mode == 'h') { filled(depth); return; }
    if (n < 1) { mc_fail("bad key"); return; }
    if (s[0] < 0) n = 0;
    int fixed = n < depth ? n : depth;
    for (;;)
    {
        for (int k = fixed; k < depth; k++) s[k] = i[k];
        one(s, depth, mode == 'r');
        if (mc_failed()) break;
        int k = depth - 1;
        while (k >= fixed && ++i[k] == limit) i[k--] = 0;
        if (k < fixed) break;
    }
    if (loaded) { ses_end(); loaded = false; }
}
void mc_enumerate(int thorough)
{
    /* mode, depth, how many of the lines */
    static const struct { char m; int d, l; } S[] = { { 'p', 1, NL }, { 'p', 2, NL }, { 'p', 3, NL }, { 'p', 4, 17 }, { 'r', 1, NL }, { 'r', 2, NL }, { 'r', 3, 19 }, { 'p', 4, NL }, { 'p', 5, 14 }, { 'r', 3, NL }, { 'r', 4, 14 } };
    MC_SIZES(n, 99, thorough ? 32769 : 16384) MC_CASE("h %d 0", n);
    MC_CASE("p 0 1 -1");
    MC_CASE("r 0 1 -1");
    for (int i = 0; i < (thorough ? 11 : 7); i++)
        for (int a = 0; a < S[i].l; a++)
        {
            if (S[i].d == 1) { MC_CASE("%c 1 %d %d", S[i].m, S[i].l, a); continue; }
            for (int b = 0; b < S[i].l; b++) MC_CASE("%c %d %d %d %d", S[i].m, S[i].d, S[i].l, a, b);
        }
    for (int n = 0; n <= (thorough ? 300 : 120); n++) MC_CASE("l %d 0", n);
    MC_SIZES(n, thorough ? 300 : 120, thorough ? 2001 : 1025) MC_CASE("l %d 0", n);
}
