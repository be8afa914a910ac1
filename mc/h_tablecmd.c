/* C12: the table command against rows and folds computed by the reference model. */
#include "refsess.h"

const char *mc_property = "C12";

static const char *EX[] = { "x", "x^2-1", "1/x", "sqrt(x)", "5", "ans", "t", "f(x)", "x!", "x/(x-1)", "y*2", "-x", "2x+1", "k*u+f(u)", "max(v,0.5)", "x mod 3", "ln(x)", "g(w,w)", "1/(x-0.5)", "(-1)^x", "fold",
    "1/0", "x+y", ")", "", "x x", "g(x,y)", "f(1/0)", "x+", "@x", "x=1", "f", "10^(30x)" };
static const char *BD[] = { "0", "1", "-2", "0.3", "-0.5", "5", "ans", "k", "f(1)", "0.75", "10", "7/2", "-k", "$1", "1/0", "x", "", "2^1024", "1 2", "(", "-0.1", "x-x", "2^1024-2^1024", "1,2", "10^150" };
static const char *ST[] = { "1", "-1", "0.5", "0.1", "-0.25", "0.3", "2", "7", "k", "0", "1/0", "x", "", "1-1", "-0.1", "2^1024", "f(1)/8", "1/10^20", "2^-60", "10^149" };
static const char *FO[] = { NULL, "x+y;0", "x*y;1", "max(x,y);-100", "y;0", "x;3", "2x+y;1", "10x+f(y);k", "y/x;0", "x-y;ans", "7;1", "y-x;-1", "g(y,x);1", "x+1;0", "1/(y-1);2", "x/y;8", "sqrt(x-y);9",
    "x+z;0", "x+y;1/0", "x+y;x", "x+;0", "x+y;", ";0", "1/0;0", "x+y", "x+y;0;1", "t;0", "x*k+y;k-ans" };
/* ways to write it: separators */
static const char *FM[] = { "table %s;%s;%s;%s", "table %s ; %s ; %s ; %s", "table    %s;   %s   ;%s   ;   %s ", "table %s;%s;%s", "table %s;%s;%s;%s;", "table %s;%s;%s;%s;%s", "table %s,%s,%s,%s", "tables %s;%s;%s;%s" };
#define N(a) (int)(sizeof a / sizeof *a)

static char *stripped(const char *s)
{
    while (*s == ' ') s++;
    char *r = ref_strdup(s);
    for (size_t n = strlen(r); n && r[n - 1] == ' ';) r[--n] = 0;
    return r;
}
static char *plain(const char *s)          /* without color codes */
{
    char *r = ref_strdup(s), *o = r;
    for (; *s; s++)
    {
        if (*s == '\033') { while (*s && *s != 'm') s++; if (!*s) break; continue; }
        *o++ = *s;
    }
    *o = 0;
    return r;
}
static bool constant(const char *s, double *v, bool *open)
{
    RT *t = ref_parse(&rs.ctx, s);
    if (!t) return false;
    t = rs_expand(t);
    if (!rs_fold(&t)) return false;
    if (t->kind != 'n') { if (rs_rules) *open = true; return false; }
    *v = t->num;
    return true;
}
static bool near(double got, double want) { return (isnan(got) && isnan(want)) || got == want || fabs(got - want) <= 1.01e-10 + 1e-9 * fabs(want); }
/* the printed number; negative zero is zero */
static bool number(char **p, double *v)
{
    char *e;
    while (**p == ' ') (*p)++;
    *v = strtod(*p, &e);
    if (e == *p) return false;
    *p = e;
    return true;
}

static void check(const char *line, bool inter)
{
    size_t mk = ref_mark();
    bool ok = ses_line(line);
    if (mc_failed()) return;
    mc_trace(1);
    char *out = plain(mc_out);
    /* arguments */
    char *part[6] = { 0 }, *rest = ref_strdup(line + 6);
    int n = 0;
    for (; n < 3; n++)
    {
        char *q = strchr(rest, ';');
        if (!q) break;
        *q = 0;
        part[n] = rest;
        rest = q + 1;
    }
    part[n++] = rest;
    bool valid = n == 4, open = false;
    if (valid)
    {
        char *q = strstr(rest, " fold ");
        if (q)
        {
            *q = 0;
            part[n++] = q + 6;
            char *r = strchr(q + 6, ';');
            if (r) { *r = 0; part[n++] = r + 1; }
            else valid = false;
        }
    }
    for (int i = 0; i < n; i++) part[i] = stripped(part[i]);
    RT *raw = NULL, *ex = NULL, *fo = NULL;
    double from = 0, to = 0, step = 0, acc = 0;
    const char *vn[4] = { "" };
    int nv = 0;
    if (valid)
    {
        raw = ref_parse(&rs.ctx, part[0]);
        if (raw) { ex = rs_expand(raw); if (!rs_fold(&ex)) ex = NULL; }
        if (!ex) valid = false;
        else
        {
            nv = rt_count_vars(ex, vn, 4);
            if (nv > 1) { valid = false; if (rs_rules) open = true; }
        }
        if (!constant(part[1], &from, &open) || !constant(part[2], &to, &open) || !constant(part[3], &step, &open)) valid = false;
        if (n == 6)
        {
            const char *w[4];
            fo = ref_parse(&rs.ctx, part[4]);
            if (fo) { fo = rs_expand(fo); if (!rs_fold(&fo)) fo = NULL; }
            if (!fo) valid = false;
            else for (int i = rt_count_vars(fo, w, 4) - 1; i >= 0; i--) if (i > 3 || (strcmp(w[i], "x") && strcmp(w[i], "y"))) { valid = false; if (rs_rules) open = true; }
            if (!constant(part[5], &acc, &open)) valid = false;
        }
        if (!isfinite(from) || !isfinite(to) || !isfinite(step) || step == 0 || from + step == from || to + step == to) valid = false;
    }
    if (!valid)
    {
        if (open) return;
        if (ok || !mc_err_len) mc_fail("'%s' is accepted and prints: %.300s", line, out);
        else if (mc_out_len) mc_fail("'%s' is refused but prints: %.300s", line, out);
        ref_release(mk);
        return;
    }
    step = fabs(step) * (to < from ? -1 : 1);
    double rows = floor((to - from) / step + 1e-9) + 1, scale = fmax(fabs(from), fabs(to));
    if (rows > 5000) return;
    bool fopen = false, fbad = false;
    double big = fabs(acc);
    char *p = out;
    if (inter)
    {
        char *e = strchr(p, '\n');
        if (!e) { mc_fail("'%s' prints no header: %.300s%s", line, out, mc_err); return; }
        *e = 0;
        char *h = stripped(p);
        bool has = nv == 1;
        if (has) { size_t l = strlen(vn[0]); if (strncmp(h, vn[0], l) || h[l] != ' ') { mc_fail("'%s': header '%s' does not name %s", line, h, vn[0]); return; } h += l; }
        RT *ht = ref_parse(&rs.ctx, h);
        if (!ht || (!rt_equals(ht, raw) && !(rs_fold(&ht) && rs_fold(&raw) && rs_same_tree(ht, raw)))) { mc_fail("'%s': header shows '%s'", line, h); return; }
        p = e + 1;
    }
    for (int i = 0; i < (int)rows; i++)
    {
        double x = from + i * step, want, lo, hi, got, arg;
        if (inter)
        {
            if (!number(&p, &got) || got != i + 1) { mc_fail("'%s': row %d has no number: %.200s", line, i + 1, p); return; }
        }
        if (!number(&p, &arg) || !near(arg, x)) { mc_fail("'%s': row %d should have the argument %.10g: %.300s%s", line, i + 1, x, *p ? p : "the table ends", mc_err); return; }
        RStatus s = ref_eval(ex, &rs.hist, nv, vn, &x, &want);
        double d = 1e-12 * scale, x1 = x - d, x2 = x + d;
        bool vague = nv && i && (ref_eval(ex, &rs.hist, nv, vn, &x1, &lo) != s || ref_eval(ex, &rs.hist, nv, vn, &x2, &hi) != s || (s == RV_OK && (!near(lo, want) || !near(hi, want))));
        if (x == trunc(x) && x == from + i * step && step == trunc(step) && from == trunc(from)) vague = false;      /* integers are exact */
        if (s != RV_OK && rs_rules) vague = true;
        if (vague) fopen = true;
        while (*p == ' ') p++;
        bool err = !strncmp(p, "Error", 5);
        if (err) p += 5;
        else if (!number(&p, &got)) { mc_fail("'%s': row %d has no value: %.200s", line, i + 1, p); return; }
        if (!vague)
        {
            if (err != (s != RV_OK)) { mc_fail("'%s': the value at %.10g is %s, expected %s", line, x, err ? "Error" : ref_printf("%.10g", got), s == RV_OK ? ref_printf("%.10g", want) : "Error"); return; }
            if (!err && !near(got, want)) { mc_fail("'%s': the value at %.10g is %.10g, expected %.10g", line, x, got, want); return; }
        }
        while (*p == ' ') p++;
        if (*p != '\n') { mc_fail("'%s': row %d continues: %.200s", line, i + 1, p); return; }
        p++;
        if (s == RV_OK && fo && !fbad)
        {
            double v;
            if (ref_eval(fo, &rs.hist, 2, (const char *[]){ "x", "y" }, (double[]){ acc, want }, &v) != RV_OK) fbad = true;
            else acc = v;
            big = fmax(big, fabs(acc));
            if (!isfinite(acc)) fopen = true;
        }
    }
    mc_state(mc_hash_str(out, 2));
    if (!fo || fbad)
    {
        if (fopen && fo) return;
        if (*p) mc_fail("'%s': after %d rows follows: %.200s", line, (int)rows, p);
        else if (ok == fbad) mc_fail("'%s' %s: %s", line, ok ? "succeeds although the fold is undefined" : "fails", mc_err);
        else if (!ok != (mc_err_len != 0)) mc_fail("'%s': error output: %s", line, mc_err);
        ref_release(mk);
        return;
    }
    double got;
    if (fopen) { if (!strncmp(p, "Fold result: ", 13)) { p += 13; if (number(&p, &got)) rs_push(got); } return; }
    if (!ok) { mc_fail("'%s' fails: %s", line, mc_err); return; }
    if (strncmp(p, "Fold result: ", 13) || (p += 13, !number(&p, &got)) || strcmp(p, "\n")) { mc_fail("'%s': expected a fold result of %.10g: %.200s", line, acc, p); return; }
    if (!near(got, acc) && fabs(got - acc) > 1e-8 * big) { mc_fail("'%s': fold result %.10g, expected %.10g", line, got, acc); return; }
    rs_push(acc);
    double h;
    if (!history_get(0, &h) || !(near(h, acc) || fabs(h - acc) <= 1e-8 * big)) mc_fail("'%s': the fold result is not the last result", line);
    ref_release(mk);
}
static void session(bool rules)
{
    ses_begin(rules);
    rs_begin(rules);
    rs_check("f(x)=x^2+1");
    rs_check("k=2");
    rs_check("g(a,b)=3a-b");
    rs_check("3.5");
}
static void fresh(void)                     /* the history as the session started it */
{
    unload_history();
    init_history();
    history_add(3.5);
    rs.hist.n = 0;
    rs_push(3.5);
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
/* key: mode (p plain, r rules, i interactive), kind, two numbers, stride */
void mc_run(const char *key)
{
    ref_reset();
    char mode, kind;
    int a, b, stride;
    if (sscanf(key, "%c%c %d %d %d", &mode, &kind, &a, &b, &stride) != 5) { mc_fail("bad key"); return; }
    long live = mc_live_blocks();
    session(mode == 'r');
    set_interactive(mode == 'i');
    size_t mk = ref_mark();
    #define GO(...) do { fresh(); check(ref_printf(__VA_ARGS__), mode == 'i'); ref_release(mk); if (mc_failed()) goto end; } while (0)
    int c = 0;
    if (kind == 'b')                        /* every expression, bounds and step */
        for (int f = 0; f < N(BD); f++) for (int t = 0; t < N(ST); t++) if (c++ % stride == (a + b) % stride) GO("table %s;%s;%s;%s", EX[a], BD[f], BD[b], ST[t]);
    if (kind == 'f')                        /* every fold */
        for (int f = 0; f < N(BD); f++) for (int t = 0; t < N(BD); t++) for (int s = 0; s < N(ST); s++)
            if (c++ % stride == (a + b) % stride) { if (FO[b]) GO("table %s;%s;%s;%s fold %s", EX[a], BD[f], BD[t], ST[s], FO[b]); else GO("table %s;%s;%s;%s", EX[a], BD[f], BD[t], ST[s]); }
    if (kind == 'n')                        /* many rows: numerators, denominators */
        for (int i = 1; i <= stride; i++) GO("table x/%d;%d/%d;%d/%d;%d/%d fold x+y;0", a, -i, b, i * 2, b, (i % 2 ? 1 : -1), b);
    if (kind == 'w')                        /* a rows, counted up and down, with folds */
    {
        GO("table x/2;1;%d;1", a);
        GO("table x^2-3;%d;1;-1 fold x+y;1", a);
        GO("table 7-x;0;%d;0.5 fold max(x,y);0", a / 2);
        GO("table sqrt(x);%d;%d;1 fold y-x;0", -a / 2, a - a / 2 - 1);
    }
    if (kind == 's')                        /* layouts of the command */
        for (int e = 0; e < 16; e++) for (int f = 0; f < N(BD); f++)
        {
            const char *l = ref_printf(FM[a], EX[e], BD[f], BD[(f + e) % N(BD)], ST[b % N(ST)], "1");
            #pragma GCC diagnostic push
            #pragma GCC diagnostic ignored "-Wformat-nonliteral"
            #pragma GCC diagnostic pop
            if (strncmp(l, "table ", 6)) { ses_line(l); mc_trace(1); if (strchr(l, ';') && (ses_line_ok || mc_out_len)) mc_fail("'%s' is accepted", l); if (mc_failed()) goto end; continue; }
            GO("%s", l);
            GO("%s fold x+y;0", l);
            GO("%s  fold  x+y  ;  0 ", l);
            GO("%sfold x+y;0", l);
            GO("%s fold x+y fold 1;0", l);
            GO("%s fold x+y;0 fold x+y;0", l);
        }
    end:
    set_interactive(false);
    ses_end();
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
void mc_enumerate(int thorough)
{
    static const char M[] = "pri";
    for (int m = 0; m < 3; m++)
    {
        for (int a = 0; a < N(EX); a++)
        {
            for (int b = 0; b < N(BD); b++) MC_CASE("%cb %d %d %d", M[m], a, b, thorough ? (m ? 3 : 1) : m ? 13 : 5);
            for (int b = 0; b < N(FO); b++) MC_CASE("%cf %d %d %d", M[m], a, b, thorough ? (m ? 41 : 7) : m ? 211 : 53);
        }
        for (int a = 0; a < N(FM); a++) for (int b = 0; b < N(ST); b++) if (thorough || b < 4) MC_CASE("%cs %d %d 0", M[m], a, b);
        MC_SIZES(n, 63, thorough ? 3000 : 1025) MC_CASE("%cw %d 0 0", M[m], n);
        for (int b = 1; b <= (thorough ? 60 : 20); b++) MC_CASE("%cn %d %d %d", M[m], 1 + b % 4, b, thorough ? 60 : 25);
    }
}
