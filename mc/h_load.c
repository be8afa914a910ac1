/* C13: a loaded file against the same lines typed one by one. */
#include "refsess.h"
#include <unistd.h>

const char *mc_property = "C13";

static char longline[9000];
static const char *L[] = {
    "", "#c", "1+2", "ans+1", "x", "f(x)=x+1", "f(3)", "f=2", "1/0", "clear f", "load inner", "load innerfail", "table x;1;2;1 fold x+y;0", " ", " # c", "load nofile", "load empty", "x+x",
    "load simplification good", "load simplification bad", "#", "4\r", "quitx", "clear", "load nl", "@1", "# load inner", "load comment", "help", longline };
#define N(a) (int)(sizeof a / sizeof *a)
static const char *PROBE[] = { "f", "f(3)", "f(x)=2x", "f(4)", "g", "g(2)", "x+x", "ans", "@1", "@2", "@3" };

static char *acc; static size_t acc_n, acc_cap;
static bool all_ok;
static void put(const char *s)
{
    size_t l = strlen(s);
    while (acc_n + l + 1 > acc_cap) acc = realloc(acc, acc_cap = acc_cap ? acc_cap * 2 : 4096);
    memcpy(acc + acc_n, s, l + 1);
    acc_n += l;
}
static bool typed_text(const char *content, size_t len, char **errs, size_t *en)
{
    bool ok = true;
    for (size_t i = 0; i < len;)
    {
        size_t j = i;
        while (j < len && content[j] != '\n') j++;
        char *s = ref_alloc(j - i + 1);
        memcpy(s, content + i, j - i);
        s[j - i] = 0;
        if (s[0] && s[0] != '#')
        {
            FILE *f;
            if (!strncmp(s, "load ", 5) && strncmp(s, "load simplification ", 20) && strchr(s + 5, '/') == NULL && (f = fopen(s + 5, "r")))
            {
                /* the lines of the file in place of the load */
                char *t = ref_alloc(70000);
                size_t n = fread(t, 1, 70000, f);
                fclose(f);
                if (!typed_text(t, n, errs, en)) ok = false;
            }
            else
            {
                if (!ses_line(s)) ok = false;
                put(mc_out);
                *errs = realloc(*errs, *en + mc_err_len + 1);
                memcpy(*errs + *en, mc_err, mc_err_len + 1);
                *en += mc_err_len;
            }
        }
        i = j + 1;
    }
    return ok;
}
static void probes(void)
{
    for (int i = 0; i < N(PROBE); i++) { put("> "); put(PROBE[i]); put("\n"); put(ses_line(PROBE[i]) ? "" : "[refused]\n"); put(mc_out); put(mc_err); }
}
static const char *shown(const char *s)
{
    char *r = ref_alloc(400), *p = r;
    for (; *s && p < r + 380; s++) { if (*s == '\n') { *p++ = '\\'; *p++ = 'n'; } else *p++ = *s; }
    *p = 0;
    return r;
}
/* output order of stdout and stderr lines is compared within each stream */
static void check(const char *content, size_t len, bool inter)
{
    size_t mk = ref_mark();
    if (mc_failed()) return;
    long live = mc_live_blocks();
    mc_write_file("file", content, len);
    /* typed; output and errors are collected separately */
    char *to, *te;
    acc_n = 0; all_ok = true;
    char *errs = NULL; size_t en = 0;
    put("");
    ses_begin(false);
    ses_line("9");
    ses_line("g(x)=f*x");                     /* refused: unbound */
    all_ok = typed_text(content, len, &errs, &en);
    to = ref_strdup(acc);
    te = ref_strdup(errs ? errs : "");
    free(errs);
    bool ok = all_ok;
    acc_n = 0; put("");
    probes();
    char *tp = ref_strdup(acc);
    ses_end();
    /* loaded */
    ses_begin(false);
    ses_line("9");
    ses_line("g(x)=f*x");
    set_interactive(inter);
    bool lok = ses_line("load file");
    if (!mc_failed() && is_interactive() != inter) mc_fail("interactive mode is %s after loading \"%s\"", inter ? "off" : "on", shown(content));
    set_interactive(false);
    if (!mc_failed() && strcmp(mc_out, to)) mc_fail("\"%s\" loaded prints \"%s\", typed \"%s\"", shown(content), shown(mc_out), shown(to));
    if (!mc_failed() && strcmp(mc_err, te)) mc_fail("\"%s\" loaded reports \"%s\", typed \"%s\"", shown(content), shown(mc_err), shown(te));
    if (!mc_failed() && lok != ok) mc_fail("loading \"%s\" %s although %s", shown(content), lok ? "succeeds" : "fails", ok ? "no line fails" : "a line fails");
    mc_state(mc_hash_str(mc_out, mc_hash_str(mc_err, lok)));
    mc_trace(1);
    acc_n = 0; put("");
    if (!mc_failed()) { probes(); if (strcmp(acc, tp)) mc_fail("after loading \"%s\": \"%s\", after typing it \"%s\"", shown(content), shown(acc), shown(tp)); }
    ses_end();
    free(acc); acc = NULL; acc_cap = acc_n = 0;
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after loading \"%s\"", mc_live_blocks() - live, shown(content));
    ref_release(mk);
}
static void lines(const int *s, int n)
{
    size_t mk = ref_mark();
    char *c = ref_alloc(64 + (size_t)n * sizeof longline);
    c[0] = 0;
    for (int i = 0; i < n; i++) { if (i) strcat(c, "\n"); strcat(c, L[s[i]]); }
    check(c, strlen(c), false);
    strcat(c, "\n");
    check(c, strlen(c), true);
    ref_release(mk);
}
static void file(const char *name, const char *text) { mc_write_file(name, text, strlen(text)); }
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
    file("good", "RULESET\nRULESET\nRULESET\nRULESET\nx+x -> 2*x\nRULESET\nRULESET\nRULESET\n");
    file("bad", "RULESET\nx+x -> 4*x\nRULESET\nRULESET\nRULESET\nx+ -> y\nRULESET\nRULESET\nRULESET\n");
    file("inner", "10\nf(x)=7x\nx\n");
    file("innerfail", "11\n1/0\n12");
    file("empty", "");
    file("nl", "\n\n");
    file("comment", "# 1\n#2");
    strcpy(longline, "1");
    for (int i = 0; i < 2060; i++) strcat(longline, "+1");
    for (int i = 0; i < 40; i++) file(ref_printf("n%d", i), ref_printf("%d\nload n%d\nans+1%s", i, i + 1, i % 2 ? "\n" : ""));
}
static const char *ALPHA[] = { "1\n#+x ", "1\n\r\tx\x80# " };
void mc_run(const char *key)
{
    ref_reset();
    char kind;
    int depth, limit, s[6] = { 0 }, i[6] = { 0 }, n;
    n = sscanf(key, "%c %d %d %d %d", &kind, &depth, &limit, &s[0], &s[1]) - 3;
    if (kind == 'b')                        /* bytes: depth, and the first two */
    {
        char c[12] = "";
        const char *BYTES = ALPHA[limit];
        int d = depth, nb = (int)strlen(BYTES);
        for (int k = 0; k < d && k < n; k++) c[k] = BYTES[s[k]];
        int f = n < d ? n : d;
        for (;;)
        {
            for (int k = f; k < d; k++) c[k] = BYTES[i[k]];
            check(c, (size_t)d, d & 1);
            if (mc_failed()) return;
            int k = d - 1;
            while (k >= f && ++i[k] == nb) i[k--] = 0;
            if (k < f) return;
        }
    }
    if (kind == 'n')                        /* nested files, long lines, many lines */
    {
        char *c = ref_printf("load n%d\n@1", 39 - depth % 40);
        check(c, strlen(c), false);
        c = ref_alloc((size_t)depth * 40 + 64);
        memset(c, '1', (size_t)depth);
        c[depth] = 0;
        check(c, strlen(c), false);
        strcat(c, "\n2");
        check(c, strlen(c), false);
        char *o = c;
        *o = 0;
        for (int k = 0; k < depth; k++) o += sprintf(o, "%s", k % 3 ? "ans+1\n" : "#\n1\n\n");
        check(c, strlen(c), false);
        return;
    }
    if (kind == 'm')                        /* limit loads in one session, one or several files in turn */
    {
        static const char *F[] = { "load inner", "load innerfail", "load nofile", "load empty", "load n38", "load simplification good", "load simplification bad", "load .", "load simplification nofile", "load comment" };
        char *c = ref_alloc((size_t)limit * 40 + 64);
        c[0] = 0;
        for (int k = 0; k < limit; k++) strcat(strcat(c, F[depth < N(F) ? depth : k * 3 % N(F)]), "\n");
        strcat(c, "load inner\nans+2\nload innerfail\nx+x");
        check(c, strlen(c), false);
        check(c, strlen(c), true);
        return;
    }
    if (n < 1) { mc_fail("bad key"); return; }
    int fixed = n < depth ? n : depth;
    for (;;)
    {
        for (int k = fixed; k < depth; k++) s[k] = i[k];
        lines(s, depth);
        if (mc_failed()) return;
        int k = depth - 1;
        while (k >= fixed && ++i[k] == limit) i[k--] = 0;
        if (k < fixed) return;
    }
}
void mc_enumerate(int thorough)
{
    int nl = N(L), max = thorough ? 7 : 5;
    for (int a = 0; a < nl; a++)
    {
        MC_CASE("l 1 %d %d", nl, a);
        for (int b = 0; b < nl; b++)
        {
            MC_CASE("l 2 %d %d %d", nl, a, b);
            if (thorough || (a < 20 && b < 20)) MC_CASE("l 3 %d %d %d", thorough ? nl : 20, a, b);
            if (a < (thorough ? 18 : 0) && b < 18) MC_CASE("l 4 %d %d %d", 18, a, b);
        }
    }
    MC_CASE("b 0 0 0");
    for (int f = 0; f < 11; f++) for (int k = 2; k < 64; k += k > 16 ? 5 : 1) MC_CASE("m %d %d", f, k);
    for (int f = 0; f < 11; f++) MC_SIZES(k, 63, thorough ? 2049 : 1025) MC_CASE("m %d %d", f, k);
    for (int al = 0; al < 2; al++) for (int d = 1, nb = (int)strlen(ALPHA[al]); d <= max - al; d++) for (int a = 0; a < nb; a++)
    {
        if (d == 1) MC_CASE("b 1 %d %d", al, a);
        else for (int b = 0; b < nb; b++) MC_CASE("b %d %d %d %d", d, al, a, b);
    }
    for (int k = 0; k < (thorough ? 400 : 130); k++) MC_CASE("n %d 0 0", k);
    MC_SIZES(k, thorough ? 399 : 129, thorough ? 10001 : 4097) MC_CASE("n %d 0 0", k);
}
