/* C14: the real program run with every argument list and standard input, against a model of main. */
#define _GNU_SOURCE
#include "refsess.h"
#include <fcntl.h>
#include <signal.h>
#include <termios.h>
#include <poll.h>
#include <unistd.h>
#include <sys/wait.h>

const char *mc_property = "C14";

static const char *ARG[] = { "-i", "-q", "-h", "-v", "-c", "--interactive", "--quiet", "--help", "--version", "--commands",
    "1+2", "1/0", "f=3", "f*2", "quit", "#c", "", "-x", "--", "-", "-ii", "--hel", "--commandss", "-C", "load fails", "load quits", "x", "load ok", " -i" };
#define NA (int)(sizeof ARG / sizeof *ARG)
static const char *LINE[] = { "1+1", "1/0", "quit", "x", "# c", "", "f=2", "f", "load fails", "load quits", "load ok", "-i" };
#define NL (int)(sizeof LINE / sizeof *LINE)
static char exe[4096];

/* ---- running the program ---- */
typedef struct { int status; bool hung; char *out, *err; } Run;
static char *slurp(const char *p)
{
    FILE *f = fopen(p, "r");
    char *b = ref_alloc(200000);
    size_t n = fread(b, 1, 199999, f);
    b[n] = 0;
    fclose(f);
    return b;
}
/* tty: standard input is a terminal */
static Run run(int n, const char **arg, const char *in, bool tty)
{
    Run r = { 0 };
    char **av = ref_alloc(sizeof(char *) * (size_t)(n + 2));
    av[0] = exe;
    for (int i = 0; i < n; i++) av[i + 1] = (char *)arg[i];
    av[n + 1] = NULL;
    int master = -1, slave = -1;
    if (tty)
    {
        master = posix_openpt(O_RDWR | O_NOCTTY);
        char name[100];
        if (master < 0 || grantpt(master) || unlockpt(master) || ptsname_r(master, name, sizeof name) || (slave = open(name, O_RDWR | O_NOCTTY)) < 0) { mc_fail("no terminal"); return r; }
        struct termios t;
        tcgetattr(slave, &t);
        t.c_lflag &= (tcflag_t)~ECHO;
        tcsetattr(slave, TCSANOW, &t);
        if (write(master, in, strlen(in)) < 0) { }
        if (write(master, "\x04\x04", 2) < 0) { }
    }
    else mc_write_file("stdin", in, strlen(in));
    pid_t p = fork();
    if (p == 0)
    {
        int i = tty ? slave : open("stdin", O_RDONLY), o = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        for (int k = 3; k < 40; k++) close(k);
        alarm(10);
        execv(exe, av);
        _exit(126);
    }
    int st;
    waitpid(p, &st, 0);
    if (tty) { close(slave); close(master); }
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = slurp("stdout");
    r.err = slurp("stderr");
    mc_trans(1);
    return r;
}
/* ---- the model ---- */
typedef struct { char *out; bool help, version, unknown, notice; const char *bad; int status; int failed; bool interactive_lines; } Model;
static bool quitting;
static void emit(Model *m, const char *fmt, double v) { snprintf(m->out + strlen(m->out), 200000 - strlen(m->out), fmt, v); }
static bool doline(Model *m, const char *s, bool *all)
{
    if (*s == 0 || *s == '#') return true;
    if (!strcmp(s, "quit")) { quitting = true; return true; }
    if (!strcmp(s, "load ok")) { emit(m, "%.10g\n", 7); rs_push(7); return true; }
    if (!strcmp(s, "load fails")) { emit(m, "%.10g\n", 5); emit(m, "%.10g\n", 6); rs_push(5); rs_push(6); *all = false; return false; }
    if (!strcmp(s, "load quits")) { emit(m, "%.10g\n", 4); quitting = true; return true; }
    RAns a = rs_line(s);
    if (!a.ok) { *all = false; return false; }
    if (a.kind == 'n') { emit(m, "%.10g\n", a.v); rs_push(a.v); }
    else if (a.kind == 'e')
    {
        char *n = show(a.t);
        snprintf(m->out + strlen(m->out), 200000 - strlen(m->out), "%s\n", n);
    }
    return true;
}
static Model model(int n, const char **arg, const char *in)
{
    Model m = { .failed = -1, .out = ref_alloc(200000) };
    m.out[0] = 0;
    bool force = false, quiet = false, all = true;
    int c = -1;
    rs_begin(false);
    quitting = false;
    for (int i = 0; i < n; i++)
    {
        const char *a = arg[i];
        if (!strcmp(a, "-i") || !strcmp(a, "--interactive")) force = true;
        else if (!strcmp(a, "-q") || !strcmp(a, "--quiet")) quiet = true;
        else if (!strcmp(a, "-h") || !strcmp(a, "--help")) m.help = true;
        else if (!strcmp(a, "-v") || !strcmp(a, "--version")) m.version = true;
        else if (!strcmp(a, "-c") || !strcmp(a, "--commands")) { c = i; break; }
        else { m.unknown = true; m.bad = a; m.status = 1; m.help = m.version = false; return m; }
    }
    if (m.help || m.version) return m;
    m.notice = !quiet && (force || c < 0);
    if (c >= 0)
    {
        for (int i = c + 1; i < n; i++)
        {
            if (!doline(&m, arg[i], &all)) { m.status = 1; m.failed = i - c; return m; }
            if (quitting) return m;
        }
        if (!force) return m;
    }
    m.interactive_lines = true;
    for (const char *p = in; *p;)
    {
        char *s = ref_strdup(p);
        size_t l = strcspn(s, "\n");
        s[l] = 0;
        doline(&m, s, &all);
        if (quitting) break;
        p += l;
        if (*p) p++;
    }
    m.status = all ? 0 : 1;
    return m;
}
static const char *shown(int n, const char **arg, const char *in)
{
    char *b = ref_alloc(600);
    *b = 0;
    for (int i = 0; i < n; i++) snprintf(b + strlen(b), 600 - strlen(b), " '%s'", arg[i]);
    snprintf(b + strlen(b), 600 - strlen(b), " < \"");
    for (size_t l = strlen(b); *in && l < 590; in++) { b[l++] = *in == '\n' ? '|' : *in; b[l] = 0; }
    return strcat(b, "\"");
}
static void check(int n, const char **arg, const char *in, bool tty)
{
    if (mc_failed()) return;
    size_t mk = ref_mark();
    Model m = model(n, arg, in);
    Run r = run(n, arg, in, tty);
    if (mc_failed()) return;
    mc_trace(1);
    mc_state(mc_mix(mc_hash_str(r.out, 1), mc_hash_str(r.err, (u64)r.status)));
    const char *w = shown(n, arg, in);
    char *startup = strstr(r.err, "Error loading simplification ruleset"), *err = r.err;
    if (startup == r.err) { err = strstr(r.err, "load a ruleset.\n"); err = err ? err + 16 : r.err; }
    if (r.status != m.status) mc_fail("ccalc%s ends with status %d, expected %d (stdout: %.200s stderr: %.200s)", w, r.status, m.status, r.out, err);
    else if (m.unknown)
    {
        if (*r.out) mc_fail("ccalc%s prints: %.200s", w, r.out);
        else if (!strstr(r.err, "Unrecognized argument: ") || !strstr(r.err, m.bad)) mc_fail("ccalc%s does not name the argument: %.200s", w, r.err);
        else if (startup) mc_fail("ccalc%s starts a session", w);
    }
    else if (m.help || m.version)
    {
        if (*r.err) mc_fail("ccalc%s reports: %.200s", w, r.err);
        else if (m.help && !m.version && !strstr(r.out, "Usage")) mc_fail("ccalc%s prints no help: %.200s", w, r.out);
        else if (m.version && !m.help && (strstr(r.out, "Usage") || !strstr(r.out, "ccalc"))) mc_fail("ccalc%s prints no version: %.200s", w, r.out);
        else if (!*r.out) mc_fail("ccalc%s prints nothing", w);
    }
    else if (!tty)
    {
        if (strcmp(r.out, m.out)) mc_fail("ccalc%s prints: %.300s expected: %.300s (stderr: %.200s)", w, r.out, m.out, err);
        else if ((m.status != 0) != (*err != 0)) mc_fail("ccalc%s: status %d, error output: %.200s", w, m.status, err);
        else if (m.failed >= 0 && !strstr(err, ref_printf("command %d", m.failed))) mc_fail("ccalc%s does not name command %d: %.200s", w, m.failed, err);
    }
    else
    {
        bool notice = strstr(r.out, "ABSOLUTELY NO WARRANTY") != NULL;
        if (notice != m.notice) mc_fail("ccalc%s on a terminal %s the notice", w, notice ? "prints" : "does not print");
    }
    ref_release(mk);
}
static void stdin_of(const int *s, int n, bool newline, char *out)
{
    *out = 0;
    for (int i = 0; i < n; i++) { strcat(out, LINE[s[i]]); if (i < n - 1 || newline) strcat(out, "\n"); }
}
/* argument lists of a given length starting with two given ones */
static void args(int depth, int a, int b, bool tty)
{
    const char *v[8];
    int i[8] = { 0 }, f = depth < 2 ? depth : 2;
    if (f > 0) v[0] = ARG[a];
    if (f > 1) v[1] = ARG[b];
    for (;;)
    {
        for (int k = f; k < depth; k++) v[k] = ARG[i[k]];
        check(depth, v, "9\n", tty);
        if (depth < 3) { check(depth, v, "1/0\nquit\n8", tty); check(depth, v, "", tty); }
        if (mc_failed()) return;
        int k = depth - 1;
        while (k >= f && ++i[k] == NA) i[k--] = 0;
        if (k < f) return;
    }
}
static void lines(int depth, int a, int b)
{
    static const char *V[][4] = { { 0 }, { "-i" }, { "-q" }, { "-i", "-c", "f=4" }, { "-i", "-c", "1/0" }, { "-c", "2" } };
    static const int VN[] = { 0, 1, 1, 3, 3, 2 };
    int s[8], i[8] = { 0 }, f = depth < 2 ? depth : 2;
    s[0] = a; s[1] = b;
    for (;;)
    {
        for (int k = f; k < depth; k++) s[k] = i[k];
        char in[200];
        for (int v = 0; v < 6; v++)
        {
            if (v > 3 && depth > 1) break;
            if (v > 1 && depth > 2) break;
            stdin_of(s, depth, true, in);
            check(VN[v], V[v], in, false);
            if (v == 0) { stdin_of(s, depth, false, in); check(0, V[0], in, false); }
        }
        if (mc_failed()) return;
        int k = depth - 1;
        while (k >= f && ++i[k] == NL) i[k--] = 0;
        if (k < f) return;
    }
}
/* many commands, many lines, the failing one anywhere */
#ifndef N
#define N(a) (int)(sizeof a / sizeof *a)
#endif
static void many(int kind, int n)
{
    static const char *V[] = { "1+1", "x+1", "# c", "ans+1", "load ok", "" };
    static const char *BADV[] = { "1/0", "load fails", "clear zz", "q=", "quit" };
    const char **v = ref_alloc(sizeof(char *) * (size_t)(n + 8));
    char *in = ref_alloc((size_t)n * 12 + 100), *w;
    int at[] = { -1, 0, n / 2, n - 1 };
    for (int a = 0; a < 4 && !mc_failed(); a++) for (int b = 0; b < (a ? N(BADV) : 1) && !mc_failed(); b++)
    {
        int c = 0;
        if (kind == 0)
        {
            /* commands */
            v[c++] = "-c";
            for (int i = 0; i < n; i++) v[c++] = i == at[a] ? BADV[b] : V[i % N(V)];
            check(c, v, "9\n", false);
            v[0] = "-i";
            v[1] = "-c";
            if (n > 1) check(c, v, "9\nquit\n", false);
        }
        else if (kind == 1)
        {
            /* lines */
            w = in;
            for (int i = 0; i < n; i++) w += sprintf(w, "%s\n", i == at[a] ? BADV[b] : V[i % N(V)]);
            check(0, v, in, false);
            w += sprintf(w, "quit");
            check(0, v, in, false);
            strcpy(w, "\n1/0\n");
            v[0] = "-q";
            check(1, v, in, false);
        }
        else
        {
            /* switches again and again, then one that is not known */
            for (int i = 0; i < n; i++) v[c++] = i % 2 ? "-q" : "-i";
            if (a) v[at[a]] = (const char *[]){ "-c", "-x", "--quie", "-h", "-v" }[b];
            check(c, v, "9\n1/0\n", false);
        }
    }
}
/* one command, one line, one argument of n characters */
static void wide(int n)
{
    char *s = ref_alloc((size_t)n + 20), *in = ref_alloc((size_t)n + 20);
    memset(s, '1', (size_t)n);
    for (int i = 1; i < n; i += 2) s[i] = '+';
    s[n] = 0;
    for (int k = 0; k < 2; k++)
    {
        strcpy(in, s);
        check(2, (const char *[]){ "-c", s }, "", false);
        check(3, (const char *[]){ "-c", s, "ans" }, "", false);
        check(0, NULL, in, false);
        strcat(in, "\n1/0\n");
        check(0, NULL, in, false);
        strcat(s, "1");
    }
    memset(s, 'x', (size_t)n);
    check(1, (const char *[]){ s }, "3\n", false);
    memcpy(s, "--", 2);
    check(2, (const char *[]){ "-i", s }, "3\n", false);
    memset(s, 'c', (size_t)n);
    s[0] = '-';
    check(2, (const char *[]){ s, "5" }, "3\n", false);
    memset(s, ' ', (size_t)n);
    s[0] = '#';
    check(2, (const char *[]){ "-c", s }, "", false);
    check(0, NULL, s, false);
}
/* what is found where the program looks for rules at startup */
static void startup(int k)
{
    #define HEAD "RULESET\nRULESET\nRULESET\nRULESET\n"
    #define TAIL "RULESET\nRULESET\nRULESET\n"
    static const struct { const char *rules; bool message; const char *xx; } S[] = {
        { NULL, true, "x+x\n" }, { HEAD "x+x -> 2*x\n" TAIL, false, "2*x\n" }, { "", true, "x+x\n" }, { HEAD "x+x -> 2*x\nx+\n" TAIL, true, "x+x\n" },
        { "# only\n\n" HEAD "x+x -> 3*x\n" TAIL, false, "3*x\n" }, { HEAD "x+x -> 3*x\n\n\nx*1 -> x\n" "RULESET\nRULESET\nRULESET", false, "3*x\n" } };
    if (S[k].rules) mc_write_file("simplification.ruleset", S[k].rules, strlen(S[k].rules));
    Run r = run(2, (const char *[]){ "-c", "x+x" }, "", false);
    unlink("simplification.ruleset");
    if (mc_failed()) return;
    mc_trace(1);
    if (strcmp(r.out, S[k].xx)) mc_fail("startup rules %d: x+x is answered with %s", k, r.out);
    if ((*r.err != 0) != S[k].message) mc_fail("startup rules %d: error output: %s", k, r.err);
    if (r.status) mc_fail("startup rules %d: status %d", k, r.status);
}
void mc_worker_init(void)
{
    mc_case_timeout = 120;
    rctx_arith(&rc);
    ref_keep();
    snprintf(exe, sizeof exe, "%s/ccalc-plain", getenv("MC_BUILD"));
    if (chdir(mc_scratch()) != 0) abort();
    mc_capture_begin();
    init_commands();                        /* only to print expressions */
    mc_capture_end();
    mc_write_file("fails", "5\n1/0\n6\n", 8);
    mc_write_file("ok", "# a\n\n7", 6);
    mc_write_file("quits", "4\nquit\n5\n", 9);
}
void mc_run(const char *key)
{
    ref_reset();
    char kind;
    int d, a, b;
    if (sscanf(key, "%c %d %d %d", &kind, &d, &a, &b) != 4) { mc_fail("bad key"); return; }
    if (kind == 'a') args(d, a, b, false);
    else if (kind == 't') args(d, a, b, true);
    else if (kind == 'l') lines(d, a, b);
    else if (kind == 'm') many(d, a);
    else if (kind == 'w') wide(d);
    else startup(d);
}
void mc_enumerate(int thorough)
{
    for (int k = 0; k < 6; k++) MC_CASE("s %d 0 0", k);
    MC_CASE("a 0 0 0");
    for (int k = 0; k < 3; k++) { for (int n = 4; n < 64; n += n > 16 ? 9 : 2) MC_CASE("m %d %d 0", k, n); MC_SIZES(n, 63, thorough ? 1025 : 257) MC_CASE("m %d %d 0", k, n); }
    for (int n = 3; n < 64; n += n > 16 ? 7 : 1) MC_CASE("w %d 0 0", n);
    MC_SIZES(n, 63, thorough ? 10001 : 4097) MC_CASE("w %d 0 0", n);
    MC_CASE("t 0 0 0");
    MC_CASE("l 0 0 0");
    for (int a = 0; a < NA; a++) { MC_CASE("a 1 %d 0", a); MC_CASE("t 1 %d 0", a); }
    for (int a = 0; a < NA; a++) for (int b = 0; b < NA; b++)
    {
        MC_CASE("a 2 %d %d", a, b);
        if (a < 10 && (thorough || b < 16)) MC_CASE("t 2 %d %d", a, b);
        bool sw = a < 10;                  /* after anything else nothing is looked at */
        if (sw && (thorough || a < 5)) MC_CASE("a 3 %d %d", a, b);
        if (thorough && a < 5 && (a == 4 || b < 5)) MC_CASE("a 4 %d %d", a, b);
    }
    for (int a = 0; a < NL; a++) MC_CASE("l 1 %d 0", a);
    for (int d = 2; d <= (thorough ? 4 : 3); d++) for (int a = 0; a < NL; a++) for (int b = 0; b < NL; b++) MC_CASE("l %d %d %d", d, a, b);
}
