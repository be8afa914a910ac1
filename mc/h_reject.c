/* C10: a session with a rejected line in it answers like the session without it. */
#include "refsess.h"

const char *mc_property = "C10";

/* what comes before: lines that mostly succeed */
static const char *SETUP[] = { "1+1", "3-5", "x+1", "f(x)=x^2+1", "f(x,y)=x-2y", "f=7", "g(x)=f(x)+x", "k=ans", "load simplification good", "load simplification other", "clear", "clear f" };
/* what may come between the rejected line and the probes */
static const char *NEXT[] = { "", "f(x)=3x", "f=1", "g(x)=f(x)*2", "q(x)=x", "5*5", "clear f", "clear", "load simplification good", "x=3", "load lines", "table x;1;2;1" };
static const char *PROBE[] = {
    "f", "f(2)", "f(2,3)", "g(4)", "k", "q", "q(2)", "x+x", "y+y", "x*1", "2*x+0", "ans", "@1", "@2", "sin(0)", "f(x)=x+1", "f(3)", "q(a,b)=a-b", "q(1,2)", "n=1", "n", "x",
    "clear n", "clear q", "clear g", "clear f", "clear k", "clear x", "f", "table f;1;1;1", "5 mod 3", "ln(1)", "2(3)" };
static const char *BAD[] = {
    /* expressions: syntax */
    "1+", "(1", "1)", "1,2", "$", "+", "f(", "f(1,", "sin", "sin()", "sin(1,2)", "#", "?", "1..2", "\x80", " ", "@", "(", "f(2)(", "x y (", "max",
    /* expressions: undefined */
    "1/0", "x+1/0", "ans/0", "0^0", "(-1)^0.5", "@99", "f(1/0)+1/0", "sqrt(-1)", "x*(1/0)", "deriv(2,3)", "(x+y)'", "deriv(ceil(x),x)", "@(0-1)", "g(1)/0", "1/(f(2)-f(2))", "@99+x", "f(x)/0",
    /* definitions */
    "=", "=5", "f=", "q=", "q(=1", "q(x=x", "q(x)x=3", "5=5", "q(1)=1", "q(x,x)=x", "q(x)=q(x)", "q=q", "q=q+1", "q(x)=y", "q=y", "q(x)=1/0", "q=0^0", "q(x)=x+", "q(x)=@99", "sin(x)=x", "pi=3",
    "f(x)=f(x)", "f(x)=1", "g=2", "q(x)=x=1", "q+1=2", "q(x)+1=x", "(q)=1", "+q=1", "q(sin(x))=1", "q(pi)=2", "q(a,b,c,d,e_,h,i,j,l,m,o)=a", "q(x)=(", "q(x)=g(x)/0", "q(x)=(x+y)'", "q(x,y)=x+y+z", "q (", "q(x) =",
    "k=k", "max(x)=1", "q==1", "x=x", "q(f)=1", "q(q)=1", "n(x)=n", "q(x)=x+q(1)", "q(g(x))=1", "q=f(1/0)+1/0", "f(x)=g(x", "q(x)=sin", "q(,)=1",
    /* clear */
    "clear h", "clear sin", "clear pi", "clear ", "clear  f", "clear f ", "clear f(x)", "clear +", "clear ans", "clear f g", "clearing",
    /* table */
    "table ", "table x", "table x;1;2", "table x;1;2;0", "table x;1;2;", "table ;1;2;1", "table x+y;1;2;1", "table x;y;2;1", "table x;1;y;1", "table x;1;2;y", "table 1/0;1;2;1", "table x;1/0;2;1", "table x;1;2;1;3;4;5",
    "table x;1;2;1 fold x", "table x;1;2;1 fold x+z;0", "table x;1;2;1 fold x+y;x", "table x;1;2;1 fold x+y;1/0", "table x;1;2;1 fold x+;1", "table (x;1;2;1", "table x;(1;2;1", "table x;1;2;1/0", "table x;0;1/0.0;1",
    "table x;1;10^18;0.001", "table x;1;2;1 fold 1/0;0", "table f(x;1;2;1", "table x=1;1;2;1", "table x;1;2;1 fold ; ", "table x;1;2;1 fold x+y;", "table x;1;10^20;1", "table x;1;2;1 fold 1/(y-1);5",
    /* load */
    "load ", "load nofile", "load simplification nofile", "load simplification ", "load simplification bad1", "load simplification bad2", "load simplification bad3", "load simplification bad4", "load failing", "load simplification .", "load simplification bad5" };
#define N(a) (int)(sizeof a / sizeof *a)

static bool inter;      /* the session is interactive */
static void begin(void) { ses_begin(false); set_interactive(inter); }
static char *acc; static size_t acc_n, acc_cap;
static void put(const char *s)
{
    size_t l = strlen(s) + 1;
    while (acc_n + l > acc_cap) acc = realloc(acc, acc_cap = acc_cap ? acc_cap * 2 : 4096);
    memcpy(acc + acc_n, s, l);
    acc_n += l - 1;
}
static void line(const char *s)
{
    bool ok = ses_line(s);
    put("> "); put(s); put(ok ? "\n" : " [refused]\n");
    put(mc_out); put(mc_err);
}
static void tail(int next)
{
    if (NEXT[next][0]) line(NEXT[next]);
    for (int i = 0; i < N(PROBE); i++) line(PROBE[i]);
    ses_end();
}
static const char *difference(const char *a, const char *b)
{
    /* the line at which they part */
    size_t i = 0, s = 0;
    while (a[i] && a[i] == b[i]) { if (a[i] == '\n' && a[i + 1] == '>') s = i + 1; i++; }
    return ref_printf("without it:\n%.300s\nwith it:\n%.300s", a + s, b + s);
}
/* every rejected line (twice, or followed by another one for pair >= 0) after the setup; setup elements are indices, 99 none */
static void run(int s0, int s1, int next, int pair)
{
    long live = mc_live_blocks();
    acc_n = 0;
    begin();
    if (s0 != 99) ses_line(SETUP[s0]);
    if (s1 != 99) ses_line(SETUP[s1]);
    tail(next);
    char *base = strdup(acc);
    for (int r = 0; r < N(BAD) && !mc_failed(); r++)
    {
        size_t mk = ref_mark();
        acc_n = 0;
        begin();
        if (s0 != 99) ses_line(SETUP[s0]);
        if (s1 != 99) ses_line(SETUP[s1]);
        if (!ses_line_ok && s1 != 99 && !strncmp(SETUP[s1], "load simp", 9)) mc_fail("'%s' fails: %s", SETUP[s1], mc_err);
        bool ok = ses_line(BAD[r]);
        if (!ok && pair >= 0) ok = ses_line(BAD[(r * 7 + pair * 13 + 5) % N(BAD)]);
        if (ok)
        {
            ses_end();
            mc_count(0, 1);
        }
        else
        {
            tail(next);
            mc_state(mc_hash_str(acc, 1));
            mc_trace(1);
            if (strcmp(acc, base))
                mc_fail("'%s'%s%s, refused after '%s', '%s', changes later answers; %s", BAD[r], pair >= 0 ? " and " : "", pair >= 0 ? BAD[(r * 7 + pair * 13 + 5) % N(BAD)] : "",
                        s0 == 99 ? "" : SETUP[s0], s1 == 99 ? "" : SETUP[s1], difference(base, acc));
        }
        ref_release(mk);
    }
    free(base);
    if (acc) { free(acc); acc = NULL; acc_n = acc_cap = 0; }
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
/* rejected lines again and again: each n times, or all of them in turn n times (r < 0) */
static void again(int s0, int r, int n)
{
    long live = mc_live_blocks();
    static bool refused[N(BAD)];
    acc_n = 0;
    begin();
    if (s0 != 99) ses_line(SETUP[s0]);
    tail(0);
    char *base = strdup(acc);
    for (int b = 0; b < N(BAD); b++)
    {
        if (r >= 0 && b != r) continue;
        begin();
        if (s0 != 99) ses_line(SETUP[s0]);
        refused[b] = !ses_line(BAD[b]);
        ses_end();
    }
    acc_n = 0;
    begin();
    if (s0 != 99) ses_line(SETUP[s0]);
    for (int k = 0; k < n && !mc_failed(); k++) for (int b = 0; b < N(BAD) && !mc_failed(); b++)
        if ((r < 0 || b == r) && refused[b] && ses_line(BAD[b]) && !mc_failed()) mc_fail("'%s' is accepted after rejected lines only (time %d)", BAD[b], k + 1);
    tail(0);
    mc_trace(1);
    if (!mc_failed() && strcmp(acc, base)) mc_fail("'%s', refused %d times, changes later answers; %s", r < 0 ? "all rejected lines" : BAD[r], n, difference(base, acc));
    free(base);
    if (acc) { free(acc); acc = NULL; acc_n = acc_cap = 0; }
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
static void file(const char *name, const char *text) { mc_write_file(name, text, strlen(text)); }
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    mc_counter_names[0] = "rejected_lines_accepted_there";
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
    #define HEAD "RULESET\nRULESET\n  x/y -> x*y^(-1)\nRULESET\nRULESET\n"
    #define TAIL "RULESET\nRULESET\nRULESET\n"
    file("good", HEAD "x+x -> 2*x\nx*1 -> x\n" TAIL);
    file("other", HEAD "x+x -> 3*x\ny*1 -> y\n" TAIL);
    file("bad1", HEAD "x+x -> 4*x\nx+ -> y\n" TAIL);
    file("bad2", HEAD "x+x -> 4*x\nx -> y\n" TAIL);
    file("bad3", "x+x -> 4*x\n");
    file("bad4", HEAD "x+x -> 5*x WHERE\nx*1 -> 9\n" TAIL);
    file("bad5", "RULESET\nx+x -> 5*x\nRULESET\nx*1 -> 9\nRULESET\nx+0 -> 7\n");
    file("lines", "4+4\nx+x\n");
    file("failing", "1/0\nq=\n\n# comment\nq(x)=q(x)\n");
}
void mc_run(const char *key)
{
    ref_reset();
    int s0, s1, n, p;
    inter = key[0] == 'i';
    if (inter) key++;
    if (sscanf(key, "r %d %d %d", &s0, &n, &p) == 3) { again(s0, n, p); return; }
    if (sscanf(key, "%d %d %d %d", &s0, &s1, &n, &p) != 4) { mc_fail("bad key"); return; }
    run(s0, s1, n, p);
}
void mc_enumerate(int thorough)
{
    static const int R[] = { 3, 9, 33, 65, 129, 257, 1025 }, S[] = { 99, 3, 7, 8 };
    for (int s = 0; s < N(S); s++) for (int b = -1; b < N(BAD); b++) for (int k = 0; k < (thorough ? 7 : b < 0 ? 4 : 5); k++) MC_CASE("r %d %d %d", S[s], b, R[k]);
    for (int k = 0; k < 3; k++) MC_CASE("ir %d %d %d", 3, -1, R[k]);
    for (int n = 0; n < N(NEXT); n++)
    {
        MC_CASE("99 99 %d -1", n);
        MC_CASE("i99 99 %d -1", n);
        for (int a = 0; a < N(SETUP); a++)
        {
            MC_CASE("99 %d %d -1", a, n);
            if (thorough || (a + n) % 3 == 0) MC_CASE("i99 %d %d -1", a, n);
            if (thorough || (a + n) % 3 == 1) MC_CASE("i99 %d %d %d", a, n, a % 8);
            for (int b = 0; b < N(SETUP); b++) if (thorough || (a * 5 + b + n) % 6 == 0 || n == 0) MC_CASE("%d %d %d -1", a, b, n);
            for (int p = 0; p < (thorough ? 8 : 1); p++) MC_CASE("99 %d %d %d", a, n, p);
        }
    }
}
