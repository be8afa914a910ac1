/* C15: hostile lines, alone and in sequences, under the address sanitizer; the heap is empty after every session. */
#include "session.h"
#include "ref.h"

const char *mc_property = "C15";

/* byte alphabets */
static const char *BY[] = {
    "1x(),+-*!@$'=; f.%^e#", "1x(),-@$'=;\x80", "f(x)=1-+,", "1.2e+-()", "@!'%$-1x", "table x;1 fold", "[x],_$=(1", "\t\r\x7f\xff\x01 1x+" };
/* hostile lines; G marks generated ones */
static const char *LI[] = {
    "", " ", "=", "==", "f=", "=f", "f(x)=", "f(x=1", "f()=1", "f(x)=f(x)", "f(x)=x", "f(x,y)=y/x", "f=1", "g(x)=f(x)", "g(x)=f(f(x))", "g=f", "f(f)=1", "x(x)=x", "clear", "clear f", "clear ", "clear", "clearf",
    "f", "f(", "f()", "f(1", "f(1)", "f(1,2)", "f(1,2,3)", "f(g(1))", "g(f)", "f f", "f(x)", "g(y)", "x", "ans", "@", "@0", "@1", "@x", "@(0-1)", "@(1/2)", "@10^300", "@(2^1024)", "@ans", "@@0", "@f", "@-1", "@1.5",
    "1/0", "0^0", "0/0", "(-1)^0.5", "2^1024", "-(2^1024)", "2^1024-2^1024", "(2^1024)!", "fib(10^300)", "fib(0-10)", "10^300C10^299", "5C(0-2)", "rand(5,1)", "rand(0,10^300)", "rand(ans,ans)", "(0-3)!", "1.5!", "171!",
    "gamma(0)", "log(5,1)", "log(0,0)", "root(2,0)", "lcm(0,0)", "gcd(2^1024,3)", "max()", "min()", "avg()", "var()", "sum()", "prod()", "max(1)", "sum(x)", "sum(x,1/0)", "5mod 0", "x mod 0", "ln(0)", "tan(pi/2)", "asin(2)",
    "deriv(x,x)", "deriv(x,y)", "deriv(5,x)", "deriv(x,5)", "deriv(x!,x)", "deriv(f(x),x)", "(x^x)'", "(x+y)'", "5'", "x''", "deriv(deriv(x^2,x),x)", "deriv(g,g)", "x'=1", "sin(x)'", "(1/0)'", "deriv(x^y,x)", "@x'", "(ans*x)'",
    "table ", "table x", "table x;1;3;1", "table x;3;1;1", "table x;1;3;0", "table 1/x;0-1;1;1", "table f(x);0;1;0.5", "table y;1;2;1 fold x+y;0", "table x;1;2;1 fold x/0;0", "table x;1;2;1 fold y/x;0", "table x;;;", "table ;;;",
    "table x;1;2;1 fold ;", "table x;1;2;1 fold", "table f;1;2;1", "table x+y;1;2;1", "table ans;1;2;1 fold ans;ans", "table x;1;2;1;", "table x;1;1/0;1", "table x;2^1024;1;1", "table g(x;1;2;1", "table x;1;2;1 fold x;1;1", "table x=1;1;2;1",
    "table x;1;2;1 fold (x;0", "table table x;1;2;1", "table x fold y;1;2;1 fold x fold y;1", "load ", "load nofile", "load .", "load simplification ", "load simplification nofile", "load simplification .", "load lines", "load bytes",
    "load simplification bytes", "load simplification rules", "load simplification lines", "help", "help operators", "help x", "helpx", "license", "license x", "#", "# comment", " #", "%s%s%n", "%", "%%", "x%%", "f(%s)=1", "clear %n", "load %n%s", "table %n;%s;1;1",
    "$", "$$", "$$1", "$x+", "1$2", "2x y", "x(1)(2)", "(((", ")))", "()", "(,)", ",", "1,2", "{1}", "(1}", "{x)(y}", "x=y=z", "a b=1", "f x=1", "f(x)y=1", "(f)=1", "f(1)=2", "f(x,x)=1", "f(x+1)=1", "sin=1", "sin(x)=1", "pi=3", "C=1", "C(x)=x", "5C", "mod=2",
    "mod(x)=x", "x mod", "f(x)=x mod", "e(x)=x", "ans=1", "ans()=1", "ans(x)=x", "x_y=1", "[x]=1", "[x]", "x[", "f([x])=1", "f([x],y)=y", "\x80", "\xff\xfe", "a\x80=1", "\x80(x)=1", "1\t+\t2", "\x01", "\x1b[0m", "f(a,b,c,d,g,h,i,j,k,l)=a", "f(a,b,c,d,g,h,i,j,k,l,m)=a",
    "f(1,2,3,4,5,6,7,8,9,10)", "quit ", " quit", "quit x", "0x10", "1e5", "1.2.3", ".", "..", "1.", ".5", "-", "--", "---1", "+-+-1", "!", "!!", "3!!", "3!!!", "-3!", "2^3^2", "2^-3", "-2^2", "''", "x'y'", "%!", "5%%", "5!%" };
#define NLI (int)(sizeof LI / sizeof *LI)
#define NBY (int)(sizeof BY / sizeof *BY)

static char *buf;                          /* generated lines */
static const size_t CAP = 1 << 18;
static void rep(const char *s, int n) { size_t l = strlen(buf), k = strlen(s); while (n-- > 0 && l + k + 1 < CAP) { memcpy(buf + l, s, k + 1); l += k; } }
static void vars(const char *sep, int n) { for (int i = 0; i < n && i < 700; i++) { char v[16]; snprintf(v, sizeof v, i < 26 ? "%s%c" : "%s%c%c", i ? sep : "", 'a' + i % 26, 'a' + i / 26 % 26); rep(v, 1); } }
/* shape k repeated n times */
#define NSHAPES 49
static const char *shape(int k, int n)
{
    *buf = 0;
    switch (k)
    {
        case 0: rep("(", n); rep("x", 1); rep(")", n); break;
        case 1: rep("(", n); break;
        case 2: rep("-", n); rep("x", 1); break;
        case 3: rep("1+", n); rep("1", 1); break;
        case 4: rep("x*", n); rep("x", 1); break;
        case 5: rep("2^", n); rep("1", 1); break;
        case 6: rep("sin(", n); rep("x", 1); rep(")", n); break;
        case 7: rep("$", n); rep("1", 1); break;
        case 8: rep("x", n); break;
        case 9: rep("x", n); rep("=1", 1); break;
        case 10: rep("x", n); rep("(y)=y", 1); break;
        case 11: rep("f(", 1); rep("x", n); rep(")=1", 1); break;
        case 12: rep("9", n); break;
        case 13: rep("1.", 1); rep("9", n); break;
        case 14: rep(")", n); break;
        case 15: rep("sum(", 1); rep("1,", n); rep("1)", 1); break;
        case 16: rep("max(", 1); rep("x,", n); rep("2)", 1); break;
        case 17: rep("x", 1); rep("!", n); break;
        case 18: rep("clear ", 1); rep("x", n); break;
        case 19: rep("load ", 1); rep("x", n); break;
        case 20: rep("table ", 1); rep("x", n); rep(";1;2;1", 1); break;
        case 21: rep("table 1", 1); rep("+1", n); rep(";1;2;1", 1); break;
        case 22: rep("table x;1;", 1); rep("1", n % 4); rep(";0.5", 1); break;
        case 23: rep(" ", n); break;
        case 24: rep("1", 1); rep(" ", n); rep("+", 1); break;
        case 25: rep("x ", n); break;
        case 26: rep("f(", 1); for (int i = 0; i < n && i < 2000; i++) { char v[16]; snprintf(v, sizeof v, "%s%c%c", i ? "," : "", 'a' + i % 26, 'a' + i / 26 % 26); rep(v, 1); } rep(")=1", 1); break;
        case 27: rep("(x)", n); break;
        case 28: rep("=", n); break;
        case 29: rep(";", n); break;
        case 30: rep("table ", 1); rep(";", n); break;
        case 31: rep("f(x)=x", 1); rep("+x", n); break;
        case 32: rep("x", 1); rep("'", n % 4); break;
        case 33: rep("\x80", n); break;
        case 34: rep("@", n); rep("0", 1); break;
        case 35: rep("load simplification ", 1); rep("y", n); break;
        case 36: rep("f(", n); rep("1", 1); rep(")", n); break;
        case 37: rep("(2-", n); rep("x", 1); rep(")", n); break;
        case 38: rep("#", n); break;
        case 39: rep("a,", n); break;
        /* n different variables */
        case 40: rep("(", 1); vars("*", n); rep(")'", 1); break;
        case 41: rep("(", 1); vars("+", n); rep(")'", 1); break;
        case 42: vars(" ", n); rep("'", 1); break;
        case 43: rep("sum(", 1); vars(",", n); rep(")", 1); break;
        case 44: rep("deriv(", 1); vars("+", n); rep(",a)", 1); break;
        case 45: rep("deriv(2,", 1); vars("*", n); rep(")", 1); break;
        case 46: vars("^", n < 6 ? n : 5); break;
        case 47: rep("table ", 1); vars("+", n); rep(";1;2;1", 1); break;
        case 48: rep("max(", 1); vars("+", n); rep(",", 1); vars("*", n); rep(")'", 1); break;
    }
    return buf;
}
/* expressions, fully parenthesised */
static const TSym ES[] = { { 'x', 'v', "x" }, { 'y', 'v', "y" }, { 'z', 'v', "z" }, { '2', 'n', 0, 0, 0, 2 }, { '0', 'n', 0, 0, 0, 0 },
    { '+', 'o', "+", R_INFIX, 2 }, { '*', 'o', "*", R_INFIX, 2 }, { '/', 'o', "/", R_INFIX, 2 }, { '^', 'o', "^", R_INFIX, 2 }, { '-', 'o', "-", R_INFIX, 2 }, { 'm', 'o', "-", R_PREFIX, 1 },
    { '\'', 'o', "'", R_POSTFIX, 1 }, { 'd', 'o', "deriv", R_FUNCTION, 2 }, { 's', 'o', "sin", R_FUNCTION, 1 }, { 'S', 'o', "sum", R_FUNCTION, 3 }, { 'P', 'o', "prod", R_FUNCTION, 0 }, { 'M', 'o', "max", R_FUNCTION, 2 } };
#define NES ((int)(sizeof ES / sizeof *ES))
static void write_tree(const RT *t)
{
    char v[32];
    if (t->kind == 'n') { snprintf(v, sizeof v, "%g", t->num); rep(v, 1); return; }
    if (t->kind == 'v') { rep(t->name, 1); return; }
    rep("(", 1);
    if (t->place == R_PREFIX || t->place == R_FUNCTION) rep(t->name, 1);
    if (t->place == R_FUNCTION) rep("(", 1);
    for (int i = 0; i < t->n; i++)
    {
        if (i) rep(t->place == R_FUNCTION ? "," : t->name, 1);
        write_tree(t->ch[i]);
    }
    if (t->place == R_FUNCTION) rep(")", 1);
    if (t->place == R_POSTFIX) rep(t->name, 1);
    rep(")", 1);
}
static char block[400];
static int nblock;
static char bmode = 'r';
static void flush_block(void) { if (nblock) MC_CASE("%ct 0 0 0 %s", bmode, block); nblock = 0; block[0] = 0; }
static void emit_tree(const char *code)
{
    strcat(block, nblock ? " " : "");
    strcat(block, code);
    if (++nblock == 40 || strlen(block) > 300) flush_block();
}
static bool rules, inter;
static void begin(void) { ses_begin(rules); set_interactive(inter); }
static void say(const char *s)
{
    if (mc_failed()) return;
    mc_context("at '%.200s'", s);
    ses_line(s);
    if (!mc_failed()) { mc_state(mc_hash_str(mc_out, mc_hash_str(mc_err, ses_line_ok))); mc_trace(1); }
}
static void end(void) { set_interactive(false); ses_end(); }

void mc_worker_init(void)
{
    mc_case_timeout = 40;
    buf = malloc(CAP);
    if (chdir(mc_scratch()) != 0) abort();
    { static const char T[] = "f(x)=x\n1/0\n\n#\nf(2)\nload nofile\ntable x;1;2;1\nclear"; mc_write_file("lines", T, sizeof T - 1); }
    { static const char T[] = "\0\xff(\n\n\x80=\n1\0+\n=\n"; mc_write_file("bytes", T, sizeof T - 1); }
    { static const char T[] = "RULESET\nRULESET\nRULESET\nRULESET\nx+x -> 2*x\nRULESET\nRULESET\nRULESET\n"; mc_write_file("rules", T, sizeof T - 1); }
}
/* key: mode kind ... */
void mc_run(const char *key)
{
    char mode, kind;
    int a, b, c, n;
    if ((n = sscanf(key, "%c%c %d %d %d", &mode, &kind, &a, &b, &c)) != 5) { mc_fail("bad key"); return; }
    rules = mode == 'r';
    inter = mode == 'i';
    long live = mc_live_blocks();
    if (kind == 'b')                        /* alphabet a, length b, first character c; the session is renewed for every second character */
    {
        const char *al = BY[a];
        int na = (int)strlen(al), i[8] = { 0 };
        char s[9] = { 0 };
        i[0] = c;
        begin();
        for (;;)
        {
            for (int k = 0; k < b; k++) s[k] = al[i[k]];
            if (strcmp(s, "quit")) say(s);
            if (mc_failed()) break;
            int k = b - 1;
            while (k >= 1 && ++i[k] == na) i[k--] = 0;
            if (k < 1) break;
            if (k == 1) { end(); if (mc_live_blocks() != live) { mc_fail("%ld heap blocks left", mc_live_blocks() - live); begin(); break; } begin(); }
        }
        end();
    }
    else if (kind == 'l')                   /* lines a, b, then every third when c */
    {
        for (int k = 0; k < (c ? NLI : 1) && !mc_failed(); k++)
        {
            if (c > 1 && (a + b + k) % c) continue;
            begin();
            say(LI[a]);
            if (b >= 0) say(LI[b]);
            if (c) say(LI[k]);
            end();
            if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after '%s', '%s', '%s'", mc_live_blocks() - live, LI[a], b >= 0 ? LI[b] : "", c ? LI[k] : "");
        }
    }
    else if (kind == 's')                   /* shape a of size b, then the line again, and a definition with it */
    {
        begin();
        say("f(x)=x+1");
        say(shape(a, b));
        say(shape(a, b));
        say("clear");
        say(shape(a, b));
        say("f(2)");
        end();
    }
    else if (kind == 'e')                   /* embedded: line a with its k-th character removed, doubled or replaced */
    {
        const char *s = LI[a];
        size_t l = strlen(s);
        static const char X[] = "(),=;1x-\x80";
        for (size_t k = 0; k < l && !mc_failed(); k++)
        {
            begin();
            say("f(x)=x+1");
            for (int v = 0; v < 2 + (int)strlen(X); v++)
            {
                memcpy(buf, s, k);
                if (v == 0) strcpy(buf + k, s + k + 1);
                else if (v == 1) strcpy(buf + k, s + k), memmove(buf + k + 1, s + k, l - k + 1);
                else { strcpy(buf + k, s + k); buf[k] = X[v - 2]; }
                if (strcmp(buf, "quit")) say(buf);
            }
            end();
        }
    }
    else if (kind == 't')                   /* expressions, as result and as body of a definition */
    {
        char codes[512];
        int off = 0;
        sscanf(key, "%*c%*c %*d %*d %*d %n", &off);
        snprintf(codes, sizeof codes, "%s", key + off);
        begin();
        ref_keep();
        for (char *c1 = strtok(codes, " "); c1 && !mc_failed(); c1 = strtok(NULL, " "))
        {
            size_t mk = ref_mark();
            RT *t = tsym_decode(ES, NES, c1);
            if (!t) abort();
            *buf = 0;
            write_tree(t);
            say(buf);
            memmove(buf + 4, buf, strlen(buf) + 1);
            memcpy(buf, "f(x)", 4);
            memmove(buf + 5, buf + 4, strlen(buf + 4) + 1);
            buf[4] = '=';
            say(buf);
            ref_release(mk);
        }
        say("clear");
        end();
    }
    mc_context("%s", "");
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left after the session", mc_live_blocks() - live);
}
void mc_enumerate(int thorough)
{
    static const char M[] = "pir";
    static const int QL[NBY] = { 3, 4, 5, 5, 4, 4, 5, 4 };
    static const int SZ[] = { 0, 1, 2, 3, 5, 9, 10, 11, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097 };
    for (int m = 0; m < 3; m++)
    {
        for (int a = 0; a < NBY; a++) for (int l = 1; l <= QL[a] + thorough - (m == 2 ? 1 : 0) - (m == 1 ? 1 : 0); l++) for (int c = 0; c < (int)strlen(BY[a]); c++) MC_CASE("%cb %d %d %d", M[m], a, l, c);
        for (int a = 0; a < NLI; a++)
        {
            MC_CASE("%cl %d -1 0", M[m], a);
            if (m < 2 || thorough) for (int b = 0; b < NLI; b++)
            {
                if (m == 0 && thorough) MC_CASE("%cl %d %d 7", M[m], a, b);
                else if (m == 0 || (a + b) % 4 == 0 || thorough) MC_CASE("%cl %d %d 0", M[m], a, b);
            }
            if (!strstr(LI[a], "2^1024;")) MC_CASE("%ce %d 0 0", M[m], a);      /* one character less asks for 2^24 rows */
        }
        bmode = M[m];
        tsym_enum(ES, NES, 1, false, 0, emit_tree);
        if (thorough) for (int i = 0; i < 3; i++) tsym_enum(ES, NES, m == 2 ? 3 : 2, true, i, emit_tree);
        else if (m == 2) tsym_enum(ES, NES, 2, true, 0, emit_tree);
        if (thorough) tsym_enum(ES, NES, 2, false, 0, emit_tree);
        flush_block();
        for (int k = 0; k < NSHAPES; k++) for (int s = 0; s < (int)(sizeof SZ / sizeof *SZ); s++)
        {
            if (m == 2 && SZ[s] > (thorough ? 33 : k >= 40 ? 11 : 20)) break;
            if (!thorough && SZ[s] > 1025) break;
            MC_CASE("%cs %d %d 0", M[m], k, SZ[s]);
        }
    }
}
