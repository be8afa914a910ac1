/*
 * C26: on a terminal an error is marked under the faulty place.  Every line is run twice: not interactive, which gives
 * the bare message, and interactive, where the same message must stand in one line with a marker that starts
 * at the column and has the length of the place the reference finds.
 */
#define _GNU_SOURCE
#include "refsess.h"
#include <unistd.h>

const char *mc_property = "C26";

/* ---- the place at fault in a line ---- */
#define MAXM 64
static struct { int col, len; const char *word; } mk[MAXM];
static int nmk;
static bool unmarked, accepted, anyplace;   /* an error without a place; no error; model leaves it open */
static void may(int col, int len, const char *word) { if (nmk < MAXM) { mk[nmk].col = col; mk[nmk].len = len; mk[nmk].word = word; nmk++; } }
static RCtx cx;

static void at_token(const char *text, int base, int tok, const char *word)
{
    char **t;
    int n = ref_tokenize(&cx, text, &t), col = base;
    for (int i = 0; i < tok && i < n; i++) col += (int)strlen(t[i]);
    may(col, tok < n ? (int)strlen(t[tok]) : 1, word);
}
/* definitions instantiated; nodes that come from a body are placed at the call in the line */
static RT *inst(const RT *b, int np, const char *const *names, RT **args, int tok)
{
    if (b->kind == 'v') { for (int i = 0; i < np; i++) if (!strcmp(names[i], b->name)) return args[i]; return (RT *)b; }
    if (b->kind != 'o') return (RT *)b;
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(b->n + 1));
    for (int i = 0; i < b->n; i++) ch[i] = inst(b->ch[i], np, names, args, tok);
    RT *r = rt_named(b->name, b->place, b->n, ch);
    r->tok = tok;
    return r;
}
static RT *expand(const RT *t)
{
    if (t->kind != 'o') return (RT *)t;
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(t->n + 1));
    for (int i = 0; i < t->n; i++) ch[i] = expand(t->ch[i]);
    int d = t->place == R_FUNCTION ? rs_find(t->name) : -1;
    if (d >= 0) return inst(rs.defs[d].body, rs.defs[d].np, rs.defs[d].params, ch, t->tok);
    RT *r = rt_named(t->name, t->place, t->n, ch);
    r->tok = t->tok;
    return r;
}
static bool faults(const RT *t, const char *text, int base)
{
    double v;
    if (t->kind != 'o') return false;
    bool f = false;
    for (int i = 0; i < t->n; i++) if (faults(t->ch[i], text, base)) f = true;
    if (f) return true;
    if (rt_count_vars(t, (const char *[4]){ 0 }, 4)) return false;
    RStatus st = ref_eval(t, &rs.hist, 0, NULL, NULL, &v);
    if (st == RV_OK) return false;
    at_token(text, base, t->tok, NULL);
    return true;
}
static void wrong_calls(const RT *t, const char *text, int base)
{
    if (t->kind != 'o') return;
    for (int i = 0; i < t->n; i++) wrong_calls(t->ch[i], text, base);
    const ROp *o = t->place == R_FUNCTION ? rctx_find(&cx, t->name, R_FUNCTION) : NULL;
    if (o && o->arity > 0 && o->arity != t->n) at_token(text, base, t->tok, "number of operands");
}
static RT *parse_at(const char *text, int base)
{
    RT *t = ref_parse(&cx, text);
    if (t) return t;
    at_token(text, base, ref_err_tok, ref_err_arity ? "number of operands" : NULL);
    if (ref_err_arity)
    {
        /* an error after it, or another such call, may be reported as well */
        RCtx *any = ref_alloc(sizeof *any);
        *any = cx;
        for (int j = 0; j < any->n; j++) if (any->ops[j].place == R_FUNCTION && any->ops[j].arity > 0) any->ops[j].arity = R_DYN;
        RT *u = ref_parse(any, text);
        if (!u) at_token(text, base, ref_err_tok, NULL);
        else wrong_calls(u, text, base);
    }
    return t;
}
/* an expression with its errors; NULL when there is one */
static RT *expr_at(const char *text, int base)
{
    RT *t = parse_at(text, base);
    if (!t) return NULL;
    t = expand(t);
    return faults(t, text, base) ? NULL : t;
}
static char *strip_(char *s, char *e) { while (s < e && *s == ' ') s++; while (e > s && e[-1] == ' ') e--; *e = 0; return s; }
static void model(const char *line)
{
    nmk = 0;
    unmarked = accepted = anyplace = false;
    cx = rs.ctx;
    char *l = ref_strdup(line), *p;
    if (!strncmp(line, "table ", 6))
    {
        char *a[6], *s = l + 6, *fold = NULL;
        int n = 0;
        while (n < 4)
        {
            char *e = n == 3 ? strstr(s, " fold ") : strchr(s, ';');
            if (!e) e = s + strlen(s);
            bool more = *e;
            if (n == 3 && more) fold = e + 6;
            a[n++] = strip_(s, e);
            if (!more || n == 4) break;
            s = e + 1;
        }
        if (fold)
        {
            char *e = strchr(fold, ';');
            if (!e) { unmarked = true; return; }
            a[4] = strip_(fold, e);
            a[5] = strip_(e + 1, e + 1 + strlen(e + 1));
            n = 6;
        }
        if (n != 4 && n != 6) { unmarked = true; return; }
        RT *t[6];
        /* several faulty arguments: any of them may be reported */
        for (int i = 0; i < n; i++) t[i] = expr_at(a[i], (int)(a[i] - l));
        const char *v[8];
        if (t[0] && rt_count_vars(t[0], v, 8) > 1) may((int)(a[0] - l), (int)strlen(a[0]), "variable");
        for (int i = 1; i < n; i++)
            if (i != 4 && t[i] && rt_count_vars(t[i], v, 8)) may((int)(a[i] - l), (int)strlen(a[i]), "constant");
        double d;
        if (t[3] && ref_eval(t[3], &rs.hist, 0, NULL, NULL, &d) == RV_OK && d == 0) may((int)(a[3] - l), (int)strlen(a[3]), "step");
        if (n == 6 && t[4])
        {
            int k = rt_count_vars(t[4], v, 8);
            for (int i = 0; i < k && i < 8; i++) if (strcmp(v[i], "x") && strcmp(v[i], "y")) { may((int)(a[4] - l), (int)strlen(a[4]), "variables"); break; }
        }
        if (nmk == 0) unmarked = true;   /* or accepted */
        return;
    }
    if ((p = strchr(l, '=')))
    {
        *p = 0;
        char **tok;
        int n = ref_tokenize(&cx, l, &tok), words = 0;
        const char *name = NULL;
        for (int i = 0; i < n; i++) if (tok[i][0] != ' ') { words++; if (!name) name = tok[i]; }
        int whole = (int)strlen(l);
        if (!name || !rs_lett(name[0])) { may(0, whole ? whole : 1, NULL); return; }
        if (rctx_find(&cx, name, R_FUNCTION)) { unmarked = true; return; }
        int idx = rctx_add(&cx, name, R_FUNCTION, words == 1 ? 0 : R_DYN, 255, true);
        RT *t = parse_at(l, 0);
        if (!t) return;
        bool wrong = t->kind != 'o' || t->place != R_FUNCTION || strcmp(t->name, name) || t->n > 10;
        for (int i = 0; !wrong && i < t->n; i++)
        {
            if (t->ch[i]->kind != 'v') wrong = true;
            for (int k = 0; !wrong && k < i; k++) if (!strcmp(t->ch[i]->name, t->ch[k]->name)) wrong = true;
        }
        if (t->kind == 'o' && t->place == R_FUNCTION && strcmp(t->name, name)) anyplace = true;
        if (wrong) { may(0, whole, NULL); return; }
        cx.ops[idx].arity = t->n;
        RT *r = parse_at(p + 1, (int)(p + 1 - l));
        if (!r) return;
        if (rs_has_op(r, name)) { unmarked = true; return; }
        faults(expand(r), p + 1, (int)(p + 1 - l));
        if (nmk == 0) unmarked = true;
        return;
    }
    if (!strncmp(line, "clear ", 6))
    {
        if (rctx_find(&cx, line + 6, R_FUNCTION)) unmarked = true;
        else may(6, line[6] ? (int)strlen(line + 6) : 1, "Unknown");
        return;
    }
    RT *t = expr_at(line, 0);
    if (!t) return;
    if (!rs_rules) { accepted = true; return; }
    /* undefined only after a transformation: one of the operators in the line */
    char **tk;
    int n = ref_tokenize(&cx, line, &tk);
    for (int i = 0; i < n; i++)
        if (rctx_find(&cx, tk[i], R_INFIX) || rctx_find(&cx, tk[i], R_PREFIX) || rctx_find(&cx, tk[i], R_POSTFIX) || rctx_find(&cx, tk[i], R_FUNCTION)) at_token(line, 0, i, NULL);
}

/* ---- running ---- */
static void setup(void);
static bool with_rules;
static void check(const char *line)
{
    size_t m0 = ref_mark();
    bool ok;
    set_interactive(false);
    ok = ses_line(line);
    if (mc_failed()) return;
    if (ok)
    {
        mc_count(0, 1);
        ref_release(m0);
        if (strchr(line, '=') || !strncmp(line, "clear", 5)) { ses_end(); setup(); }
        else
        {
            int n = ses_history_count();
            if (n > 64) { ses_end(); setup(); }
            else { rs.hist.n = n; for (int i = 0; i < n; i++) history_get((size_t)i, &rs.hist.v[n - 1 - i]); }
        }
        return;
    }
    char *msg = ref_strdup(mc_err);
    size_t n = strlen(msg);
    if (n == 0 || msg[n - 1] != '\n') { mc_fail("'%s': the message is no line: %s", line, msg); return; }
    msg[--n] = 0;
    if (strchr(msg, '^') || strchr(msg, '~')) { mc_fail("'%s' is marked without a terminal: %s", line, msg); return; }
    model(line);
    set_interactive(true);
    ses_line(line);
    set_interactive(false);
    if (mc_failed()) return;
    mc_trace(1);
    if (accepted) { mc_fail("'%s' is refused: %s", line, msg); return; }
    if (nmk == 0) { if (unmarked) mc_count(1, 1); ref_release(m0); return; }
    mc_count(2, 1);
    char *got = ref_strdup(mc_err);
    size_t g = strlen(got);
    if (g == 0 || got[g - 1] != '\n' || strchr(got, '\n') != got + g - 1) { mc_fail("'%s': the message is not one line:\n%s", line, mc_err); return; }
    got[--g] = 0;
    int col, len;
    char *rest;
    if (got[g - 1] == '^')
    {
        size_t s = g - 1;
        while (s > 0 && got[s - 1] == '~') s--;
        col = (int)s;
        len = (int)(g - s);
        if (s == 0 || got[s - 1] != ' ') { mc_fail("'%s': marker touches the message:\n%s", line, got); return; }
        got[s - 1] = 0;
        rest = got;
        while (*rest == ' ') rest++;
    }
    else
    {
        size_t s = strspn(got, " ");
        if (got[s] != '^') { mc_fail("'%s' is not marked:\n%s", line, got); return; }
        col = (int)s;
        len = 1 + (int)strspn(got + s + 1, "~");
        rest = got + s + len;
        if (*rest != ' ') { mc_fail("'%s': marker touches the message:\n%s", line, got); return; }
        rest++;
    }
    if (strcmp(rest, msg)) { mc_fail("'%s': the message is '%s' on a terminal, otherwise '%s'", line, rest, msg); return; }
    mc_state(mc_mix(mc_hash_str(msg, 1), (u64)(col * 64 + len)));
    if (anyplace) { ref_release(m0); return; }
    for (int i = 0; i < nmk; i++)
        if (mk[i].col == col && mk[i].len == len && (!mk[i].word || strstr(msg, mk[i].word))) { ref_release(m0); return; }
    mc_fail("'%s' is marked at column %d, length %d (%s); expected column %d, length %d%s%s", line, col, len, msg, mk[0].col, mk[0].len, nmk > 1 ? " or another" : "", mk[0].word ? mk[0].word : "");
}

/* ---- what is enumerated ---- */
#define N(a) (int)(sizeof a / sizeof *a)
static const char *T[] = { "1", "0", "x", "+", "/", "(", ")", ",", "-", "log", "sum", " ", "!", "^", "ff", "@", "kk", "$", "sqrt", "z" };
static const char *W[] = { "%s", "u(a)=%s", "uvw=%s", "%s=3", "u%s=2", "table %s;1;2;1", "table x;%s;2;1", "table x;1;%s;1", "table x;1;2;%s", "table x;1;2;1 fold %s;0", "table x;1;2;1 fold x;%s",
    "clear %s", "   %s", "table   2x +1 ; 1 ;   %s ; 2", "table x*2+x*2+x*2+x*2+x*2+x*2;1+1+1+1+1+1+1+1+1+1+1+1+1;%s;1", "table x*2+x*2+x*2+x*2+x*2+x*2;1+1+1+1+1+1+1+1+1;30+1+1+1+1+1;%s fold x+y+x+y+x+y;0",
    "table x*2+x*2+x*2+x*2+x*2+x*2;1+1+1+1+1+1+1+1+1;30+1+1+1+1+1;1+0+0+0+0+0+0+0+0+0+0+0 fold %s;0", "1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+%s", "longfunctionname(a)=1+a+a+a+a+a+a+a+a+a+a+a+%s",
    "ff(%s)+1", "log(2,%s)" };
/* %s at every column: one of every kind of error, names of every length */
static const char *E[] = { "1+*", ")", "1/0", "(1", "sum(,)", "sin", "log(3)", "ff(1,1)", "@9", "sqrt(0-1)", "1.2.3", "ff(0)", "kk/0", "gg(2,2)", "gg(ff(2),ff(3-3))", "hh(1)+gg(1,2)", "ä", "1=2=", "u(x)=1/0", "u(x,x)=1", "u(ff)=1", "uv=sum(", "table x;1;2;0", "table x*y;1;2;1",
    "table x;y;2;1", "table x;1/0;2;1", "table x;1;2;1 fold z;0", "table x;1;2;1 fold x;x", "table x+*;1;2;1", "clear abc", "clear abcdefghij" };

static void setup(void)
{
    rs_begin(with_rules);
    ses_begin(with_rules);
    const char *S[] = { "ff(a)=2/a", "gg(a,b)=ff(a-b)+1", "hh(a)=sqrt(0-a)", "kk=3", "5" };
    for (int i = 0; i < N(S); i++) rs_check(S[i]);
    /* names of every length */
    char name[24] = "", def[64];
    for (int i = 1; i <= 20; i++) { name[i - 1] = 'q'; name[i] = 0; snprintf(def, sizeof def, "%s(a)=1/a", name); rs_check(def); }
}
static char buf[4000];
static void wrapped(int w, const char *s) 
{
    if (strchr(s, '@') && strstr(W[w], " fold ")) return;    /* the history grows with each: no huge tables */
    snprintf(buf, sizeof buf, W[w], s);
    check(buf);
}
static void strings(int w, int depth, char *s, bool cut)
{
    if (mc_failed()) return;
    wrapped(w, s);
    if (depth == 0) return;
    size_t l = strlen(s);
    for (int i = 0; i < N(T) && !mc_failed(); i++)
    {
        if (cut && (!strcmp(T[i], "!") || (!strcmp(T[i], "@") && strstr(W[w], " fold ")))) continue;    /* no huge tables */
        if (w > 1 && !strcmp(T[i], "^")) continue;
        strcpy(s + l, T[i]);
        strings(w, depth - 1, s, cut);
    }
    s[l] = 0;
}
static void columns(int e)
{
    char line[4000];
    for (int pad = 0; pad <= 130 && !mc_failed(); pad++)
    {
        snprintf(line, sizeof line, "%*s%s", pad, "", E[e]);
        if (strncmp(E[e], "table", 5) && strncmp(E[e], "clear", 5)) check(line);
        else
        {
            /* blanks after the command word and in the arguments */
            char *sp = strchr(E[e], ' ');
            snprintf(line, sizeof line, "%.*s%*s%s", (int)(sp - E[e]) + 1, E[e], pad, "", sp + 1);
            if (E[e][0] == 't' || pad == 0) check(line);
            for (char *c = strchr(E[e], ';'); c; c = strchr(c + 1, ';'))
            {
                snprintf(line, sizeof line, "%.*s%*s%s", (int)(c - E[e]) + 1, E[e], pad, "", c + 1);
                check(line);
                snprintf(line, sizeof line, "%.*s%*s%s", (int)(c - E[e]), E[e], pad, "", c);
                check(line);
            }
        }
        if (!strchr(E[e], ' ') && !strchr(E[e], '='))
        {
            snprintf(line, sizeof line, "u(x)=%*s%s", pad, "", E[e]);
            check(line);
            snprintf(line, sizeof line, "table x;1;2;%*s%s fold x;1", pad, "", E[e]);
            check(line);
            /* operands in front */
            line[0] = 0;
            for (int i = 0; i < pad; i++) strcat(line, i % 2 ? "+" : "1");
            if (pad % 2 == 0) { strcat(line, E[e]); check(line); }
        }
    }
    /* names of every length with the wrong number of operands, with no operands, dividing by zero */
    if (e == 0)
        for (int i = 1; i <= 20 && !mc_failed(); i++)
        {
            char name[24];
            memset(name, 'q', (size_t)i);
            name[i] = 0;
            static const char *F[] = { "%s(1,2)", "1+%s()", "%s(0)", "12+%s(1-1)+5", "2*(%s)", "1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+%s(0)", "table x;%s(0);1;1", "table %s(x;1;2;1", "table x;1;%s;1", "clear w%s", "w%s(x,x)=2", "w%s(1)=2", "w%s(x=2", "w(x)=%s(0)" };
            for (int k = 0; k < N(F); k++) { snprintf(line, sizeof line, F[k], name); check(line); }
        }
}
/* a fault far to the right, and one that is long */
static void far_(int e, int n)
{
    char *line = ref_alloc((size_t)n * 2 + 5000), *o;
    const char *t = E[e];
    bool plain = !strchr(t, ' ') && !strchr(t, '=');
    /* blanks in front */
    sprintf(line, "%*s%s", n, "", t);
    if (strncmp(t, "table", 5) && strncmp(t, "clear", 5)) check(line);
    else
    {
        char *sp = strchr(t, ' ');
        sprintf(line, "%.*s%*s%s", (int)(sp - t) + 1, t, n, "", sp + 1);
        if (t[0] == 't') check(line);
        for (char *c = strchr(t, ';'); c && !mc_failed(); c = strchr(c + 1, ';'))
        {
            sprintf(line, "%.*s%*s%s", (int)(c - t) + 1, t, n, "", c + 1);
            check(line);
        }
    }
    if (plain)
    {
        /* a chain of operands in front, in every kind of line */
        static const char *H[] = { "", "u(x)=", "table ", "table x;", "table x;1;", "table x;1;2;" };
        static const char *G[] = { "", "", ";1;2;1", ";2;1", ";1", "" };
        for (int h = 0; h < N(H) && !mc_failed(); h++)
        {
            o = line + sprintf(line, "%s", H[h]);
            for (int i = 0; i < n / 2; i++) o += sprintf(o, "1+");
            sprintf(o, "%s%s", t, G[h]);
            check(line);
            o = line + sprintf(line, "%s%*s", H[h], n, "");
            sprintf(o, "%s%s", t, G[h]);
            check(line);
        }
    }
    if (e > 0 || mc_failed()) return;
    /* long names: called wrongly, used for an operand that is missing, cleared without being defined */
    char *name = ref_alloc((size_t)n + 1), *def = ref_alloc((size_t)n + 40);
    memset(name, 'w', (size_t)n);
    name[n] = 0;
    static const char *D[] = { "%s(a)=1/a" };
    sprintf(def, D[0], name);
    rs_check(def);
    static const char *F[] = { "%s(1,2)", "1+%s()", "%s(0)", "2*(%s)", "table x;%s(0);1;1", "table x;1;%s;1", "clear v%s", "v%s(x,x)=2", "v%s(1)=2", "w(x)=%s(0)", "%s(1)+*", "v%s+*" };
    for (int k = 0; k < N(F) && !mc_failed(); k++) { sprintf(line, F[k], name); check(line); if (strchr(line, '=') || !strncmp(line, "clear", 5)) rs_check(def); }
}
/* trees over user functions, printed with blanks */
static const TSym TS[] = { { 'a', 'n', .num = 0 }, { 'b', 'n', .num = 1 }, { 'c', 'v', "x" }, { 'd', 'o', "kk", R_FUNCTION, 0 }, { 'e', 'o', "+", R_INFIX, 2 }, { 'f', 'o', "/", R_INFIX, 2 }, { 'g', 'o', "ff", R_FUNCTION, 1 },
    { 'h', 'o', "gg", R_FUNCTION, 2 }, { 'i', 'o', "hh", R_FUNCTION, 1 }, { 'j', 'o', "log", R_FUNCTION, 2 }, { 'k', 'o', "@", R_PREFIX, 1 }, { 'l', 'o', "-", R_INFIX, 2 } };
static void print_(const RT *t, char *o, int *blank)
{
    #define B do { if ((*blank)++ % 3 == 0) strcat(o, " "); } while (0)
    if (t->kind == 'n') { sprintf(o + strlen(o), "%g", t->num); return; }
    if (t->kind == 'v') { strcat(o, t->name); return; }
    if (t->place == R_INFIX)
    {
        strcat(o, "("); print_(t->ch[0], o, blank); B; strcat(o, t->name); B; print_(t->ch[1], o, blank); strcat(o, ")");
        return;
    }
    strcat(o, t->name);
    if (t->place == R_PREFIX) { B; strcat(o, "("); print_(t->ch[0], o, blank); strcat(o, ")"); return; }
    if (t->n == 0) { strcat(o, " "); return; }
    B; strcat(o, "(");
    for (int i = 0; i < t->n; i++) { if (i) { strcat(o, ","); B; } print_(t->ch[i], o, blank); }
    strcat(o, ")");
}
static char tree_first;
static int tree_w, tree_k, tree_n, tree_i;
static void on_tree(const char *code)
{
    if (code[0] != tree_first || mc_failed() || tree_i++ % tree_n != tree_k) return;
    size_t m0 = ref_mark();
    RT *t = tsym_decode(TS, N(TS), code);
    char s[2000] = "";
    int blank = (int)(mc_hash_str(code, 5) % 3);
    print_(t, s, &blank);
    ref_release(m0);
    wrapped(tree_w, s);
}
void mc_worker_init(void)
{
    mc_case_timeout = 200;
    mc_counter_names[0] = "accepted";
    mc_counter_names[1] = "without_place";
    mc_counter_names[2] = "marked";
    rctx_arith(&rc);
    ref_keep();
    if (chdir(mc_scratch()) != 0) abort();
}
void mc_run(const char *key)
{
    ref_reset();
    long live = mc_live_blocks();
    int w, d, a, b;
    with_rules = key[0] == 'r';
    setup();
    if (sscanf(key, "s %d %d %d %d", &w, &d, &a, &b) == 4)
    {
        char s[200];
        snprintf(s, sizeof s, "%s%s", T[a], b < 0 ? "" : T[b]);
        bool cut = strstr(W[w], "table") != NULL;
        if (!(cut && (strchr(s, '!') || (strchr(s, '@') && strstr(W[w], " fold ")))) && !(w > 1 && strchr(s, '^'))) strings(w, d, s, cut);
    }
    else if (sscanf(key, "e %d", &w) == 1) columns(w);
    else if (sscanf(key, "l %d %d", &w, &d) == 2) far_(w, d);
    else if (sscanf(key + 1, " %d %d %c %d %d", &w, &d, &tree_first, &tree_k, &tree_n) == 5) { tree_w = w; tsym_enum(TS, N(TS), d, false, 0, on_tree); }
    else mc_fail("bad key");
    set_interactive(false);
    ses_end();
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
void mc_enumerate(int thorough)
{
    for (int a = 0; a < N(T); a++)
        for (int b = -1; b < N(T); b++)
            for (int w = 0; w < N(W); w++)
            {
                if (w == 0 ? b < 0 : b >= 0 && !thorough) continue;
                MC_CASE("s %d %d %d %d", w, w == 0 ? (thorough ? 3 : 2) : b < 0 ? 1 : 2, a, b);
            }
    for (int e = 0; e < N(E); e++) MC_CASE("e %d", e);
    for (int e = 0; e < N(E); e++) MC_SIZES(n, 100, thorough ? 4097 : 1025) MC_CASE("l %d %d", e, n);
    for (int i = 0; i < N(TS); i++)
    {
        int n = thorough ? 16 : 1;
        for (int k = 0; k < n; k++)
        {
            MC_CASE("t 0 %d %c %d %d", thorough ? 3 : 2, TS[i].code, k, n);
            if (k % 4 == 0) MC_CASE("r 0 %d %c %d %d", thorough ? 3 : 2, TS[i].code, k, n);
        }
        for (int w = 1; w < N(W); w++) if (w != 3 && w != 4 && w != 11) MC_CASE("t %d %d %c 0 1", w, thorough ? 2 : 1, TS[i].code);
    }
}
