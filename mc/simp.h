/* Enumeration of expressions with variables, and comparison of values; used by C06, C07, C08. */
#pragma once
#include <ctype.h>
#include "session.h"
#include "engine/tree/tree_util.h"
#include "engine/tree/tree_to_string.h"

#define NSYMTAB 8
static TSym stab[NSYMTAB][60];
static int nstab[NSYMTAB];
static RCtx rc;
static void sput(int t, char kind, const char *name, RPlace place, int arity, double num)
{
    static const char codes[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    stab[t][nstab[t]] = (TSym){ codes[nstab[t]], kind, name, place, arity, num };
    nstab[t]++;
}
static void sv(int t, const char *n) { sput(t, 'v', n, 0, 0, 0); }
static void sn(int t, double v) { sput(t, 'n', 0, 0, 0, v); }
static void si(int t, const char *ops) { for (; *ops; ops++) { char *s = malloc(2); s[0] = *ops; s[1] = 0; sput(t, 'o', s, R_INFIX, 2, 0); } }
static void sf(int t, const char *n, int arity) { sput(t, 'o', n, R_FUNCTION, arity, 0); }
static void sp(int t, const char *n) { sput(t, 'o', n, R_PREFIX, 1, 0); }
static void spost(int t, const char *n) { sput(t, 'o', n, R_POSTFIX, 1, 0); }

/* points: positive values of x, y, z */
#define NPTS 8
static const double PTS[NPTS][3] = { { 2, 3, 5 }, { 0.75, 1.5, 0.25 }, { 1, 1, 1 }, { 3.5, 0.3, 2.2 }, { 0.4, 4, 1.3 }, { 5, 2, 0.6 }, { 1.9, 1.9, 3.1 }, { 7.3, 2.6, 0.9 } };
static const char *VARS[] = { "x", "y", "z" };

static bool dyadic(const RT *t, const double *p)
{
    double v;
    for (int i = 0; i < t->n; i++) if (!dyadic(t->ch[i], p)) return false;
    if (t->kind == 'o' && !strchr("+-*", t->name[0]) && ref_eval(t, NULL, 0, VARS, p, &v) == RV_VAR) return false;
    return ref_eval(t, NULL, 3, VARS, p, &v) == RV_OK && fabs(v) < 1e9 && v * 1024 == trunc(v * 1024);
}
/* the value when every subexpression is a defined real number */
static bool strict(const RT *t, const double *p, double *out)
{
    if (t->kind == 'o')
    {
        double a[64];
        if (t->n > 64) return false;
        for (int i = 0; i < t->n; i++) if (!strict(t->ch[i], p, &a[i])) return false;
        if (t->n == 0 && (!strcmp(t->name, "max") || !strcmp(t->name, "min") || !strcmp(t->name, "avg") || !strcmp(t->name, "var"))) return false;
        if (!strcmp(t->name, "^") && a[0] < 0 && !dyadic(t->ch[1], p)) return false;       /* rounding decides whether the exponent is an integer */
        if ((!strcmp(t->name, "gcd") || !strcmp(t->name, "lcm") || !strcmp(t->name, "mod") || !strcmp(t->name, "C")) && (fabs(a[0]) > 1e6 || fabs(a[1]) > 1e6)) return false;
        if (!strcmp(t->name, "root") && a[1] == 0) return false;
        if (ref_op_value(t->name, t->place, t->n, a, NULL, out) != RV_OK) return false;
    }
    else if (ref_eval(t, NULL, 3, VARS, p, out) != RV_OK) return false;
    return isfinite(*out) && fabs(*out) < 1e200;
}
/* some intermediate value leaves the range of doubles */
static bool out_of_range(const RT *t, const double *p)
{
    double v;
    for (int i = 0; i < t->n; i++) if (out_of_range(t->ch[i], p)) return true;
    if (ref_eval(t, NULL, 3, VARS, p, &v) != RV_OK) return false;
    if (t->kind == 'o' && t->place == R_INFIX && t->name[0] == '^' && fabs(v) < 1e-200) return true;
    return isinf(v) || fabs(v) > 1e250;
}
typedef enum { SAME, DIFFERENT, OPEN } Verdict;
/* the simplified expression has the value of the original at the point */
static Verdict same_value(const RT *a, const RT *b, const double *p, double *va, double *vb)
{
    double s, da, db;
    if (!strict(a, p, &s)) return OPEN;
    if (!ref_spread(a, NULL, 3, VARS, p, va, &da)) return OPEN;
    double scale = fmax(fabs(*va), 1e-3);
    if (da > 1e-8 * scale) return OPEN;
    if (out_of_range(a, p) || out_of_range(b, p)) return OPEN;
    if (ref_eval(b, NULL, 3, VARS, p, vb) != RV_OK || isnan(*vb) || isinf(*vb)) { *vb = NAN; return ref_never_defined(b, NULL, 3, VARS, p) ? DIFFERENT : OPEN; }
    double v2;
    if (!ref_spread(b, NULL, 3, VARS, p, &v2, &db)) return OPEN;
    if (db > 1e-6 * scale) return OPEN;
    return fabs(*va - *vb) <= 1e-8 * scale + 2000 * (da + db) ? SAME : DIFFERENT;
}
static char *show(const RT *t)
{
    Node *n = rt_to_node(t, g_ctx);
    char *s = tree_to_str(n, false), *r = ref_strdup(s);
    free(s);
    free_tree(n);
    return r;
}
static ListenerError simplified(const RT *t, RT **out)
{
    Node *n = rt_to_node(t, g_ctx);
    const Node *err = NULL;
    ListenerError r = simplify(&n, &err);
    *out = rt_from_node(n);
    free_tree(n);
    mc_trans(1);
    return r;
}
/* Instances of the left side of a rule: its variables and lists are replaced, consistently and with one occurrence differing. */
static const char *INST[] = { "x", "y", "2", "(x+1)", "0.5", "(-3)", "x^2", "sin(x)", "z", "(-y)", "cos(x)", "0.0005", "x^(-0.5)", "(-0.0002)", "0", "1", "(x-y)", "x*y", "3^x", "1/y" };
#define NI ((int)(sizeof INST / sizeof *INST))
static const char *LISTS[] = { "", "y", "x, 3", "z, x^2, y", "2*x" };
#define NL ((int)(sizeof LISTS / sizeof *LISTS))
typedef struct { int occ, var[24], start[24], len[24], nv; bool list[24]; char name[24][16]; } Pat;
static bool pat_scan(const char *s, Pat *p)
{
    memset(p, 0, sizeof *p);
    for (int i = 0; s[i];)
    {
        int a = i;
        bool list = s[i] == '[';
        if (list) { while (s[i] && s[i] != ']') i++; if (!s[i]) return false; i++; }
        else if (isalpha((unsigned char)s[i]) || s[i] == '_')
        {
            while (isalnum((unsigned char)s[i]) || s[i] == '_') i++;
            int j = i;
            while (s[j] == ' ') j++;
            char w[16];
            if (i - a > 15) return false;
            memcpy(w, s + a, (size_t)(i - a)); w[i - a] = 0;
            if (s[j] == '(' || !strcmp(w, "e") || !strcmp(w, "pi") || !strcmp(w, "mod")) continue;
        }
        else { i++; continue; }
        if (p->occ == 24 || i - a > 15) return false;
        char w[16];
        memcpy(w, s + a, (size_t)(i - a)); w[i - a] = 0;
        int k = 0;
        while (k < p->nv && strcmp(p->name[k], w)) k++;
        if (k == p->nv) { strcpy(p->name[p->nv], w); p->list[p->nv++] = list; }
        p->var[p->occ] = k; p->start[p->occ] = a; p->len[p->occ++] = i - a;
    }
    return true;
}
static char *pat_inst(const char *s, const Pat *p, const int *val, int odd, int oddval)
{
    static char out[4096];
    int n = 0, i = 0;
    for (int o = 0; o <= p->occ; o++)
    {
        int end = o < p->occ ? p->start[o] : (int)strlen(s);
        while (i < end) out[n++] = s[i++];
        if (o == p->occ) break;
        int v = o == odd ? oddval : val[p->var[o]];
        const char *t = p->list[p->var[o]] ? LISTS[v % NL] : ref_printf("(%s)", INST[v % NI]);
        n += sprintf(out + n, "%s", t);
        i += p->len[o];
        if (!*t)        /* an empty list takes a comma with it */
        {
            int j = i;
            while (s[j] == ' ') j++;
            if (s[j] == ',') i = j + 1;
            else { while (n > 0 && out[n - 1] == ' ') n--; if (n > 0 && out[n - 1] == ',') n--; }
        }
    }
    out[n] = 0;
    return out;
}
static void (*inst_of)(const RT *t);
static void inst_check(const char *s)
{
    RT *t = ref_parse(&rc, s);
    if (t) inst_of(t);
}
/* block b of nb of the instances of the pattern */
static void instances(const char *lhs, int b, int nb, int limit)
{
    Pat p;
    if (!pat_scan(lhs, &p)) return;
    double total = 1;
    for (int i = 0; i < p.nv; i++) total *= p.list[i] ? NL : NI;
    long step = total > limit ? (long)(total / limit) : 1;
    if (step > 1) while (step % 2 == 0 || step % 5 == 0) step++;
    for (long k = b; (double)k * (double)step < total && k < 2 * (long)limit && !mc_failed(); k += nb)
    {
        int val[24];
        long r = k * step;
        for (int i = 0; i < p.nv; i++) { int m = p.list[i] ? NL : NI; val[i] = (int)(r % m); r /= m; }
        size_t mk = ref_mark();
        inst_check(pat_inst(lhs, &p, val, -1, 0));
        ref_release(mk);
        /* one occurrence differs */
        if (k % 4 == 0) for (int o = 0; o < p.occ && !mc_failed(); o++)
        {
            if (p.occ == p.nv) break;
            for (int d = 1; d <= 2 && !mc_failed(); d++) { mk = ref_mark(); inst_check(pat_inst(lhs, &p, val, o, val[p.var[o]] + d)); ref_release(mk); }
        }
    }
}
/* the left sides of the rules in the working tree */
static char *ruletext;
static void read_rules(void)
{
    FILE *f = fopen("simplification.ruleset", "r");
    if (!f) return;
    ruletext = calloc(1, 1 << 20);
    if (fread(ruletext, 1, (1 << 20) - 1, f) == 0) abort();
    fclose(f);
}
/* key: i <block>/<blocks> <limit> <left side> */
static void rule_instances(int limit, bool deriv)
{
    char line[1024];
    for (char *p = ruletext; p && *p; p += strcspn(p, "\n"), p += *p == '\n')
    {
        snprintf(line, sizeof line, "%.*s", (int)strcspn(p, "\n"), p);
        char *h = strchr(line, '#'), *a;
        if (h) *h = 0;
        if (!(a = strstr(line, "->"))) continue;
        *a = 0;
        while (a > line && isspace((unsigned char)a[-1])) *--a = 0;
        char *l = line;
        while (isspace((unsigned char)*l)) l++;
        if (!*l || (strstr(l, "deriv(") && !deriv) || strstr(l, "count(")) continue;
        int nb = limit / 100 + 1;
        for (int b = 0; b < nb; b++) MC_CASE("i %d/%d %d %s", b, nb, limit, l);
    }
}
