/* C22: every sequence of registry operations against a plain array of operators. */
#include "ref.h"
#include "engine/parsing/tokenizer.h"

const char *mc_property = "C22";
void mc_worker_init(void) {}

static const OpPlacement pl[] = { OP_PLACE_PREFIX, OP_PLACE_INFIX, OP_PLACE_POSTFIX, OP_PLACE_FUNCTION };
static const char *names[][3] = { { "+", "ab", "a" }, { "!", "!=", "mod" } };
typedef struct { bool on; const char *name; int place; size_t arity; int prec; OpAssociativity assoc; const Operator *ptr; } M;

#define NADD 21
#define NDEL 12
#define NGLUE 4
#define NOPS (NADD + NDEL + NGLUE)

typedef struct { int name, place, prec; size_t arity; bool left; } Add;
static Add addop(int i)
{
    if (i < 9) return (Add){ i % 3, 1, i / 3 == 2 ? 2 : 1, 2, i / 3 != 1 };
    if (i < 12) return (Add){ i - 9, 0, 1, 1, true };
    if (i < 15) return (Add){ i - 12, 2, 1, 1, true };
    if (i < 18) return (Add){ i - 15, 3, 255, 0, true };
    return (Add){ i - 18, 3, 255, i == 18 ? OP_DYNAMIC_ARITY : 2, true };
}

static void families(int kind, int n, int m);
/* key: <name set> followed by letters, one per operation */
void mc_run(const char *key)
{
    ref_reset();
    int fk, fa, fb;
    if (sscanf(key, "F %d %d %d", &fk, &fa, &fb) == 3)
    {
        long live = mc_live_blocks();
        families(fk, fa, fb);
        if (!mc_failed() && mc_live_blocks() != live) mc_fail("heap blocks left after ctx_destroy");
        return;
    }
    const char **nm = names[key[0] - '0'];
    const char *ops = key + 2;
    M m[64];
    int n = 0;
    long live0 = mc_live_blocks();
    ParsingContext c = ctx_create();
    const Operator *glue = NULL;
    int steps = 0;
    for (const char *p = ops; *p && !mc_failed(); p++, steps++)
    {
        int o = *p - '0';
        if (o < NADD)
        {
            Add a = addop(o);
            bool refuse = false;
            for (int i = 0; i < n; i++)
            {
                if (!m[i].on) continue;
                if (m[i].place == a.place && m[i].name == nm[a.name]) refuse = true;
                if (a.place == 1 && m[i].place == 1 && m[i].prec == a.prec && (m[i].assoc == OP_ASSOC_LEFT) != a.left) refuse = true;
            }
            Operator op = a.place == 0 ? op_get_prefix(nm[a.name], (Precedence)a.prec)
                : a.place == 1 ? op_get_infix(nm[a.name], (Precedence)a.prec, a.left ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT)
                : a.place == 2 ? op_get_postfix(nm[a.name], (Precedence)a.prec)
                : a.arity == 0 ? op_get_constant(nm[a.name]) : op_get_function(nm[a.name], a.arity);
            const Operator *r = ctx_add_op(&c, op);
            if ((r == NULL) != refuse) mc_fail("adding operator %s (placement %d) %s", nm[a.name], a.place, r ? "is accepted, must be refused" : "is refused");
            else if (r) m[n++] = (M){ true, nm[a.name], a.place, a.arity, a.prec, a.left ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT, r };
        }
        else if (o < NADD + NDEL)
        {
            int k = (o - NADD) % 3, p2 = (o - NADD) / 3;
            bool had = false;
            for (int i = 0; i < n; i++)
                if (m[i].on && m[i].place == p2 && m[i].name == nm[k]) { m[i].on = false; had = true; if (glue == m[i].ptr) glue = NULL; }
            if (ctx_delete_op(&c, nm[k], pl[p2]) != had) mc_fail("deleting %s (placement %d) returns %d", nm[k], p2, !had);
        }
        else
        {
            int k = o - NADD - NDEL;
            if (k == 3) { glue = NULL; if (!ctx_set_glue_op(&c, NULL)) mc_fail("the glue operator can not be unset"); }
            else
            {
                /* any operator with that name, infix first, then function, then prefix */
                static const int order[] = { 1, 3, 0 };
                for (int q = 0; q < 3; q++)
                {
                    const Operator *g = ctx_lookup_op(&c, nm[k], pl[order[q]]);
                    if (!g) continue;
                    bool ok = g->arity == 2 || g->arity == OP_DYNAMIC_ARITY;
                    if (ctx_set_glue_op(&c, g) != ok) mc_fail("setting %s (arity %zu) as glue operator returns %d", nm[k], g->arity, !ok);
                    if (ok) glue = g;
                    break;
                }
            }
        }
    }
    if (!mc_failed() && c.glue_op != glue) mc_fail("glue operator is not the one set");
    u64 h = 22;
    int live_ops = 0;
    for (int k = 0; k < 3 && !mc_failed(); k++)
        for (int p = 0; p < 4 && !mc_failed(); p++)
        {
            const M *want = NULL;
            for (int i = 0; i < n; i++) if (m[i].on && m[i].place == p && m[i].name == nm[k]) want = &m[i];
            const Operator *g = ctx_lookup_op(&c, nm[k], pl[p]);
            if ((g != NULL) != (want != NULL)) { mc_fail("operator %s (placement %d) is %s", nm[k], p, g ? "present but was not added or was deleted" : "missing"); break; }
            h = mc_mix(h, want ? (u64)want->prec * 7 + want->arity * 31 + want->assoc + 1 : 0);
            if (!want) continue;
            live_ops++;
            if (g != want->ptr) mc_fail("operator %s moved", nm[k]);
            else if (strcmp(g->name, want->name) || g->placement != pl[p] || g->arity != want->arity || g->precedence != want->prec
                || (p == 1 && g->assoc != want->assoc)) mc_fail("operator %s (placement %d) has other attributes than it was added with", nm[k], p);
            for (int i = 0; i < n && !mc_failed(); i++)
                if (m[i].on && &m[i] != want && m[i].ptr->id == g->id) mc_fail("operators %s and %s share id %zu", nm[k], m[i].name, g->id);
        }
    if (!mc_failed() && list_count(&c.op_list) != (size_t)live_ops) mc_fail("%zu operators are listed, %d are present", list_count(&c.op_list), live_ops);
    if (!mc_failed())
    {
        /* the tokenizer recognises exactly the present names */
        const char *kw[64];
        int nk = 0;
        for (int i = 0; i < n; i++) if (m[i].on) kw[nk++] = m[i].name;
        static const char *probe[] = { "1+2", "1ab+", "!=!", "1mod2", "+ab a", "1!=2!", "a+a" };
        for (int q = 0; q < 7 && !mc_failed(); q++)
        {
            char **t;
            int nt = ref_tokenize_kw(kw, nk, probe[q], &t);
            Vector v = tokenize(probe[q], &c.keywords_trie);
            bool same = (int)vec_count(&v) == nt;
            for (int i = 0; same && i < nt; i++) same = strcmp(t[i], *(char **)vec_get(&v, (size_t)i)) == 0;
            if (!same) mc_fail("\"%s\" is tokenized with other keywords than the %d present operators", probe[q], live_ops);
            free_tokens(&v);
        }
    }
    mc_state(mc_mix(h, (u64)key[0]));
    mc_trans((u64)steps);
    mc_trace(1);
    ctx_destroy(&c);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("heap blocks left after ctx_destroy");
}

/* ---- many operators: every number of operands, precedence and name relation ---- */
typedef struct { bool on; const char *name; int place; size_t arity; int prec; bool left; const Operator *ptr; } F;
static F fm[2000];
static int fn;
static ParsingContext fc;
static const Operator *fglue;
static void f_check(const char *what)
{
    int live = 0;
    for (int i = 0; i < fn && !mc_failed(); i++)
    {
        const F *w = NULL;
        for (int k = 0; k < fn; k++) if (fm[k].on && fm[k].place == fm[i].place && !strcmp(fm[k].name, fm[i].name)) w = &fm[k];
        const Operator *g = ctx_lookup_op(&fc, fm[i].name, pl[fm[i].place]);
        if ((g != NULL) != (w != NULL) || (w && g != w->ptr)) { mc_fail("%s: %s (placement %d) is %s", what, fm[i].name, fm[i].place, g ? "another operator" : "missing"); return; }
        if (!w) continue;
        if (strcmp(g->name, w->name) || g->placement != pl[w->place] || g->arity != w->arity || g->precedence != w->prec || (w->place == 1 && (g->assoc == OP_ASSOC_LEFT) != w->left))
            mc_fail("%s: %s (placement %d) has other attributes than it was added with", what, g->name, w->place);
    }
    for (int i = 0; i < fn && !mc_failed(); i++)
    {
        live += fm[i].on;
        for (int k = 0; k < i; k++) if (fm[i].on && fm[k].on && fm[i].ptr->id == fm[k].ptr->id) { mc_fail("%s: %s and %s share id %zu", what, fm[i].name, fm[k].name, fm[i].ptr->id); return; }
    }
    if (!mc_failed() && list_count(&fc.op_list) != (size_t)live) mc_fail("%s: %zu operators are listed, %d are present", what, list_count(&fc.op_list), live);
    if (!mc_failed() && fc.glue_op != fglue) mc_fail("%s: the glue operator is not the one set", what);
    /* every name is recognised exactly while one operator has it: text that starts with the name */
    for (int i = 0; i < fn && !mc_failed(); i++)
    {
        const char *kw[2000];
        int nk = 0;
        for (int k = 0; k < fn; k++) if (fm[k].on) kw[nk++] = fm[k].name;
        char *probe = ref_printf("1%s%s2", fm[i].name, fm[(i + 1) % fn].name), **t;
        int nt = ref_tokenize_kw(kw, nk, probe, &t);
        Vector v = tokenize(probe, &fc.keywords_trie);
        bool same = (int)vec_count(&v) == nt;
        for (int k = 0; same && k < nt; k++) same = strcmp(t[k], *(char **)vec_get(&v, (size_t)k)) == 0;
        if (!same) mc_fail("%s: \"%s\" is tokenized with other keywords than the present operators", what, probe);
        free_tokens(&v);
        if (fn > 24) i += fn / 24;
    }
    mc_trace(1);
}
static const Operator *f_add(const char *name, int place, size_t arity, int prec, bool left)
{
    bool refuse = false;
    for (int i = 0; i < fn; i++)
    {
        if (!fm[i].on) continue;
        if (fm[i].place == place && !strcmp(fm[i].name, name)) refuse = true;
        if (place == 1 && fm[i].place == 1 && fm[i].prec == prec && fm[i].left != left) refuse = true;
    }
    Operator op = place == 0 ? op_get_prefix(name, (Precedence)prec) : place == 1 ? op_get_infix(name, (Precedence)prec, left ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT)
        : place == 2 ? op_get_postfix(name, (Precedence)prec) : arity == 0 ? op_get_constant(name) : op_get_function(name, arity);
    const Operator *r = ctx_add_op(&fc, op);
    mc_trans(1);
    if ((r == NULL) != refuse) mc_fail("adding %s (placement %d, precedence %d, %s) %s", name, place, prec, left ? "left" : "right", r ? "is accepted, must be refused" : "is refused");
    else if (r) fm[fn++] = (F){ true, name, place, place == 3 ? arity : place == 1 ? 2 : 1, place == 3 ? op.precedence : prec, left, r };
    return r;
}
static void f_del(const char *name, int place)
{
    bool had = false;
    for (int i = 0; i < fn; i++) if (fm[i].on && fm[i].place == place && !strcmp(fm[i].name, name)) { fm[i].on = false; had = true; if (fglue == fm[i].ptr) fglue = NULL; }
    mc_trans(1);
    if (ctx_delete_op(&fc, name, pl[place]) != had) mc_fail("deleting %s (placement %d) returns %d", name, place, !had);
}
static void f_glue(const Operator *o)
{
    bool ok = o == NULL || o->arity == 2 || o->arity == OP_DYNAMIC_ARITY;
    mc_trans(1);
    if (ctx_set_glue_op(&fc, o) != ok) mc_fail("setting %s (arity %zu) as glue operator returns %d", o ? o->name : "nothing", o ? o->arity : 0, !ok);
    if (ok) fglue = o;
}
static const char *word(int i, int style)
{
    static const char SY[] = "!#$%&*+-./:;<=>?@^_";
    switch (style)
    {
        case 0: return ref_printf("f%c%c", 'a' + i / 26 % 26, 'a' + i % 26);
        case 1: return ref_printf("%.*s", i % 60 + 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijkl");
        case 2: return ref_printf("%c%.*s", SY[i % 19], i / 19, "=======================");
        default: return ref_printf("%.*s%c", i % 5, "mmmmm", 'a' + i / 5 % 26);
    }
}
static void families(int kind, int n, int m)
{
    fc = ctx_create();
    fn = 0;
    fglue = NULL;
    if (kind == 0)
    {
        /* n operators, every kind mixed; deleted in several orders; added again with other attributes */
        for (int i = 0; i < n && !mc_failed(); i++) { f_add(word(i, m % 4), (i + m) % 4, i % 7 == 6 ? OP_DYNAMIC_ARITY : (size_t)(i % 6), (i / 4) % 9, i / 4 % 2); }
        f_check("added");
        for (int i = 0; i < n && !mc_failed(); i += 2) { int k = m / 4 == 0 ? i : n - 1 - i; f_del(word(k, m % 4), (k + m) % 4); if (n < 20) f_check("deleted one"); }
        f_check("deleted every second");
        for (int i = 0; i < n && !mc_failed(); i += 3) f_add(word(i, m % 4), (i + m + 1) % 4, (size_t)(i % 5), 5, true);
        f_check("added again");
        for (int i = 0; i < n && !mc_failed(); i++) for (int p = 0; p < 4; p++) f_del(word(i, m % 4), p);
        f_check("all deleted");
    }
    else if (kind == 1)
    {
        /* n infix operators of different precedence, then one that contradicts the m-th */
        for (int i = 0; i < n && !mc_failed(); i++) f_add(word(i, 0), 1, 2, i, (i * 3 + m) % 4 < 2);
        for (int i = 0; i < n && !mc_failed(); i++) { f_add("new", 1, 2, i, (i * 3 + m) % 4 >= 2); f_add("new", 1, 2, i, (i * 3 + m) % 4 < 2); f_check("contradiction"); f_del("new", 1); }
        if (n) { f_del(word(m % n, 0), 1); f_add("new", 1, 2, m % n, (m % n * 3 + m) % 4 >= 2); f_check("contradicting a deleted one"); f_add("other", 1, 2, m % n, (m % n * 3 + m) % 4 < 2); f_check("contradicting the new one"); }
    }
    else if (kind == 2)
    {
        /* glue: every number of operands and placement */
        const Operator *g[16];
        g[0] = f_add("pre", 0, 1, n, true); g[1] = f_add("in", 1, 2, n, true); g[2] = f_add("post", 2, 1, n, true);
        for (int i = 0; i < 11; i++) g[3 + i] = f_add(word(i, 0), 3, (size_t)(i == 10 ? 40 : i), 0, true);
        g[14] = f_add("dyn", 3, OP_DYNAMIC_ARITY, 0, true); g[15] = NULL;
        f_glue(g[n]); f_check("one"); f_glue(g[m]); f_check("two");
        if (g[n]) f_del(g[n]->name, g[n]->placement == OP_PLACE_PREFIX ? 0 : g[n]->placement == OP_PLACE_INFIX ? 1 : g[n]->placement == OP_PLACE_POSTFIX ? 2 : 3);
        f_check("deleted");
    }
    else if (kind == 4)
    {
        /* names of n characters that differ in the last one, all placements */
        char *b = ref_alloc((size_t)n + 2);
        for (int i = 0; i < n; i++) b[i] = (char)('a' + (i * 5 + m) % 26);
        b[n] = 0;
        for (int p = 0; p < 4 && !mc_failed(); p++) { char *q = ref_strdup(b); f_add(q, (p + m) % 4, 2, p, m % 2); q = ref_strdup(b); q[n - 1] = '~' - 3; f_add(q, p, 2, p + 1, true); f_check("added"); }
        { char *q = ref_strdup(b); q[n / 2] = '!'; f_add(q, m % 4, 1, 3, true); f_check("added another"); }
        for (int p = 0; p < 4 && !mc_failed(); p++) { f_del(b, p); f_check("deleted"); }
        f_add(b, m % 4, 3, 1, true);
        f_check("added again");
    }
    else
    {
        /* one name in every placement, each with its own attributes; names that are prefixes */
        for (int p = 0; p < 4 && !mc_failed(); p++) { f_add("x", p, (size_t)n, m, true); f_add("xx", p, 3, n, m % 2); f_add("xxx", p, OP_DYNAMIC_ARITY, m, n % 2); }
        f_check("added");
        for (int b = 0; b < 4 && !mc_failed(); b++) { f_del("xx", (b + n) % 4); f_check("deleted one"); f_del("x", (b + m) % 4); f_check("deleted another"); if (b == 1) { f_add("xx", (n + m) % 4, 1, m, true); f_check("added again"); } }
    }
    u64 h = 5;
    for (int i = 0; i < fn; i++) if (fm[i].on) h = mc_mix(h, mc_hash_str(fm[i].name, (u64)(fm[i].place * 100 + fm[i].prec)));
    mc_state(mc_mix(h, (u64)(kind * 10000 + n * 100 + m)));
    ctx_destroy(&fc);
}
static void rec(int set, char *ops, int len, int max)
{
    ops[len] = 0;
    MC_CASE("%d %s", set, ops);
    if (len == max) return;
    for (int o = 0; o < NOPS; o++) { if (max == 5 && len == 0 && o >= NADD && o < NADD + NDEL) continue; /* nothing to delete yet */ ops[len] = (char)('0' + o); rec(set, ops, len + 1, max); }
    ops[len] = 0;
}

/* long runs: adds of many names, deletions in between */
void mc_enumerate(int thorough)
{
    for (int n = 0; n <= (thorough ? 200 : 90); n += 1 + n / 20) for (int m = 0; m < 8; m++) MC_CASE("F 0 %d %d", n, m);
    MC_SIZES(n, thorough ? 200 : 90, thorough ? 800 : 301) for (int m = 0; m < 8; m++) MC_CASE("F 0 %d %d", n, m);
    for (int n = 1; n < 64; n++) for (int m = 0; m < 4; m++) MC_CASE("F 4 %d %d", n, m);
    MC_SIZES(n, 63, thorough ? 10001 : 4097) for (int m = 0; m < 4; m++) MC_CASE("F 4 %d %d", n, m);
    for (int n = 0; n <= (thorough ? 30 : 14); n++) for (int m = 0; m < (n ? n : 1); m++) MC_CASE("F 1 %d %d", n, m);
    for (int n = 0; n < 16; n++) for (int m = 0; m < 16; m++) MC_CASE("F 2 %d %d", n, m);
    for (int n = 0; n < 9; n++) for (int m = 0; m < 9; m++) MC_CASE("F 3 %d %d", n, m);
    char ops[64];
    rec(0, ops, 0, 4 + thorough);
    rec(1, ops, 0, thorough ? 4 : 3);
    /* shorter alphabet, longer sequences: add/delete infix +, function ab, function a, prefix + */
    static const int few[] = { 0, 9, 16, 17, NADD + 3, NADD + 0, NADD + 10, NADD + 11, NADD + NDEL };
    int max = thorough ? 7 : 6;
    for (int len = 5; len <= max; len++)
    {
        long total = 1;
        for (int i = 0; i < len; i++) total *= 9;
        for (long v = 0; v < total; v++)
        {
            if (!mc_want()) continue;
            long w = v;
            for (int i = 0; i < len; i++, w /= 9) ops[i] = (char)('0' + few[w % 9]);
            ops[len] = 0;
            mc_do("0 %s", ops);
        }
    }
}
