/* C19: every sequence of insertions and removals against a sorted array of strings. */
#include "mc.h"
#include "util/trie.h"

const char *mc_property = "C19";

#define NS 6
typedef struct { const char *s[NS]; int n; } Uni;
static const Uni unis[] = {
    { { "", "a", "ab", "abc", "b", "ba" }, 6 },
    { { "a", "aa", "aaa", "aaaa", "ab", "b" }, 6 },
    { { "!", "|", "!|", "|!", "!!", "" }, 6 },                      /* both ends of the character range */
    { { "mod", "max", "m", "min", "mo", "C" }, 6 },
    { { "abcdefghijklmnopqrstuvwxyzAB", "abcdefghijklmnopqrstuvwxyzA", "abcd", "abce", "x", "" }, 6 },
    { { "xyz", "xyw", "xy", "+", "-", "x" }, 6 },
};
#define NU ((int)(sizeof unis / sizeof unis[0]))
static const char *queries[] = { "", "a", "aa", "aaa", "aaaaa", "ab", "abc", "abcd", "ac", "b", "ba", "bab", "c", "!", "|", "!|", "|!", "!!", "||",
    " ", "a b", "~", "}", "\x7f", "a\x80", "\xff", "a}", "ab ", "modx", "mod", "mo", "m", "max1", "mi", "C", "Cm", "xy", "xyz", "xyzw", "xyww", "x", "+x", "+-", "-",
    "abcdefghijklmnopqrstuvwxyzAB", "abcdefghijklmnopqrstuvwxyzABC", "abcdefghijklmnopqrstuvwxyz", "abce" };
#define NQ ((int)(sizeof queries / sizeof queries[0]))
static const size_t esizes[] = { 8, 0, 1, 20 };

void mc_worker_init(void) {}

static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }

static void check(const Trie *t, const Uni *u, const bool *in, const unsigned *stamp, size_t es)
{
    int count = 0;
    for (int i = 0; i < u->n; i++) count += in[i];
    if (trie_count(t) != (size_t)count) { mc_fail("trie_count is %zu, %d strings are stored", trie_count(t), count); return; }
    for (int q = 0; q < NQ + u->n; q++)
    {
        const char *s = q < NQ ? queries[q] : u->s[q - NQ];
        int best = -1;
        size_t bl = 0;
        bool member = false;
        for (int i = 0; i < u->n; i++)
        {
            if (!in[i]) continue;
            size_t l = strlen(u->s[i]);
            if (strncmp(u->s[i], s, l) != 0) continue;
            if (best < 0 || l > bl) { best = i; bl = l; }
            if (l == strlen(s)) member = true;
        }
        void *data = NULL;
        size_t got = trie_longest_prefix(t, s, &data);
        if (got != bl) { mc_fail("longest prefix of \"%s\" has length %zu, expected %zu", s, got, bl); return; }
        if (bl > 0 && es > 0)
        {
            for (size_t b = 0; b < es; b++)
                if (((unsigned char *)data)[b] != (unsigned char)(stamp[best] + b)) { mc_fail("wrong payload for the longest prefix of \"%s\"", s); return; }
        }
        if (trie_longest_prefix(t, s, NULL) != bl) { mc_fail("longest prefix without payload differs"); return; }
        data = NULL;
        bool c = trie_contains(t, s, &data);
        if (c != member || trie_contains(t, s, NULL) != member) { mc_fail("trie_contains(\"%s\") is %d, expected %d", s, c, member); return; }
        if (member && es > 0)
            for (size_t b = 0; b < es; b++)
                if (((unsigned char *)data)[b] != (unsigned char)(stamp[best] + b)) { mc_fail("wrong payload for \"%s\"", s); return; }
    }
    /* iteration: full, again after the end, after an explicit reset in the middle */
    const char *sorted[NS];
    int n = 0;
    for (int i = 0; i < u->n; i++) if (in[i]) sorted[n++] = u->s[i];
    qsort(sorted, (size_t)n, sizeof sorted[0], cmp);
    TrieIterator it = trie_get_iterator(t);
    for (int round = 0; round < 3; round++)
    {
        if (round == 2 && n > 0)
        {
            for (int k = 0; k < (n + 1) / 2; k++) iterator_get_next((Iterator *)&it);
            iterator_reset((Iterator *)&it);
        }
        for (int k = 0; k < n; k++)
        {
            unsigned char *d = iterator_get_next((Iterator *)&it);
            if (d == NULL) { mc_fail("iteration ends after %d of %d strings", k, n); return; }
            const char *cs = trie_get_current_string(&it);
            if (cs == NULL || strcmp(cs, sorted[k]) != 0) { mc_fail("iteration yields \"%s\", expected \"%s\"", cs ? cs : "(null)", sorted[k]); return; }
            for (int i = 0; i < u->n; i++)
                if (in[i] && strcmp(u->s[i], sorted[k]) == 0)
                    for (size_t b = 0; b < es; b++)
                        if (d[b] != (unsigned char)(stamp[i] + b)) { mc_fail("iteration yields a wrong payload for \"%s\"", sorted[k]); return; }
        }
        if (iterator_get_next((Iterator *)&it) != NULL) { mc_fail("iteration yields more than the %d stored strings", n); return; }
    }
}

/* larger sets: compared with a plain array */
#define MAXS 9000
static char **fs;
static bool *fin;
static int fn_;
static Trie ft;
static void fcheck(int every)
{
    int n = 0;
    char **so = malloc(sizeof *so * (size_t)(fn_ + 1));
    for (int i = 0; i < fn_; i++) if (fin[i]) so[n++] = fs[i];
    qsort(so, (size_t)n, sizeof *so, cmp);
    if (trie_count(&ft) != (size_t)n) mc_fail("trie_count is %zu, %d strings are stored", trie_count(&ft), n);
    for (int i = 0; i < fn_ && !mc_failed(); i += every)
    {
        size_t l = strlen(fs[i]), best = 0;
        char *q = malloc(l + 2);
        for (int v = 0; v < 3 && !mc_failed(); v++)
        {
            memcpy(q, fs[i], l + 1);
            if (v == 1) { q[l] = 'q'; q[l + 1] = 0; }
            if (v == 2) { if (!l) continue; q[l - 1] = q[l - 1] == 'z' ? 'y' : 'z'; }
            int b = -1;
            bool mem = false;
            best = 0;
            for (int k = 0; k < n; k++)
            {
                size_t kl = strlen(so[k]);
                if (strncmp(so[k], q, kl)) continue;
                if (b < 0 || kl > best) { b = k; best = kl; }
                if (kl == strlen(q)) mem = true;
            }
            void *d = NULL;
            size_t g = trie_longest_prefix(&ft, q, &d);
            if (g != best || (best && memcmp(d, &so[b], sizeof(char *)))) mc_fail("with %d strings the longest prefix of \"%.60s\" (%zu characters) has length %zu%s, expected %zu", n, q, strlen(q), g, g == best ? " (other payload)" : "", best);
            d = NULL;
            if (trie_contains(&ft, q, &d) != mem || (mem && memcmp(d, &so[b], sizeof(char *)))) mc_fail("with %d strings trie_contains(\"%.60s\") (%zu characters) is wrong", n, q, strlen(q));
            mc_trace(1);
        }
        free(q);
    }
    bool iter = true;                       /* TRIE_MAX_ITERATOR_DEPTH bounds what can be iterated */
    for (int k = 0; k < n; k++) if (strlen(so[k]) > TRIE_MAX_ITERATOR_DEPTH - 2) iter = false;
    TrieIterator it = trie_get_iterator(&ft);
    for (int k = 0; iter && k <= n && !mc_failed(); k++)
    {
        void *d = iterator_get_next((Iterator *)&it);
        if ((d != NULL) != (k < n)) { mc_fail("iteration over %d strings ends after %d", n, k); break; }
        if (!d) break;
        const char *c = trie_get_current_string(&it);
        if (!c || strcmp(c, so[k]) || memcmp(d, &so[k], sizeof(char *))) mc_fail("string %d of the iteration over %d strings is \"%.60s\", expected \"%.60s\"", k, n, c ? c : "(null)", so[k]);
    }
    free(so);
}
static void fadd(char *s, size_t l)
{
    fs[fn_] = malloc(l + 1);
    memcpy(fs[fn_], s, l);
    fs[fn_][l] = 0;
    void *d = trie_add_str(&ft, fs[fn_]);
    bool dup = false;
    for (int i = 0; i < fn_ && fn_ < 2000; i++) if (fin[i] && !strcmp(fs[i], fs[fn_])) dup = true;
    if (dup != (d == NULL)) mc_fail("adding \"%.60s\" as string %d %s", s, fn_, d ? "returns a payload though it is stored" : "returns none");
    if (d) { memcpy(d, &fs[fn_], sizeof(char *)); fin[fn_++] = true; }
    else { free(fs[fn_]); }
    mc_trans(1);
}
static void large(int kind, int n)
{
    long live0 = mc_live_blocks();
    fs = malloc(sizeof *fs * MAXS);
    fin = calloc(MAXS, sizeof *fin);
    fn_ = 0;
    ft = trie_create(sizeof(char *));
    char *b = malloc((size_t)n + 100);
    if (kind == 0)          /* n words in mixed order */
        for (int i = 0; i < n; i++) { int l = sprintf(b, "%s%d", i % 3 == 0 ? "x" : i % 3 == 1 ? "xy" : "f_", (i * 37) % n); fadd(b, (size_t)l); }
    else if (kind == 1)     /* every prefix (of the last 50 lengths) of a long string, longest first */
        for (int i = n; i > 0 && i > n - 50; i--) { for (int k = 0; k < i; k++) b[k] = (char)('!' + (k * 7) % 92); fadd(b, (size_t)i); }
    else if (kind == 2)     /* long strings differing at one position */
        for (int i = 0; i < n; i += 1 + n / 40) { for (int k = 0; k < n; k++) b[k] = (char)('a' + k % 26); b[i] = 'A'; fadd(b, (size_t)n); }
    else                    /* every string of two characters beginning with character n, every single character */
        for (int c = '!'; c <= '|'; c++) { b[0] = (char)c; fadd(b, 1); b[0] = (char)('!' + n); b[1] = (char)c; fadd(b, 2); }
    int step = 1 + fn_ / 300;
    if (!mc_failed()) fcheck(step);
    for (int r = 0; r < 3 && !mc_failed(); r++)
    {
        for (int i = r; i < fn_; i += 3) { trie_remove_str(&ft, fs[i]); fin[i] = false; }
        fcheck(step);
        if (r == 0) for (int i = 0; i < fn_; i += 3) { void *d = trie_add_str(&ft, fs[i]); if (!d) { mc_fail("a removed string cannot be added"); break; } memcpy(d, &fs[i], sizeof(char *)); fin[i] = true; }
        if (r == 0 && !mc_failed()) { fcheck(step); for (int i = 0; i < fn_; i += 3) { trie_remove_str(&ft, fs[i]); fin[i] = false; } }
    }
    for (int i = 0; i < fn_ && !mc_failed(); i += 2) { void *d = trie_add_str(&ft, fs[i]); if (d) { memcpy(d, &fs[i], sizeof(char *)); fin[i] = true; } else mc_fail("a removed string cannot be added"); }
    trie_destroy(&ft);
    for (int i = 0; i < fn_; i++) free(fs[i]);
    free(fs); free(fin); free(b);
    mc_state(mc_mix((u64)kind * 100000 + (u64)n, 77));
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left after destroying a trie of many strings", mc_live_blocks() - live0);
}

/* key: <universe> <payload size index> <ops>; op letter 'a'+i adds string i, 'A'+i removes it */
void mc_run(const char *key)
{
    int ui, ei;
    if (*key == 'F') { sscanf(key, "F %d %d", &ui, &ei); large(ui, ei); return; }
    char ops[64] = "";
    sscanf(key, "%d %d %63s", &ui, &ei, ops);
    const Uni *u = &unis[ui];
    size_t es = esizes[ei];
    bool in[NS] = { false };
    unsigned stamp[NS] = { 0 };
    long live0 = mc_live_blocks();
    Trie t = trie_create(es);
    int n = (int)strlen(ops);
    for (int k = 0; k < n && !mc_failed(); k++)
    {
        bool add = ops[k] >= 'a';
        int i = add ? ops[k] - 'a' : ops[k] - 'A';
        if (add)
        {
            unsigned char *d = trie_add_str(&t, u->s[i]);
            if ((d != NULL) == in[i]) mc_fail("trie_add_str(\"%s\") returns %s", u->s[i], d ? "a payload for a stored string" : "NULL for a new string");
            if (d)
            {
                stamp[i] = (unsigned)(17 * k + 31 * i + 1);
                for (size_t b = 0; b < es; b++) d[b] = (unsigned char)(stamp[i] + b);
                in[i] = true;
            }
        }
        else
        {
            trie_remove_str(&t, u->s[i]);
            in[i] = false;
        }
    }
    if (!mc_failed()) check(&t, u, in, stamp, es);
    /* removing what is not stored changes nothing */
    for (int q = 0; q < NQ && !mc_failed(); q++)
    {
        bool member = false, illegal = false;
        for (int i = 0; i < u->n; i++) if (in[i] && !strcmp(u->s[i], queries[q])) member = true;
        for (const char *c = queries[q]; *c; c++) if (*c < '!' || *c > '|') illegal = true;
        if (member || !(illegal || n <= 3)) continue;
        trie_remove_str(&t, queries[q]);
        mc_trans(1);
        if (n <= 3) { mc_context("after removing \"%s\"", queries[q]); check(&t, u, in, stamp, es); }
    }
    if (!mc_failed()) check(&t, u, in, stamp, es);
    u64 h = (u64)ui * 131 + (u64)ei;
    for (int i = 0; i < u->n; i++) h = h * 2 + in[i];
    mc_state(mc_mix(h, 19));
    trie_destroy(&t);
    mc_trans((u64)n);
    mc_trace(1);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left after trie_destroy", mc_live_blocks() - live0);
}

static void rec(int ui, int ei, char *ops, int len, int max)
{
    ops[len] = 0;
    MC_CASE("%d %d %s", ui, ei, ops);
    if (len == max) return;
    for (int i = 0; i < 2 * unis[ui].n; i++)
    {
        ops[len] = (char)(i < unis[ui].n ? 'a' + i : 'A' + i - unis[ui].n);
        rec(ui, ei, ops, len + 1, max);
    }
    ops[len] = 0;
}

void mc_enumerate(int thorough)
{
    for (int k = 0; k < 3; k++)
    {
        for (int n = 1; n < 64; n++) MC_CASE("F %d %d", k, n);
        MC_SIZES(n, 63, thorough ? 8500 : k == 0 ? 1025 : 1025) MC_CASE("F %d %d", k, n);
    }
    for (int n = 0; n < 92; n++) MC_CASE("F 3 %d", n);
    char ops[64];
    for (int u = 0; u < NU; u++)
        for (int e = 0; e < 4; e++)
            rec(u, e, ops, 0, e == 0 ? (u == 0 ? 5 : 5) + thorough : 4 + thorough);
}
