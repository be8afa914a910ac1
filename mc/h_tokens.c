/* C03: every short line over small alphabets, for several keyword sets, against an independent tokenizer. */
#include "ref.h"
#include "engine/parsing/tokenizer.h"
#include "util/trie.h"

const char *mc_property = "C03";

#define NSETS 9
static const char *sets[NSETS][12] = {
    { "+", "-", "!", "%", "mod", "sin", "C", "@", 0 },
    { "==", "=", "!=", "!", ">=", ">", 0 },
    { "->", "-", ">", "--", "-->", 0 },
    { "a", "ab", "+a", "+", "+ab", 0 },
    { "1", "12", ".", "1.", 0 },
    { "(", "((", ",", "(,", 0 },
    { "[", "[[", "_", "|", "||", 0 },
    { "aa", "aaa", "5a", "+5", "+", 0 },
    { 0 },
};
static Trie tries[NSETS];
static RCtx arith;
static ParsingContext actx;

void mc_worker_init(void)
{
    for (int i = 0; i < NSETS; i++)
    {
        tries[i] = trie_create(0);
        for (int j = 0; sets[i][j]; j++) trie_add_str(&tries[i], sets[i][j]);
    }
    rctx_arith(&arith);
    actx = rctx_build(&arith);
}

static const char *decode(const char *s)
{
    /* "~xx" stands for a byte given in hex */
    static char b[8192];
    size_t n = 0;
    for (; *s; s++)
    {
        unsigned v;
        if (*s == '~' && sscanf(s + 1, "%2x", &v) == 1) { b[n++] = (char)v; s += 2; }
        else b[n++] = *s;
    }
    b[n] = 0;
    return b;
}

/* key: <set> <line>; set 99: the documented operators, 98: no trie at all */
void mc_run(const char *key)
{
    ref_reset();
    int set = atoi(key);
    const char *line = decode(strchr(key, ' ') + 1);
    size_t len = strlen(line);
    char *exact = malloc(len + 1);
    memcpy(exact, line, len + 1);
    long live0 = mc_live_blocks();
    Vector v = tokenize(exact, set == 99 ? &actx.keywords_trie : set == 98 ? NULL : &tries[set]);
    char **t;
    int n;
    if (set == 99) n = ref_tokenize(&arith, line, &t);
    else
    {
        int nk = 0;
        if (set < NSETS) while (sets[set][nk]) nk++;
        n = ref_tokenize_kw(set < NSETS ? sets[set] : NULL, nk, line, &t);
    }
    size_t at = 0;
    u64 h = (u64)set;
    for (size_t i = 0; i < vec_count(&v); i++)
    {
        const char *tok = *(char **)vec_get(&v, i);
        size_t l = strlen(tok);
        if (l == 0) { mc_fail("empty token %zu", i); break; }
        if (at + l > len || strncmp(line + at, tok, l) != 0) { mc_fail("token %zu \"%s\" does not continue the line at %zu", i, tok, at); break; }
        if ((int)i >= n || strcmp(t[i], tok) != 0) { mc_fail("token %zu is \"%s\", expected \"%s\"", i, tok, (int)i < n ? t[i] : "(end)"); break; }
        at += l;
        h = mc_hash_str(tok, h);
    }
    if (!mc_failed() && at != len) mc_fail("the tokens cover %zu of %zu characters", at, len);
    if (!mc_failed() && (int)vec_count(&v) != n) mc_fail("%zu tokens, expected %d", vec_count(&v), n);
    if (memcmp(exact, line, len + 1) != 0) mc_fail("the line itself was changed");
    free_tokens(&v);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("heap blocks left after free_tokens");
    free(exact);
    mc_state(h);
    mc_trans(1);
    mc_trace(1);
}

static void rec(int set, const char *const *alpha, char *b, int max)
{
    MC_CASE("%d %s", set, b);
    if (max == 0) return;
    size_t l = strlen(b);
    for (int i = 0; alpha[i]; i++)
    {
        strcpy(b + l, alpha[i]);
        rec(set, alpha, b, max - 1);
        b[l] = 0;
    }
}

void mc_enumerate(int thorough)
{
    char b[4096] = "";
    int t = thorough ? 1 : 0;
    static const char *al[NSETS][14] = {
        { "+", "-", "!", "m", "o", "d", "C", " ", "1", ".", 0 },
        { "=", "!", ">", "<", "a", "1", " ", 0 },
        { "-", ">", "a", "1", " ", 0 },
        { "a", "b", "+", "1", " ", 0 },
        { "1", "2", ".", "a", "+", 0 },
        { "(", ")", ",", "a", "1", 0 },
        { "[", "]", "_", "|", "a", "1", 0 },
        { "a", "5", "+", " ", ".", 0 },
        { "a", "1", "+", " ", ".", "=", 0 },
    };
    static const int dep[NSETS] = { 5, 6, 7, 7, 7, 7, 6, 7, 6 };
    for (int s = 0; s < NSETS; s++) rec(s, al[s], b, dep[s] + t);
    rec(98, al[8], b, 6 + t);
    static const char *al99[] = { "+", "-", "*", "mod", "C", "sin", "x", "pi", "12", "3.5", " ", "(", ",", "'", "!", "@", "$", "?", "[x]", "=", 0 };
    rec(99, al99, b, 4 + t);
    static const char *albytes[] = { "~80", "~ff", "~c3~a4", "~01", "~09", "~7f", "~0d", "a", "1", "+", 0 };
    rec(99, albytes, b, 4 + t);
    rec(0, albytes, b, 4 + t);
    /* every byte next to every class */
    for (int c = 1; c < 256; c++)
        for (int l = 0; l < 4; l++)
            for (int r = 0; r < 4; r++)
            {
                static const char *n[] = { "", "a", "1", "+" };
                MC_CASE("99 %s~%02x%s", n[l], c, n[r]);
                MC_CASE("4 %s~%02x~%02x%s", n[l], c, c, n[r]);
            }
    /* long tokens and many tokens */
    static const char *unit[] = { "a", "1", "+", "mod ", " ", "x1", "1.5+" };
    for (int u = 0; u < 7; u++)
        for (int k = 1; k <= 300; k++)
        {
            b[0] = 0;
            for (int i = 0; i < k; i++) strcat(b, unit[u]);
            MC_CASE("99 %s", b);
        }
    b[0] = 0;
    for (int u = 0; u < 7; u++) MC_SIZES(k, 300, thorough ? 4097 : 1025)
    {
        if (!mc_want()) continue;
        char *w = calloc((size_t)k * 4 + 9, 1);
        for (int i = 0, z = (int)strlen(unit[u]); i < k; i++) memcpy(w + (size_t)i * (size_t)z, unit[u], (size_t)z);
        mc_do("99 %s", w);
        free(w);
    }
}
