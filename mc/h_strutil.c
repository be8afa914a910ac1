/* C27: every short string over small alphabets, in buffers without slack (address sanitizer). */
#include "mc.h"
#include "util/string_util.h"

const char *mc_property = "C27";
void mc_worker_init(void) {}

static char *exact(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }

static void t_strip(const char *s)
{
    char *b = exact(s);
    size_t n = strlen(s), i = 0, j = n;
    while (i < n && s[i] == ' ') i++;
    while (j > i && s[j - 1] == ' ') j--;
    char *r = strip(b);
    if (r < b || r > b + n || strlen(r) != j - i || strncmp(r, s + i, j - i)) mc_fail("strip(\"%s\") = \"%s\"", s, r >= b && r <= b + n ? r : "(outside)");
    mc_state(mc_mix(mc_hash(s + i, j - i, 1), 1));
    free(b);
}

static void t_line(const char *s)
{
    char *b = exact(s);
    size_t lines = 1;
    for (const char *p = s; *p; p++) lines += *p == '\n';
    for (size_t k = 0; k < lines; k++)
    {
        const char *p = s;
        for (size_t q = 0; q < k; q++) p = strchr(p, '\n') + 1;
        size_t len = strcspn(p, "\n");
        char *start = NULL;
        size_t got = get_line_of_string(b, k, &start);
        if (start != b + (p - s) || got != len) { mc_fail("line %zu of the text is reported at %ld with length %zu, expected %ld and %zu", k, start ? (long)(start - b) : -1L, got, (long)(p - s), len); free(b); return; }
    }
    for (size_t k = lines; k < lines + 3; k++)
    {
        char *start = NULL;
        size_t got = get_line_of_string(b, k, &start);
        if (got != 0 || start != NULL) { mc_fail("line %zu of a text of %zu lines is reported", k, lines); break; }
    }
    char *start = b;
    if (get_line_of_string(NULL, 0, &start) != 0 || start != NULL) mc_fail("a line of no text is reported");
    mc_state(mc_mix(mc_hash_str(s, 2), lines));
    free(b);
}

/* all color codes at the position are skipped; an unterminated one extends to the end */
static void t_ansi(const char *s)
{
    char *b = exact(s);
    size_t n = strlen(s);
    for (size_t at = 0; at <= n; at++)
    {
        size_t p = at;
        while (s[p] == 27)
        {
            size_t q = p;
            while (s[q] && s[q] != 'm') q++;
            p = s[q] ? q + 1 : q;
        }
        char *r = skip_ansi(b + at);
        if (r != b + p) { mc_fail("skip_ansi at %zu of the text goes to %ld, expected %zu", at, (long)(r - b), p); break; }
    }
    mc_state(mc_hash_str(s, 3));
    free(b);
}

static void t_prefix(const char *s)
{
    for (size_t cut = 0; cut <= strlen(s); cut++)
    {
        /* prefix = first cut characters, string = the rest */
        char *p = exact(s), *t = exact(s + cut);
        p[cut] = 0;
        char *pe = exact(p);
        size_t i = 0;
        while (pe[i] && t[i] == pe[i]) i++;
        bool want = pe[i] == 0;
        if (begins_with(pe, t) != want) mc_fail("begins_with(\"%s\", \"%s\") is %d", pe, t, !want);
        mc_state(mc_mix(mc_hash_str(s, 4), cut));
        free(p); free(t); free(pe);
    }
}

static void t_split(const char *s)
{
    static const char *delims[][3] = { { ";", ";", ";" }, { ";", "ab", ";" }, { "ab", "a", "b" }, { "aa", "a", ";" }, { ";a", "b;", "a" } };
    for (int d = 0; d < 5; d++)
        for (int nd = 0; nd <= 3; nd++)
        {
            char *b = exact(s), *out[4] = { 0 };
            size_t at[4], len[4], parts = 1, pos = 0;
            for (int k = 0; k < nd; k++)
            {
                const char *f = strstr(s + pos, delims[d][k]);
                if (!f) break;
                at[parts - 1] = pos; len[parts - 1] = (size_t)(f - s) - pos;
                parts++;
                pos = (size_t)(f - s) + strlen(delims[d][k]);
            }
            at[parts - 1] = pos; len[parts - 1] = strlen(s) - pos;
            size_t got = str_split(b, out, (size_t)nd, delims[d][0], delims[d][1], delims[d][2]);
            if (got != parts) { mc_fail("str_split of \"%s\" yields %zu parts, expected %zu", s, got, parts); free(b); return; }
            for (size_t k = 0; k < parts; k++)
                if (out[k] != b + at[k] || strlen(out[k]) != len[k] || strncmp(out[k], s + at[k], len[k]))
                { mc_fail("str_split of \"%s\": part %zu is wrong", s, k); free(b); return; }
            mc_state(mc_mix(mc_hash_str(s, 5), (u64)(d * 4 + nd)));
            free(b);
        }
}

/* up to eight delimiters */
static void split_many(const char *s, size_t nd, const char **dl)
{
    char *b = exact(s), *out[9] = { 0 };
    size_t at[9], len[9], parts = 1, pos = 0;
    for (size_t k = 0; k < nd; k++)
    {
        const char *f = strstr(s + pos, dl[k]);
        if (!f) break;
        at[parts - 1] = pos; len[parts - 1] = (size_t)(f - s) - pos;
        parts++;
        pos = (size_t)(f - s) + strlen(dl[k]);
    }
    at[parts - 1] = pos; len[parts - 1] = strlen(s) - pos;
    size_t got = str_split(b, out, nd, dl[0], dl[1], dl[2], dl[3], dl[4], dl[5], dl[6], dl[7]);
    if (got != parts) mc_fail("str_split of \"%s\" yields %zu parts, expected %zu", s, got, parts);
    else for (size_t k = 0; k < parts; k++)
        if (out[k] != b + at[k] || strlen(out[k]) != len[k] || strncmp(out[k], s + at[k], len[k])) { mc_fail("str_split of \"%s\" at %zu delimiters: part %zu is wrong", s, nd, k); break; }
    mc_state(mc_mix(mc_hash_str(s, 15), (u64)nd));
    free(b);
}
static void t_many(const char *s)
{
    static const char *dl[][8] = {
        { ";", ";", ";", ";", ";", ";", ";", ";" }, { ";", "a", ";", "a", ";", "a", ";", "a" }, { "a", "a", ";", ";", "aa", ";;", "a;", ";a" }, { ";;", ";", ";;", ";", ";;", ";", ";;", ";" } };
    for (int d = 0; d < 4; d++) for (size_t nd = 4; nd <= 8; nd++) split_many(s, nd, dl[d]);
}
/* long texts */
static void t_big(int n)
{
    static char b[800000], c[800000];
    static const char *fill[] = { " ", "a", "\033[1m", "\n", ";", "\t", "a ", "\n\n ", "\033[0;31mx", ";ab" };
    for (int f = 0; f < 10; f++) for (int e = 0; e < 10; e++)
    {
        size_t k = 0, l = strlen(fill[f]);
        for (int i = 0; i < n; i++) { memcpy(b + k, fill[f], l); k += l; }
        strcpy(b + k, fill[e]);
        t_strip(b);
        snprintf(c, sizeof c, "%s%s", fill[e], b);
        t_strip(c);
        if (n <= 40) { t_line(b); t_line(c); t_prefix(b); }
        else if (n <= 300 && f % 3 == 0) t_line(b);
        t_ansi(c);
        static const char *dl[8] = { "ab", ";", "\n", " ", ";", "a", "a", "x" };
        for (size_t nd = 0; nd <= 8; nd++) { split_many(b, nd, dl); split_many(c, nd, dl); }
        if (mc_failed()) return;
    }
}
static void t_class(const char *s)
{
    char c = (char)atoi(s);
    bool dig = (c >= '0' && c <= '9') || c == '.';
    bool let = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']';
    if (is_space(c) != (c == ' ') || is_digit(c) != dig || is_letter(c) != let) mc_fail("character %d is misclassified", c);
    char t1[2] = { c, 0 }, t2[3] = { c, c, 0 };
    if (is_opening_parenthesis(t1) != (c == '(' || c == '{')) mc_fail("is_opening_parenthesis of character %d", c);
    if (is_closing_parenthesis(t1) != (c == ')' || c == '}')) mc_fail("is_closing_parenthesis of character %d", c);
    if (is_delimiter(t1) != (c == ',')) mc_fail("is_delimiter of character %d", c);
    if (c && (is_opening_parenthesis(t2) || is_closing_parenthesis(t2) || is_delimiter(t2))) mc_fail("a two-character token counts as parenthesis or delimiter");
    mc_state(mc_mix(6, (u64)(unsigned char)c));
}

void mc_run(const char *key)
{
    mc_trans(1);
    mc_trace(1);
    const char *s = key + 2;
    switch (key[0])
    {
        case 's': t_strip(s); break;
        case 'l': t_line(s); break;
        case 'a': t_ansi(s); break;
        case 'p': t_prefix(s); break;
        case 'd': t_split(s); break;
        case 'm': t_many(s); break;
        case 'b': t_big(atoi(s)); break;
        case 'c': t_class(s); break;
    }
}

static void rec(char kind, const char *alpha, char *b, int len, int max)
{
    b[len] = 0;
    MC_CASE("%c %s", kind, b);
    if (len == max) return;
    for (const char *a = alpha; *a; a++) { b[len] = *a; rec(kind, alpha, b, len + 1, max); }
    b[len] = 0;
}

void mc_enumerate(int thorough)
{
    char b[64];
    int t = thorough ? 2 : 0;
    rec('s', " a\t", b, 0, 9 + t);
    rec('s', " ", b, 0, 40);
    rec('l', "\na ", b, 0, 9 + t);
    rec('a', "\033m[a", b, 0, 8 + t);
    rec('a', "\033m\n0;", b, 0, 6 + t);
    rec('p', "ab ", b, 0, 8 + t);
    rec('d', ";ab ", b, 0, 7 + t);
    rec('m', ";a", b, 0, 12 + t);
    for (int i = 0; i <= (thorough ? 200 : 80); i++) MC_CASE("b %d", i);
    MC_SIZES(i, thorough ? 200 : 80, thorough ? 10001 : 4097) MC_CASE("b %d", i);
    for (int c = 0; c < 256; c++) MC_CASE("c %d", c);
}
