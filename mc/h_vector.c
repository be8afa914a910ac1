/* C21: every sequence of vector and string builder operations against plain arrays. */
#include "mc.h"
#include "util/vector.h"
#include "util/string_builder.h"

const char *mc_property = "C21";
void mc_worker_init(void) {}
static const size_t esizes[] = { 8, 1, 3, 24 };
static const size_t caps[] = { 0, 1, 2, 3, 8 };
#define VOPS "pe0125rckt"     /* push, push_empty, push_many of 0/1/2/5, pop, clear, peek, trim */
#define MAXE 400

static void vec_case(const char *arg)
{
    int ei; long cap; char ops[128] = "";
    sscanf(arg, "%d %ld %127s", &ei, &cap, ops);
    size_t es = esizes[ei];
    static unsigned char model[MAXE][24];
    int n = 0;
    unsigned st = 1;
    long live0 = mc_live_blocks();
    Vector v = vec_create(es, (size_t)cap);
    for (char *o = ops; *o && !mc_failed(); o++)
    {
        unsigned char buf[8 * 24];
        int k = *o >= '0' && *o <= '9' ? *o - '0' : 1;
        if (*o == '9') k = 7;
        for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)(st * 37 + i);
        st++;
        unsigned char *r;
        switch (*o)
        {
            case 'p': r = vec_push(&v, buf); goto pushed;
            case 'e': r = vec_push_empty(&v); memcpy(r, buf, es); goto pushed;
            case 'r':
                r = vec_pop(&v);
                if (n == 0) { if (r) mc_fail("vec_pop on an empty vector yields an element"); }
                else { n--; if (!r || memcmp(r, model[n], es)) mc_fail("vec_pop yields a wrong element"); }
                break;
            case 'k':
                r = vec_peek(&v);
                if (n == 0 ? r != NULL : (!r || memcmp(r, model[n - 1], es))) mc_fail("vec_peek yields a wrong element");
                break;
            case 'c': vec_clear(&v); n = 0; break;
            case 't': vec_trim(&v); break;
            default: r = vec_push_many(&v, (size_t)k, buf);
            pushed:
                for (int i = 0; i < k; i++) memcpy(model[n + i], buf + (size_t)i * es, es);
                if (k > 0 && r != vec_get(&v, (size_t)n)) mc_fail("push does not return the new element");
                n += k;
        }
        mc_trans(1);
    }
    if (vec_count(&v) != (size_t)n) mc_fail("vec_count is %zu, expected %d", vec_count(&v), n);
    for (int i = 0; i < n && !mc_failed(); i++)
        if (memcmp(vec_get(&v, (size_t)i), model[i], es)) mc_fail("element %d of %d differs", i, n);
    VectorIterator it = vec_get_iterator(&v);
    for (int round = 0; round < 2 && !mc_failed(); round++)
    {
        for (int i = 0; i < n && !mc_failed(); i++)
            if (iterator_get_next((Iterator *)&it) != vec_get(&v, (size_t)i)) mc_fail("iteration differs at %d", i);
        if (!mc_failed() && iterator_get_next((Iterator *)&it) != NULL) mc_fail("iteration goes past the end");
        iterator_reset((Iterator *)&it);
    }
    u64 h = mc_mix(es, (u64)n);
    for (int i = 0; i < n; i++) h = mc_hash(model[i], es, h);
    mc_state(h);
    vec_destroy(&v);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("heap blocks left after vec_destroy");
}

/* string builder; ops: lower-case letter a..z appends that many characters (a=0) through %s, A..Z: %d-like formats, '.' one char, '!' clear, '~' trim */
static void sb_append(StringBuilder *b, char *model, size_t *n, char o, unsigned st)
{
    char txt[5000];
    if (o >= 'a' && o <= 'z')
    {
        int k = o - 'a';
        for (int i = 0; i < k; i++) txt[i] = (char)('0' + (st * 7 + (unsigned)i) % 64);
        txt[k] = 0;
        strbuilder_append(b, "%s", txt);
    }
    else if (o == '.')
    {
        txt[0] = (char)('A' + st % 26); txt[1] = 0;
        strbuilder_append_char(b, txt[0]);
    }
    else if (o == 'N') { sprintf(txt, "%d|%-5s|%.*f", (int)st - 5, "ab", 3, st / 3.0); strbuilder_append(b, "%d|%-5s|%.*f", (int)st - 5, "ab", 3, st / 3.0); }
    else if (o == 'P') { strcpy(txt, "100%\\"); strbuilder_append(b, "100%%\\"); }
    else if (o == 'M') { sprintf(txt, "%s%s%c", "left", "", 'x'); strbuilder_append(b, "%s%s%c", "left", "", 'x'); }
    else if (o == '!') { strbuilder_clear(b); *n = 0; model[0] = 0; return; }
    else if (o == '~') { vec_trim(b); return; }
    strcpy(model + *n, txt);
    *n += strlen(txt);
}
static void sb_check(StringBuilder *b, const char *model, size_t n)
{
    if (vec_count(b) != n + 1) { mc_fail("string builder counts %zu characters, expected %zu", vec_count(b), n + 1); return; }
    const char *s = strbuilder_to_str(b);
    if (strlen(s) != n || strcmp(s, model) != 0) mc_fail("string builder holds \"%s\", expected \"%s\"", s, model);
}
static void sb_case(const char *arg)
{
    int cap; char ops[128] = "";
    sscanf(arg, "%d %127s", &cap, ops);
    static char model[20000];
    model[0] = 0;
    size_t n = 0;
    long live0 = mc_live_blocks();
    StringBuilder b;
    if (cap >= 0) b = strbuilder_create((size_t)cap);
    else
    {
        char *h = malloc((size_t)(-cap));
        memset(h, 'h', (size_t)(-cap) - 1);
        h[-cap - 1] = 0;
        strcpy(model, h);
        n = strlen(h);
        b = strbuilder_from_heapstring(h);
    }
    unsigned st = 1;
    for (char *o = ops; *o && !mc_failed(); o++, st++)
    {
        if (*o == ',') continue;
        sb_append(&b, model, &n, *o, st);
        mc_trans(1);
    }
    sb_check(&b, model, n);
    mc_state(mc_hash(model, n, 77));
    vec_destroy(&b);
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("heap blocks left after destroying the builder");
}
/* start capacity, then two appends of any length */
static void len_case(const char *arg)
{
    int cap, l1, l2;
    sscanf(arg, "%d %d %d", &cap, &l1, &l2);
    static char t1[80000], t2[80000], model[200000];
    for (int i = 0; i < l1; i++) t1[i] = (char)('a' + i % 26);
    t1[l1] = 0;
    for (int i = 0; i < l2; i++) t2[i] = (char)('A' + i % 26);
    t2[l2] = 0;
    StringBuilder b = strbuilder_create((size_t)cap);
    strbuilder_append(&b, "%s", t1);
    strbuilder_append(&b, "%s", t2);
    strbuilder_append_char(&b, '.');
    sprintf(model, "%s%s.", t1, t2);
    sb_check(&b, model, (size_t)(l1 + l2 + 1));
    mc_state(mc_hash(model, strlen(model), (u64)cap));
    mc_trans(3);
    vec_destroy(&b);
}
/* every character, alone and between others, one by one and within a text */
static void char_case(const char *arg)
{
    int cap, c, pos;
    sscanf(arg, "%d %d %d", &cap, &c, &pos);
    char t[16] = "abcdefgh", model[64] = "";
    if (pos < 8) t[pos] = (char)c;
    StringBuilder b = strbuilder_create((size_t)cap);
    for (int r = 0; r < 2; r++)
    {
        for (char *p = t; *p; p++) { strbuilder_append_char(&b, *p); sprintf(model + strlen(model), "%c", *p); sb_check(&b, model, strlen(model)); if (mc_failed()) break; }
        strbuilder_append(&b, "%s|%c", t, (char)c);
        sprintf(model + strlen(model), "%s|%c", t, (char)c);
    }
    sb_check(&b, model, strlen(model));
    mc_state(mc_hash(model, strlen(model), (u64)cap));
    mc_trans(20);
    vec_destroy(&b);
}
/* blocks of elements of any size: push a block, one, pop some, push a block again */
static void block_case(const char *arg)
{
    int size, cap, a, b;
    sscanf(arg, "%d %d %d %d", &size, &cap, &a, &b);
    size_t z = (size_t)size;
    static unsigned char src[64 * 71000], model[64 * 143000];
    static bool filled;
    if (!filled) for (size_t i = 0; i < sizeof src; i++) src[i] = (unsigned char)(i * 31 + i / 251);
    filled = true;
    Vector v = vec_create(z, (size_t)cap);
    size_t n = 0;
    vec_push_many(&v, (size_t)a, src); memcpy(model, src, z * (size_t)a); n += (size_t)a;
    vec_push(&v, src + 5); memcpy(model + n * z, src + 5, z); n++;
    for (int i = 0; i < a / 3; i++) { if (memcmp(vec_pop(&v), model + (n - 1) * z, z)) mc_fail("vec_pop gives another element"); n--; }
    vec_push_many(&v, (size_t)b, src + z); memcpy(model + n * z, src + z, z * (size_t)b); n += (size_t)b;
    memset(vec_push_empty(&v), 7, z); memset(model + n * z, 7, z); n++;
    if (vec_count(&v) != n) mc_fail("%zu elements, expected %zu", vec_count(&v), n);
    for (size_t i = 0; i < n && !mc_failed(); i++) if (memcmp(vec_get(&v, i), model + i * z, z)) mc_fail("element %zu of %zu differs (blocks of %d and %d)", i, n, a, b);
    mc_state(mc_mix(mc_hash(model, n * z, z), (u64)cap));
    mc_trans(4);
    vec_destroy(&v);
}
static void ensure_case(const char *arg)
{
    int cap, need; long c;
    sscanf(arg, "%d %d", &cap, &need);
    Vector v = vec_create(4, (size_t)cap);
    for (c = 0; c < cap; c++) VEC_PUSH_ELEM(&v, int, (int)c);
    vec_ensure_size(&v, (size_t)need);
    if (v.buffer_size < (size_t)need) mc_fail("vec_ensure_size(%d) leaves room for %zu only", need, v.buffer_size);
    for (c = 0; c < cap; c++) if (*(int *)vec_get(&v, (size_t)c) != c) mc_fail("element lost");
    for (c = 0; c < need; c++) *((int *)v.buffer + c) = (int)c;   /* must all be writable */
    mc_state(mc_mix((u64)cap, (u64)need));
    mc_trans(1);
    vec_destroy(&v);
}

void mc_run(const char *key)
{
    mc_trace(1);
    switch (key[0])
    {
        case 'v': vec_case(key + 2); break;
        case 's': sb_case(key + 2); break;
        case 'l': len_case(key + 2); break;
        case 'n': ensure_case(key + 2); break;
        case 'c': char_case(key + 2); break;
        case 'b': block_case(key + 2); break;
    }
}

static void rec(const char *pre, const char *alpha, char *ops, int len, int max)
{
    ops[len] = 0;
    MC_CASE("%s %s", pre, len ? ops : (pre[0] == 's' ? "," : ""));
    if (len == max) return;
    for (const char *a = alpha; *a; a++) { ops[len] = *a; rec(pre, alpha, ops, len + 1, max); }
    ops[len] = 0;
}

void mc_enumerate(int thorough)
{
    char ops[64], pre[64];
    for (int e = 0; e < 4; e++)
        for (int c = 0; c < 5; c++)
        {
            sprintf(pre, "v %d %zu", e, caps[c]);
            rec(pre, VOPS, ops, 0, (e == 0 && c < 4 ? 5 : 4) + thorough);
        }
    for (int cap = -9; cap <= 17; cap++)
    {
        if (cap == 0 || cap != 0) sprintf(pre, "s %d", cap);
        if (cap < 0 && cap < -9) continue;
        rec(pre, "abcehz.NPM!~", ops, 0, 3 + thorough);
    }
    for (int cap = 0; cap <= 12; cap += thorough ? 1 : 4) for (int c = -128; c < 128; c++) if (c) for (int p = 0; p <= 8; p++) MC_CASE("c %d %d %d", cap, c, p);
    static const int ES[] = { 1, 4, 8, 12, 40, 64 };
    for (int e = 0; e < 6; e++) for (int cap = 0; cap <= (thorough ? 40 : 16); cap += 1 + cap / 4)
        for (int a = 0; a <= 1000; a += 1 + a / (thorough ? 16 : 6)) for (int b = 0; b <= 1000; b += 1 + b / (thorough ? 16 : 6)) MC_CASE("b %d %d %d %d", ES[e], cap, a, b);
    int L = thorough ? 140 : 60;
    for (int cap = 0; cap <= (thorough ? 60 : 24); cap++)
        for (int a = 0; a <= L; a++)
            for (int b = 0; b <= L; b++) MC_CASE("l %d %d %d", cap, a, b);
    for (int cap = 0; cap <= 24; cap += 8)
        for (int a = 0; a <= 4096; a = a < 8 ? a + 1 : a * 2 - (a & 1) + 1)
            for (int b = 4000; b <= 4100; b += 7) MC_CASE("l %d %d %d", cap, a, b);
    MC_SIZES(a, 600, thorough ? 70000 : 33000)
    {
        for (int cap = 0; cap <= 16; cap += 8) { MC_CASE("b 4 %d %d 3", cap, a); MC_CASE("b 8 %d 3 %d", cap, a); MC_CASE("b 24 %d %d %d", cap, a, a); MC_CASE("b 1 %d %d 0", cap, a); }
        for (int cap = 0; cap <= 16; cap += 8) { MC_CASE("l %d %d 0", cap, a); MC_CASE("l %d 1 %d", cap, a); MC_CASE("l %d %d %d", cap, a, a); MC_CASE("n %d %d", cap, a); }
        MC_CASE("l %d 5 5", a); MC_CASE("b 8 %d 5 5", a); MC_CASE("n %d %d", a, a + 1);
    }
    for (int cap = 0; cap <= 40; cap++)
        for (int need = 0; need <= (thorough ? 1000 : 200); need++) MC_CASE("n %d %d", cap, need);
}
