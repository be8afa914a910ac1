/* C20: every sequence of list operations against a plain array. */
#include "mc.h"
#include "util/linked_list.h"

const char *mc_property = "C20";
void mc_worker_init(void) {}
#define CAP 80000
static const size_t esizes[] = { 8, 1, 24 };
static size_t es;
static LinkedList L;
static unsigned model[CAP];       /* stamp of each element */
static ListNode *addr[CAP];
static int n;
static unsigned next_stamp;

static void fill(unsigned char *d, unsigned stamp) { for (size_t b = 0; b < es; b++) d[b] = (unsigned char)(stamp + 3 * b); }
static bool is(const unsigned char *d, unsigned stamp) { for (size_t b = 0; b < es; b++) if (d[b] != (unsigned char)(stamp + 3 * b)) return false; return true; }

static void ins(int at, ListNode *nd, unsigned st)
{
    for (int i = n; i > at; i--) { model[i] = model[i - 1]; addr[i] = addr[i - 1]; }
    model[at] = st; addr[at] = nd; n++;
}
static void del(int at)
{
    n--;
    for (int i = at; i < n; i++) { model[i] = model[i + 1]; addr[i] = addr[i + 1]; }
}

static void check(void)
{
    if (list_count(&L) != (size_t)n) { mc_fail("list_count is %zu, expected %d", list_count(&L), n); return; }
    if (n == 0 && (L.first != NULL || L.last != NULL)) { mc_fail("empty list has first or last"); return; }
    if (n > 0 && (L.first != addr[0] || L.last != addr[n - 1])) { mc_fail("first or last element wrong"); return; }
    for (int i = 0; i < n; i += n > 4500 && i > 300 && i < n - 300 ? 401 : 1)      /* long lists: not every index, which takes a walk each */
    {
        ListNode *nd = list_get_node(&L, (size_t)i);
        if (nd != addr[i]) { mc_fail("list_get_node(%d) is another node than the one inserted there", i); return; }
        if (list_get_at(&L, (size_t)i) != listnode_get_data(nd)) { mc_fail("list_get_at(%d) is not the payload of node %d", i, i); return; }
        if (!is(list_get_at(&L, (size_t)i), model[i])) { mc_fail("payload %d changed", i); return; }
        if (listnode_get_next(nd) != (i + 1 < n ? addr[i + 1] : NULL)) { mc_fail("listnode_get_next(%d) wrong", i); return; }
    }
    LinkedListIterator it = list_get_iterator(&L);
    for (int round = 0; round < 3; round++)
    {
        if (round == 2 && n > 0)
        {
            for (int k = 0; k < (n + 1) / 2; k++) iterator_get_next((Iterator *)&it);
            iterator_reset((Iterator *)&it);
        }
        for (int i = 0; i < n; i++)
            if (iterator_get_next((Iterator *)&it) != listnode_get_data(addr[i])) { mc_fail("iteration yields a wrong element at %d", i); return; }
        if (iterator_get_next((Iterator *)&it) != NULL) { mc_fail("iteration goes past the end"); return; }
    }
}

/* op letters: p append with data, q append without; others take a position: i insert_at, a insert_after(node), d delete_at, x delete_node */
static void op(char c, int pos)
{
    unsigned char buf[32];
    unsigned st = next_stamp++;
    ListNode *nd;
    fill(buf, st);
    switch (c)
    {
        case 'p': nd = list_append(&L, buf); ins(n, nd, st); break;
        case 'q': nd = list_append(&L, NULL); fill(listnode_get_data(nd), st); ins(n, nd, st); break;
        case 'i': nd = list_insert_at(&L, (size_t)pos, buf); ins(pos, nd, st); break;
        case 'a': nd = list_insert_after(&L, pos == 0 ? NULL : addr[pos - 1], pos % 2 ? NULL : buf);
                  if (pos % 2) fill(listnode_get_data(nd), st);
                  ins(pos, nd, st); break;
        case 'd': list_delete_at(&L, (size_t)pos); del(pos); break;
        case 'x': list_delete_node(&L, addr[pos]); del(pos); break;
    }
}

/* key: <size idx> <initial length> op:pos,op:pos,... */
void mc_run(const char *key)
{
    int ei, init;
    char ops[512] = "";
    sscanf(key, "%d %d %511s", &ei, &init, ops);
    es = esizes[ei];
    n = 0; next_stamp = 7;
    long live0 = mc_live_blocks();
    L = list_create(es);
    for (int i = 0; i < init; i++) op('p', 0);
    int steps = init;
    for (char *p = strtok(ops, ","); p && !mc_failed(); p = strtok(NULL, ","))
    {
        op(p[0], atoi(p + 1));
        steps++;
    }
    check();
    u64 h = (u64)ei;
    for (int i = 0; i < n; i++) h = mc_mix(h, model[i]);
    mc_state(h);
    mc_trans((u64)steps);
    mc_trace(1);
    list_destroy(&L);
    if (!mc_failed() && list_count(&L) != 0) mc_fail("list_count is %zu after list_destroy", list_count(&L));
    if (!mc_failed() && mc_live_blocks() != live0) mc_fail("%ld heap blocks left after list_destroy", mc_live_blocks() - live0);
}

static void rec(int ei, int init, char *ops, int depth, int len)
{
    MC_CASE("%d %d %s", ei, init, ops[0] ? ops : ",");
    if (depth == 0) return;
    size_t l = strlen(ops);
#define STEP(c, pos, dl) do { sprintf(ops + l, "%s%c%d", l ? "," : "", c, pos); rec(ei, init, ops, depth - 1, len + dl); ops[l] = 0; } while (0)
    STEP('p', 0, 1);
    STEP('q', 0, 1);
    for (int i = 0; i <= len; i++) STEP('i', i, 1);
    for (int i = 0; i <= len; i++) STEP('a', i, 1);
    for (int i = 0; i < len; i++) STEP('d', i, -1);
    for (int i = 0; i < len; i++) STEP('x', i, -1);
}

void mc_enumerate(int thorough)
{
    char ops[512] = "";
    for (int e = 0; e < 3; e++) rec(e, 0, ops, e == 0 ? 6 + thorough : 5, 0);
    for (int init = 1; init <= 12; init++) rec(0, init, ops, init <= 6 ? 3 + thorough : 2 + thorough, init);
    for (int init = 13; init <= (thorough ? 200 : 60); init++) rec(0, init, ops, 1, init);
    MC_SIZES(init, thorough ? 200 : 63, 70000)
    {
        int at[] = { 0, 1, init / 2, init - 2, init - 1 };
        if (init > 4097) { MC_CASE("0 %d p0,q0", init); MC_CASE("0 %d i%d,a%d,d0,x5,p0", init, init, init + 1);
            static const char O[] = "iadx";
            for (int p = 1; p <= init; p = p < init - 3 ? p * 2 > init - 3 ? init - 3 : p * 2 : p + 1)
                for (int o = 0; o < 4; o++) for (int d = -1; d < 2; d++) if (p + d >= 0 && p + d < init) MC_CASE("0 %d %c%d,i%d,p0", init, O[o], p + d, p + d - (p + d == init - 1));
            continue; }
        static const char O[] = "iadx";
        if (init <= (thorough ? 4097 : 1025)) for (int a = 0; a < 4; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 5; d++) MC_CASE("0 %d %c%d,%c%d,p0", init, O[a], at[b], O[c], at[d] - (at[d] > init / 2));
        MC_CASE("0 %d p0,q0", init);
        MC_CASE("0 %d i%d,a%d", init, init, init + 1);
    }

}
