/* C23: rendering of tables against a canvas on which borders and texts are painted by definition. */
#include "ref.h"
#include "table/table.h"

const char *mc_property = "C23";

/* ---------------------------------------------------------------- model */
#define MC_ 11
#define MR 12
typedef struct { bool set; const char *text; int ha, va; bool oha, ova; int sx, sy; bool child; int px, py; int left, above; bool oleft, oabove; } MCell;
typedef struct { MCell c[MR][MC_]; int nc, nr, x, y; int vline[MC_], hline[MR], ha[MC_], va[MC_]; } MTable;
static void m_init(MTable *m)
{
    memset(m, 0, sizeof *m);
    m->nr = 1;
    for (int y = 0; y < MR; y++) for (int x = 0; x < MC_; x++) m->c[y][x].sx = m->c[y][x].sy = 1;
}
static void m_skip(MTable *m) { while (m->x < MC_ && m->c[m->y][m->x].set) m->x++; }
static bool m_can_add(const MTable *m) { return m->x < MC_ && !m->c[m->y][m->x].child; }
static void m_add(MTable *m, const char *t)
{
    MCell *c = &m->c[m->y][m->x];
    c->set = true; c->text = t;
    if (m->x >= m->nc) m->nc = m->x + 1;
    m_skip(m);
}
static void m_next(MTable *m)
{
    m->x = 0;
    m->y++;
    if (m->y == m->nr) m->nr++;
    else m_skip(m);
}
static void m_pos(MTable *m, int x, int y) { m->x = x; m->y = y; if (y >= m->nr) m->nr = y + 1; }
static bool m_can_span(const MTable *m, int sx, int sy)
{
    /* a spanning cell into which nothing was put yet must not be overlapped */
    for (int i = 0; i < sy && m->y + i < MR; i++) for (int j = 0; j < sx && m->x + j < MC_; j++)
    {
        const MCell *c = &m->c[m->y + i][m->x + j];
        if (!c->set && (c->sx > 1 || c->sy > 1)) return false;
    }
    return m->x + sx <= MC_ && m->y + sy <= MR && !m->c[m->y][m->x].child && m->c[m->y][m->x].sx == 1 && m->c[m->y][m->x].sy == 1;
}
static void m_span(MTable *m, int sx, int sy)
{
    MCell *c = &m->c[m->y][m->x];
    for (int j = sx - 1; j >= 1; j--) if (m->c[m->y][m->x + j].set) sx = j;
    for (int i = sy - 1; i >= 1; i--) for (int j = 0; j < sx; j++) if (m->c[m->y + i][m->x + j].set) sy = i;
    c->sx = sx; c->sy = sy;
    if (m->x + sx > m->nc) m->nc = m->x + sx;
    if (m->y + sy > m->nr) m->nr = m->y + sy;
    for (int i = 0; i < sy; i++) for (int j = 0; j < sx; j++) if (i || j)
    {
        MCell *k = &m->c[m->y + i][m->x + j];
        k->set = k->child = true;
        k->px = m->x; k->py = m->y;
        if (j) { k->left = 0; k->oleft = true; }
        if (i) { k->above = 0; k->oabove = true; }
    }
}
static void m_vline(MTable *m, int x, int st) { if (m->nc <= x) m->nc = x + 1; m->vline[x] = st; }
static void m_box(MTable *m, int st)
{
    m_pos(m, 0, 0);
    m_vline(m, 0, st);
    m->hline[0] = st;
    int n = m->nc;
    m_pos(m, n, m->nr - 1);
    m_vline(m, n, st);
    m->hline[m->nr - 1] = st;
}

/* ---------------------------------------------------------------- canvas */
static const char *glyph[3][16];
static void glyphs(void)
{
    /* arms: 1 up, 2 right, 4 down, 8 left */
    static const char *s[16] = { " ", " ", " ", "└", " ", "│", "┌", "├", " ", "┘", "─", "┴", "┐", "┤", "┬", "┼" };
    static const char *d[16] = { " ", " ", " ", "╚", " ", "║", "╔", "╠", " ", "╝", "═", "╩", "╗", "╣", "╦", "╬" };
    memcpy(glyph[1], s, sizeof s);
    memcpy(glyph[2], d, sizeof d);
}
static int lines_of(const char *t)
{
    if (!t) return 0;
    int n = 1;
    for (; *t; t++) n += *t == '\n';
    return n;
}
/* the visible characters of one line */
static int visible(const char *t, int line, char *out, int cap)
{
    while (line > 0 && *t) if (*t++ == '\n') line--;
    int n = 0;
    while (*t && *t != '\n')
    {
        if (*t == 27) { while (*t && *t != 'm') t++; if (*t) t++; continue; }
        if (n < cap) out[n] = *t;
        n++; t++;
    }
    return n;
}
static int width_of(const char *t)
{
    int w = 0;
    char b[4];
    for (int i = 0; i < lines_of(t); i++) { int n = visible(t, i, b, 0); if (n > w) w = n; }
    return w;
}
static const MTable *cur;
static bool last_col_empty, last_row_empty;
static int left_of(int y, int x)      /* style of the border left of a cell */
{
    if (y < 0 || x < 0) return 0;
    if (last_row_empty && y == cur->nr - 1) return 0;
    const MCell *c = &cur->c[y][x];
    return c->oleft ? c->left : cur->vline[x];
}
static int above_of(int y, int x)
{
    if (y < 0 || x < 0) return 0;
    if (last_col_empty && x == cur->nc - 1) return 0;
    const MCell *c = &cur->c[y][x];
    return c->oabove ? c->above : cur->hline[y];
}
#define CW 400
#define CH 120
static const char *canvas[CH][CW];
static char one[256][2];
/* sizes: single cells first, what spanning cells still lack is split evenly, left/top first */
static void sizes(const MTable *m, bool rows, const bool *sep, int *size)
{
    int n = rows ? m->nr : m->nc;
    for (int i = 0; i < n; i++) size[i] = 0;
    for (int pass = 0; pass < 2; pass++) for (int y = 0; y < m->nr; y++) for (int x = 0; x < m->nc; x++)
    {
        const MCell *c = &m->c[y][x];
        if (!c->set || c->child) continue;
        int from = rows ? y : x, len = rows ? c->sy : c->sx, need = rows ? lines_of(c->text) : width_of(c->text);
        if (pass == 0 ? len != 1 : len == 1) continue;
        for (int i = 0; i < len; i++) need -= size[from + i] + (i && sep[from + i]);
        if (need <= 0) continue;
        for (int i = 0; i < len; i++) size[from + i] += need / len + (i < need % len);
    }
}
static void render(const MTable *m, int *W, int *H)
{
    cur = m;
    bool vs[MC_ + 1] = { 0 }, hs[MR + 1] = { 0 };
    int cw[MC_], rh[MR];
    for (int x = 0; x < m->nc; x++) { vs[x] = m->vline[x] != 0; for (int y = 0; y < m->nr; y++) if (m->c[y][x].oleft && m->c[y][x].left) vs[x] = true; }
    for (int y = 0; y < m->nr; y++) { hs[y] = m->hline[y] != 0; for (int x = 0; x < m->nc; x++) if (m->c[y][x].oabove && m->c[y][x].above) hs[y] = true; }
    sizes(m, false, vs, cw);
    sizes(m, true, hs, rh);
    last_col_empty = cw[m->nc - 1] == 0;
    last_row_empty = rh[m->nr - 1] == 0;
    /* lines that exist only because of a suppressed override do not exist */
    if (last_row_empty) for (int x = 0; x < m->nc; x++) { vs[x] = m->vline[x] != 0; for (int y = 0; y < m->nr - 1; y++) if (m->c[y][x].oleft && m->c[y][x].left) vs[x] = true; }
    if (last_col_empty) for (int y = 0; y < m->nr; y++) { hs[y] = m->hline[y] != 0; for (int x = 0; x < m->nc - 1; x++) if (m->c[y][x].oabove && m->c[y][x].above) hs[y] = true; }
    sizes(m, false, vs, cw);
    sizes(m, true, hs, rh);
    int px[MC_ + 1], py[MR + 1];      /* where the column's separator / row's line is */
    int p = 0;
    for (int x = 0; x < m->nc; x++) { px[x] = p; p += vs[x] + cw[x]; }
    px[m->nc] = *W = p;
    p = 0;
    for (int y = 0; y < m->nr; y++) { py[y] = p; p += hs[y] + rh[y]; }
    py[m->nr] = *H = p;
    if (*W > CW || *H > CH) abort();
    for (int y = 0; y < *H; y++) for (int x = 0; x < *W; x++) canvas[y][x] = " ";
    for (int y = 0; y < m->nr; y++) for (int x = 0; x < m->nc; x++)
    {
        if (hs[y]) for (int i = 0; i < cw[x]; i++) { int st = above_of(y, x); if (st) canvas[py[y]][px[x] + vs[x] + i] = glyph[st][10]; }
        if (vs[x]) for (int i = 0; i < rh[y]; i++) { int st = left_of(y, x); if (st) canvas[py[y] + hs[y] + i][px[x]] = glyph[st][5]; }
        if (hs[y] && vs[x])
        {
            int a[4] = { left_of(y - 1, x), above_of(y, x), left_of(y, x), above_of(y, x - 1) }, arms = 0, dbl = 0, sgl = 0;
            for (int i = 0; i < 4; i++) { if (a[i]) arms |= 1 << i; if (a[i] == 2) dbl++; if (a[i] == 1) sgl++; }
            canvas[py[y]][px[x]] = glyph[dbl > sgl ? 2 : 1][arms];
        }
    }
    for (int y = 0; y < m->nr; y++) for (int x = 0; x < m->nc; x++)
    {
        const MCell *c = &m->c[y][x];
        if (c->child || (!c->set && c->sx == 1 && c->sy == 1)) continue;
        int x0 = px[x] + vs[x], y0 = py[y] + hs[y], x1 = px[x + c->sx], y1 = py[y + c->sy];
        /* borders inside the cell disappear */
        for (int i = y0; i < y1; i++) for (int j = x0; j < x1; j++) canvas[i][j] = " ";
        int ha = c->oha ? c->ha : m->ha[x], va = c->ova ? c->va : m->va[x], nl = lines_of(c->text), free_h = y1 - y0 - nl;
        int top = y0 + (va == V_ALIGN_TOP ? 0 : va == V_ALIGN_BOTTOM ? free_h : free_h / 2);
        for (int l = 0; l < nl; l++)
        {
            char b[300];
            int n = visible(c->text, l, b, 300), fw = x1 - x0 - n, lx = x0 + (ha == H_ALIGN_LEFT ? 0 : ha == H_ALIGN_RIGHT ? fw : fw / 2);
            if (top + l < y0 || top + l >= y1 || fw < 0) { mc_fail("model: text does not fit"); return; }
            for (int i = 0; i < n; i++) canvas[top + l][lx + i] = one[(unsigned char)b[i]];
        }
    }
}
static char expected[CW * CH * 4], got[CW * CH * 8], raw[2][CW * CH * 8];
static void print(Table *t, int k)
{
    raw[k][0] = 0;
    FILE *f = fmemopen(raw[k], sizeof raw[k], "w");
    fprint_table(t, f);
    fclose(f);
    mc_trans(1);
}
static int codes_in(const char *s) { int n = 0; for (; s && *s; s++) n += *s == 27; return n; }
static void compare(const MTable *m, Table *t)
{
    print(t, 0);
    print(t, 1);
    if (strcmp(raw[0], raw[1])) { mc_fail("printing twice gives different output:\n%s---\n%s", raw[0], raw[1]); return; }
    int codes = 0;
    char *o = got;
    for (const char *s = raw[0]; *s;)
    {
        if (*s == 27) { codes++; while (*s && *s != 'm') s++; if (*s) s++; }
        else *o++ = *s++;
    }
    *o = '\0';
    expected[0] = '\0';
    int want_codes = 0;
    if (m->nc > 0)
    {
        int W, H;
        render(m, &W, &H);
        if (mc_failed()) return;
        char *e = expected;
        for (int y = 0; y < H; y++) { for (int x = 0; x < W; x++) { size_t n = strlen(canvas[y][x]); memcpy(e, canvas[y][x], n); e += n; } *e++ = '\n'; }
        *e = '\0';
        for (int y = 0; y < m->nr; y++) for (int x = 0; x < m->nc; x++) if (!m->c[y][x].child) want_codes += codes_in(m->c[y][x].text);
    }
    if (strcmp(got, expected)) mc_fail("printed:\n%sexpected:\n%s", got, expected);
    else if (codes != want_codes) mc_fail("%d color codes printed, expected %d:\n%s", codes, want_codes, raw[0]);
    mc_state(mc_hash(got, (size_t)(o - got), 1));
    mc_trace(1);
}

/* ---------------------------------------------------------------- building both */
static const char *TEXT[] = { "a", "", "bbbb", "cc\nd", "\x1b[31mee\x1b[0m", "f\n\nggg", "\x1b[1;36m\x1b[4mhh\x1b[0m\niiiii", "\n", "\x1b[92mj", "kkkkkkkkkkkk", "lo\nng\ner", NULL };
#define NT 12
typedef struct { MTable m; Table *t; bool ok; } Both;
static void b_init(Both *b) { m_init(&b->m); b->t = get_empty_table(); b->ok = true; }
static void b_add(Both *b, int text)
{
    if (!m_can_add(&b->m)) { b->ok = false; return; }
    m_add(&b->m, TEXT[text]);
    if (TEXT[text] == NULL) add_empty_cell(b->t);
    else if (text % 3 == 0) add_cell(b->t, TEXT[text]);
    else if (text % 3 == 1) add_cell_fmt(b->t, "%s", TEXT[text]);
    else { char *c = malloc(strlen(TEXT[text]) + 1); strcpy(c, TEXT[text]); add_cell_gc(b->t, c); }
    mc_trans(1);
}
static void b_next(Both *b) { if (b->m.y + 1 >= MR) { b->ok = false; return; } m_next(&b->m); next_row(b->t); }
static void b_pos(Both *b, int x, int y) { m_pos(&b->m, x, y); set_position(b->t, (size_t)x, (size_t)y); }
static void b_span(Both *b, int sx, int sy)
{
    if (b->m.x >= MC_ || !m_can_span(&b->m, sx, sy)) { b->ok = false; return; }
    m_span(&b->m, sx, sy);
    set_span(b->t, (size_t)sx, (size_t)sy);
    mc_trans(1);
}
static void b_hline(Both *b, int st) { b->m.hline[b->m.y] = st; set_hline(b->t, (TableBorderStyle)st); }
static void b_vline(Both *b, int x, int st) { m_vline(&b->m, x, st); set_vline(b->t, (size_t)x, (TableBorderStyle)st); }
static void b_left(Both *b, int st)
{
    if (!m_can_add(&b->m)) { b->ok = false; return; }
    MCell *c = &b->m.c[b->m.y][b->m.x];
    c->left = st; c->oleft = true;
    override_left_border(b->t, (TableBorderStyle)st);
}
static void b_above(Both *b, int st)
{
    if (!m_can_add(&b->m)) { b->ok = false; return; }
    MCell *c = &b->m.c[b->m.y][b->m.x];
    c->above = st; c->oabove = true;
    override_above_border(b->t, (TableBorderStyle)st);
}
static void b_align(Both *b, int ha, int va)
{
    if (!m_can_add(&b->m)) { b->ok = false; return; }
    MCell *c = &b->m.c[b->m.y][b->m.x];
    if (ha >= 0) { c->ha = ha; c->oha = true; override_horizontal_alignment(b->t, (TableHAlign)ha); }
    if (va >= 0) { c->va = va; c->ova = true; override_vertical_alignment(b->t, (TableVAlign)va); }
}
static void b_align_row(Both *b, int ha, int va)
{
    for (int x = 0; x < MC_; x++)
    {
        MCell *c = &b->m.c[b->m.y][x];
        if (ha >= 0) { c->ha = ha; c->oha = true; }
        if (va >= 0) { c->va = va; c->ova = true; }
    }
    if (ha >= 0) override_horizontal_alignment_of_row(b->t, (TableHAlign)ha);
    if (va >= 0) override_vertical_alignment_of_row(b->t, (TableVAlign)va);
}
static void b_defaults(Both *b, int n, int h0, int v0)
{
    TableHAlign h[MC_];
    TableVAlign v[MC_];
    for (int i = 0; i < n; i++) { h[i] = (TableHAlign)((h0 + i) % 3); v[i] = (TableVAlign)((v0 + i) % 3); b->m.ha[i] = h[i]; b->m.va[i] = v[i]; }
    set_default_alignments(b->t, (size_t)n, h, v);
}
static void b_box(Both *b, int st) { if (b->m.nc >= MC_) { b->ok = false; return; } m_box(&b->m, st); make_boxed(b->t, (TableBorderStyle)st); }
static void b_all_vlines(Both *b, int st) { for (int i = 1; i < b->m.nc; i++) m_vline(&b->m, i, st); set_all_vlines(b->t, (TableBorderStyle)st); }
static void b_done(Both *b)
{
    /* borders of cells that never became part of the table have no place */
    for (int y = 0; y < b->m.nr; y++) for (int x = b->m.nc; x < MC_; x++) if (b->m.c[y][x].oleft || b->m.c[y][x].oabove) b->ok = false;
    if (b->ok && !mc_failed()) compare(&b->m, b->t);
    free_table(b->t);
}

/* ---------------------------------------------------------------- tilings */
static void borders(Both *b, int k, int rows)
{
    switch (k)
    {
        case 0: break;
        case 1: b_all_vlines(b, 1); break;
        case 2: for (int y = 0; y < rows; y++) { b_pos(b, 0, y); b_hline(b, 1 + y % 2); } break;
        case 3: b_all_vlines(b, 2); for (int y = 1; y < rows; y++) { b_pos(b, 0, y); b_hline(b, 1); } break;
        case 4: b_all_vlines(b, 1); for (int y = 1; y < rows; y++) { b_pos(b, 0, y); b_hline(b, 2); } b_pos(b, 0, rows); b_box(b, 1); break;
        case 5: b_pos(b, 0, rows); b_box(b, 2); break;
        case 6: b_vline(b, 0, 2); b_vline(b, 1, 1); b_pos(b, 0, rows - 1); b_hline(b, 2); break;
    }
}
/* tiling: for each anchor in row-major order the span digits */
static void tiling(int rows, int cols, const char *spans, int text0, int step, int align, int border, bool flow)
{
    Both b;
    b_init(&b);
    bool cover[MR][MC_] = { { 0 } };
    b_defaults(&b, cols, align % 3, align / 3 % 3);
    int k = 0;
    for (int y = 0; y < rows && b.ok; y++)
    {
        for (int x = 0; x < cols; x++)
        {
            if (cover[y][x]) continue;
            int sx = spans[2 * k] - '0', sy = spans[2 * k + 1] - '0';
            for (int i = 0; i < sy; i++) for (int j = 0; j < sx; j++) cover[y + i][x + j] = true;
            if (!flow) b_pos(&b, x, y);
            else if (b.m.x != x || b.m.y != y) { mc_fail("model position"); return; }
            if (sx > 1 || sy > 1) b_span(&b, sx, sy);
            if ((k + align) % 4 == 1) b_align(&b, (k + text0) % 3, -1);
            if ((k + align) % 5 == 2) b_align(&b, -1, (k + text0) % 3);
            b_add(&b, (text0 + k * step) % NT);
            k++;
        }
        if (flow && y + 1 < rows) b_next(&b);
    }
    borders(&b, border, rows);
    b_done(&b);
}
static int ntil;
static void (*til_emit)(int, int, const char *);
static void til_rec(int rows, int cols, bool cover[6][6], char *buf, int n)
{
    int x = 0, y = 0;
    while (y < rows && cover[y][x]) if (++x == cols) { x = 0; y++; }
    if (y == rows) { buf[n] = '\0'; ntil++; til_emit(rows, cols, buf); return; }
    for (int sy = 1; y + sy <= rows; sy++)
        for (int sx = 1; x + sx <= cols; sx++)
        {
            bool freee = true;
            for (int j = 0; j < sx; j++) if (cover[y][x + j]) freee = false;
            if (!freee) break;
            for (int i = 0; i < sy; i++) for (int j = 0; j < sx; j++) cover[y + i][x + j] = true;
            buf[n] = (char)('0' + sx); buf[n + 1] = (char)('0' + sy);
            til_rec(rows, cols, cover, buf, n + 2);
            for (int i = 0; i < sy; i++) for (int j = 0; j < sx; j++) cover[y + i][x + j] = false;
        }
}
static void tilings(int rows, int cols, void (*emit)(int, int, const char *))
{
    bool cover[6][6] = { { 0 } };
    char buf[80];
    til_emit = emit;
    til_rec(rows, cols, cover, buf, 0);
}

/* ---------------------------------------------------------------- operation sequences */
#define NOPS 22
static void op(Both *b, int o)
{
    switch (o)
    {
        case 0: b_add(b, 0); break;
        case 1: b_add(b, 3); break;
        case 2: b_add(b, 11); break;
        case 3: b_next(b); break;
        case 4: b_span(b, 2, 1); break;
        case 5: b_span(b, 1, 2); break;
        case 6: b_span(b, 2, 2); break;
        case 7: b_hline(b, 1); break;
        case 8: b_vline(b, 1, 1); break;
        case 9: b_left(b, 2); break;
        case 10: b_above(b, 1); break;
        case 11: b_pos(b, 0, 0); break;
        case 12: b_box(b, 1); break;
        case 13: b_add(b, 2); break;
        case 14: b_hline(b, 0); break;
        case 15: b_left(b, 0); break;
        case 16: b_align(b, 1, 1); break;
        case 17: b_pos(b, 1, 1); break;
        case 18: b_align_row(b, 2, 2); break;
        case 19: b_all_vlines(b, 2); break;
        case 20: b_span(b, 3, 1); break;
        case 21: b_above(b, 0); break;
    }
}
static const char opc[] = "abcdefghijklmnopqrstuv";
/* positions at which one more cell could be added although the row is full are outside the contract */
static bool pos_ok(const MTable *m) { return m->x < MC_; }
static void run_ops(const char *s)
{
    Both b;
    b_init(&b);
    for (; *s && b.ok; s++)
    {
        int o = (int)(strchr(opc, *s) - opc);
        if (o != 3 && o != 11 && o != 12 && o != 17 && !pos_ok(&b.m)) { b.ok = false; break; }
        op(&b, o);
    }
    b_done(&b);
}

/* many rows, long texts, many lines in a cell; a frame between columns and under the first row; expected text put together line by line */
static void large(int kind, int n)
{
    int rows = kind == 0 ? n : 4, cols = kind == 3 ? 11 : 3, cw[MC_] = { 0 };
    char **text = ref_alloc(sizeof(char *) * (size_t)(rows * cols));
    int *hl = ref_alloc(sizeof(int) * (size_t)rows);
    for (int y = 0; y < rows; y++)
    {
        hl[y] = 1;
        for (int x = 0; x < cols; x++)
        {
            char *t;
            if (kind == 1 && y == 2 && x == n % 3) { t = ref_alloc((size_t)n + 1); for (int i = 0; i < n; i++) t[i] = (char)('a' + i % 26); t[n] = 0; if (cw[x] < n) cw[x] = n; }
            else if (kind == 2 && y == 1 && x == n % 3) { t = ref_alloc((size_t)n * 3 + 1); t[0] = 0; char *q = t; for (int i = 0; i < n; i++) q += sprintf(q, "%s%c", i ? "\n" : "", 'a' + i % 26); hl[y] = n; if (cw[x] < 1) cw[x] = 1; }
            else { t = ref_printf("%.*s", kind == 3 ? (n + x * 7 + y) % 40 : (x + y * 2) % 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ"); if ((int)strlen(t) > cw[x]) cw[x] = (int)strlen(t); }
            text[y * cols + x] = t;
        }
    }
    Table *t = get_empty_table();
    static const TableHAlign HA[] = { H_ALIGN_LEFT, H_ALIGN_RIGHT, H_ALIGN_CENTER, H_ALIGN_LEFT, H_ALIGN_RIGHT, H_ALIGN_CENTER, H_ALIGN_LEFT, H_ALIGN_RIGHT, H_ALIGN_CENTER, H_ALIGN_LEFT, H_ALIGN_RIGHT };
    set_default_alignments(t, (size_t)cols, HA, NULL);
    for (int y = 0; y < rows; y++)
    {
        if (y == 1) set_hline(t, BORDER_SINGLE);
        for (int x = 0; x < cols; x++)
        {
            if (x % 3 == 0) add_cell(t, text[y * cols + x]);
            else if (x % 3 == 1) add_cell_fmt(t, "%s", text[y * cols + x]);
            else { char *c = malloc(strlen(text[y * cols + x]) + 1); strcpy(c, text[y * cols + x]); add_cell_gc(t, c); }
        }
        if (y + 1 < rows) next_row(t);
        mc_trans((u64)cols);
    }
    for (int x = 1; x < cols; x++) set_vline(t, (size_t)x, BORDER_SINGLE);
    int W = cols;
    for (int x = 0; x < cols; x++) W += cw[x] * 3 + 4;
    int H = 2;
    for (int y = 0; y < rows; y++) H += hl[y];
    size_t cap = (size_t)W * (size_t)H + 100;
    char *e = ref_alloc(cap), *p = e, *g = ref_alloc(cap);
    for (int y = 0; y < rows; y++)
    {
        if (y == 1)
        {
            for (int x = 0; x < cols; x++) { if (x) p += sprintf(p, "┼"); for (int i = 0; i < cw[x]; i++) p += sprintf(p, "─"); }
            *p++ = '\n';
        }
        for (int l = 0; l < hl[y]; l++)
        {
            for (int x = 0; x < cols; x++)
            {
                if (x) p += sprintf(p, "│");
                const char *c = text[y * cols + x];
                char b[2] = { 0 };
                int len;
                if (kind == 2 && y == 1 && x == n % 3) { b[0] = (char)('a' + l % 26); c = b; len = 1; }
                else len = l ? 0 : (int)strlen(c);
                int fr = cw[x] - len, lf = HA[x] == H_ALIGN_LEFT ? 0 : HA[x] == H_ALIGN_RIGHT ? fr : fr / 2;
                memset(p, ' ', (size_t)cw[x]);
                memcpy(p + lf, c, (size_t)len);
                p += cw[x];
            }
            *p++ = '\n';
        }
    }
    *p = 0;
    memset(g, 0, cap);
    FILE *f = fmemopen(g, cap, "w");
    fprint_table(t, f);
    fclose(f);
    free_table(t);
    if (strcmp(g, e))
    {
        size_t at = 0, line = 1;
        for (; g[at] == e[at]; at++) line += g[at] == '\n';
        mc_fail("table of %d rows, %d columns (%d, %d): line %zu differs: '%.60s' expected '%.60s'", rows, cols, kind, n, line, g + at, e + at);
    }
    mc_state(mc_hash_str(e, 3));
    mc_trace(1);
}
/* ---------------------------------------------------------------- cases */
static void ops_block(const char *prefix, int len, int nops)
{
    char s[16];
    int p = (int)strlen(prefix), i[8] = { 0 };
    for (;;)
    {
        strcpy(s, prefix);
        for (int k = 0; k < len - p; k++) s[p + k] = opc[i[k]];
        s[len] = '\0';
        mc_context("operations %s", s);
        run_ops(s);
        if (mc_failed()) return;
        int k = len - p - 1;
        while (k >= 0 && ++i[k] == nops) i[k--] = 0;
        if (k < 0) return;
    }
}
void mc_worker_init(void)
{
    mc_case_timeout = 60;
    glyphs();
    for (int i = 0; i < 256; i++) one[i][0] = (char)i;
}
void mc_run(const char *key)
{
    ref_reset();
    long live = mc_live_blocks();
    int r, c, th, n, a, b_;
    char s[100];
    if (sscanf(key, "til %d %d %d %99s", &r, &c, &th, s) == 4)
    {
        for (int t = 0; t < NT && !mc_failed(); t++) for (int step = 1; step <= (th ? 5 : 2); step++) for (int al = 0; al < 9; al++)
        {
            if (!th && (t + step + al) % 3) continue;
            for (int bo = 0; bo < 7; bo++)
            {
                mc_context("text %d step %d alignment %d borders %d", t, step, al, bo);
                tiling(r, c, s, t, step, al, bo, (t + bo) % 2);
                if (mc_failed()) return;
            }
        }
    }
    else if (sscanf(key, "ops %d %d %99s", &n, &c, s) == 3) ops_block(s, n, c);
    else if (sscanf(key, "one %99s", s) == 1) run_ops(s);
    else if (sscanf(key, "text %d %d", &a, &b_) == 2)
        for (int t2 = 0; t2 < NT; t2++) for (int t3 = 0; t3 < NT; t3++) for (int al = 0; al < 9 && !mc_failed(); al++)
        {
            Both b;
            b_init(&b);
            b_defaults(&b, 2, al % 3, al / 3);
            b_add(&b, a); b_add(&b, b_); b_next(&b); b_add(&b, t2); b_add(&b, t3);
            if ((t2 + t3) % 2) { b_vline(&b, 1, 1); b_hline(&b, 2); }
            b_done(&b);
        }
    else if (sscanf(key, "border %d %d", &a, &b_) == 2)
    {
        /* 2x2 grid: vlines 0..2, hlines 0..2 (27 x 27), overrides of every cell */
        for (int cell = 0; cell < 9; cell++) for (int l = 0; l < 4; l++) for (int ab = 0; ab < 4 && !mc_failed(); ab++)
        {
            Both b;
            b_init(&b);
            b_add(&b, 0); b_add(&b, 2); b_next(&b); b_add(&b, 4); b_add(&b, 0); b_next(&b);
            b_vline(&b, 0, a % 3); b_vline(&b, 1, a / 3 % 3); if (a / 9) b_vline(&b, 2, a / 9);
            for (int y = 0; y < 3; y++) { int st = y == 0 ? b_ % 3 : y == 1 ? b_ / 3 % 3 : b_ / 9; b_pos(&b, 0, y); if (st) b_hline(&b, st); }
            b_pos(&b, cell % 3, cell / 3);
            if (l < 3) b_left(&b, l);
            if (ab < 3) b_above(&b, ab);
            if (l == 1) b_left(&b, 0);
            b_done(&b);
        }
    }
    else if (sscanf(key, "mask %d %d", &a, &b_) == 2)
    {
        /* 3x3 grid of which the cells in mask a are set; then one more cell of every size is put at every position */
        for (int at = 0; at < 9; at++) for (int sp = 1; sp < 9 && !mc_failed(); sp++)
        {
            Both b;
            b_init(&b);
            for (int k = 0; k < 9; k++) { b_pos(&b, k % 3, k / 3); if (a >> k & 1) b_add(&b, k % NT); }
            if (b_) { b_pos(&b, 0, 1); b_hline(&b, 1); b_pos(&b, 0, 2); b_hline(&b, 2); b_vline(&b, 1, 1); b_vline(&b, 2, 2); }
            b_pos(&b, at % 3, at / 3);
            b_span(&b, 1 + sp % 3, 1 + sp / 3);
            b_add(&b, 2);
            b_done(&b);
        }
    }
    else if (sscanf(key, "big %d %d", &a, &b_) == 2) large(a, b_);
    else if (sscanf(key, "wide %d %d", &a, &b_) == 2)
    {
        Both b;
        b_init(&b);
        for (int y = 0; y < b_; y++) { for (int x = 0; x < a; x++) b_add(&b, (x + y * 5) % NT); if (y + 1 < b_) b_next(&b); }
        b_all_vlines(&b, 1);
        if (a < MC_) { b_next(&b); b_box(&b, 2); }
        b_done(&b);
        b_init(&b);
        for (int y = 0; y < b_; y++) { if (y > 0) { b_span(&b, a, 1); b_add(&b, 9); } else for (int x = 0; x < a; x++) b_add(&b, 0); if (y + 1 < b_) b_next(&b); }
        b_done(&b);
    }
    else { mc_fail("bad key"); return; }
    if (!mc_failed() && mc_live_blocks() != live) mc_fail("%ld heap blocks left", mc_live_blocks() - live);
}
static int th_;
static void emit_til(int r, int c, const char *s) { MC_CASE("til %d %d %d %s", r, c, th_, s); }
static void emit_til1(int r, int c, const char *s) { static int k; if (k++ % (th_ ? 3 : 40) == 0) MC_CASE("til %d %d %d %s", r, c, 0, s); }
void mc_enumerate(int thorough)
{
    th_ = thorough;
    for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) tilings(r, c, emit_til);
    tilings(2, 4, emit_til); tilings(4, 2, emit_til);
    tilings(3, 4, emit_til1); tilings(4, 3, emit_til1);
    if (thorough) tilings(4, 4, emit_til1);
    for (int a = 0; a < NT; a++) for (int b = 0; b < NT; b++) MC_CASE("text %d %d", a, b);
    for (int a = 0; a < 27; a++) for (int b = 0; b < 27; b++) MC_CASE("border %d %d", a, b);
    for (int a = 0; a < 512; a++) for (int b = 0; b < 2; b++) MC_CASE("mask %d %d", a, b);
    for (int a = 1; a <= MC_; a++) for (int b = 1; b <= 6; b++) MC_CASE("wide %d %d", a, b);
    for (int k = 0; k < 4; k++)
    {
        for (int n = 1; n < 64; n++) MC_CASE("big %d %d", k, n);
        if (k < 3) MC_SIZES(n, 63, thorough ? 8193 : 1025) MC_CASE("big %d %d", k, n);
    }
    for (int i = 0; i < NOPS; i++) for (int j = 0; j < NOPS; j++)
    {
        for (int len = 2; len <= (thorough ? 5 : 4); len++) MC_CASE("ops %d %d %c%c", len, NOPS, opc[i], opc[j]);
        if (i < 13 && j < 13) for (int k = 0; k < 13; k++) MC_CASE("ops %d 13 %c%c%c", thorough ? 7 : 5, opc[i], opc[j], opc[k]);
    }
}
