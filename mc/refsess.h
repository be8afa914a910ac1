/*
 * Reference session: what every line is answered with, derived from README.md by substitution on the
 * reference trees (no rewriting, no operator tables of the implementation).  rs_check runs a line through
 * the real command layer and the model and compares.
 */
#pragma once
#include "simp.h"

static RSession rs;
static bool rs_rules;                       /* simplification rules are loaded */

static void rs_begin(bool rules)
{
    rs.ctx = rc;
    rs.ndefs = 0;
    rs.hist.n = 0;
    rs_rules = rules;
}
static void rs_push(double v)
{
    if (rs.hist.n == 64) { memmove(rs.hist.v, rs.hist.v + 1, 63 * sizeof(double)); rs.hist.n = 63; }
    rs.hist.v[rs.hist.n++] = v;
}
static int rs_find(const char *name)
{
    for (int i = 0; i < rs.ndefs; i++) if (!strcmp(rs.defs[i].name, name)) return i;
    return -1;
}
static void rs_drop(int i)
{
    const ROp *o = rctx_find(&rs.ctx, rs.defs[i].name, R_FUNCTION);
    long k = o - rs.ctx.ops;
    memmove(&rs.ctx.ops[k], &rs.ctx.ops[k + 1], sizeof(ROp) * (size_t)(rs.ctx.n - k - 1));
    rs.ctx.n--;
    memmove(&rs.defs[i], &rs.defs[i + 1], sizeof(RDef) * (size_t)(rs.ndefs - i - 1));
    rs.ndefs--;
}
/* every call of a defined function is replaced by its body with the arguments in place of the parameters */
static RT *rs_expand(const RT *t)
{
    if (t->kind != 'o') return (RT *)t;
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(t->n + 1));
    for (int i = 0; i < t->n; i++) ch[i] = rs_expand(t->ch[i]);
    int d = t->place == R_FUNCTION ? rs_find(t->name) : -1;
    if (d >= 0)
    {
        const char *names[12];
        for (int i = 0; i < rs.defs[d].np; i++) names[i] = rs.defs[d].params[i];
        return rt_subst(rs.defs[d].body, rs.defs[d].np, names, ch);
    }
    RT *r = rt_named(t->name, t->place, t->n, ch);
    r->arity_decl = t->arity_decl;
    return r;
}
/* replaces constant subexpressions by their values; false when one is undefined */
static bool rs_fold(RT **t)
{
    double v;
    RStatus st = ref_eval(*t, &rs.hist, 0, NULL, NULL, &v);
    if (rt_count_vars(*t, (const char *[64]){ 0 }, 64) == 0)
    {
        if (st != RV_OK) return false;
        *t = rt_num(v);
        return true;
    }
    if ((*t)->kind != 'o') return true;
    RT *c = rt_named((*t)->name, (*t)->place, (*t)->n, (*t)->ch);
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(c->n + 1));
    for (int i = 0; i < c->n; i++) { ch[i] = c->ch[i]; if (!rs_fold(&ch[i])) return false; }
    c->ch = ch;
    *t = c;
    return true;
}
static bool rs_has_op(const RT *t, const char *name)
{
    if (t->kind != 'o') return false;
    if (t->place == R_FUNCTION && !strcmp(t->name, name)) return true;
    for (int i = 0; i < t->n; i++) if (rs_has_op(t->ch[i], name)) return true;
    return false;
}
static bool rs_lett(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'; }

typedef struct { bool ok, open; char kind; double v; RT *t; const char *why; } RAns;    /* kind: 0 no output, 'n' number, 'e' expression */

static RAns rs_refuse(const char *why) { return (RAns){ .ok = false, .why = why }; }
static RAns rs_definition(const char *line)
{
    const char *eq = strchr(line, '=');
    char *left = ref_strdup(line);
    left[eq - line] = 0;
    char **tok;
    int n = ref_tokenize(&rs.ctx, left, &tok), words = 0;
    const char *name = NULL;
    for (int i = 0; i < n; i++) if (tok[i][0] != ' ') { words++; if (!name) name = tok[i]; }
    if (!name || !rs_lett(name[0])) return rs_refuse("no name");
    if (rctx_find(&rs.ctx, name, R_FUNCTION)) return rs_refuse("already defined");
    RCtx with = rs.ctx;
    int idx = rctx_add(&with, name, R_FUNCTION, words == 1 ? 0 : R_DYN, 255, true);
    RT *l = ref_parse(&with, left);
    if (!l || l->kind != 'o' || l->place != R_FUNCTION || strcmp(l->name, name)) return rs_refuse("left side");
    for (int i = 0; i < l->n; i++)
    {
        if (l->ch[i]->kind != 'v') return rs_refuse("parameter is no variable");
        for (int k = 0; k < i; k++) if (!strcmp(l->ch[i]->name, l->ch[k]->name)) return rs_refuse("repeated parameter");
    }
    if (l->n > 10) return rs_refuse("too many parameters");
    with.ops[idx].arity = l->n;
    RT *r = ref_parse(&with, eq + 1);
    if (!r) return rs_refuse("right side");
    if (rs_has_op(r, name)) return rs_refuse("recursive");
    r = rs_expand(r);
    if (!rs_fold(&r)) return rs_refuse("right side undefined");
    const char *vars[40];
    int nv = rt_count_vars(r, vars, 40);
    for (int i = 0; i < nv && i < 40; i++)
    {
        bool bound = false;
        for (int k = 0; k < l->n; k++) if (!strcmp(vars[i], l->ch[k]->name)) bound = true;
        if (!bound) return rs_refuse("unbound variable");
    }
    RDef *d = &rs.defs[rs.ndefs++];
    memset(d, 0, sizeof *d);
    d->name = ref_intern(name);
    d->np = l->n;
    for (int i = 0; i < l->n; i++) d->params[i] = ref_intern(l->ch[i]->name);
    d->body = r;
    d->constant = words == 1;
    rs.ctx = with;
    return (RAns){ .ok = true };
}
/* effect of a line on the model, and its answer */
static RAns rs_line(const char *line)
{
    if (strchr(line, '=')) return rs_definition(line);
    if (!strcmp(line, "clear"))
    {
        while (rs.ndefs) rs_drop(0);
        return (RAns){ .ok = true };
    }
    if (!strncmp(line, "clear ", 6))
    {
        int d = rs_find(line + 6);
        if (d < 0) return rs_refuse(rctx_find(&rs.ctx, line + 6, R_FUNCTION) ? "built in" : "unknown");
        rs_drop(d);
        return (RAns){ .ok = true };
    }
    if (!strcmp(line, "help") || !strcmp(line, "license")) return (RAns){ .ok = true, .kind = 't' };
    RT *t = ref_parse(&rs.ctx, line);
    if (!t) return rs_refuse("syntax");
    t = rs_expand(t);
    if (!rs_fold(&t)) return rs_refuse("undefined");
    if (t->kind == 'n') return (RAns){ .ok = true, .kind = 'n', .v = t->num, .t = t };
    return (RAns){ .ok = true, .kind = 'e', .t = t };
}
static bool rs_same_tree(const RT *a, const RT *b)
{
    if (a->kind != b->kind) return false;
    if (a->kind == 'n') return ses_close(a->num, b->num);
    if (strcmp(a->name, b->name)) return false;
    if (a->kind == 'v') return true;
    if (a->place != b->place || a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) if (!rs_same_tree(a->ch[i], b->ch[i])) return false;
    return true;
}
/* runs the line for real and compares */
static bool rs_check(const char *line)
{
    RAns a = rs_line(line);
    bool ok = ses_line(line);
    if (mc_failed()) return false;
    mc_trace(1);
    if (a.open) a.ok = ok;
    if (ok != a.ok)
    {
        if (a.ok) mc_fail("'%s' is refused with: %s", line, mc_err);
        else mc_fail("'%s' is accepted (%s), expected an error: %s", line, mc_out, a.why);
        return false;
    }
    if (!ok)
    {
        if (mc_out_len) { mc_fail("'%s' is refused but prints: %s", line, mc_out); return false; }
        if (!mc_err_len) { mc_fail("'%s' fails without an error message", line); return false; }
        return true;
    }
    if (mc_err_len) { mc_fail("'%s' is accepted with an error message: %s", line, mc_err); return false; }
    if (a.kind == 0)
    {
        if (mc_out_len) { mc_fail("'%s' prints: %s", line, mc_out); return false; }
        return true;
    }
    if (a.kind == 't') return true;
    double got;
    bool num = ses_number(mc_out, &got);
    if (a.kind == 'n')
    {
        if (!num || !ses_close(got, a.v)) { mc_fail("'%s' is answered with %s, expected %.10g", line, mc_out, a.v); return false; }
        rs_push(a.v);
        return true;
    }
    char *out = ref_strdup(mc_out);
    if (*out) out[strcspn(out, "\n")] = 0;
    RT *o = ref_parse(&rs.ctx, out);
    if (!o) { mc_fail("'%s' is answered with %s, which is no expression", line, mc_out); return false; }
    if (!rs_rules)
    {
        if (!rs_fold(&o) || !rs_same_tree(o, a.t)) { mc_fail("'%s' is answered with %s, expected %s", line, mc_out, rt_show(a.t)); return false; }
        return true;
    }
    double va, vb;
    RT *e = rs_expand(o);
    for (int i = 0; i < NPTS; i++)
        if (same_value(a.t, e, PTS[i], &va, &vb) == DIFFERENT)
        {
            mc_fail("'%s' is answered with %s, which is %.12g at x=%g y=%g z=%g, expected %.12g", line, mc_out, vb, PTS[i][0], PTS[i][1], PTS[i][2], va);
            return false;
        }
    if (num) rs_push(got);
    return true;
}
static u64 rs_hash(void)
{
    u64 h = 7;
    for (int i = 0; i < rs.ndefs; i++)
    {
        h = mc_mix(h, mc_hash_str(rs.defs[i].name, 3));
        for (int k = 0; k < rs.defs[i].np; k++) h = mc_mix(h, mc_hash_str(rs.defs[i].params[k], 4));
        h = mc_mix(h, rt_hash(rs.defs[i].body));
    }
    return mc_mix(h, mc_hash(rs.hist.v, sizeof(double) * (size_t)rs.hist.n, 5));
}
