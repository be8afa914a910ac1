/* Definition of matching, by backtracking: all assignments of variables (list variables start with
   '[' and stand for any run of operands) that turn the pattern into the tree. */
#pragma once
#include "ref.h"

typedef struct { const char *name; bool bound; int n; RT *const *items; } RBind;
typedef struct { int nv; RBind b[12]; } RMatch;
typedef struct RGoal { RT *const *p; int np; RT *const *t; int nt; const struct RGoal *next; } RGoal;
typedef struct { RMatch m; void (*cb)(const RMatch *, void *); void *arg; } RSearch;

static RBind *rm_bind(RMatch *m, const char *name)
{
    for (int i = 0; i < m->nv; i++) if (!strcmp(m->b[i].name, name)) return &m->b[i];
    return NULL;
}
static bool rm_same(int n, RT *const *a, RT *const *b)
{
    for (int i = 0; i < n; i++) if (!rt_equals(a[i], b[i])) return false;
    return true;
}
static void rm_solve(RSearch *s, const RGoal *g)
{
    if (g == NULL) { s->cb(&s->m, s->arg); return; }
    if (g->np == 0) { if (g->nt == 0) rm_solve(s, g->next); return; }
    RT *p = g->p[0];
    bool list = p->kind == 'v' && p->name[0] == '[';
    for (int k = list ? 0 : 1; k <= (list ? g->nt : 1); k++)
    {
        if (k > g->nt) return;
        RGoal rest = { g->p + 1, g->np - 1, g->t + k, g->nt - k, g->next };
        if (p->kind == 'v')
        {
            RBind *b = rm_bind(&s->m, p->name);
            if (b->bound)
            {
                if (b->n == k && rm_same(k, b->items, g->t)) rm_solve(s, &rest);
                continue;
            }
            b->bound = true; b->n = k; b->items = g->t;
            rm_solve(s, &rest);
            b->bound = false;
        }
        else if (p->kind == 'n')
        {
            if (g->t[0]->kind == 'n' && g->t[0]->num == p->num) rm_solve(s, &rest);
        }
        else if (g->t[0]->kind == 'o' && g->t[0]->place == p->place && !strcmp(g->t[0]->name, p->name))
        {
            RGoal in = { p->ch, p->n, g->t[0]->ch, g->t[0]->n, &rest };
            rm_solve(s, &in);
        }
    }
}
static void rm_names(const RT *t, RMatch *m)
{
    if (t->kind == 'v') { if (!rm_bind(m, t->name) && m->nv < 12) m->b[m->nv++] = (RBind){ .name = t->name }; }
    else for (int i = 0; i < t->n; i++) rm_names(t->ch[i], m);
}
/* calls cb for every assignment; variables are numbered by first occurrence in the pattern */
static void ref_match(RT *pattern, RT *tree, void (*cb)(const RMatch *, void *), void *arg)
{
    RSearch s = { .cb = cb, .arg = arg };
    s.m.nv = 0;
    rm_names(pattern, &s.m);
    RT *p[1] = { pattern }, *t[1] = { tree };
    RGoal g = { p, 1, t, 1, NULL };
    rm_solve(&s, &g);
}
/* substitution with list variables; *bad is set when the root would become a list of another length than one */
static RT *ref_subst_match(RT *t, const RMatch *m, bool *bad)
{
    if (t->kind == 'n') return t;
    if (t->kind == 'v')
    {
        RBind *b = rm_bind((RMatch *)m, t->name);
        if (!b) return t;
        if (b->n != 1) { *bad = true; return t; }
        return b->items[0];
    }
    int n = 0;
    for (int i = 0; i < t->n; i++)
    {
        RBind *b = t->ch[i]->kind == 'v' ? rm_bind((RMatch *)m, t->ch[i]->name) : NULL;
        n += b ? b->n : 1;
    }
    RT **ch = ref_alloc(sizeof(RT *) * (size_t)(n + 1));
    int k = 0;
    for (int i = 0; i < t->n; i++)
    {
        RBind *b = t->ch[i]->kind == 'v' ? rm_bind((RMatch *)m, t->ch[i]->name) : NULL;
        if (b) for (int j = 0; j < b->n; j++) ch[k++] = b->items[j];
        else ch[k++] = ref_subst_match(t->ch[i], m, bad);
    }
    return rt_named(t->name, t->place, n, ch);
}
