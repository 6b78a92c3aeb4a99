/* Untrusted hints for proofs that TLC verifies. */
#ifndef VH_CERTS_H
#define VH_CERTS_H
#include "common.h"
/* ---- K3,3-freeness certificates (untrusted hints, verified by TLC) ---- */
typedef struct { int kind, l, r, ns, s[2], nv, ne; int *v, *eu, *ev; int **rot; int *rl; } cnode;
static cnode cn[4 * VH_MAXN];
static int ncn;
static void cn_free(void)
{
    for (int i = 0; i < ncn; i++)
    {
        free(cn[i].v); free(cn[i].eu); free(cn[i].ev);
        if (cn[i].rot) { for (int j = 0; j < cn[i].nv; j++) free(cn[i].rot[j]); free(cn[i].rot); free(cn[i].rl); }
    }
    ncn = 0;
}
static int cn_new(int nv, int *v, int ne, int *eu, int *ev)
{
    cnode *c = &cn[ncn];
    memset(c, 0, sizeof *c);
    c->nv = nv; c->ne = ne;
    c->v = malloc(sizeof(int) * (nv + 1)); c->eu = malloc(sizeof(int) * (ne + 1)); c->ev = malloc(sizeof(int) * (ne + 1));
    memcpy(c->v, v, sizeof(int) * nv); memcpy(c->eu, eu, sizeof(int) * ne); memcpy(c->ev, ev, sizeof(int) * ne);
    return ncn++;
}
static int cn_planar(int id)
{
    cnode *c = &cn[id];
    static int inv[VH_MAXN + 1];
    graphP G = gp_New();
    int ok = 0;
    gp_InitGraph(G, c->nv);
    if (2 * c->ne > 6 * c->nv) gp_EnsureArcCapacity(G, 2 * c->ne);
    for (int i = 0; i < c->nv; i++) inv[c->v[i]] = i + 1;
    for (int i = 0; i < c->ne; i++) gp_AddEdge(G, inv[c->eu[i]], 0, inv[c->ev[i]], 0);
    if (gp_Embed(G, EMBEDFLAGS_PLANAR) == OK)
    {
        ok = 1;
        gp_SortVertices(G);
        c->rot = calloc(c->nv, sizeof(int *)); c->rl = calloc(c->nv, sizeof(int));
        for (int i = 0; i < c->nv; i++)
        {
            c->rot[i] = malloc(sizeof(int) * (c->nv + 1));
            int k = 0;
            for (int e = gp_GetFirstArc(G, i + 1); gp_IsArc(e) && k < c->nv; e = gp_GetNextArc(G, e)) c->rot[i][k++] = gp_GetNeighbor(G, e);
            c->rl[i] = k;
        }
    }
    gp_Free(&G);
    return ok;
}
static int cn_build(int id) /* 1 = certificate complete */
{
    cnode *c = &cn[id];
    if (c->nv <= 5) { c->kind = 0; return 1; }
    if (cn_planar(id)) { c->kind = 1; return 1; }
    unsigned n0 = (unsigned)c->nv; int n = (int)(n0 & 0xffff);
    static int inv[VH_MAXN + 1];
    for (int i = 0; i < n; i++) inv[c->v[i]] = i;
    int *side = calloc(n, sizeof(int)), *st = calloc(n + 1, sizeof(int)), found = 0;
    int *head = malloc(sizeof(int) * n), *nxt = malloc(sizeof(int) * (2 * c->ne + 2)), *to = malloc(sizeof(int) * (2 * c->ne + 2)), k = 0;
    for (int i = 0; i < n; i++) head[i] = -1;
    for (int i = 0; i < c->ne; i++)
    {
        int a = inv[c->eu[i]], b = inv[c->ev[i]];
        to[k] = b; nxt[k] = head[a]; head[a] = k++;
        to[k] = a; nxt[k] = head[b]; head[b] = k++;
    }
    int s0 = -1, s1 = -1;
    for (int a = -1; a < n && !found; a++)
        for (int b = a; b < n && !found; b++)
        {
            if (a == -1 && b != -1) break; /* no separator */
            /* b == a means a single cut vertex */
            if (a >= 0 && b == a && 0) continue;
            memset(side, 0, sizeof(int) * n);
            int x = 0, cnt = 0, rem = n - (a < 0 ? 0 : a == b ? 1 : 2);
            while (x == a || x == b) x++;
            int top = 0; st[top++] = x; side[x] = 1;
            while (top)
            {
                int y = st[--top]; cnt++;
                for (int e = head[y]; e >= 0; e = nxt[e]) { int z = to[e]; if (z != a && z != b && !side[z]) { side[z] = 1; st[top++] = z; } }
            }
            if (cnt < rem) { found = 1; s0 = a; s1 = b; }
        }
    free(head); free(nxt); free(to); free(st);
    if (!found) { free(side); return 0; }
    c->kind = 2;
    c->ns = s0 < 0 ? 0 : s0 == s1 ? 1 : 2;
    if (c->ns > 0) c->s[0] = c->v[s0];
    if (c->ns > 1) c->s[1] = c->v[s1];
    int ok = 1, kid[2];
    for (int h = 0; h < 2; h++)
    {
        int *vv = malloc(sizeof(int) * n), *eu = malloc(sizeof(int) * (c->ne + 1)), *ev = malloc(sizeof(int) * (c->ne + 1)), nv = 0, ne = 0, virt = 0;
        for (int i = 0; i < n; i++) if (i == s0 || i == s1 || side[i] == (h == 0)) vv[nv++] = c->v[i];
        for (int i = 0; i < c->ne; i++)
        {
            int a = inv[c->eu[i]], b = inv[c->ev[i]];
            int ia = a == s0 || a == s1, ib = b == s0 || b == s1;
            if ((ia || side[a] == (h == 0)) && (ib || side[b] == (h == 0))) { eu[ne] = c->eu[i]; ev[ne] = c->ev[i]; ne++; if (ia && ib) virt = 1; }
        }
        if (c->ns == 2 && !virt) { eu[ne] = c->s[0]; ev[ne] = c->s[1]; ne++; }
        kid[h] = cn_new(nv, vv, ne, eu, ev);
        c = &cn[id];
        free(vv); free(eu); free(ev);
    }
    free(side);
    c->l = kid[0]; c->r = kid[1];
    ok = cn_build(kid[0]);
    if (ok) ok = cn_build(kid[1]);
    return ok;
}
static int k33free(pg *g)
{
    static int vs[VH_MAXN];
    cn_free();
    for (int i = 0; i < g->n; i++) vs[i] = i + 1;
    return cn_build(cn_new(g->n, vs, g->m, g->u, g->v));
}
/* the certificate as a JSON list of nodes */
static void j_nodes(void)
{
    J("[");
    for (int i = 0; i < ncn; i++)
    {
        cnode *c = &cn[i];
        J("%s{\"k\":\"%s\",\"v\":[", i ? "," : "", c->kind == 0 ? "small" : c->kind == 1 ? "planar" : "split");
        for (int j = 0; j < c->nv; j++) J("%s%d", j ? "," : "", c->v[j]);
        J("],\"e\":[");
        for (int j = 0; j < c->ne; j++) J("%s[%d,%d]", j ? "," : "", c->eu[j], c->ev[j]);
        J("]");
        if (c->kind == 1)
        {
            J(",\"rot\":[");
            for (int j = 0; j < c->nv; j++) { J("%s[", j ? "," : ""); for (int q = 0; q < c->rl[j]; q++) J("%s%d", q ? "," : "", c->rot[j][q]); J("]"); }
            J("]");
        }
        if (c->kind == 2)
        {
            J(",\"s\":[");
            for (int j = 0; j < c->ns; j++) J("%s%d", j ? "," : "", c->s[j]);
            J("],\"l\":%d,\"r\":%d", c->l + 1, c->r + 1);
        }
        J("}");
    }
    J("]");
}
/* edges of g that are needed for it to have no certificate, as a JSON list of pairs */
static void j_shrunk(pg *g)
{
    static pg h;
    h.n = g->n; h.m = g->m;
    memcpy(h.u, g->u, sizeof(int) * g->m); memcpy(h.v, g->v, sizeof(int) * g->m);
    for (int i = 0; i < h.m;)
    {
        int a = h.u[i], b = h.v[i];
        h.m--; h.u[i] = h.u[h.m]; h.v[i] = h.v[h.m];
        if (k33free(&h)) { h.u[h.m] = h.u[i]; h.v[h.m] = h.v[i]; h.m++; h.u[i] = a; h.v[i] = b; i++; }
    }
    J("[");
    for (int i = 0; i < h.m; i++) J("%s[%d,%d]", i ? "," : "", h.u[i], h.v[i]);
    J("]");
}
static void j_cert(pg *g)
{
    if (k33free(g)) { J(",\"ref\":[],\"cert\":"); j_nodes(); }
    else { J(",\"cert\":[],\"ref\":"); j_shrunk(g); }
    cn_free();
}
#endif
