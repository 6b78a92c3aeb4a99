#ifndef VH_HIST
#define VH_HIST
/* the same graph, at the end of a history of edits and of uses of the depth-first search utilities */
static char want_hist;
static graphP hbuild(pg *g, int links)
{
    if (!want_hist || vh_chance(20)) return vh_build(g, links);
    static unsigned char in[VH_MAXN + 1][VH_MAXN + 1], fin[VH_MAXN + 1][VH_MAXN + 1];
    static int pu[VH_MAXM], pv[VH_MAXM];
    graphP G = gp_New();
    if (!G || gp_InitGraph(G, g->n) != OK || gp_EnsureArcCapacity(G, 2 * g->m + 12) != OK) return NULL;
    for (int v = 1; v <= g->n; v++) memset(in[v] + 1, 0, g->n), memset(fin[v] + 1, 0, g->n);
    for (int i = 0; i < g->m; i++) fin[g->u[i]][g->v[i]] = fin[g->v[i]][g->u[i]] = 1;
    int todo = 0, rounds = vh_between(1, 3);
    for (int i = 0; i < g->m; i++) { pu[todo] = g->u[i]; pv[todo++] = g->v[i]; }
    for (int k = 0; k <= rounds; k++)
    {
        int left = k == rounds ? 0 : vh_rnd(todo + 1), extra = k == rounds || g->n < 2 ? 0 : vh_rnd(4);
        while (todo > left) { todo--; if (gp_AddEdge(G, pu[todo], vh_rnd(2), pv[todo], vh_rnd(2)) != OK) return NULL; in[pu[todo]][pv[todo]] = in[pv[todo]][pu[todo]] = 1; }
        for (int i = 0; i < extra; i++)
        {
            int u = vh_between(1, g->n), v = vh_between(1, g->n);
            if (u == v || fin[u][v] || in[u][v]) continue;
            if (gp_AddEdge(G, u, vh_rnd(2), v, vh_rnd(2)) != OK) return NULL;
            in[u][v] = in[v][u] = 1;
        }
        for (int i = vh_rnd(3); i > 0; i--)
        {
            int c = vh_rnd(3);
            if (c == 0) { if (gp_CreateDFSTree(G) != OK) return NULL; }
            else if (c == 1) { if (gp_LowpointAndLeastAncestor(G) != OK) return NULL; }
            else if (c == 2) { if (gp_SortVertices(G) != OK) return NULL; }
        }
        /* edits use the original labels, and the history ends with them */
        if (G->internalFlags & FLAGS_SORTEDBYDFI) if (gp_SortVertices(G) != OK) return NULL;
        for (int u = 1; u <= g->n; u++)
            for (int v = u + 1; v <= g->n; v++)
                if (in[u][v] && !fin[u][v] && (k + 1 >= rounds || vh_chance(50))) { gp_DeleteEdge(G, gp_GetNeighborEdgeRecord(G, u, v), 0); in[u][v] = in[v][u] = 0; }
    }
    return G;
}
#endif
