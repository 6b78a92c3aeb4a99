/* Large graph objects: edge counts and capacity only, recorded for TraceBulk.
     h_bulk SEED N... OUT */
#include "common.h"
static graphP G;
static int ak;         /* next edge: pair number ak of a circulant order; the pairs are distinct while the offset stays below N/2 */
static long nev;
static void tail(graphP X)
{
    long arcs = 0;
    for (int v = 1; v <= X->N; v++)
    {
        long k = 0;
        for (int e = gp_GetFirstArc(X, v); gp_IsArc(e) && k <= X->N; e = gp_GetNextArc(X, e)) k++;
        arcs += k;
    }
    J("\"m\":%d,\"arcs\":%ld,\"cap\":%d}\n", X->M, arcs, gp_GetArcCapacity(X)); fflush(vh_out); nev++;
}
static void pair(int k, int *u, int *v)
{
    int off = k / G->N + 1; *u = k % G->N + 1; *v = (*u - 1 + off) % G->N + 1;
}
static void add(int k, int grow)
{
    int oks = 0, u, v;
    for (int i = 0; i < k; i++)
    {
        pair(ak, &u, &v);
        int r = grow ? gp_DynamicAddEdge(G, u, vh_rnd(2), v, vh_rnd(2)) : gp_AddEdge(G, u, vh_rnd(2), v, vh_rnd(2));
        if (r == OK) { oks++; ak++; }
        else break;
    }
    J("{\"ev\":\"%s\",\"k\":%d,\"oks\":%d,", grow ? "grow" : "fill", k, oks); tail(G);
}
int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    for (int a = 2; a < argc - 1; a++)
    {
        int n = atoi(argv[a]);
        vh_seed(strtoull(argv[1], 0, 10), n);
        alarm(120);
        G = gp_New();
        if (!G || gp_InitGraph(G, n) != OK) return 3;
        ak = 0;
        J("{\"ev\":\"begin\",\"n\":%d,\"cap\":%d}\n", n, gp_GetArcCapacity(G));
        int most = (n - 1) / 2 > 9 ? 9 : (n - 1) / 2;     /* offsets to be used */
        int want = vh_between(1, 3 * n);
        if (vh_chance(50)) add(3 * n + vh_between(0, 3), 0);
        else if (want <= most * n) add(want, 1);
        if (vh_chance(50))
        {
            int req = gp_GetArcCapacity(G) + 2 * vh_between(0, n);
            int r = gp_EnsureArcCapacity(G, req);
            J("{\"ev\":\"ensure\",\"req\":%d,\"ret\":%d,", req, r); tail(G);
        }
        if (most * n > ak) add(vh_between(1, most * n - ak), 1);
        if (vh_chance(50))
        {
            graphP H = gp_DupGraph(G);
            J("{\"ev\":\"copy\",\"ret\":%d,", H != NULL);
            if (H) { tail(H); gp_Free(&H); } else { J("\"m\":0,\"arcs\":0,\"cap\":0}\n"); }
        }
        int k = vh_between(1, 1000), oks = 0;
        if (k > G->M) k = G->M;
        for (int i = 0; i < k; i++)
        {
            /* the edges that were added last, so that the pair order stays intact */
            int u, v; pair(--ak, &u, &v);
            int e = gp_GetNeighborEdgeRecord(G, u, v);
            if (!gp_IsArc(e)) break;
            gp_DeleteEdge(G, e, 0); oks++;
        }
        J("{\"ev\":\"drop\",\"k\":%d,\"oks\":%d,", k, oks); tail(G);
        if (most * n > ak) add(vh_between(1, most * n - ak), 1);
        J("{\"ev\":\"free\"}\n");
        gp_Free(&G);
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%d}\n", nev, argc - 3);
    return 0;
}
