/* Depth-first utilities in every order, recorded for TraceDfs.
     h_dfs rand SEED RUNS NMAX OUT     random graphs, random call orders
     h_dfs all N SHARD SHARDS STEP OUT     every graph on N vertices, every call order of length 3 in turn */
#include "common.h"
static long nruns, nev;
static pg g;
static void j_types(graphP G)
{
    J("\"ty\":[");
    for (int v = 1; v <= G->N; v++)
    {
        int k = 0;
        J("%s[", v > 1 ? "," : "");
        for (int e = gp_GetFirstArc(G, v); gp_IsArc(e) && k < 2 * VH_MAXM; e = gp_GetNextArc(G, e))
        {
            int t = gp_GetEdgeType(G, e);
            J("%s\"%s\"", k++ ? "," : "", t == EDGE_TYPE_CHILD ? "child" : t == EDGE_TYPE_PARENT ? "parent" : t == EDGE_TYPE_FORWARD ? "forward" : t == EDGE_TYPE_BACK ? "back" : "none");
        }
        J("]");
    }
    J("]");
}
static void obs(graphP G, int vals)
{
    J("\"par\":[");
    for (int v = 1; v <= G->N; v++) J("%s%d", v > 1 ? "," : "", gp_IsVertex(gp_GetVertexParent(G, v)) ? gp_GetVertexParent(G, v) : 0);
    J("],"); j_index("ix", G); J(","); j_types(G); J(","); j_adj("adj", G);
    if (vals)
    {
        J(",\"la\":[");
        for (int v = 1; v <= G->N; v++) J("%s%d", v > 1 ? "," : "", gp_GetVertexLeastAncestor(G, v));
        J("]");
    }
    if (vals > 1)
    {
        J(",\"lp\":[");
        for (int v = 1; v <= G->N; v++) J("%s%d", v > 1 ? "," : "", gp_GetVertexLowpoint(G, v));
        J("]");
    }
    J("}\n"); nev++;
}
int gp_LeastAncestor(graphP theGraph);
static void op(graphP G, int k)
{
    int r;
    switch (k)
    {
    case 0: r = gp_CreateDFSTree(G); J("{\"ev\":\"dfs\",\"ret\":%d,", r); obs(G, 0); break;
    case 1: r = gp_SortVertices(G); J("{\"ev\":\"sort\",\"ret\":%d,", r); obs(G, 0); break;
    case 2: r = gp_LeastAncestor(G); J("{\"ev\":\"least\",\"ret\":%d,", r); obs(G, 1); break;
    default: r = gp_LowpointAndLeastAncestor(G); J("{\"ev\":\"low\",\"ret\":%d,", r); obs(G, 2); break;
    }
}
int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    if (!strcmp(argv[1], "rand"))
    {
        long seed = atol(argv[2]), runs = atol(argv[3]); int nmax = atoi(argv[4]);
        for (long r = 0; r < runs; r++)
        {
            alarm(20);
            vh_seed(seed, r);
            pg_family(&g, vh_rnd(VH_FAMILIES), vh_between(1, nmax)); pg_finish(&g);
            graphP G = vh_build(&g, 1);
            /* deleted edges leave holes behind */
            if (vh_chance(40))
                for (int k = vh_rnd(5); k > 0; k--)
                {
                    int v = vh_between(1, G->N), e = gp_GetFirstArc(G, v);
                    if (gp_IsArc(e)) gp_DeleteEdge(G, e, 0);
                }
            J("{\"ev\":\"begin\","); j_adj("adj", G); J("}\n");
            for (int k = vh_between(2, 6); k > 0; k--)
            {
                if (vh_chance(8))
                {
                    gp_ReinitializeGraph(G);
                    for (int i = 0; i < g.m; i++) gp_AddEdge(G, g.u[i], vh_rnd(2), g.v[i], vh_rnd(2));
                    J("{\"ev\":\"reload\","); j_adj("adj", G); J("}\n");
                }
                else op(G, vh_rnd(4));
            }
            if (r == 0)
            {
                int a = gp_CreateDFSTree(NULL), b = gp_LeastAncestor(NULL), c = gp_LowpointAndLeastAncestor(NULL);
                J("{\"ev\":\"null\",\"rets\":[%d,%d,%d]}\n", a, b, c);
            }
            J("{\"ev\":\"free\"}\n");
            gp_Free(&G);
            nruns++;
        }
    }
    else
    {
        int n = atoi(argv[2]); long sh = atol(argv[3]), shs = atol(argv[4]), step = atol(argv[5]);
        uint64_t total = 1ULL << (n * (n - 1) / 2);
        for (uint64_t x = sh * step; x < total; x += shs * step)
        {
            alarm(20);
            vh_seed(n, x);
            pg_bits(&g, n, x);
            if (vh_chance(50)) pg_shuffle(&g);
            graphP G = vh_build(&g, 1);
            J("{\"ev\":\"begin\","); j_adj("adj", G); J("}\n");
            int seq = (int)((x / (shs * step)) % 64);
            op(G, seq & 3); op(G, (seq >> 2) & 3); op(G, seq >> 4); op(G, vh_rnd(4));
            J("{\"ev\":\"free\"}\n");
            gp_Free(&G);
            nruns++;
        }
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld}\n", nev, nruns);
    return 0;
}
