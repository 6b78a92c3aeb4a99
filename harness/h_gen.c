/* Random graph generators, recorded for TraceGen.
     h_gen rand SEED RUNS KEEP NMAX OUT
   Runs that a screen finds odd are always recorded, others are thinned to about KEEP. */
#include "common.h"
static long nruns, nev, nkept;
static FILE *dst; static char *mem; static size_t memlen;
static void on_signal(int sig)
{
    fflush(vh_out); fwrite(mem, 1, memlen, dst); fprintf(dst, "\n{\"ev\":\"abort\",\"sig\":%d}\n", sig); fflush(dst); _exit(70);
}

static graphP make(int n, int cap)
{
    graphP G = gp_New();
    if (!G || gp_InitGraph(G, n) != OK) exit(3);
    if (2 * cap > gp_GetArcCapacity(G) && gp_EnsureArcCapacity(G, 2 * cap) != OK) exit(3);
    return G;
}
/* a rotation system of the same graph from an independent object; [] if that fails */
static int rotation(graphP G)
{
    graphP H = gp_New();
    gp_InitGraph(H, G->N); gp_EnsureArcCapacity(H, 2 * G->M > 6 * G->N ? 2 * G->M : 6 * G->N);
    for (int v = 1; v <= G->N; v++)
    {
        int k = 0;
        for (int e = gp_GetFirstArc(G, v); gp_IsArc(e) && k++ < 4 * VH_MAXM; e = gp_GetNextArc(G, e))
            if (gp_GetNeighbor(G, e) > v && gp_GetNeighbor(G, e) <= G->N) gp_AddEdge(H, v, 0, gp_GetNeighbor(G, e), 0);
    }
    int r = gp_Embed(H, EMBEDFLAGS_PLANAR);
    if (r == OK) { gp_SortVertices(H); j_adj("rot", H); } else J("\"rot\":[]");
    gp_Free(&H);
    return r;
}
static int run(int nmax)
{
    int n = vh_between(1, nmax), odd = 0;
    int all = n * (n - 1) / 2, lim = n < 3 ? all : 3 * n - 6;
    int cap = vh_chance(50) ? 3 * n : vh_chance(50) ? (all > 3 * n ? all : 3 * n) : vh_between(3 * n, 3 * n + all);
    graphP G = make(n, cap);
    J("{\"ev\":\"begin\",\"n\":%d,\"cap\":%d}\n", n, cap);
    for (int k = vh_chance(25) ? 2 : 1; k > 0; k--)
    {
        int ex = vh_chance(75), req = 0, sd = vh_rnd(1 << 30), r;
        switch (vh_rnd(8))
        {
        case 0: req = lim; break;
        case 1: req = lim + vh_between(-3, 3); break;
        case 2: req = all + vh_between(-2, 4); break;
        case 3: req = n - 1 + vh_between(-2, 3); break;
        case 4: req = vh_chance(50) ? cap + vh_between(-2, 3) : vh_chance(50) ? 0x7fffffff : vh_between(-5, 0); break;
        default: req = vh_between(n - 1, lim > n - 1 ? lim : n - 1);
        }
        srand((unsigned)sd);
        r = ex ? gp_CreateRandomGraphEx(G, req) : gp_CreateRandomGraph(G);
        J("{\"ev\":\"gen\",\"kind\":\"%s\",\"req\":%d,\"sd\":%d,\"ret\":%d,\"m\":%d,", ex ? "ex" : "rand", req, sd, r, G->M); nev++;
        j_adj("adj", G); J(",");
        int m = G->M, want = req < cap ? req : cap;
        if (want > all) want = all;
        if (r != OK || (ex && want >= n - 1 && m != want)) odd = 1;
        if (ex && m <= lim) { if (rotation(G) != OK) odd = 1; } else J("\"rot\":[]");
        J("}\n");
        if (vh_chance(25))
        {
            graphP H = make(n, cap);
            srand((unsigned)sd);
            r = ex ? gp_CreateRandomGraphEx(H, req) : gp_CreateRandomGraph(H);
            J("{\"ev\":\"again\",\"kind\":\"%s\",\"req\":%d,\"sd\":%d,\"ret\":%d,", ex ? "ex" : "rand", req, sd, r); j_adj("adj", H); J("}\n"); nev++;
            gp_Free(&H);
        }
        for (int d = vh_chance(30) ? vh_between(1, 3) : 0; d > 0; d--)
        {
            int v = vh_between(1, n), e = gp_GetFirstArc(G, v);
            if (!gp_IsArc(e)) continue;
            int w = gp_GetNeighbor(G, e);
            gp_DeleteEdge(G, e, 0);
            J("{\"ev\":\"del\",\"v\":%d,\"w\":%d,\"m\":%d,", v, w, G->M); j_adj("adj", G); J("}\n"); nev++;
        }
        if (k > 1)
        {
            gp_ReinitializeGraph(G);
            J("{\"ev\":\"reinit\",\"m\":%d,", G->M); j_adj("adj", G); J("}\n"); nev++;
        }
    }
    J("{\"ev\":\"free\"}\n");
    gp_Free(&G);
    return odd;
}
int main(int argc, char **argv)
{
    if (argc < 7 || strcmp(argv[1], "rand")) return 2;
    long seed = atol(argv[2]), runs = atol(argv[3]), keep = atol(argv[4]); int nmax = atoi(argv[5]);
    dst = fopen(argv[6], "w");
    if (!dst) return 2;
    signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal);
    for (long r = 0; r < runs; r++)
    {
        alarm(20);
        vh_seed(seed, r);
        int rec = (r + 1) * keep / runs != r * keep / runs;
        vh_out = open_memstream(&mem, &memlen);
        if ((run(nmax) && nkept < 2 * keep + 100) || rec) { fflush(vh_out); fwrite(mem, 1, memlen, dst); fflush(dst); nkept++; }
        fclose(vh_out); free(mem); mem = NULL;
        nruns++;
    }
    fclose(dst);
    printf("{\"events\":%ld,\"histories\":%ld,\"recorded\":%ld}\n", nev, nruns, nkept);
    return 0;
}
