/* The states an embedding goes through, recorded for TraceSteps.  A feature of our own, attached
   last, looks at the graph whenever an edge has been embedded and before the postprocessing.
     h_step all ALGS N LO HI EVERY OUT     graphs LO..HI-1 (edge subsets) of order N
     h_step rand ALGS SEED RUNS NMAX OUT */
#include "common.h"
#include "hist.h"
#include "extensionSystem/graphExtensions.h"
static long nruns, nev, nsteps;
static int xid;
typedef struct { int begun, v, par[VH_MAXN + 2]; graphFunctionTable functions; } ctx;
static void j_init(graphP G, ctx *c)
{
    if (c->begun) return;
    c->begun = 1;
    J("{\"ev\":\"init\",\"ix\":["); for (int v = 1; v <= G->N; v++) J("%s%d", v > 1 ? "," : "", gp_GetVertexIndex(G, v));
    J("],\"par\":[");
    for (int v = 1; v <= G->N; v++) { int p = gp_GetVertexParent(G, v); J("%s%d", v > 1 ? "," : "", p >= 1 && p <= G->N ? p : 0); }
    J("]}\n"); nev++;
}
static void j_step(graphP G, ctx *c, int v, int all)
{
    j_init(G, c);
    J("{\"ev\":\"step\",\"v\":%d,\"all\":%d,\"rot\":[", v, all);
    for (int x = 1; x <= 2 * G->N; x++)
    {
        J("%s[", x > 1 ? "," : "");
        int first = 1, k = 0;
        for (int e = gp_GetFirstArc(G, x); gp_IsArc(e) && k < 4 * G->N + 8; e = gp_GetNextArc(G, e), k++) { J("%s%d", first ? "" : ",", gp_GetNeighbor(G, e)); first = 0; }
        J("]");
    }
    J("],\"inv\":[");
    int first = 1;
    for (int x = 1; x <= 2 * G->N; x++)
        for (int e = gp_GetFirstArc(G, x), k = 0; gp_IsArc(e) && k < 4 * G->N + 8; e = gp_GetNextArc(G, e), k++)
            if (gp_GetEdgeType(G, e) == EDGE_TYPE_CHILD && gp_GetEdgeFlagInverted(G, e)) { J("%s%d", first ? "" : ",", gp_GetNeighbor(G, e)); first = 0; }
    J("]}\n"); nev++; nsteps++;
}
static ctx *mine(graphP G) { return gp_GetExtension(G, xid); }
static int x_init(graphP G)
{
    ctx *c = mine(G);
    int r = c->functions.fpEmbeddingInitialize(G);
    if (r == OK) { c->v = G->N; j_step(G, c, G->N, 1); }
    return r;
}
static void x_back(graphP G, int side, int R, int W, int link)
{
    ctx *c = mine(G);
    c->functions.fpEmbedBackEdgeToDescendant(G, side, R, W, link);
    c->v = gp_GetPrimaryVertexFromRoot(G, R);
    j_step(G, c, c->v, 0);
}
static int x_post(graphP G, int v, int r)
{
    ctx *c = mine(G);
    if (r == OK) j_step(G, c, 1, 1);
    return c->functions.fpEmbedPostprocess(G, v, r);
}
static void *x_dup(void *p, void *g) { (void)g; ctx *n = malloc(sizeof *n); *n = *(ctx *)p; return n; }
static void x_free(void *p) { free(p); }
static void go(pg *g, char alg, int hist, int links)
{
    alarm(60);
    graphP G = hist ? hbuild(g, 1) : vh_build(g, !hist && links);
    J("{\"ev\":\"load\",\"n\":%d,\"alg\":\"%c\",", g->n, alg); j_edges(g); J("}\n"); nev++; nruns++;
    if (alg == 'd' && gp_AttachDrawPlanar(G) != OK) exit(3);
    ctx *c = calloc(1, sizeof *c);
    c->functions.fpEmbeddingInitialize = x_init;
    c->functions.fpEmbedBackEdgeToDescendant = x_back;
    c->functions.fpEmbedPostprocess = x_post;
    if (gp_AddExtension(G, &xid, c, x_dup, x_free, &c->functions) != OK) exit(3);
    int r = gp_Embed(G, vh_flags(alg));
    J("{\"ev\":\"over\",\"ret\":%d}\n", r); nev++;
    gp_Free(&G);
    alarm(0);
}
int main(int argc, char **argv)
{
    static pg g;
    if (argc < 7) return 2;
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    const char *algs = argv[2];
    if (!(vh_out = fopen(argv[argc - 1], "w"))) return 2;
    if (!strcmp(argv[1], "all"))
    {
        int n = atoi(argv[3]), every = atoi(argv[6]);
        for (long b = atol(argv[4]); b < atol(argv[5]); b += every)
            for (const char *a = algs; *a; a++) { pg_bits(&g, n, b); go(&g, *a, 0, 0); }
    }
    else
    {
        want_hist = 1;
        for (long k = 0; k < atol(argv[4]); k++)
        {
            vh_seed(atol(argv[3]), k);
            do { pg_family(&g, vh_rnd(VH_FAMILIES), atoi(argv[5])); pg_finish(&g); } while (g.n < 1 || g.n > atoi(argv[5]) || g.m > 3 * g.n);
            go(&g, algs[vh_rnd(strlen(algs))], vh_chance(25), 1);
        }
    }
    fclose(vh_out);
    printf("{\"runs\":%ld,\"events\":%ld,\"steps\":%ld}\n", nruns, nev, nsteps);
    return 0;
}
