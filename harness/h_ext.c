/* The extension mechanism driven with features of its own, recorded for TraceFeatures.
     h_ext rand SEED RUNS OUT */
#include "common.h"
#include "extensionSystem/graphExtensions.h"
#define MAXO 3
#define NX 6
typedef struct { int magic, x; graphP g; graphFunctionTable functions; } ctx;
static int ids[NX + 1];
static graphP G[MAXO];
static long nev, nruns;
static int lg[1000][2], nl, freed[1000], nf, dupd[1000], nd;
enum { HIDE = 1, RESTORE, HIDEV, REINIT, ENSURE, SORT, NFN };
static ctx *enter(graphP g, int x, int fn)
{
    ctx *c = gp_GetExtension(g, ids[x]);
    if (nl < 1000) { lg[nl][0] = c && c->magic == 77 && c->g == g && c->x == x ? x : -x; lg[nl++][1] = fn; }
    return c;
}
#define XFUNCS(X) \
    static void hide##X(graphP g, int e) { ctx *c = enter(g, X, HIDE); if (c) c->functions.fpHideEdge(g, e); } \
    static void rest##X(graphP g, int e) { ctx *c = enter(g, X, RESTORE); if (c) c->functions.fpRestoreEdge(g, e); } \
    static int hidv##X(graphP g, int v) { ctx *c = enter(g, X, HIDEV); return c ? c->functions.fpHideVertex(g, v) : 0; } \
    static void rein##X(graphP g) { ctx *c = enter(g, X, REINIT); if (c) c->functions.fpReinitializeGraph(g); } \
    static int ensu##X(graphP g, int k) { ctx *c = enter(g, X, ENSURE); return c ? c->functions.fpEnsureArcCapacity(g, k) : 0; } \
    static int sort##X(graphP g) { ctx *c = enter(g, X, SORT); return c ? c->functions.fpSortVertices(g) : 0; }
XFUNCS(1) XFUNCS(2) XFUNCS(3) XFUNCS(4) XFUNCS(5) XFUNCS(6)
static struct { void (*h)(graphP, int); void (*r)(graphP, int); int (*hv)(graphP, int); void (*re)(graphP); int (*en)(graphP, int); int (*so)(graphP); } F[NX + 1] = {
    {0}, {hide1, rest1, hidv1, rein1, ensu1, sort1}, {hide2, rest2, hidv2, rein2, ensu2, sort2}, {hide3, rest3, hidv3, rein3, ensu3, sort3},
    {hide4, rest4, hidv4, rein4, ensu4, sort4}, {hide5, rest5, hidv5, rein5, ensu5, sort5}, {hide6, rest6, hidv6, rein6, ensu6, sort6}};
static void *dupc(void *p, void *g)
{
    ctx *c = p, *n = malloc(sizeof *n);
    dupd[nd++] = c->magic == 77 ? c->x : -1;
    *n = *c; n->g = g;
    return n;
}
static void freec(void *p) { ctx *c = p; freed[nf++] = c->magic == 77 ? c->x : -1; c->magic = 0; free(c); }
static void jlist(const char *k, int *l, int n) { J("\"%s\":[", k); for (int i = 0; i < n; i++) J("%s%d", i ? "," : "", l[i]); J("]"); }
static void call(int o, int fn)
{
    graphP g = G[o];
    int l[1000], n = 0;
    nl = 0;
    switch (fn)
    {
    case HIDE: case RESTORE: gp_HideEdge(g, gp_GetFirstEdge(g)); if (fn == RESTORE) nl = 0; gp_RestoreEdge(g, gp_GetFirstEdge(g)); break;
    case HIDEV: gp_HideVertex(g, 1); break;
    case REINIT: gp_ReinitializeGraph(g); break;
    case ENSURE: gp_EnsureArcCapacity(g, gp_GetArcCapacity(g) + 2); break;
    case SORT: gp_SortVertices(g); break;
    }
    for (int i = 0; i < nl; i++) if (lg[i][1] == fn) l[n++] = lg[i][0];
    if (fn == HIDEV) gp_RestoreVertices(g);
    if (fn == REINIT) { gp_AddEdge(g, 1, 0, 2, 0); gp_CreateDFSTree(g); }
    J("{\"ev\":\"call\",\"o\":%d,\"fn\":%d,", o, fn); jlist("log", l, n); J("}\n"); nev++;
}
static void run(void)
{
    J("{\"ev\":\"begin\"}\n"); nev++; nruns++;
    int real = vh_chance(30);
    for (int t = vh_between(10, 60); t > 0; t--)
    {
        int o = vh_rnd(MAXO), x = vh_between(1, NX), r = vh_rnd(100);
        nf = nd = 0;
        if (!G[o])
        {
            if (r < 50)
            {
                G[o] = gp_New();
                gp_InitGraph(G[o], 3);
                gp_AddEdge(G[o], 1, 0, 2, 0);
                gp_CreateDFSTree(G[o]);
                J("{\"ev\":\"new\",\"o\":%d}\n", o); nev++;
            }
            continue;
        }
        graphP g = G[o];
        if (r < 35)
        {
            ctx *c = calloc(1, sizeof *c);
            int fns[NFN], n = 0, mask = vh_rnd(64), ret;
            c->magic = 77; c->x = x; c->g = g;
            if (mask & 1) { c->functions.fpHideEdge = F[x].h; fns[n++] = HIDE; }
            if (mask & 2) { c->functions.fpRestoreEdge = F[x].r; fns[n++] = RESTORE; }
            if (mask & 4) { c->functions.fpHideVertex = F[x].hv; fns[n++] = HIDEV; }
            if (mask & 8) { c->functions.fpReinitializeGraph = F[x].re; fns[n++] = REINIT; }
            if (mask & 16) { c->functions.fpEnsureArcCapacity = F[x].en; fns[n++] = ENSURE; }
            if (mask & 32) { c->functions.fpSortVertices = F[x].so; fns[n++] = SORT; }
            ret = gp_AddExtension(g, &ids[x], c, dupc, freec, &c->functions);
            if (ret != OK) free(c);
            J("{\"ev\":\"attach\",\"o\":%d,\"x\":%d,", o, x); jlist("fns", fns, n); J(",\"ret\":%d}\n", ret); nev++;
        }
        else if (r < 55)
        {
            if (!ids[x]) continue;
            int ret = gp_RemoveExtension(g, ids[x]);
            J("{\"ev\":\"detach\",\"o\":%d,\"x\":%d,\"ret\":%d,", o, x, ret); jlist("freed", freed, nf); J("}\n"); nev++;
        }
        else if (r < 80) { int fn = vh_between(1, NFN - 1); if (fn == ENSURE && real) continue; call(o, fn); }
        else if (r < 85 && real) { char f = "d234"[vh_rnd(4)]; if (vh_chance(60)) vh_attach(g, f); else vh_detach(g, f); }
        else if (r < 89)
        {
            int l[NX], n = 0;
            for (int y = 1; y <= NX; y++)
            {
                void *c = NULL;
                int q = gp_FindExtension(g, ids[y], &c);
                if (q != (gp_GetExtension(g, ids[y]) != NULL) || q != (c != NULL) || (c && ((ctx *)c)->x != y)) l[n++] = -y; else if (q) l[n++] = y;
            }
            J("{\"ev\":\"find\",\"o\":%d,", o); jlist("found", l, n); J("}\n"); nev++;
        }
        else if (r < 96)
        {
            int d = vh_rnd(MAXO);
            if (d == o) continue;
            if (G[d]) gp_CopyGraph(G[d], g); else G[d] = gp_DupGraph(g);
            J("{\"ev\":\"copy\",\"d\":%d,\"s\":%d,", d, o); jlist("freed", freed, nf); J(","); jlist("dupd", dupd, nd); J("}\n"); nev++;
        }
        else { gp_Free(&G[o]); J("{\"ev\":\"free\",\"o\":%d,", o); jlist("freed", freed, nf); J("}\n"); nev++; }
    }
    for (int o = 0; o < MAXO; o++) if (G[o]) { nf = 0; gp_Free(&G[o]); J("{\"ev\":\"free\",\"o\":%d,", o); jlist("freed", freed, nf); J("}\n"); nev++; }
}
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    setvbuf(vh_out, NULL, _IOFBF, 1 << 20);
    setQuietModeSetting(TRUE);
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    for (long r = 0; r < atol(argv[3]); r++)
    {
        alarm(20);
        vh_seed(atol(argv[2]), r);
        run();
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld}\n", nev, nruns);
    return 0;
}
