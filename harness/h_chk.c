/* The result checker shown right and wrong results, recorded for TraceChecker.
     h_chk rand ALGS SEED RUNS NMAX OUT */
#include "common.h"
static long nruns, nev, nchk, nrej;
static graphP T, O;
static int dfi;   /* T is in depth-first order */
static int lab(int p) { return dfi && p <= T->N ? gp_GetVertexIndex(T, p) : p; }
static void j_lab(const char *key)
{
    static int pos[VH_MAXN + 2];
    for (int p = 1; p <= T->N; p++) { int l = lab(p); if (l >= 1 && l <= T->N) pos[l] = p; }
    J("\"%s\":[", key);
    for (int l = 1; l <= T->N; l++)
    {
        int k = 0;
        J("%s[", l > 1 ? "," : "");
        for (int e = gp_GetFirstArc(T, pos[l]); gp_IsArc(e) && k < 2 * VH_MAXN; e = gp_GetNextArc(T, e)) J("%s%d", k++ ? "," : "", lab(gp_GetNeighbor(T, e)));
        J("]");
    }
    J("]");
}
static void j_ref(void)
{
    int k = 0;
    J("\"n\":%d,\"es\":[", O->N);
    for (int v = 1; v <= O->N; v++)
        for (int e = gp_GetFirstArc(O, v); gp_IsArc(e); e = gp_GetNextArc(O, e))
            if (v < gp_GetNeighbor(O, e)) J("%s[%d,%d]", k++ ? "," : "", v, gp_GetNeighbor(O, e));
    J("]");
}
static void check(int claim)
{
    int r = gp_TestEmbedResultIntegrity(T, O, claim), k = 0;
    J("{\"ev\":\"check\",\"claim\":%d,\"ret\":%d,\"starts\":[", claim, r);
    for (int p = 1; p <= T->N; p++) if (gp_IsDFSTreeRoot(T, p)) J("%s%d", k++ ? "," : "", lab(p));
    J("],"); j_lab("adj"); J(","); j_ref(); J("}\n"); nev++; nchk++;
    if (r != claim) nrej++;
}
static int anyarc(graphP G)
{
    for (int t = 0; t < 200; t++)
    {
        int v = vh_between(1, G->N), e = gp_GetFirstArc(G, v);
        if (!gp_IsArc(e)) continue;
        for (int k = vh_rnd(gp_GetVertexDegree(G, v)); k > 0 && gp_IsArc(gp_GetNextArc(G, e)); k--) e = gp_GetNextArc(G, e);
        return e;
    }
    return NIL;
}
static int adjacent(graphP G, int u, int v) { return gp_IsArc(gp_GetNeighborEdgeRecord(G, u, v)); }
/* how: one corruption; returns 0 if not possible */
static int corrupt(int how)
{
    int e = anyarc(T), u = vh_between(1, T->N), v = vh_between(1, T->N), f;
    switch (how)
    {
    case 0: case 1: /* an arc is moved within its list */
        if (!gp_IsArc(e)) return 0;
        v = gp_GetNeighbor(T, gp_GetTwinArc(T, e));
        if (gp_GetVertexDegree(T, v) < 3) return 0;
        if (how) gp_MoveArcToFirst(T, v, e) else gp_MoveArcToLast(T, v, e)
        break;
    case 2: /* two neighbouring arcs change places */
        if (!gp_IsArc(e) || !gp_IsArc(f = gp_GetNextArc(T, e))) return 0;
        v = gp_GetNeighbor(T, gp_GetTwinArc(T, e));
        gp_DetachArc(T, e); gp_AttachArc(T, v, f, 0, e);
        break;
    case 3: /* an edge goes missing */
        if (!gp_IsArc(e)) return 0;
        gp_DeleteEdge(T, e, 0);
        break;
    case 4: /* an edge too many */
        if (u == v || adjacent(T, u, v) || gp_AddEdge(T, u, vh_rnd(2), v, vh_rnd(2)) != OK) return 0;
        break;
    case 5: /* an edge doubled */
        if (!gp_IsArc(e)) return 0;
        v = gp_GetNeighbor(T, gp_GetTwinArc(T, e)); u = gp_GetNeighbor(T, e);
        f = gp_GetTwinArc(T, e);
        if (gp_InsertEdge(T, v, e, 0, u, f, vh_rnd(2)) != OK) return 0;
        break;
    case 6: /* an edge is taken out and put back somewhere */
        if (!gp_IsArc(e)) return 0;
        v = gp_GetNeighbor(T, gp_GetTwinArc(T, e)); u = gp_GetNeighbor(T, e);
        gp_DeleteEdge(T, e, 0);
        {
            int a = gp_GetFirstArc(T, v), b = gp_GetFirstArc(T, u);
            for (int k = vh_rnd(4); k > 0 && gp_IsArc(a) && gp_IsArc(gp_GetNextArc(T, a)); k--) a = gp_GetNextArc(T, a);
            for (int k = vh_rnd(4); k > 0 && gp_IsArc(b) && gp_IsArc(gp_GetNextArc(T, b)); k--) b = gp_GetNextArc(T, b);
            gp_InsertEdge(T, v, a, vh_rnd(2), u, b, vh_rnd(2));
        }
        break;
    case 7: /* one end of an edge is moved to another vertex: deleted here, added there */
        if (!gp_IsArc(e)) return 0;
        v = gp_GetNeighbor(T, gp_GetTwinArc(T, e));
        if (u == v || adjacent(T, u, v)) return 0;
        gp_DeleteEdge(T, e, 0); gp_AddEdge(T, u, vh_rnd(2), v, vh_rnd(2));
        break;
    }
    return 1;
}
static void run(pg *g, char alg)
{
    T = vh_build(g, 1); O = gp_DupGraph(T);
    vh_attach(T, alg);
    int ret = gp_Embed(T, vh_flags(alg));
    dfi = 1;
    if (ret != OK && ret != NONEMBEDDABLE) { J("{\"ev\":\"abort\",\"embed\":%d}\n", ret); return; }
    /* only where the structure left behind is documented */
    if (ret == OK ? !strchr("pod", alg) : alg == 'd') { gp_Free(&T); gp_Free(&O); return; }
    if (vh_chance(40)) { gp_SortVertices(T); dfi = 0; }
    J("{\"ev\":\"begin\",\"alg\":\"%c\",", alg); j_ref(); J(","); j_lab("adj"); J("}\n"); nev++; nruns++;
    if (vh_chance(40)) check(ret);
    if (vh_chance(15)) check(vh_chance(50) ? NOTOK : -ret);
    for (int k = vh_between(1, 3); k > 0; k--)
    {
        if (vh_chance(20))
        {   /* the other graph is not the original */
            int e = anyarc(O), u = vh_between(1, O->N), v = vh_between(1, O->N);
            if (vh_chance(40) && gp_IsArc(e)) gp_DeleteEdge(O, e, 0);
            else if (vh_chance(50) && u != v && !adjacent(O, u, v)) gp_AddEdge(O, u, 0, v, 0);
            else
            {
                static pg h; h = *g; h.n += vh_chance(70) ? 1 : -1;
                for (int i = h.m - 1; i >= 0; i--) if (h.u[i] > h.n || h.v[i] > h.n) { h.m--; h.u[i] = h.u[h.m]; h.v[i] = h.v[h.m]; }
                if (h.n < 1) continue;
                gp_Free(&O); O = vh_build(&h, 1);
            }
            J("{\"ev\":\"ref\","); j_ref(); J("}\n"); nev++;
        }
        else
        {
            int how = vh_rnd(8);
            if (!corrupt(how)) continue;
            J("{\"ev\":\"corrupt\",\"how\":%d,", how); j_lab("adj"); J("}\n"); nev++;
        }
        check(vh_chance(90) ? ret : vh_chance(50) ? -ret : NOTOK);
    }
    J("{\"ev\":\"free\"}\n");
    gp_Free(&T); gp_Free(&O);
}
int main(int argc, char **argv)
{
    static pg g;
    if (argc < 7) return 2;
    vh_out = fopen(argv[6], "w");
    setvbuf(vh_out, NULL, _IOFBF, 1 << 20);
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    int na = (int)strlen(argv[2]); long seed = atol(argv[3]), runs = atol(argv[4]); int nmax = atoi(argv[5]);
    for (long r = 0; r < runs; r++)
    {
        alarm(20);
        vh_seed(seed, r);
        char alg = argv[2][r % na];
        pg_family(&g, vh_rnd(VH_FAMILIES), vh_between(2, nmax)); pg_finish(&g);
        if (g.n < 1) continue;
        run(&g, alg);
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld,\"checks\":%ld,\"rejections\":%ld}\n", nev, nruns, nchk, nrej);
    return 0;
}
