/* Several graph objects carried through the same operations along different ways, recorded for TraceReplay.
     h_twin MODE SEED RUNS NMAX OUT      MODE: reinit copy feat */
#include "common.h"
extern int K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID, DRAWPLANAR_ID;
#define MAXO 3
typedef struct { int k, a, b, c, d; } op;
enum { ADD, DEL, DIR, HIDE, HIDEV, CONTRACT, RESTORE, EMBED, SORT, CHK, WRITE, VIS, DFS, LOW, LEAST, QUERY, NOPS };
static graphP G[MAXO];
static int pc[MAXO], emb[MAXO], ret_[MAXO], live[MAXO], plain[MAXO], dfsd[MAXO], nh[MAXO], hed[MAXO][64]; /* plain: the lists are documented */
static pg orig[MAXO];
static long nev, nruns;
static op P[200];
static int np;
static char buf[1 << 16];
static int bl;
static void put(const char *f, ...)
{
    va_list a;
    va_start(a, f);
    if (bl < (int)sizeof buf - 200) bl += vsnprintf(buf + bl, sizeof buf - bl, f, a);
    va_end(a);
}
static void jstr(const char *s)
{
    J("\"");
    for (; *s; s++) if (*s == '\n') J("|"); else if (*s == '"' || *s == '\\') J("'"); else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) J("~"); else J("%c", *s);
    J("\"");
}
static void state(int o)
{
    graphP g = G[o];
    bl = 0;
    if (!plain[o]) put("-");
    else
    {
        put("%d %d %d:", (g)->N, (g)->M, (g)->NV);
        for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++)
        {
            int k = 0;
            put(" %d", gp_GetVertexIndex(g, v));
            if (dfsd[o]) put("^%d", gp_GetVertexParent(g, v));
            put("[");
            for (int e = gp_GetFirstArc(g, v); gp_IsArc(e) && k < 2000; e = gp_GetNextArc(g, e), k++)
                put("%s%d>%d.%d", k ? "," : "", e, gp_GetNeighbor(g, e), gp_GetDirection(g, e));
            put("]");
        }
    }
    J("\"st\":"); jstr(buf);
}
static void found(int o)
{
    int k = 0;
    J("\"found\":[");
    if (gp_FindExtension(G[o], DRAWPLANAR_ID, NULL)) J("%s\"d\"", k++ ? "," : "");
    if (gp_FindExtension(G[o], K23SEARCH_ID, NULL)) J("%s\"2\"", k++ ? "," : "");
    if (gp_FindExtension(G[o], K33SEARCH_ID, NULL)) J("%s\"3\"", k++ ? "," : "");
    if (gp_FindExtension(G[o], K4SEARCH_ID, NULL)) J("%s\"4\"", k++ ? "," : "");
    J("],");
}
static int has(int o, char f)
{
    return gp_FindExtension(G[o], f == 'd' ? DRAWPLANAR_ID : f == '2' ? K23SEARCH_ID : f == '3' ? K33SEARCH_ID : K4SEARCH_ID, NULL);
}
static void attach(int o, char f)
{
    int r = vh_attach(G[o], f);
    J("{\"ev\":\"attach\",\"o\":%d,\"f\":\"%c\",\"ret\":%d,", o, f, r); found(o); state(o); J("}\n"); nev++;
}
static void detach(int o, char f)
{
    if (live[o] == f) live[o] = 0;
    int r = vh_detach(G[o], f);
    J("{\"ev\":\"detach\",\"o\":%d,\"f\":\"%c\",\"ret\":%d,", o, f, r); found(o); state(o); J("}\n"); nev++;
}
static void clear(int o) { emb[o] = live[o] = dfsd[o] = nh[o] = pc[o] = 0; ret_[o] = 0; plain[o] = 1; }
static void newobj(int o, int n, int feats)
{
    char at[8]; int na = 0;
    G[o] = gp_New();
    clear(o);
    for (int k = 0; k < 4; k++) if (feats && vh_chance(35)) { at[na] = "d234"[k]; vh_attach(G[o], at[na++]); }
    int r = gp_InitGraph(G[o], n);
    J("{\"ev\":\"new\",\"o\":%d,\"n\":%d,\"how\":\"new %d\",\"seen\":\"%d\",\"asked\":[", o, n, n, r);
    for (int k = 0; k < na; k++) J("%s\"%c\"", k ? "," : "", at[k]);
    J("],"); found(o); state(o); J("}\n"); nev++;
    for (int k = 0; k < na; k++) attach(o, at[k]); /* attaching again what is attached already changes nothing */
}
static void newread(int o, int n, const char *text)
{
    G[o] = gp_New();
    clear(o);
    int r = gp_ReadFromString(G[o], strdup(text));
    J("{\"ev\":\"new\",\"o\":%d,\"n\":%d,\"how\":\"read ", o, n);
    for (const char *s = text; *s; s++) J("%c", *s == '\n' ? '|' : *s);
    J("\",\"seen\":\"%d\",\"asked\":[],", r); found(o); state(o); J("}\n"); nev++;
}
static int nth_edge(int o, int k)
{
    graphP g = G[o];
    int c = 0;
    for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) c++;
    if (!c) return NIL;
    k %= c;
    for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) if (k-- == 0) return e;
    return NIL;
}
static void grab(int o)
{
    graphP g = G[o];
    pg *q = &orig[o];
    q->n = (g)->N; q->m = 0;
    for (int v = 1; v <= q->n; v++)
        for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e))
            if (v < gp_GetNeighbor(g, e) && q->m < VH_MAXM) { q->u[q->m] = v; q->v[q->m++] = gp_GetNeighbor(g, e); }
}
static void exec(int o, op *p)
{
    graphP g = G[o];
    int n = (g)->N, f = gp_GetFirstVertex(g), u, v, e;
    static char seen[1 << 16];
    seen[0] = 0;
    char *t = NULL;
    int done = emb[o] && !(ret_[o] == OK && strchr("pod", emb[o])); /* only looked at from now on */
    switch (p->k)
    {
    case ADD:
        u = f + p->a % n; v = f + p->b % n;
        if (nh[o] || emb[o] || dfsd[o] || u == v || (g)->M >= 3 * n || gp_IsNeighbor(g, u, v) || gp_IsNeighbor(g, v, u)) return;
        sprintf(seen, "%d", p->c & 4 ? gp_DynamicAddEdge(g, u, p->c & 1, v, p->c >> 1 & 1) : gp_AddEdge(g, u, p->c & 1, v, p->c >> 1 & 1));
        break;
    case DEL:
        if (nh[o] || done || dfsd[o] || (e = nth_edge(o, p->a)) == NIL) return;
        sprintf(seen, "%d", gp_DeleteEdge(g, e, p->b & 1));
        break;
    case DIR:
        if (emb[o] || (e = nth_edge(o, p->a)) == NIL) return;
        u = (int[]){0, EDGEFLAG_DIRECTION_INONLY, EDGEFLAG_DIRECTION_OUTONLY}[p->b % 3];
        gp_SetDirection(g, e, u);
        break;
    case HIDE:
        if (done || dfsd[o] || nh[o] > 50 || (e = nth_edge(o, p->a)) == NIL) return;
        gp_HideEdge(g, e);
        hed[o][nh[o]++] = e;
        break;
    case HIDEV:
        if (done || dfsd[o] || nh[o] > 50) return;
        u = f + p->a % n;
        for (int i = 0; i < nh[o]; i++) if (hed[o][i] == -u) return;
        gp_HideVertex(g, u);
        hed[o][nh[o]++] = -u;
        break;
    case CONTRACT:
        if (done || dfsd[o] || nh[o] > 50 || (e = nth_edge(o, p->a)) == NIL) return;
        u = gp_GetNeighbor(g, e);
        sprintf(seen, "%d", gp_ContractEdge(g, e));
        hed[o][nh[o]++] = -u;
        break;
    case RESTORE:
        if (!nh[o]) return;
        for (int k = p->a ? 1 : 1000; k > 0 && nh[o]; k--)
        {
            e = hed[o][--nh[o]];
            if (e > 0) gp_RestoreEdge(g, e); else sprintf(seen, "%d", gp_RestoreVertex(g));
        }
        break;
    case EMBED:
        if (emb[o] || nh[o] || dfsd[o]) return;
        for (e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e++) if (gp_EdgeInUse(g, e) && gp_GetDirection(g, e)) return;
        if (strchr("d234", p->a) && !has(o, p->a)) attach(o, p->a);
        grab(o);
        ret_[o] = gp_Embed(g, vh_flags(p->a));
        emb[o] = p->a; live[o] = p->a;
        plain[o] = ret_[o] == OK ? !!strchr("pod", p->a) : ret_[o] == NONEMBEDDABLE && p->a != 'd';
        sprintf(seen, "%d", ret_[o]);
        break;
    case SORT:
        if (!(emb[o] && plain[o]) && !dfsd[o]) return;
        if (nh[o]) return;
        sprintf(seen, "%d", gp_SortVertices(g));
        break;
    case CHK:
    {
        if (!emb[o] || live[o] != emb[o] || nh[o] || (ret_[o] != OK && ret_[o] != NONEMBEDDABLE)) return;
        graphP O = vh_build(&orig[o], 0);
        sprintf(seen, "%d", gp_TestEmbedResultIntegrity(g, O, ret_[o]));
        gp_Free(&O);
        break;
    }
    case WRITE:
    {
        if (!plain[o] || nh[o]) return;
        int r = gp_WriteToString(g, &t, p->a % 3 == 0 ? WRITE_ADJLIST : p->a % 3 == 1 ? WRITE_ADJMATRIX : WRITE_G6);
        char *q = t && r == OK ? strstr(t, "<DrawPlanar>") : NULL;
        if (q) *q = 0;
        snprintf(seen, sizeof seen, "%d %s", r, r == OK && t ? t : "");
        if (r == OK) free(t);
        break;
    }
    case VIS:
    {
        if (emb[o] != 'd' || live[o] != 'd' || !plain[o] || nh[o] || (g)->M == 0) return;
        if (p->a & 1)
        {
            if ((g)->M != orig[o].m) return; /* the drawing of an embedding that has been changed is not defined */
            int r = gp_DrawPlanar_RenderToString(g, &t);
            snprintf(seen, sizeof seen, "%d %s", r, r == OK && t ? t : "");
            if (r == OK) free(t);
        }
        else
        {
            int r = gp_WriteToString(g, &t, WRITE_ADJLIST);
            char *q = t && r == OK ? strstr(t, "<DrawPlanar>") : NULL;
            snprintf(seen, sizeof seen, "%d %s", r, q ? q : "none");
            if (r == OK) free(t);
        }
        break;
    }
    case DFS:
        if (emb[o] || nh[o] || dfsd[o]) return;
        sprintf(seen, "%d", gp_CreateDFSTree(g));
        dfsd[o] = 1;
        break;
    case LOW: case LEAST:
        if (!dfsd[o]) return;
        {
            int r = p->k == LOW ? gp_LowpointAndLeastAncestor(g) : gp_LeastAncestor(g), k = sprintf(seen, "%d", r);
            for (v = f; gp_VertexInRange(g, v) && k < 60000; v++)
            {
                k += sprintf(seen + k, " %d", gp_GetVertexLeastAncestor(g, v));
                if (p->k == LOW) k += sprintf(seen + k, "/%d", gp_GetVertexLowpoint(g, v));
            }
        }
        break;
    case QUERY:
        if (!plain[o]) return;
        u = f + p->a % n; v = f + p->b % n;
        sprintf(seen, "%d %d %d %d %d", gp_IsNeighbor(g, u, v), gp_GetNeighborEdgeRecord(g, u, v), gp_GetVertexDegree(g, u), gp_GetVertexInDegree(g, u), gp_GetVertexOutDegree(g, v));
        break;
    }
    J("{\"ev\":\"op\",\"o\":%d,\"op\":\"%d %d %d %d\",\"seen\":", o, p->k, p->a, p->b, p->c); jstr(seen); J(","); state(o); J("}\n"); nev++;
}
static op rop(void)
{
    op p = {0, vh_rnd(1000), vh_rnd(1000), vh_rnd(8), 0};
    int r = vh_rnd(100);
    p.k = r < 30 ? ADD : r < 38 ? DEL : r < 42 ? DIR : r < 48 ? HIDE : r < 52 ? HIDEV : r < 56 ? CONTRACT : r < 66 ? RESTORE : r < 76 ? EMBED : r < 80 ? SORT : r < 84 ? CHK : r < 89 ? WRITE
        : r < 92 ? VIS : r < 94 ? DFS : r < 95 ? LOW : r < 96 ? LEAST : QUERY;
    if (p.k == EMBED) p.a = "pod234"[vh_rnd(6)];
    if (p.k == RESTORE) p.a &= 1;
    return p;
}
#define PUSH(K, A, B, C) (P[np].k = (K), P[np].a = (A), P[np].b = (B), P[np].c = (C), np++)
static void program(int n, int big)
{
    static pg q;
    np = 0;
    pg_family(&q, vh_rnd(VH_FAMILIES), n);
    pg_finish(&q);
    for (int i = 0; i < q.m && i < 3 * n && i < 100; i++) PUSH(ADD, q.u[i] - 1, q.v[i] - 1, vh_rnd(8));
    for (int k = vh_chance(50) ? vh_rnd(6) : 0; k > 0; k--) { op p = rop(); if (p.k <= RESTORE) P[np++] = p; }
    PUSH(RESTORE, 0, 0, 0);
    if (vh_chance(15))
    {
        for (int k = vh_between(2, 6); k > 0; k--) { int x = (int[]){DFS, DFS, SORT, LOW, LEAST, WRITE}[vh_rnd(6)]; PUSH(x, 0, 0, 0); };
        return;
    }
    if (vh_chance(85))
    {
        PUSH(EMBED, "pod234d34"[vh_rnd(9)], 0, 0);
        if (vh_chance(50)) PUSH(CHK, 0, 0, 0);
        if (vh_chance(50)) PUSH(VIS, vh_rnd(2), 0, 0);
    }
    for (int k = vh_rnd(8); k > 0; k--)
    {
        op p = rop();
        if (p.k == ADD || p.k == EMBED) p.k = (int[]){SORT, CHK, WRITE, VIS}[vh_rnd(4)];
        P[np++] = p;
    }
    (void)big;
}
static void copyside(int d, int s)
{
    pc[d] = pc[s]; emb[d] = emb[s]; ret_[d] = ret_[s]; live[d] = live[s]; plain[d] = plain[s]; dfsd[d] = dfsd[s]; nh[d] = nh[s];
    memcpy(hed[d], hed[s], sizeof hed[d]); orig[d] = orig[s];
}
static void copy(int d, int s)
{
    int r;
    if (!G[d]) { G[d] = gp_DupGraph(G[s]); r = G[d] != NULL; }
    else r = gp_CopyGraph(G[d], G[s]);
    if (G[d]) copyside(d, s);
    J("{\"ev\":\"copy\",\"d\":%d,\"s\":%d,\"ret\":%d,", d, s, r);
    if (G[d]) { found(d); state(d); } else J("\"found\":[],\"st\":\"\"");
    J("}\n"); nev++;
}
static void run(int mode, int nmax)
{
    int n = vh_between(1, nmax), wR = mode == 'r' ? 8 : 1, wC = mode == 'c' ? 10 : 1, wF = mode == 'f' ? 25 : mode == 'c' ? 3 : 1, wD = mode == 'f' ? 2 : 8;
    static char text[1 << 16];
    J("{\"ev\":\"begin\",\"mode\":\"%c\"}\n", mode); nev++; nruns++;
    program(n, 0);
    newobj(0, n, 0);
    if (mode == 'r' && vh_chance(25))
    {
        /* a graph that has been read, perhaps with labels from 0 */
        int k = sprintf(text, "N=%d\n", n), z = vh_rnd(2);
        for (int v = 0; v < n; v++) k += v + 1 < n && vh_chance(60) ? sprintf(text + k, "%d: %d %d\n", v + !z, v + 1 + !z, z ? -1 : 0) : sprintf(text + k, "%d: %d\n", v + !z, z ? -1 : 0);
        newread(1, n, text);
    }
    else newobj(1, n, mode == 'f' || vh_chance(10));
    if (mode != 'c') newobj(2, n, mode == 'f');
    if (mode != 'f' || vh_chance(50)) { int k = vh_rnd(np + 1); while (pc[0] < k) exec(0, &P[pc[0]++]); }
    /* object 1 mostly starts off with something else */
    if (mode != 'f') { int k = vh_rnd(40); for (pc[1] = -1; k > 0; k--) { op p = vh_chance(50) && np ? P[vh_rnd(np)] : rop(); exec(1, &p); } }
    for (int t = 0, max = 3 * np + 30; t < max; t++)
    {
        int busy = 0;
        for (int o = 0; o < MAXO; o++) if (G[o] && pc[o] >= 0 && pc[o] < np) busy = 1;
        if (!busy && t > 10) break;
        int o = vh_rnd(MAXO), r = vh_rnd(100 + wR + wC + wF + wD);
        if (!G[o]) { if (r < 20) newobj(o, n, vh_rnd(2)); else if (r < 60) { int s = vh_rnd(MAXO); if (G[s]) copy(o, s); } continue; }
        if (r < 100)
        {
            for (int k = vh_between(1, 8); k > 0 && pc[o] >= 0 && pc[o] < np; k--) exec(o, &P[pc[o]++]);
            continue;
        }
        r -= 100;
        if (r < wR) { gp_ReinitializeGraph(G[o]); clear(o); J("{\"ev\":\"reinit\",\"o\":%d,", o); state(o); J("}\n"); nev++; continue; }
        r -= wR;
        if (r < wC) { int s = vh_rnd(MAXO); if (s != o && G[s]) copy(o, s); continue; }
        r -= wC;
        if (r < wF) { char f = "d234"[vh_rnd(4)]; if (has(o, f) || vh_chance(5)) detach(o, f); else attach(o, f); continue; }
        op p = rop();
        exec(o, &p);
        pc[o] = -1; /* on its own way: only a copy or a fresh start brings it back */
        if (vh_chance(50)) { gp_ReinitializeGraph(G[o]); clear(o); J("{\"ev\":\"reinit\",\"o\":%d,", o); state(o); J("}\n"); nev++; }
    }
    for (int o = 0; o < MAXO; o++)
    {
        if (!G[o]) continue;
        if (pc[o] < 0) { gp_ReinitializeGraph(G[o]); clear(o); J("{\"ev\":\"reinit\",\"o\":%d,", o); state(o); J("}\n"); nev++; }
        while (pc[o] < np) exec(o, &P[pc[o]++]);
    }
    for (int o = 0; o < MAXO; o++) if (G[o]) { gp_Free(&G[o]); J("{\"ev\":\"free\",\"o\":%d}\n", o); nev++; }
}
int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    setvbuf(vh_out, NULL, _IOFBF, 1 << 20);
    setQuietModeSetting(TRUE);
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    for (long r = 0; r < atol(argv[3]); r++)
    {
        alarm(20);
        vh_seed(atol(argv[2]), r);
        run(argv[1][0], atoi(argv[4]));
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld}\n", nev, nruns);
    return 0;
}
