/* Reading and writing graphs, recorded for TraceFormats.
     h_io round SEED RUNS OUT      graphs written in every format, read back, written again
     h_io bad   SEED RUNS OUT      damaged texts of every format
     h_io leda  SEED RUNS OUT      LEDA files
     h_io iter  SEED RUNS OUT      graph6 iterators
     h_io exh   N SHARD SHARDS OUT all graphs of order N
     h_io alpha L SHARD SHARDS OUT all texts of length L over a small alphabet, behind a valid beginning
     h_io large ORDER RUNS OUT     sparse graphs of a large order in graph6 */
#include "common.h"
#include <ctype.h>
#include "io/strOrFile.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
extern int K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID, DRAWPLANAR_ID;
static long nev, nruns, nbad;
static char tmpf[64];
static void jbytes(const char *s, int len)
{
    J("\"t\":[");
    for (int i = 0; i < len; i++) J("%s%d", i ? "," : "", (unsigned char)s[i]);
    J("]");
}
static int dirof(graphP g, int e)
{
    int d = gp_GetDirection(g, e);
    return d == EDGEFLAG_DIRECTION_INONLY ? 1 : d == EDGEFLAG_DIRECTION_OUTONLY ? 2 : d == 0 ? 0 : 3;
}
/* the lists in the order in which they are written: from the last arc to the first */
static void jgraph(graphP g)
{
    int n = g ? (g)->N : 0;
    J("\"n\":%d,\"zb\":%d,\"lists\":[", n, g && (g->internalFlags & FLAGS_ZEROBASEDIO) ? 1 : 0);
    for (int v = gp_GetFirstVertex(g); v < gp_GetFirstVertex(g) + n; v++)
    {
        int k = 0;
        J("%s[", v > gp_GetFirstVertex(g) ? "," : "");
        for (int e = gp_GetLastArc(g, v); gp_IsArc(e) && k < 100000; e = gp_GetPrevArc(g, e), k++)
            J("%s[%d,%d]", k ? "," : "", gp_GetNeighbor(g, e) - gp_GetFirstVertex(g) + 1, dirof(g, e));
        J("]");
    }
    J("]");
}
static void put_file(const char *s, int len)
{
    FILE *f = fopen(tmpf, "wb");
    if (len) fwrite(s, 1, len, f);
    fclose(f);
}
static char *get_file(int *len)
{
    FILE *f = fopen(tmpf, "rb");
    if (!f) { *len = 0; return calloc(1, 1); }
    fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET);
    char *s = malloc(n + 1);
    *len = (int)fread(s, 1, n, f); s[*len] = 0;
    fclose(f);
    return s;
}
static const char *modes[3] = {"adj", "mat", "g6"};
static int modec[3] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6};
/* returns the written text (to be freed), NULL when refused */
static char *do_write(graphP g, int mode, int byfile, const char *ev, int *len)
{
    char *s = NULL;
    int ret;
    if (byfile) { remove(tmpf); ret = gp_Write(g, tmpf, modec[mode]); s = ret == OK ? get_file(len) : NULL; }
    else
    {
        if (vh_chance(50)) s = (char *)-1; /* output only: what the pointer held before is irrelevant */
        ret = gp_WriteToString(g, &s, modec[mode]);
        if (ret != OK) { if (s != NULL && s != (char *)-1) free(s); s = NULL; }
        *len = s ? (int)strlen(s) : 0;
    }
    if (!s) *len = 0;
    J("{\"ev\":\"%s\",\"mode\":\"%s\",\"via\":\"%s\",\"ret\":%d,", ev, modes[mode], byfile ? "file" : "string", ret);
    if (!strcmp(ev, "write")) { jgraph(g); J(","); }
    jbytes(s ? s : "", *len); J("}\n"); nev++;
    return s;
}
static int attachsome, hidden, stray, maystray; /* hidden: what graph6 output makes of temporarily hidden edges is not specified */
static graphP fresh(void)
{
    graphP g = gp_New();
    if (attachsome) { if (vh_chance(30)) gp_AttachK33Search(g); if (vh_chance(20)) gp_AttachK23Search(g); if (vh_chance(20)) gp_AttachK4Search(g); }
    return g;
}
static graphP do_read(const char *s, int len, int byfile, int *pret)
{
    graphP g = fresh();
    int ret;
    if (byfile) { put_file(s, len); ret = gp_Read(g, tmpf); }
    else { char *c = malloc(len + 1); memcpy(c, s, len); c[len] = 0; ret = gp_ReadFromString(g, c); }
    J("{\"ev\":\"read\",\"via\":\"%s\",\"ret\":%d,", byfile ? "file" : "string", ret);
    jbytes(s, len); J(",");
    if (ret == OK) jgraph(g); else { J("\"n\":0,\"zb\":0,\"lists\":[]"); nbad++; }
    J("}\n"); nev++;
    *pret = ret;
    return g;
}
/* ---------- graphs ---------- */
static graphP some_graph(int nmax, int directed)
{
    static pg G;
    pg *g = &G;
    int n = vh_between(1, nmax);
    if (nmax > 6 && vh_chance(40)) { pg_family(g, vh_rnd(12), nmax); pg_finish(g); }
    else { pg_reset(g, n); pg_add_random(g, vh_rnd(n <= 1 ? 1 : vh_chance(20) ? n * (n - 1) / 2 + 1 : 2 * n + 1)); }
    graphP L = vh_build(g, 1);
    hidden = 0;
    if (!L) return NULL;
    if (vh_chance(15)) { gp_AttachDrawPlanar(L); gp_DetachDrawPlanar(L); }
    /* holes and hidden edges */
    for (int i = 0, k = vh_chance(40) ? vh_rnd(g->m + 1) / 2 : 0; i < k; i++)
    {
        int e = gp_GetFirstEdge(L) + 2 * vh_rnd(g->m);
        if (gp_EdgeInUse(L, e)) gp_DeleteEdge(L, e, 0);
    }
    stray = 0;
    if (maystray && vh_chance(8))
    {
        /* a search that finds nothing stops before the embedding is put together */
        static const char alg[] = "234d"; char a = alg[vh_rnd(4)];
        vh_attach(L, a); int r = gp_Embed(L, vh_flags(a));
        if (a == 'd' || r == OK) { stray = 1; if (vh_chance(50)) gp_SortVertices(L); }
        return L;
    }
    if (vh_chance(25)) gp_Embed(L, (int[]){EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR}[vh_rnd(2)]);
    if (vh_chance(10) && n > 1) { int e = gp_GetFirstEdge(L) + 2 * vh_rnd(g->m > 0 ? g->m : 1); if (e < gp_EdgeInUseIndexBound(L) && gp_EdgeInUse(L, e)) { gp_HideEdge(L, e); hidden = 1; } }
    if (directed)
        for (int e = gp_GetFirstEdge(L); e < gp_EdgeInUseIndexBound(L); e++)
            if (gp_EdgeInUse(L, e) && vh_chance(25))
                gp_SetDirection(L, e, vh_chance(70) ? vh_chance(50) ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY : 0);
    if (vh_chance(20)) L->internalFlags |= FLAGS_ZEROBASEDIO;
    return L;
}
static int given; /* files handed over to a call that failed */
static void files(void)
{
    int k = vh_fds(0);
    J("{\"ev\":\"files\",\"open\":%d,\"given\":%d}\n", k, given); nev++;
    if (k) vh_fdclose();
    given = 0;
}
static void begin(void) { if (nruns) files(); else vh_fds(1); J("{\"ev\":\"begin\"}\n"); nruns++; nev++; }
static void roundtrip(graphP L, int mode, int wf, int rf)
{
    int len, ret;
    if (mode == 2 && hidden) return;
    char *t = do_write(L, mode, wf, "write", &len);
    if (!t) return;
    if (stray) { free(t); return; }
    graphP g = do_read(t, len, rf, &ret);
    free(t);
    if (ret == OK)
    {
        /* matrices carry no index base, so only lists are written again with the base they were read with */
        t = do_write(g, mode, vh_rnd(2), "again", &len);
        free(t);
    }
    gp_Free(&g);
}
/* the debugging dump next to what the accessors say */
static void dump(graphP g)
{
    int len = 0, k, ret, sret; char *s = NULL;
    remove(tmpf);
    ret = gp_Write(g, tmpf, WRITE_DEBUGINFO);
    sret = gp_WriteToString(g, &s, WRITE_DEBUGINFO); if (sret == OK && s) free(s);
    void *ctx = NULL;
    J("{\"ev\":\"dump\",\"more\":%d,\"ret\":%d,\"sret\":%d,\"nil\":%d,\"n\":%d,\"m\":%d,\"v\":[", gp_FindExtension(g, DRAWPLANAR_ID, &ctx) == TRUE, ret == OK, sret == OK, NIL, g->N, g->M);
    for (int v = gp_GetFirstVertex(g), j = 0; gp_VertexInRange(g, v); v++)
    {
        int t = gp_GetVertexObstructionType(g, v);
        J("%s[%d,%d,%d,%d,%d,%d,%d,%d]", j++ ? "," : "", v, gp_GetVertexParent(g, v), gp_GetVertexLeastAncestor(g, v), gp_GetVertexLowpoint(g, v), gp_GetVertexIndex(g, v),
          t == VERTEX_OBSTRUCTIONTYPE_HIGH_RXW ? 'X' : t == VERTEX_OBSTRUCTIONTYPE_LOW_RXW ? 'x' : t == VERTEX_OBSTRUCTIONTYPE_HIGH_RYW ? 'Y' : t == VERTEX_OBSTRUCTIONTYPE_LOW_RYW ? 'y' : 'U',
          gp_GetFirstArc(g, v), gp_GetLastArc(g, v));
    }
    J("],\"w\":["); k = 0;
    for (int v = gp_GetFirstVirtualVertex(g); gp_VirtualVertexInRange(g, v); v++)
        if (gp_VirtualVertexInUse(g, v)) J("%s[%d,%d,%d,%d,%d]", k++ ? "," : "", v, gp_GetVertexIndex(g, v), gp_GetDFSChildFromRoot(g, v), gp_GetFirstArc(g, v), gp_GetLastArc(g, v));
    for (int w = 0; w < 2; w++)
    {
        J(w ? "],\"wadj\":[" : "],\"adj\":["); k = 0;
        for (int v = w ? gp_GetFirstVirtualVertex(g) : gp_GetFirstVertex(g); w ? gp_VirtualVertexInRange(g, v) : gp_VertexInRange(g, v); v++)
        {
            if (w && !gp_VirtualVertexInUse(g, v)) continue;
            J("%s[", k++ ? "," : "");
            for (int e = gp_GetFirstArc(g, v), j = 0; gp_IsArc(e); e = gp_GetNextArc(g, e)) J("%s[%d,%d]", j++ ? "," : "", gp_GetNeighbor(g, e), e);
            J("]");
        }
    }
    J("],\"e\":["); k = 0;
    for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e++)
        if (gp_EdgeInUse(g, e))
        {
            int t = gp_GetEdgeType(g, e);
            J("%s[%d,%d,%d,%d,%d]", k++ ? "," : "", e, gp_GetNeighbor(g, e), t == EDGE_TYPE_CHILD ? 'C' : t == EDGE_TYPE_FORWARD ? 'F' : t == EDGE_TYPE_PARENT ? 'P' : t == EDGE_TYPE_BACK ? 'B' : t == EDGE_TYPE_RANDOMTREE ? 'T' : 'U',
              gp_GetNextArc(g, e), gp_GetPrevArc(g, e));
        }
    J("],"); s = get_file(&len); jbytes(s ? s : "", len); J("}\n"); nev++; free(s);
}
static void run_round(int quickn)
{
    begin();
    maystray = 1;
    graphP L = some_graph(vh_chance(12) ? quickn : vh_chance(50) ? 6 : 14, vh_chance(40));
    if (!L) return;
    /* a graph with search extensions does not grow beyond its initial arc capacity */
    attachsome = vh_chance(20) && (L)->M <= 3 * (L)->N;
    if (vh_chance(5))
    {
        int m = vh_rnd(3);
        J("{\"ev\":\"nowrite\",\"ret\":%d}\n", gp_Write(L, vh_chance(50) ? "/nonexistent/x" : "/dev/full", modec[m]) == OK && 1); nev++;
        J("{\"ev\":\"nowrite\",\"ret\":%d}\n", gp_Write(L, tmpf, 17) == OK); nev++;
        graphP g = gp_New();
        J("{\"ev\":\"noinput\",\"ret\":%d}\n", gp_Read(g, "/nonexistent/x")); nev++;
        J("{\"ev\":\"noinput\",\"ret\":%d}\n", gp_Read(g, "/")); nev++;
        J("{\"ev\":\"noinput\",\"ret\":%d}\n", gp_ReadFromString(g, NULL)); nev++;
        J("{\"ev\":\"noinput\",\"ret\":%d}\n", gp_ReadFromString(g, strdup(""))); nev++;
        put_file("", 0);
        J("{\"ev\":\"noinput\",\"ret\":%d}\n", gp_Read(g, tmpf)); nev++;
        gp_Free(&g);
    }
    for (int m = 0; m < 3; m++) roundtrip(L, m, vh_rnd(2), vh_rnd(2));
    if (vh_chance(15)) dump(L);
    gp_Free(&L);
}
/* ---------- damaged texts ---------- */
static int put_leda(char *s, int good)
{
    int n = vh_between(1, 8), m = vh_rnd(14), k = 0;
    const char *nt = (const char *[]){"void", "string", "int"}[vh_rnd(3)], *et = (const char *[]){"void", "int", "bool"}[vh_rnd(3)];
    const char *eol = vh_chance(10) ? "\r\n" : "\n";
    k += sprintf(s + k, "LEDA.GRAPH%s%s%s%s%s%d%s", eol, nt, eol, et, eol, n, eol);
    for (int i = 0; i < n; i++) k += sprintf(s + k, "|{%s}|%s", nt[0] == 'v' ? "" : "7 x", eol);
    k += sprintf(s + k, "%d%s", m, eol);
    for (int i = 0; i < m; i++)
    {
        int u = vh_between(1, n), v = vh_between(1, n);
        if (!good && vh_chance(10)) u = vh_between(-2, n + 2);
        if (!good && vh_chance(10)) v = vh_between(-2, n + 2);
        k += sprintf(s + k, "%d %d %s|{%s}|%s", u, v, vh_chance(50) ? "0 " : "", et[0] == 'v' ? "" : "3", eol);
    }
    return k;
}
static int base_text(char *s, int kind)
{
    static const char *hd[] = {">>graph6<<", "", ""};
    int len = 0;
    if (kind == 3) return put_leda(s, vh_chance(80));
    maystray = 0;
    graphP L = some_graph(vh_chance(6) && kind == 2 ? 66 : vh_chance(50) ? 4 : 8, kind == 0 && vh_chance(40));
    char *t = NULL;
    if (hidden && kind == 2) { gp_Free(&L); L = NULL; }
    if (!L) { strcpy(s, "@\n"); return 2; }
    if (gp_WriteToString(L, &t, modec[kind]) != OK) t = strdup("@");
    if (kind == 2) /* the graph6 line without or with the header, one or more lines */
        for (int q = vh_chance(70) ? 1 : vh_between(1, 3), i = 0; i < q; i++)
            len += sprintf(s + len, "%s%s%s", i == 0 ? hd[vh_rnd(3)] : "", t + (strncmp(t, ">>", 2) ? 0 : 10), vh_chance(10) ? "\r\n" : i < q - 1 || vh_chance(60) ? "\n" : "");
    else { strcpy(s, t); len = strlen(t); }
    free(t);
    gp_Free(&L);
    return len;
}
static int longnumber(const char *s, int len)
{
    int r = 0;
    for (int i = 0; i < len; i++) if (s[i] >= '0' && s[i] <= '9') { if (++r >= 5) return 1; } else r = 0;
    /* graph6 orders in the thousands only now and then */
    const char *p = len > 10 && !strncmp(s, ">>graph6<<", 10) ? s + 10 : s;
    if ((unsigned char)p[0] == 126 && (unsigned char)p[1] >= 64 && (unsigned char)p[1] < 126 && vh_chance(97)) return 1;
    return 0;
}
static void run_bad(int ledaonly)
{
    static char s[20000];
    int kind = ledaonly ? 3 : vh_rnd(4), len = base_text(s, kind), ret;
    begin();
    attachsome = 0;
    if (ledaonly)
    {
        graphP g = do_read(s, len, 1, &ret);
        gp_Free(&g);
        if (vh_chance(50)) { g = do_read(s, len, 0, &ret); gp_Free(&g); }
        return;
    }
    if (vh_chance(15)) /* all beginnings of a text */
    {
        if (len > 60) len = 60;
        for (int k = 1; k <= len; k++) { graphP g = do_read(s, k, vh_rnd(2), &ret); gp_Free(&g); }
        return;
    }
    for (int rep = 0; rep < 4; rep++)
    {
        char u[20100];
        int k = len;
        memcpy(u, s, len + 1);
        for (int q = vh_chance(60) ? 1 : vh_between(1, 4); q > 0 && k > 0; q--)
        {
            int p = vh_chance(40) ? vh_rnd(k < 16 ? k : 16) : vh_rnd(k), d;
            static const char al[] = "N=0123456789 :-\n\r>?@A~}|_+x,;&\t";
            int ch = vh_chance(85) ? al[vh_rnd(sizeof al - 1)] : vh_between(1, 254);
            switch (vh_rnd(7))
            {
            case 0: memmove(u + p, u + p + 1, k - p); k--; break;
            case 1: memmove(u + p + 1, u + p, k - p + 1); u[p] = ch; k++; break;
            case 2: case 3: u[p] = ch; break;
            case 4: k = p; u[k] = 0; break;
            case 5: d = 1 + vh_rnd(k - p < 8 ? k - p : 8); memmove(u + p + d, u + p, k - p + 1); k += d; break;
            default: if (k - p > 1) { d = 1 + vh_rnd(k - p - 1 < 8 ? k - p - 1 : 8); memmove(u + p, u + p + d, k - p - d + 1); k -= d; } break;
            }
        }
        u[k] = 0;
        if (k == 0 || (int)strlen(u) != k || longnumber(u, k)) continue;
        graphP g = do_read(u, k, vh_rnd(2), &ret);
        gp_Free(&g);
    }
}
/* every single-token and (a sample of) every single-character change of one text */
static int nev_mark;
static void one_bad(const char *u, int k, int via)
{
    int ret;
    if (k == 0 || (int)strlen(u) != k || longnumber(u, k)) return;
    if (nev - nev_mark > 60) { begin(); attachsome = 0; nev_mark = nev; }
    graphP g = do_read((char *)u, k, via, &ret);
    gp_Free(&g);
}
static void run_edit(void)
{
    static char s[20000], u[20200];
    int kind = vh_rnd(4), len = 0, n = 0;
    do len = base_text(s, kind); while (len > 90 || len < 3);
    begin(); attachsome = 0; nev_mark = nev;
    if (kind == 3) n = atoi(s + 21); else if (kind == 0) n = atoi(s + 2); else n = atoi(s);
    if (n < 1 || n > 20) n = 4;
    if (kind != 2)
        for (int p = 0; p < len; p++)
        {
            if (!(isdigit(s[p]) || s[p] == '-') || (p > 0 && (isdigit(s[p - 1]) || s[p - 1] == '-'))) continue;
            int q = p; while (q < len && (isdigit(s[q]) || s[q] == '-')) q++;
            int val[] = {-2, -1, 0, 1, 2, n - 1, n, n + 1, n + 2, 2 * n, 2 * n + 1};
            for (int i = 0; i < 12; i++)
            {
                int k = i < 11 ? sprintf(u, "%.*s%d%s", p, s, val[i], s + q) : sprintf(u, "%.*s%s", p, s, s + q);
                one_bad(u, k, kind == 3 ? 1 : vh_rnd(2));
            }
        }
    static const char al[] = "N=01245789 :-\n\r>?@A~}|_x";
    for (int p = 0; p <= len; p++)
        for (int c = -2; c < 2 * ((int)sizeof al - 1); c++)
        {
            int k;
            if (c >= 0 && !vh_chance(kind == 2 ? 60 : 15)) continue;
            if (c == -2) k = sprintf(u, "%.*s", p, s);
            else if (c == -1) { if (p == len) continue; k = sprintf(u, "%.*s%s", p, s, s + p + 1); }
            else if (c & 1) k = sprintf(u, "%.*s%c%s", p, s, al[c >> 1], s + p);
            else { if (p == len) continue; k = sprintf(u, "%.*s%c%s", p, s, al[c >> 1], s + p + 1); }
            one_bad(u, k, kind == 3 ? 1 : vh_rnd(2));
        }
}
/* ---------- iterators ---------- */
static void mutate(graphP g)
{
    int n = (g)->N, first = gp_GetFirstVertex(g);
    switch (vh_rnd(4))
    {
    case 0: if (n > 1) { int e = gp_GetFirstEdge(g) + 2 * vh_rnd(6); if (e < gp_EdgeInUseIndexBound(g) && gp_EdgeInUse(g, e)) gp_DeleteEdge(g, e, 0); } break;
    case 1: if (!(g->internalFlags & FLAGS_DFSNUMBERED)) gp_Embed(g, EMBEDFLAGS_PLANAR); break; /* a graph is embedded once */
    case 2: for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) if (gp_EdgeInUse(g, e) && vh_chance(40)) gp_DeleteEdge(g, e, 0); break;
    default: for (int q = 0; q < 3 && n > 1; q++) { int u = first + vh_rnd(n), v = first + vh_rnd(n); if (u != v && !gp_IsNeighbor(g, u, v) && !gp_IsNeighbor(g, v, u)) gp_DynamicAddEdge(g, u, vh_rnd(2), v, vh_rnd(2)); } break;
    }
}
static void wwrite_ev(G6WriteIterator *W, graphP g, int *dead)
{
    int ret = writeGraphUsingG6WriteIterator(W), cnt = -1;
    if (W) getNumGraphsWritten(W, &cnt);
    J("{\"ev\":\"wwrite\",\"ret\":%d,\"cnt\":%d,", ret, cnt); jgraph(g); J("}\n"); nev++;
    if (ret != OK && W && W->g6Output) *dead = 1;
}
static void winfo_ev(G6WriteIterator *W)
{
    int cnt = -1, ord = -1, ret = getNumGraphsWritten(W, &cnt), r2 = getOrderOfGraphToWrite(W, &ord);
    J("{\"ev\":\"winfo\",\"ret\":%d,\"cnt\":%d,\"order\":%d}\n", ret == OK && r2 == OK, cnt, ord); nev++;
}
static void rinfo_ev(G6ReadIterator *R)
{
    int cnt = -1, ord = -1, ret = getNumGraphsRead(R, &cnt), r2 = getOrderOfGraphToRead(R, &ord);
    J("{\"ev\":\"rinfo\",\"ret\":%d,\"cnt\":%d,\"order\":%d}\n", ret == OK && r2 == OK, cnt, ord); nev++;
}
static void run_iter(int nbig)
{
    static char text[400000];
    int len = 0;
    G6WriteIterator *W = NULL;
    G6ReadIterator *R = NULL;
    maystray = 1;
    graphP g = some_graph(vh_chance(8) ? nbig : vh_chance(50) ? 5 : 12, 0);
    begin();
    if (!g) return;
    if (hidden) { gp_Free(&g); return; }
    g->internalFlags &= ~FLAGS_ZEROBASEDIO;
    int n = (g)->N, dead = 0;
    if (vh_chance(10)) { wwrite_ev(W, g, &dead); winfo_ev(W); J("{\"ev\":\"wbegin\",\"ret\":%d}\n", beginG6WriteIterationToG6FilePath(W, tmpf)); nev++; dead = 0; }
    if (vh_chance(10))
    {
        graphP e = gp_New();
        int ret = allocateG6WriteIterator(&W, vh_chance(50) ? e : NULL);
        J("{\"ev\":\"walloc\",\"n\":0,\"had\":false,\"ret\":%d,\"ptr\":%s}\n", ret, W ? "true" : "false"); nev++;
        gp_Free(&e);
        if (W) freeG6WriteIterator(&W);
    }
    { int ret = allocateG6WriteIterator(&W, g); J("{\"ev\":\"walloc\",\"n\":%d,\"had\":false,\"ret\":%d,\"ptr\":%s}\n", n, ret, W ? "true" : "false"); nev++; }
    if (!W) { gp_Free(&g); return; }
    if (vh_chance(10)) { G6WriteIterator *w = W; int ret = allocateG6WriteIterator(&W, g); J("{\"ev\":\"walloc\",\"n\":%d,\"had\":true,\"ret\":%d,\"ptr\":%s}\n", n, ret, W == w ? "true" : "false"); nev++; }
    if (vh_chance(10)) { wwrite_ev(W, g, &dead); dead = 0; }
    if (vh_chance(10)) winfo_ev(W);
    int how = vh_rnd(3), ret;
    char *wstr = NULL;
    remove(tmpf);
    if (how == 0) ret = beginG6WriteIterationToG6FilePath(W, tmpf);
    else if (how == 1) ret = beginG6WriteIterationToG6FilePointer(W, fopen(tmpf, "w"));
    else ret = beginG6WriteIterationToG6String(W, &wstr);
    J("{\"ev\":\"wbegin\",\"ret\":%d}\n", ret); nev++;
    for (int k = vh_between(1, vh_chance(20) ? 9 : 4); k > 0 && !dead && ret == OK; k--)
    {
        if (vh_chance(4) && n > 1 && gp_EdgeInUseIndexBound(g) > gp_GetFirstEdge(g) && gp_EdgeInUse(g, gp_GetFirstEdge(g))) gp_SetDirection(g, gp_GetFirstEdge(g), EDGEFLAG_DIRECTION_INONLY);
        wwrite_ev(W, g, &dead);
        if (vh_chance(20)) winfo_ev(W);
        if (vh_chance(80)) mutate(g);
    }
    if (how == 2) { char *s = sf_takeTheStr(W->g6Output); len = s ? (int)strlen(s) : 0; memcpy(text, s ? s : "", len + 1); free(s); }
    ret = endG6WriteIteration(W);
    if (how != 2) { char *s = get_file(&len); memcpy(text, s, len + 1); free(s); }
    J("{\"ev\":\"wend\",\"ret\":%d,", ret); jbytes(text, len); J("}\n"); nev++;
    if (vh_chance(20)) { wwrite_ev(W, g, &dead); winfo_ev(W); }
    if (vh_chance(10)) { J("{\"ev\":\"wend\",\"ret\":%d,\"t\":[]}\n", endG6WriteIteration(W)); nev++; }
    for (int q = vh_chance(20) ? 2 : 1; q > 0; q--) { ret = freeG6WriteIterator(&W); J("{\"ev\":\"wfree\",\"ret\":%d,\"ptr\":%s}\n", ret, W ? "true" : "false"); nev++; }
    /* ---- reading, perhaps without header, with other line ends, or damaged ---- */
    if (vh_chance(30) && len > 10) { memmove(text, text + 10, len - 10 + 1); len -= 10; }
    if (vh_chance(30)) { text[len++] = '\n'; text[len] = 0; }
    if (vh_chance(10)) for (int i = 0; i < len; i++) if (text[i] == '\n') { memmove(text + i + 1, text + i, len - i + 1); text[i] = '\r'; len++; i++; }
    if (vh_chance(25) && len > 0)
    {
        int p = vh_chance(50) ? vh_rnd(len) : len - 1 - vh_rnd(len < 12 ? len : 12);
        switch (vh_rnd(4))
        {
        case 0: text[p] = (char)vh_between(32, 127); break;
        case 1: memmove(text + p, text + p + 1, len - p); len--; break;
        case 2: memmove(text + p + 1, text + p, len - p + 1); text[p] = vh_chance(50) ? '\n' : '?'; len++; break;
        default: text[len = p] = 0;
        }
    }
    if (len == 0 || longnumber(text, len)) { gp_Free(&g); return; }
    graphP r = vh_chance(50) ? g : gp_New();
    if (vh_chance(20)) { gp_AttachDrawPlanar(r); gp_AttachK33Search(r); }
    if (vh_chance(10)) { int x = 0; ret = allocateG6ReadIterator(&R, NULL); J("{\"ev\":\"ralloc\",\"graph\":false,\"had\":false,\"ret\":%d,\"ptr\":%s}\n", ret, R ? "true" : "false"); nev++; if (R) { freeG6ReadIterator(&R); x = 1; } (void)x; }
    if (vh_chance(10)) { rinfo_ev(R); J("{\"ev\":\"rread\",\"ret\":%d,\"cnt\":0,\"end\":false,\"n\":0,\"lists\":[]}\n", readGraphUsingG6ReadIterator(R)); nev++; }
    if (vh_chance(10)) { char *c = strdup(text); ret = beginG6ReadIterationFromG6String(R, c); if (ret != OK) free(c); J("{\"ev\":\"rbegin\",\"ret\":%d,\"n0\":0,", ret); jbytes(text, len); J("}\n"); nev++; }
    ret = allocateG6ReadIterator(&R, r); J("{\"ev\":\"ralloc\",\"graph\":true,\"had\":false,\"ret\":%d,\"ptr\":%s}\n", ret, R ? "true" : "false"); nev++;
    if (vh_chance(10)) { G6ReadIterator *o = R; ret = allocateG6ReadIterator(&R, r); J("{\"ev\":\"ralloc\",\"graph\":true,\"had\":true,\"ret\":%d,\"ptr\":%s}\n", ret, R == o ? "true" : "false"); nev++; }
    if (vh_chance(10)) { rinfo_ev(R); J("{\"ev\":\"rread\",\"ret\":%d,\"cnt\":0,\"end\":false,\"n\":0,\"lists\":[]}\n", readGraphUsingG6ReadIterator(R)); nev++; }
    how = vh_rnd(3);
    int n0 = (r)->N;
    if (how == 2) ret = beginG6ReadIterationFromG6String(R, strdup(text));
    else { put_file(text, len); if (how == 0) ret = beginG6ReadIterationFromG6FilePath(R, tmpf); else ret = beginG6ReadIterationFromG6FilePointer(R, fopen(tmpf, "r")); }
    if (how == 1 && ret != OK) given++;
    J("{\"ev\":\"rbegin\",\"ret\":%d,\"n0\":%d,", ret, n0); jbytes(text, len); J("}\n"); nev++;
    int stop = vh_chance(20) ? vh_rnd(4) : 100;
    if (ret != OK && vh_chance(50)) { J("{\"ev\":\"rread\",\"ret\":%d,\"cnt\":0,\"end\":false,\"n\":0,\"lists\":[]}\n", readGraphUsingG6ReadIterator(R)); nev++; }
    while (ret == OK && stop-- > 0)
    {
        graphP p = NULL;
        int cnt = -1;
        ret = readGraphUsingG6ReadIterator(R);
        getNumGraphsRead(R, &cnt); getPointerToGraphReadIn(R, &p);
        J("{\"ev\":\"rread\",\"ret\":%d,\"cnt\":%d,\"end\":%s,", ret, cnt, p ? "false" : "true");
        if (p && ret == OK) jgraph(p); else J("\"n\":0,\"lists\":[]");
        J("}\n"); nev++;
        if (vh_chance(20)) rinfo_ev(R);
        if (ret != OK || !p) break;
        if (vh_chance(50)) mutate(p);
    }
    ret = endG6ReadIteration(R); J("{\"ev\":\"rend\",\"ret\":%d}\n", ret); nev++;
    if (vh_chance(20)) { J("{\"ev\":\"rread\",\"ret\":%d,\"cnt\":0,\"end\":false,\"n\":0,\"lists\":[]}\n", readGraphUsingG6ReadIterator(R)); nev++; }
    for (int q = vh_chance(20) ? 2 : 1; q > 0; q--) { ret = freeG6ReadIterator(&R); J("{\"ev\":\"rfree\",\"ret\":%d,\"ptr\":%s}\n", ret, R ? "true" : "false"); nev++; }
    if (r != g) gp_Free(&r);
    gp_Free(&g);
}
int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    setvbuf(vh_out, NULL, _IOFBF, 1 << 20);
    setQuietModeSetting(TRUE);
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    snprintf(tmpf, sizeof tmpf, "/tmp/vh_io.%d.txt", (int)getpid());
    long seed = atol(argv[2]), runs = atol(argv[3]);
    if (!strcmp(argv[1], "exh"))
    {
        int n = atoi(argv[2]), sh = atoi(argv[3]), shs = atoi(argv[4]);
        static pg g;
        for (uint64_t x = sh; x < (1ULL << (n * (n - 1) / 2)); x += shs)
        {
            alarm(20);
            vh_seed(n, x);
            begin();
            pg_bits(&g, n, x);
            graphP L = vh_build(&g, 1);
            for (int m = 0; m < 3; m++) roundtrip(L, m, 0, 0);
            gp_Free(&L);
        }
    }
    else if (!strcmp(argv[1], "alpha"))
    {
        int L = atoi(argv[2]), sh = atoi(argv[3]), shs = atoi(argv[4]), ret;
        static const struct { const char *pre, *al; } A[] = {{"N=2\n", "0123:- \n"}, {"N=", "0123:- \n"}, {"3\n", "0123- \n"}, {"", "?@AB_~\n:"}, {">>graph6<<", "?@AC_~\n"}, {"1:", "01 \n"}};
        for (int a = 0; a < 6; a++)
        {
            long tot = 1; int na = strlen(A[a].al);
            for (int i = 0; i < L; i++) tot *= na;
            begin();
            for (long x = sh; x < tot; x += shs)
            {
                char s[64];
                int k = sprintf(s, "%s", A[a].pre);
                long y = x;
                for (int i = 0; i < L; i++, y /= na) s[k++] = A[a].al[y % na];
                s[k] = 0;
                alarm(20); vh_seed(a, x);
                if (x / shs % 500 == 499) begin();
                if (longnumber(s, k)) continue;
                graphP g = do_read(s, k, vh_chance(15), &ret);
                gp_Free(&g);
            }
        }
    }
    else if (!strcmp(argv[1], "large"))
    {
        int n = atoi(argv[2]);
        for (long r = 0; r < runs; r++)
        {
            alarm(600);
            vh_seed(n, r);
            begin();
            graphP g = gp_New(), h = gp_New();
            gp_InitGraph(g, n);
            int f = gp_GetFirstVertex(g);
            J("{\"ev\":\"large\",\"n\":%d,\"e\":[", n);
            for (int k = 0; k < 24; k++)
            {
                int u = vh_chance(30) ? n - 1 - vh_rnd(5) : vh_rnd(n), v = vh_chance(20) ? vh_rnd(n < 70 ? n : 70) : vh_rnd(n);
                if (k == 0) { u = n - 1; v = n - 2; }
                if (k == 1) { u = n - 1; v = 0; }
                if (u == v || gp_IsNeighbor(g, u + f, v + f)) continue;
                gp_DynamicAddEdge(g, u + f, 0, v + f, 0);
                J("%s[%d,%d]", k ? "," : "", u < v ? u : v, u < v ? v : u);
            }
            char *s = NULL;
            int w = gp_WriteToString(g, &s, WRITE_G6), rr = w == OK ? gp_ReadFromString(h, s) : NOTOK, k = 0;
            J("],\"wret\":%d,\"rret\":%d,\"n2\":%d,\"e2\":[", w, rr, (h)->N);
            if (rr == OK)
                for (int e = gp_GetFirstEdge(h); e < gp_EdgeInUseIndexBound(h); e += 2)
                    if (gp_EdgeInUse(h, e))
                    {
                        int u = gp_GetNeighbor(h, e) - f, v = gp_GetNeighbor(h, gp_GetTwinArc(h, e)) - f;
                        J("%s[%d,%d]", k++ ? "," : "", u < v ? u : v, u < v ? v : u);
                    }
            J("]}\n"); nev++;
            gp_Free(&g); gp_Free(&h);
        }
    }
    else
        for (long r = 0; r < runs; r++)
        {
            alarm(20);
            vh_seed(seed, r);
            if (!strcmp(argv[1], "round")) run_round(66);
            else if (!strcmp(argv[1], "bad")) run_bad(0);
            else if (!strcmp(argv[1], "leda")) run_bad(1);
            else if (!strcmp(argv[1], "edit")) run_edit();
            else run_iter(66);
        }
    remove(tmpf);
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld,\"refused\":%ld}\n", nev, nruns, nbad);
    return 0;
}
