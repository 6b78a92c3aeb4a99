/* Histories of operations on graph objects, recorded for TraceStore.
     h_store rand MODE SEED RUNS OPS OUT     random histories
     h_store all  MODE PREFIX DEPTH SHARD SHARDS STEP OUT   all choice sequences (every STEP-th) after a random prefix
   MODE: hist hide cap copy */
#include "common.h"
#define MAXO 3
#define HMAX 256

static graphP G[MAXO];
static int N[MAXO];
static char kind[MAXO][HMAX];   /* 'e' / 'v' entries hidden, oldest first */
static int hed[MAXO][HMAX], nh[MAXO]; /* the edge, or the vertex that is gone */
static int gone(int o, int v) { for (int i = 0; i < nh[o]; i++) if (kind[o][i] == 'v' && hed[o][i] == v) return 1; return 0; }
static char feats[MAXO][8];
static int simple[MAXO];
static long long nev, nruns;

/* ---- choices: random, or driven by an odometer ---- */
static int exh, digs[64], rads[64], pos, depth;
static int ch(int k)
{
    if (k <= 1) return 0;
    if (!exh || pos >= 64) return vh_rnd(k);
    if (pos >= depth) { digs[pos] = 0; depth = pos + 1; }
    rads[pos] = k;
    if (digs[pos] >= k) digs[pos] = k - 1;
    return digs[pos++];
}
static int odo(void)
{
    depth = pos;
    while (depth > 0)
    {
        if (++digs[depth - 1] < rads[depth - 1]) return 1;
        depth--;
    }
    return 0;
}

static void obs(void)
{
    J("\"obs\":[");
    int first = 1;
    for (int o = 0; o < MAXO; o++)
    {
        graphP g = G[o];
        if (!g) continue;
        int bound = gp_EdgeIndexBound(g), lim = bound + 2;
        J("%s{\"o\":%d,\"n\":%d,\"m\":%d,\"cap\":%d,\"f\":[", first ? "" : ",", o, g->N, g->M, gp_GetArcCapacity(g));
        first = 0;
        for (int v = 1; v <= g->N; v++)
        {
            J("%s[", v > 1 ? "," : "");
            int k = 0;
            for (int e = gp_GetFirstArc(g, v); gp_IsArc(e) && k < lim; e = gp_GetNextArc(g, e))
            {
                if (e < 0 || e >= bound) { J("%s[%d,-9,-9,-9]", k ? "," : "", e); k++; break; }
                J("%s[%d,%d,%d,%d]", k ? "," : "", e, gp_GetNeighbor(g, e), gp_GetDirection(g, e), gp_GetTwinArc(g, e));
                k++;
            }
            J("]");
        }
        J("],\"b\":[");
        for (int v = 1; v <= g->N; v++)
        {
            J("%s[", v > 1 ? "," : "");
            int k = 0;
            for (int e = gp_GetLastArc(g, v); gp_IsArc(e) && k < lim; e = gp_GetPrevArc(g, e))
            {
                J("%s%d", k ? "," : "", e);
                k++;
                if (e < 0 || e >= bound) break;
            }
            J("]");
        }
        J("]}");
    }
    J("]}\n");
    nev++;
}
static int deg(graphP g, int v) { return gp_GetVertexDegree(g, v); }
static int arc_at(graphP g, int v, int k)
{
    int e = gp_GetFirstArc(g, v);
    while (k-- > 0 && gp_IsArc(e)) e = gp_GetNextArc(g, e);
    return e;
}
static int any_arc(graphP g) /* a visible arc, or NIL */
{
    int t = 0;
    for (int v = 1; v <= g->N; v++) t += deg(g, v);
    if (!t) return NIL;
    int k = ch(t);
    for (int v = 1; v <= g->N; v++) { if (k < deg(g, v)) return arc_at(g, v, k); k -= deg(g, v); }
    return NIL;
}
static void refresh_simple(int o)
{
    graphP g = G[o];
    simple[o] = 1;
    for (int v = 1; v <= g->N; v++)
    {
        char seen[64] = {0};
        for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e))
        {
            int w = gp_GetNeighbor(g, e);
            if (w < 1 || w > g->N || w == v || seen[w]) { simple[o] = 0; return; }
            seen[w] = 1;
        }
    }
}
static int vpair(int o, int *u, int *v, int allowpar)
{
    graphP g = G[o];
    if (g->N < 2) return 0;
    for (int t = 0; t < 12; t++)
    {
        *u = 1 + ch(g->N); *v = 1 + ch(g->N - 1); if (*v >= *u) ++*v;
        if (allowpar || !gp_IsArc(gp_GetNeighborEdgeRecord(g, *u, *v))) return 1;
        if (exh) return 1;
    }
    return 0;
}
static int bad_vertex(graphP g) { int b[] = {0, 2 * g->N + 1, -1, -7, 2 * g->N + 5}; return b[vh_rnd(5)]; }

static int op_new(int o, int n, int mode)
{
    int cap0 = mode != 'i' ? (vh_chance(50) ? 2 * vh_between(1, 6) : 0) : 0;
    graphP g = gp_New();
    if (cap0) gp_EnsureArcCapacity(g, cap0);
    gp_InitGraph(g, n);
    G[o] = g; N[o] = n; nh[o] = 0; feats[o][0] = 0; simple[o] = 1;
    J("{\"ev\":\"new\",\"o\":%d,\"n\":%d,\"cap0\":%d,", o, n, cap0); obs();
    return 1;
}
static int hasfeat(int o, char f) { return strchr(feats[o], f) != NULL; }

static int op_add(int o, int dyn, int par)
{
    graphP g = G[o];
    int u, v, ul = ch(2), vl = ch(2);
    if (nh[o] || !vpair(o, &u, &v, par)) return 0;
    if (!exh && vh_chance(4)) { if (vh_chance(50)) u = bad_vertex(g); else v = bad_vertex(g); }
    int r = dyn ? gp_DynamicAddEdge(g, u, ul, v, vl) : gp_AddEdge(g, u, ul, v, vl);
    int a = 0, b = 0;
    if (r == OK) { a = ul ? gp_GetLastArc(g, u) : gp_GetFirstArc(g, u); b = vl ? gp_GetLastArc(g, v) : gp_GetFirstArc(g, v); }
    J("{\"ev\":\"%s\",\"o\":%d,\"u\":%d,\"ul\":%d,\"v\":%d,\"vl\":%d,\"ret\":%d,\"a\":%d,\"b\":%d,", dyn ? "dynadd" : "add", o, u, ul, v, vl, r, a, b);
    obs();
    return 1;
}
static int op_insert(int o, int par)
{
    graphP g = G[o];
    int u, v;
    if (nh[o] || !vpair(o, &u, &v, par)) return 0;
    int ul = ch(2), vl = ch(2);
    int ku = ch(deg(g, u) + 1), kv = ch(deg(g, v) + 1);
    int eu = ku < deg(g, u) ? arc_at(g, u, ku) : NIL, e2 = kv < deg(g, v) ? arc_at(g, v, kv) : NIL;
    if (!exh && vh_chance(6))
        switch (vh_rnd(6))
        {
        case 0: u = bad_vertex(g); break;
        case 1: v = bad_vertex(g); break;
        case 2: eu = gp_EdgeInUseIndexBound(g) + vh_rnd(3); break;
        case 3: e2 = -1 - vh_rnd(3); break;
        case 4: ul = 2 + vh_rnd(2); break;
        case 5: vl = -1; break;
        }
    int bu = gp_IsArc(eu) && eu > 0 && eu < gp_EdgeIndexBound(g) ? gp_GetAdjacentArc(g, eu, ul == 0 ? 0 : 1) : NIL;
    int r = gp_InsertEdge(g, u, eu, ul, v, e2, vl);
    int a = 0, b = 0;
    (void)bu;
    if (r == OK)
    {
        a = gp_IsArc(eu) ? gp_GetAdjacentArc(g, eu, ul) : ul ? gp_GetLastArc(g, u) : gp_GetFirstArc(g, u);
        b = gp_IsArc(e2) ? gp_GetAdjacentArc(g, e2, vl) : vl ? gp_GetLastArc(g, v) : gp_GetFirstArc(g, v);
    }
    J("{\"ev\":\"insert\",\"o\":%d,\"u\":%d,\"eu\":%d,\"ul\":%d,\"v\":%d,\"e2\":%d,\"vl\":%d,\"ret\":%d,\"a\":%d,\"b\":%d,", o, u, eu, ul, v, e2, vl, r, a, b);
    obs();
    return 1;
}
static int op_delete(int o)
{
    if (nh[o]) return 0;
    int e = any_arc(G[o]), l = ch(2);
    if (!gp_IsArc(e)) return 0;
    int r = gp_DeleteEdge(G[o], e, l);
    J("{\"ev\":\"delete\",\"o\":%d,\"e\":%d,\"link\":%d,\"ret\":%d,", o, e, l, r); obs();
    return 1;
}
static int op_setdir(int o)
{
    int e = any_arc(G[o]), d = (int[]){0, EDGEFLAG_DIRECTION_INONLY, EDGEFLAG_DIRECTION_OUTONLY}[ch(3)];
    if (!gp_IsArc(e)) return 0;
    graphP g = G[o];
    gp_SetDirection(g, e, d);
    J("{\"ev\":\"setdir\",\"o\":%d,\"e\":%d,\"d\":%d,", o, e, d); obs();
    return 1;
}
/* an arc detached and attached again; the vertex may be left to be implied by the reference arc */
static int op_rewire(int o)
{
    if (nh[o]) return 0;
    graphP g = G[o];
    int e = any_arc(g), link = ch(2);
    if (!gp_IsArc(e)) return 0;
    int v = gp_GetNeighbor(g, gp_GetTwinArc(g, e)), k = ch(deg(g, v));
    int f = arc_at(g, v, k);
    if (f == e) f = NIL;
    gp_DetachArc(g, e);
    if (f == NIL && ch(2)) { if (link) gp_AttachLastArc(g, v, e) else gp_AttachFirstArc(g, v, e) }
    else gp_AttachArc(g, f != NIL && ch(2) ? NIL : v, f, link, e);
    J("{\"ev\":\"rewire\",\"o\":%d,\"e\":%d,\"f\":%d,\"link\":%d,", o, e, f, link); obs();
    return 1;
}
static int op_move(int o)
{
    if (nh[o]) return 0;
    int e = any_arc(G[o]), last = ch(2);
    if (!gp_IsArc(e)) return 0;
    graphP g = G[o];
    int v = gp_GetNeighbor(g, gp_GetTwinArc(g, e));
    if (last) { gp_MoveArcToLast(g, v, e) } else { gp_MoveArcToFirst(g, v, e) }
    J("{\"ev\":\"move\",\"o\":%d,\"v\":%d,\"e\":%d,\"last\":%d,", o, v, e, last); obs();
    return 1;
}
static int op_query(int o)
{
    graphP g = G[o];
    int u = 1 + ch(g->N), v = 1 + ch(g->N);
    int a = gp_IsNeighbor(g, u, v), b = gp_GetNeighborEdgeRecord(g, u, v), c = gp_GetVertexDegree(g, u), d = gp_GetVertexInDegree(g, u), e = gp_GetVertexOutDegree(g, u);
    J("{\"ev\":\"query\",\"o\":%d,\"u\":%d,\"v\":%d,\"isn\":%d,\"rec\":%d,\"deg\":%d,\"din\":%d,\"dout\":%d,\"cn\":[", o, u, v, a, b, c, d, e);
    int i = 0;
    for (int x = gp_GetFirstArc(g, u); gp_IsArc(x) && i < 2 * g->M + 2; x = gp_GetNextArc(g, x)) J("%s%d", i++ ? "," : "", gp_GetNextArcCircular(g, x));
    J("],\"cp\":["); i = 0;
    for (int x = gp_GetFirstArc(g, u); gp_IsArc(x) && i < 2 * g->M + 2; x = gp_GetNextArc(g, x)) J("%s%d", i++ ? "," : "", gp_GetPrevArcCircular(g, x));
    J("],"); obs();
    return 1;
}
static int op_ensure(int o)
{
    graphP g = G[o];
    int c = gp_GetArcCapacity(g), r;
    int req = (int[]){c + 2, c, c - 2, c + 2 * vh_between(1, 8), c + 1, 0, -2, 3 * c, c + 2, 2, c + 40}[ch(11)];
    if (req & 1) { if (vh_chance(80)) req++; }
    r = gp_EnsureArcCapacity(g, req);
    J("{\"ev\":\"ensure\",\"o\":%d,\"req\":%d,\"ret\":%d,", o, req, r); obs();
    return 1;
}
static int op_hide(int o)
{
    graphP g = G[o];
    if (nh[o] > HMAX - 3) return 0;
    refresh_simple(o);
    int k = ch(simple[o] ? 4 : 2);
    if (k == 0)
    {
        int e = any_arc(g);
        if (!gp_IsArc(e)) return 0;
        gp_HideEdge(g, e);
        kind[o][nh[o]] = 'e'; hed[o][nh[o]++] = e;
        J("{\"ev\":\"hidee\",\"o\":%d,\"e\":%d,", o, e); obs();
    }
    else if (k == 1)
    {
        int v = 1 + ch(g->N);
        if (gone(o, v)) return 0;
        gp_HideVertex(g, v);
        kind[o][nh[o]] = 'v'; hed[o][nh[o]++] = v;
        J("{\"ev\":\"hidev\",\"o\":%d,\"v\":%d,", o, v); obs();
    }
    else if (k == 2)
    {
        int e = any_arc(g);
        if (!gp_IsArc(e)) return 0;
        int w = gp_GetNeighbor(g, e);
        int r = gp_ContractEdge(g, e);
        kind[o][nh[o]] = 'v'; hed[o][nh[o]++] = w;
        J("{\"ev\":\"contract\",\"o\":%d,\"e\":%d,\"ret\":%d,", o, e, r); obs();
    }
    else
    {
        if (g->N < 2) return 0;
        int u = 1 + ch(g->N), v = 1 + ch(g->N - 1);
        if (v >= u) v++;
        int kb = ch(deg(g, u) + 1), eb = kb < deg(g, u) ? arc_at(g, u, kb) : NIL;
        if (gone(o, u) || gone(o, v)) return 0;
        int r = gp_IdentifyVertices(g, u, v, eb);
        kind[o][nh[o]] = 'v'; hed[o][nh[o]++] = v;
        J("{\"ev\":\"identify\",\"o\":%d,\"u\":%d,\"v\":%d,\"eb\":%d,\"ret\":%d,", o, u, v, eb, r); obs();
    }
    return 1;
}
static int op_restore(int o)
{
    graphP g = G[o];
    int alle = 1;
    for (int i = 0; i < nh[o]; i++) if (kind[o][i] == 'e') alle = 0;
    if (alle && ch(6) == 0)
    {
        int r = gp_RestoreVertices(g);
        nh[o] = 0;
        J("{\"ev\":\"restall\",\"o\":%d,\"ret\":%d,", o, r); obs();
        return 1;
    }
    if (nh[o] && kind[o][nh[o] - 1] == 'e')
    {
        gp_RestoreEdge(g, hed[o][--nh[o]]);
        J("{\"ev\":\"reste\",\"o\":%d,", o); obs();
        return 1;
    }
    int r = gp_RestoreVertex(g);
    if (nh[o]) nh[o]--;
    J("{\"ev\":\"restv\",\"o\":%d,\"ret\":%d,", o, r); obs();
    return 1;
}
static int op_reinit(int o)
{
    gp_ReinitializeGraph(G[o]); nh[o] = 0;
    J("{\"ev\":\"reinit\",\"o\":%d,", o); obs();
    return 1;
}
static void copy_side(int d, int s)
{
    N[d] = N[s]; nh[d] = nh[s]; memcpy(kind[d], kind[s], HMAX); memcpy(hed[d], hed[s], sizeof hed[d]);
}
static int op_copy(int mode)
{
    int s = ch(MAXO), d = ch(MAXO - 1);
    if (d >= s) d++;
    if (!G[s]) return 0;
    if (!G[d])
    {
        int k = ch(3);
        if (k == 0) return op_new(d, vh_chance(85) ? N[s] : vh_between(1, 6), mode);
        G[d] = gp_DupGraph(G[s]);
        if (!G[d]) { J("{\"ev\":\"dupfail\"}\n"); return 1; }
        copy_side(d, s); strcpy(feats[d], feats[s]);
        J("{\"ev\":\"dup\",\"o\":%d,\"s\":%d,", d, s); obs();
        return 1;
    }
    if (ch(5) == 0)
    {
        gp_Free(&G[d]);
        J("{\"ev\":\"free\",\"o\":%d,", d); obs();
        return 1;
    }
    if (ch(5) == 0 && !nh[s] && !nh[d])
    {
        int r = gp_CopyAdjacencyLists(G[d], G[s]);
        J("{\"ev\":\"copyadj\",\"o\":%d,\"s\":%d,\"ret\":%d,", d, s, r); obs();
        return 1;
    }
    int r = gp_CopyGraph(G[d], G[s]);
    if (r == OK) { copy_side(d, s); strcpy(feats[d], feats[s]); }
    J("{\"ev\":\"copy\",\"o\":%d,\"s\":%d,\"ret\":%d,", d, s, r); obs();
    return 1;
}
static int op_feat(int o)
{
    char f = "d234"[ch(4)];
    if (hasfeat(o, f))
    {
        vh_detach(G[o], f);
        char *p = strchr(feats[o], f); memmove(p, p + 1, strlen(p));
        J("{\"ev\":\"detach\",\"o\":%d,\"f\":\"%c\",", o, f); obs();
        return 1;
    }
    int r = vh_attach(G[o], f);
    int l = strlen(feats[o]); feats[o][l] = f; feats[o][l + 1] = 0;
    J("{\"ev\":\"attach\",\"o\":%d,\"f\":\"%c\",\"ret\":%d,", o, f, r); obs();
    return 1;
}
static int step(int mode)
{
    int o = 0;
    if (mode == 'x' && !exh) o = vh_rnd(MAXO);
    if (!G[o]) return mode == 'x' ? op_copy(mode) : 0;
    if (exh)
        switch (mode)
        {
        case 'h': switch (ch(7)) { case 0: return op_add(o, 0, 1); case 1: return op_insert(o, 1); case 2: return op_delete(o); case 3: return op_setdir(o); case 4: return op_move(o); case 6: return op_rewire(o); default: return op_add(o, 1, 1); }
        case 'i': switch (ch(2)) { case 0: return op_hide(o); default: return op_restore(o); }
        case 'c': switch (ch(4)) { case 0: return op_add(o, 1, 1); case 1: return op_ensure(o); case 2: return op_delete(o); default: return op_hide(o); }
        default: switch (ch(4)) { case 0: return op_copy(mode); case 1: return op_add(o, 1, 1); case 2: return op_delete(o); default: return op_feat(o); }
        }
    int r = vh_rnd(100);
    switch (mode)
    {
    case 'h':
        return r < 28 ? op_add(o, 0, vh_chance(8)) : r < 42 ? op_insert(o, vh_chance(8)) : r < 46 ? op_add(o, 1, 0) : r < 70 ? op_delete(o) : r < 79 ? op_setdir(o) : r < 83 ? op_move(o) : r < 87 ? op_rewire(o) : r < 99 ? op_query(o) : op_reinit(o);
    case 'i':
        if (!nh[o] && r < 40) return r < 30 ? op_add(o, 0, 0) : op_delete(o);
        return r < 72 ? op_hide(o) : r < 96 ? op_restore(o) : r < 98 ? op_query(o) : r < 99 ? op_ensure(o) : op_reinit(o);
    case 'c':
        return r < 30 ? op_add(o, 1, 0) : r < 42 ? op_add(o, 0, 0) : r < 48 ? op_insert(o, 0) : r < 62 ? op_ensure(o) : r < 76 ? op_delete(o) : r < 82 ? op_setdir(o)
             : r < 89 ? op_hide(o) : r < 98 ? op_restore(o) : op_reinit(o);
    default:
        return r < 22 ? op_copy(mode) : r < 45 ? op_add(o, vh_chance(30), vh_chance(5)) : r < 52 ? op_insert(o, 0) : r < 64 ? op_delete(o) : r < 70 ? op_setdir(o) : r < 76 ? op_feat(o)
             : r < 81 ? op_hide(o) : r < 90 ? op_restore(o) : r < 93 ? op_query(o) : r < 96 ? op_ensure(o) : op_reinit(o);
    }
}
static void finish(void)
{
    for (int o = 0; o < MAXO; o++)
        if (G[o]) { gp_Free(&G[o]); J("{\"ev\":\"free\",\"o\":%d,", o); obs(); }
    nruns++;
}
static void start(int mode, int big)
{
    alarm(20);
    J("{\"ev\":\"begin\",\"mode\":\"%c\"}\n", mode);
    op_new(0, big ? vh_between(1, 8) : vh_between(2, 5), mode);
}
int main(int argc, char **argv)
{
    if (argc < 7) return 2;
    vh_out = fopen(argv[argc - 1], "w");
    setvbuf(vh_out, NULL, _IOFBF, 1 << 20);
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    int mode = !strcmp(argv[2], "hist") ? 'h' : !strcmp(argv[2], "hide") ? 'i' : !strcmp(argv[2], "cap") ? 'c' : 'x';
    if (!strcmp(argv[1], "rand"))
    {
        long seed = atol(argv[3]), runs = atol(argv[4]); int ops = atoi(argv[5]);
        for (long r = 0; r < runs; r++)
        {
            vh_seed(seed, r);
            start(mode, 1);
            if (mode == 'i' || vh_chance(50))
                for (int k = vh_rnd(14); k > 0; k--) op_add(0, 1, 0);
            int want = vh_between(ops / 4 + 1, ops);
            for (int k = 0, t = 0; k < want && t < 20 * want; t++) k += step(mode);
            finish();
        }
    }
    else
    {
        long prefix = atol(argv[3]); int dep = atoi(argv[4]); long shard = atol(argv[5]), shards = atol(argv[6]), stp = atol(argv[7]);
        depth = 0;
        for (long it = 0;; it++)
        {
            int record = it % stp == 0 && (it / stp) % shards == shard;
            FILE *keep = vh_out, *nul = NULL;
            if (!record) { static FILE *dn; if (!dn) dn = fopen("/dev/null", "w"); nul = dn; vh_out = nul; }
            vh_seed(prefix, 7);
            exh = 0; pos = 0;
            start(mode, 0);
            for (int k = vh_between(2, 6); k > 0; k--) op_add(0, 1, 0);
            if (vh_chance(50)) op_delete(0);
            exh = 1;
            for (int k = 0; k < dep; k++) if (!step(mode)) break;
            exh = 0;
            finish();
            vh_out = keep;
            if (!record) nruns--;
            if (!odo()) break;
        }
    }
    fclose(vh_out);
    printf("{\"events\":%lld,\"histories\":%lld}\n", nev, nruns);
    return 0;
}
