/* Drives the embedding algorithms and records what they did as event traces.
   h_embed MODE ...   (see main)                                                              */
#include "common.h"
#include "certs.h"
#include "hist.h"

/* ---- quick plausibility screen, used ONLY to decide which runs are worth recording; the verdict is TLC's ---- */
static int sc_n, sc_deg[VH_MAXN + 1], sc_nb[VH_MAXN + 1][VH_MAXN + 1];
static int sc_load(graphP G)
{
    sc_n = G->N;
    for (int v = 1; v <= sc_n; v++)
    {
        int k = 0;
        for (int e = gp_GetFirstArc(G, v); gp_IsArc(e); e = gp_GetNextArc(G, e))
        {
            int w = gp_GetNeighbor(G, e);
            if (k >= VH_MAXN || w < 1 || w > sc_n) return 0;
            sc_nb[v][k++] = w;
        }
        sc_deg[v] = k;
    }
    return 1;
}
static int sc_pos[VH_MAXN + 1][VH_MAXN + 1];
static int sc_planar(int outer)
{
    static int seen[VH_MAXN + 1][VH_MAXN + 1], comp[VH_MAXN + 1], st[VH_MAXN + 1], csize[VH_MAXN + 1], done[VH_MAXN + 1], mark[VH_MAXN + 1];
    int V = sc_n, E2 = 0, F = 0, C = 0, I = 0;
    for (int v = 1; v <= V; v++)
    {
        memset(sc_pos[v], -1, sizeof(int) * (V + 1));
        for (int i = 0; i < sc_deg[v]; i++) { sc_pos[v][sc_nb[v][i]] = i; seen[v][i] = 0; }
        E2 += sc_deg[v]; comp[v] = 0;
    }
    for (int v = 1; v <= V; v++)
    {
        if (!sc_deg[v]) { I++; continue; }
        if (comp[v]) continue;
        int top = 0, id = ++C;
        st[top++] = v; comp[v] = id; csize[id] = 0; done[id] = 0;
        while (top) { int x = st[--top]; csize[id]++; for (int i = 0; i < sc_deg[x]; i++) { int y = sc_nb[x][i]; if (!comp[y]) { comp[y] = id; st[top++] = y; } } }
    }
    memset(mark, 0, sizeof mark);
    for (int v = 1; v <= V; v++)
        for (int i = 0; i < sc_deg[v]; i++)
            if (!seen[v][i])
            {
                int x = v, j = i, cnt = 0, guard = 0;
                F++;
                do {
                    seen[x][j] = 1;
                    if (mark[x] != F) { mark[x] = F; cnt++; }
                    int y = sc_nb[x][j], p = sc_pos[y][x];
                    if (p < 0) return 0;
                    j = (p + 1) % sc_deg[y]; x = y;
                } while ((x != v || j != i) && guard++ < 4 * VH_MAXM);
                if (cnt == csize[comp[v]]) done[comp[v]] = 1;
            }
    if (2 * V - E2 + 2 * F != 4 * C + 2 * I) return 0;
    if (outer) for (int c = 1; c <= C; c++) if (!done[c]) return 0;
    return 1;
}
static int sc_subdiv(char alg)
{
    int b3 = 0, b4 = 0, bad = 0;
    for (int v = 1; v <= sc_n; v++) { if (sc_deg[v] == 1 || sc_deg[v] > 4) bad = 1; if (sc_deg[v] == 3) b3++; if (sc_deg[v] == 4) b4++; }
    if (bad) return 0;
    switch (alg)
    {
    case 'p': case 'd': return (b4 == 5 && b3 == 0) || (b3 == 6 && b4 == 0);
    case 'o': return !b4 && (b3 == 2 || b3 == 4);
    case '2': return !b4 && b3 == 2;
    case '3': return !b4 && b3 == 6;
    case '4': return !b4 && b3 == 4;
    }
    return 0;
}

/* the drawing as it is written after the adjacency list */
static void j_vis(graphP G)
{
    char *s = NULL, *p;
    J("\"vis\":{\"v\":[");
    if (gp_WriteToString(G, &s, WRITE_ADJLIST) != OK || !s || !(p = strstr(s, "<DrawPlanar>")) || !(p = strchr(p, '\n'))) { J("],\"e\":[]}"); free(s); return; }
    p++;
    int id, a, b, c, k;
    for (int v = 1; v <= G->N && sscanf(p, "%d: %d %d %d\n%n", &id, &a, &b, &c, &k) == 4; v++) { J("%s[%d,%d,%d]", v > 1 ? "," : "", a, b, c); p += k; }
    J("],\"e\":[");
    int first = 1;
    while (sscanf(p, "%d: %d %d %d\n%n", &id, &a, &b, &c, &k) == 4)
    {
        p += k;
        if (id >= gp_GetFirstEdge(G) && id < gp_EdgeIndexBound(G) && !(id & 1))
        {
            int u = gp_GetNeighbor(G, id), w = gp_GetNeighbor(G, gp_GetTwinArc(G, id));
            J("%s[%d,%d,%d,%d,%d]", first ? "" : ",", u, w, a, b, c);
            first = 0;
        }
    }
    J("]}");
    free(s);
}

/* drawing does not isolate an obstruction: show one obtained by the core embedder instead */
static void j_kuratowski(pg *g)
{
    graphP G = vh_build(g, 0);
    int k = 0;
    J(",\"cert\":[],\"ref\":[");
    if (gp_Embed(G, EMBEDFLAGS_PLANAR) == NONEMBEDDABLE)
    {
        gp_SortVertices(G);
        for (int v = 1; v <= G->N; v++)
            for (int e = gp_GetFirstArc(G, v); gp_IsArc(e) && k < VH_MAXM; e = gp_GetNextArc(G, e))
                if (v < gp_GetNeighbor(G, e)) J("%s[%d,%d]", k++ ? "," : "", v, gp_GetNeighbor(G, e));
    }
    J("]");
    gp_Free(&G);
}
static char want_sort, want_vis, want_feats; /* extra events; feats: attach and detach other features along the way */
static void feats(graphP G, char keep)
{
    if (!want_feats) return;
    for (int k = vh_rnd(4); k > 0; k--)
    {
        char f = "d234"[vh_rnd(4)];
        if (vh_chance(65)) vh_attach(G, f); else if (f != keep) vh_detach(G, f);
    }
}
/* one complete history on G (already loaded with g). Returns 1 when the screen finds it suspicious */
static int run_events(graphP G, pg *g, char alg, int cert)
{
    int sus = 0;
    alarm(60);
    graphP O = gp_DupGraph(G);
    J("{\"ev\":\"load\",\"n\":%d,", g->n); j_edges(g); J("}\n");
    feats(G, alg);
    vh_attach(G, alg);
    feats(G, alg);
    int ret = gp_Embed(G, vh_flags(alg));
    J("{\"ev\":\"embed\",\"alg\":\"%c\",\"ret\":%d,", alg, ret); j_adj("adj", G); J(","); j_index("ix", G);
    J(",\"M\":%d", G->M);
    if (alg == '3' && ret == OK && cert) j_cert(g);
    else if (alg == 'd' && ret == NONEMBEDDABLE) j_kuratowski(g);
    else J(",\"cert\":[],\"ref\":[]");
    J(",\"wit\":{\"k\":\"none\"}}\n");
    /* the structure is only meaningful for embeddings and for isolated obstructions */
    if (ret != OK && ret != NONEMBEDDABLE) sus = 1;
    else if (ret == OK ? !!strchr("pdo", alg) : alg != 'd')
        sus = !sc_load(G) || (ret == OK ? !sc_planar(alg == 'o') : !sc_subdiv(alg));
    feats(G, alg);
    int chk = gp_TestEmbedResultIntegrity(G, O, ret);
    if (chk != ret) sus = 1;
    J("{\"ev\":\"check\",\"alg\":\"%c\",\"ret\":%d}\n", alg, chk);
    /* a drawing failure and a search success leave virtual vertices behind: they are sorted along */
    if (want_sort)
        for (int i = 0; i < 3; i++)
        {
            feats(G, alg);
            int r = gp_SortVertices(G);
            J("{\"ev\":\"sort\",\"ret\":%d,", r); j_adj("adj", G); J(","); j_index("ix", G); J("}\n");
            if (i == 0) { int q = gp_TestEmbedResultIntegrity(G, O, ret); J("{\"ev\":\"check\",\"alg\":\"%c\",\"ret\":%d}\n", alg, q); if (q != ret) sus = 1; }
        }
    if (want_vis && alg == 'd' && ret == OK)
    {
        if (!want_sort) { int r = gp_SortVertices(G); J("{\"ev\":\"sort\",\"ret\":%d,", r); j_adj("adj", G); J(","); j_index("ix", G); J("}\n"); }
        J("{\"ev\":\"vis\","); j_vis(G); J("}\n");
    }
    J("{\"ev\":\"free\"}\n");
    gp_Free(&O);
    return (sus ? 2 : 0) | (ret == NONEMBEDDABLE);
}

static char *mem; static size_t memlen;
int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGFPE, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGALRM, vh_abort_note);
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    static pg g;
    FILE *dst;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "+sort")) want_sort = 1; if (!strcmp(argv[i], "+vis")) want_vis = 1; if (!strcmp(argv[i], "+feats")) want_feats = 1; if (!strcmp(argv[i], "+hist")) want_hist = 1; }
    if (!strcmp(argv[1], "rand"))
    {
        /* rand ALG SEED RUNS KEEP NMIN NMAX OUT : RUNS random graphs, record the suspicious ones and KEEP others */
        char alg = argv[2][0];
        uint64_t seed = strtoull(argv[3], 0, 10);
        int runs = atoi(argv[4]), keep = atoi(argv[5]), nmin = atoi(argv[6]), nmax = atoi(argv[7]);
        long stat_ok = 0, stat_non = 0, sus = 0, kept = 0, flips = 0;
        dst = fopen(argv[8], "w");
        if (!dst) return 2;
        for (int r = 0; r < runs; r++)
        {
            vh_seed(seed, r);
            int nm = vh_between(nmin, nmax);
            pg_family(&g, vh_rnd(VH_FAMILIES), nm);
            if (g.n < 1) continue;
            pg_finish(&g);
            int rec = (long long)(r + 1) * keep / runs != (long long)r * keep / runs;
            /* recording goes to memory first, so that only interesting runs reach the file */
            uint64_t st = vh_s;
            vh_out = open_memstream(&mem, &memlen);
            graphP G = hbuild(&g, 1);
            if (!G) return 3;
            int s = run_events(G, &g, alg, rec);
            gp_Free(&G);
            int rt = s & 1;
            int suspicious = s & 2;
            if (!suspicious && strchr("234o", alg))
            {
                /* the answer must not depend on labels: a differing second run makes both runs interesting */
                static pg h;
                fclose(vh_out);
                char *m1 = mem; size_t l1 = memlen; mem = NULL;
                h = g;
                pg_finish(&h);
                vh_out = open_memstream(&mem, &memlen);
                G = hbuild(&h, 1);
                int s2 = run_events(G, &h, alg, 0);
                gp_Free(&G);
                fclose(vh_out);
                if ((s2 & 1) != rt || (s2 & 2))
                {
                    flips++;
                    /* record again, now with certificates */
                    free(mem); mem = NULL;
                    vh_out = open_memstream(&mem, &memlen);
                    G = hbuild(&h, 1); run_events(G, &h, alg, 1); gp_Free(&G);
                    fclose(vh_out);
                    if (sus < 200) fwrite(mem, 1, memlen, dst);
                    suspicious = 2;
                }
                free(mem); mem = m1; memlen = l1;
            }
            else fclose(vh_out);
            if (suspicious && !rec)
            {
                free(mem); mem = NULL; vh_s = st;
                vh_out = open_memstream(&mem, &memlen);
                G = hbuild(&g, 1); run_events(G, &g, alg, 1); gp_Free(&G);
                fclose(vh_out);
            }
            if (suspicious) sus++;
            if (rt) stat_non++; else stat_ok++;
            if ((suspicious && sus < 200) || rec) { fwrite(mem, 1, memlen, dst); fflush(dst); kept++; }
            free(mem); mem = NULL;
        }
        fclose(dst);
        printf("{\"runs\":%d,\"ok\":%ld,\"non\":%ld,\"suspicious\":%ld,\"recorded\":%ld,\"flips\":%ld}\n", runs, stat_ok, stat_non, sus, kept, flips);
        return 0;
    }
    if (!strcmp(argv[1], "all"))
    {
        /* all ALG N SHARD SHARDS STEP SEED OUT : labelled graphs on N vertices, number = SHARD mod SHARDS, every STEP-th */
        char alg = argv[2][0];
        int n = atoi(argv[3]), sh = atoi(argv[4]), shs = atoi(argv[5]), step = atoi(argv[6]);
        uint64_t total = 1ULL << (n * (n - 1) / 2), cnt = 0;
        uint64_t seed = strtoull(argv[7], 0, 10);
        dst = fopen(argv[8], "w");
        if (!dst) return 2;
        for (uint64_t x = (uint64_t)sh * step + (seed % step); x < total; x += (uint64_t)shs * step)
        {
            vh_seed(seed, x);
            pg_bits(&g, n, x);
            if (vh_chance(50)) pg_shuffle(&g);
            vh_out = dst;
            graphP G = vh_build(&g, vh_chance(50));
            if (!G) return 3;
            run_events(G, &g, alg, 1);
            gp_Free(&G);
            fflush(dst);
            cnt++;
        }
        fclose(dst);
        printf("{\"runs\":%llu,\"recorded\":%llu}\n", (unsigned long long)cnt, (unsigned long long)cnt);
        return 0;
    }
    if (!strcmp(argv[1], "one"))
    {
        /* one ALG OUT LINKSEED n u v u v ... : a given graph */
        char alg = argv[2][0];
        dst = fopen(argv[3], "w");
        if (!dst) return 2;
        vh_seed(strtoull(argv[4], 0, 10), 0);
        vh_out = dst;
        pg_reset(&g, atoi(argv[5]));
        for (int i = 6; i + 1 < argc && argv[i][0] != '+'; i += 2) pg_add(&g, atoi(argv[i]), atoi(argv[i + 1]));
        graphP G = vh_build(&g, atoi(argv[4]) != 0);
        if (!G) return 3;
        run_events(G, &g, alg, 1);
        gp_Free(&G);
        fclose(dst);
        return 0;
    }
    return 2;
}
