/* Shared pieces of the verification harnesses: seeded randomness, JSON lines, graph generators.
   Uses only the public interface of the library (graphLib.h) and its accessor macros. */
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include "graphLib.h"

#define VH_MAXN 400
#define VH_MAXM 4000

/* ---------- deterministic randomness ---------- */
static uint64_t vh_s;
static inline uint64_t vh_next(void)
{
    uint64_t z = (vh_s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline int vh_rnd(int k) { return k <= 1 ? 0 : (int)(vh_next() % (uint64_t)k); }
static inline int vh_between(int a, int b) { return a + vh_rnd(b - a + 1); }
static inline int vh_chance(int pct) { return vh_rnd(100) < pct; }
static inline void vh_seed(uint64_t a, uint64_t b)
{
    vh_s = a * 0xD1342543DE82EF95ULL + b * 0x2545F4914F6CDD1DULL + 12345;
    vh_next(); vh_next();
}

/* ---------- output ---------- */
static FILE *vh_out;
#define J(...) fprintf(vh_out, __VA_ARGS__)
static inline void vh_abort_note(int sig)
{
    /* async-signal-safe enough for a crashing process: one last line */
    char buf[64];
    int k = snprintf(buf, sizeof buf, "\n{\"ev\":\"abort\",\"sig\":%d}\n", sig);
    if (vh_out) { fflush(vh_out); if (write(fileno(vh_out), buf, k) < 0) {} }
    _exit(70);
}

/* files that are open, of the first 512 descriptors; all: the ones open before */
static unsigned char vh_fdopen[512];
static inline int vh_fds(int mark)
{
    int k = 0;
    for (int d = 0; d < 512; d++)
    {
        int o = fcntl(d, F_GETFD) != -1;
        if (mark) vh_fdopen[d] = o;
        else if (o && !vh_fdopen[d]) k++;
    }
    return k;
}
/* closes what was left open so that the next run starts afresh */
static inline void vh_fdclose(void) { for (int d = 0; d < 512; d++) if (!vh_fdopen[d]) close(d); }

/* ---------- plain graphs ---------- */
typedef struct { int n, m; int u[VH_MAXM], v[VH_MAXM]; } pg;
static unsigned char vh_adj[VH_MAXN + 1][VH_MAXN + 1];

static void pg_reset(pg *g, int n)
{
    g->n = n; g->m = 0;
    for (int i = 0; i <= n && i <= VH_MAXN; i++) memset(vh_adj[i], 0, n + 1);
}
static int pg_add(pg *g, int a, int b)
{
    if (a == b || a < 1 || b < 1 || a > g->n || b > g->n || vh_adj[a][b] || g->m >= VH_MAXM) return 0;
    vh_adj[a][b] = vh_adj[b][a] = 1;
    g->u[g->m] = a; g->v[g->m] = b; g->m++;
    return 1;
}
static void pg_del(pg *g, int i)
{
    vh_adj[g->u[i]][g->v[i]] = vh_adj[g->v[i]][g->u[i]] = 0;
    g->m--; g->u[i] = g->u[g->m]; g->v[i] = g->v[g->m];
}
static void pg_del_random(pg *g, int k) { while (k-- > 0 && g->m > 0) pg_del(g, vh_rnd(g->m)); }
static void pg_add_random(pg *g, int k)
{
    for (int t = 0; k > 0 && t < 50 * (k + 1); t++)
        if (pg_add(g, vh_between(1, g->n), vh_between(1, g->n))) k--;
}
/* grow the vertex set keeping edges */
static int pg_newv(pg *g)
{
    g->n++;
    for (int i = 0; i <= g->n; i++) vh_adj[i][g->n] = vh_adj[g->n][i] = 0;
    return g->n;
}
static void pg_relabel(pg *g)
{
    static int p[VH_MAXN + 1];
    for (int i = 1; i <= g->n; i++) p[i] = i;
    for (int i = g->n; i > 1; i--) { int j = vh_between(1, i), t = p[i]; p[i] = p[j]; p[j] = t; }
    for (int i = 0; i < g->m; i++) { g->u[i] = p[g->u[i]]; g->v[i] = p[g->v[i]]; }
}
static void pg_shuffle(pg *g)
{
    for (int i = g->m - 1; i > 0; i--)
    {
        int j = vh_rnd(i + 1), t;
        t = g->u[i]; g->u[i] = g->u[j]; g->u[j] = t;
        t = g->v[i]; g->v[i] = g->v[j]; g->v[j] = t;
    }
    for (int i = 0; i < g->m; i++)
        if (vh_chance(50)) { int t = g->u[i]; g->u[i] = g->v[i]; g->v[i] = t; }
}
static void pg_refresh(pg *g)
{
    for (int i = 0; i <= g->n; i++) memset(vh_adj[i], 0, g->n + 1);
    for (int i = 0; i < g->m; i++) vh_adj[g->u[i]][g->v[i]] = vh_adj[g->v[i]][g->u[i]] = 1;
}

/* random (near-)triangulation on vertices base+1 .. base+k of g, by face insertion */
static void pg_triang(pg *g, int *vs, int k)
{
    static int f[4 * VH_MAXN][3];
    int nf = 0;
    if (k >= 2) pg_add(g, vs[0], vs[1]);
    if (k < 3) return;
    pg_add(g, vs[1], vs[2]); pg_add(g, vs[0], vs[2]);
    f[0][0] = vs[0]; f[0][1] = vs[1]; f[0][2] = vs[2];
    f[1][0] = vs[0]; f[1][1] = vs[1]; f[1][2] = vs[2]; nf = 2;
    int mode = vh_rnd(3);
    for (int i = 3; i < k; i++)
    {
        int x = mode == 0 ? vh_rnd(nf) : mode == 1 ? nf - 1 - vh_rnd(nf < 3 ? nf : 3) : vh_rnd(nf < 4 ? nf : 4);
        int a = f[x][0], b = f[x][1], c = f[x][2], w = vs[i];
        pg_add(g, a, w); pg_add(g, b, w); pg_add(g, c, w);
        f[x][2] = w;
        f[nf][0] = a; f[nf][1] = c; f[nf][2] = w; nf++;
        f[nf][0] = b; f[nf][1] = c; f[nf][2] = w; nf++;
    }
    /* random diagonal flips: edge ab with the two common faces abc, abd -> cd */
    int flips = vh_rnd(2 * k + 1);
    for (int t = 0; t < flips; t++)
    {
        int x = vh_rnd(nf), i = vh_rnd(3), a = f[x][i], b = f[x][(i + 1) % 3], c = f[x][(i + 2) % 3];
        for (int y = 0; y < nf; y++)
        {
            if (y == x) continue;
            int d = 0, hit = 0;
            for (int q = 0; q < 3; q++)
                if (f[y][q] == a || f[y][q] == b) hit++; else d = f[y][q];
            if (hit == 2 && d && d != c && !vh_adj[c][d])
            {
                for (int e = 0; e < g->m; e++)
                    if ((g->u[e] == a && g->v[e] == b) || (g->u[e] == b && g->v[e] == a)) { pg_del(g, e); break; }
                pg_add(g, c, d);
                f[x][0] = a; f[x][1] = c; f[x][2] = d;
                f[y][0] = b; f[y][1] = c; f[y][2] = d;
                break;
            }
        }
    }
}
static void pg_polygon(pg *g, int *vs, int k) /* random triangulated polygon (maximal outerplanar) */
{
    static int st[VH_MAXN][2];
    int top = 0;
    if (k == 2) { pg_add(g, vs[0], vs[1]); return; }
    for (int i = 0; i < k; i++) if (k > 1) pg_add(g, vs[i], vs[(i + 1) % k]);
    st[top][0] = 0; st[top][1] = k - 1; top++;
    while (top > 0)
    {
        top--;
        int a = st[top][0], b = st[top][1];
        if (b - a < 2) continue;
        int c = vh_between(a + 1, b - 1);
        if (c - a > 1) pg_add(g, vs[a], vs[c]);
        if (b - c > 1) pg_add(g, vs[c], vs[b]);
        st[top][0] = a; st[top][1] = c; top++;
        st[top][0] = c; st[top][1] = b; top++;
    }
}
static void pg_twotree(pg *g, int *vs, int k)
{
    static int eu[VH_MAXM], ev[VH_MAXM];
    int ne = 0;
    if (k < 2) return;
    pg_add(g, vs[0], vs[1]); eu[0] = vs[0]; ev[0] = vs[1]; ne = 1;
    int mode = vh_rnd(2);
    for (int i = 2; i < k; i++)
    {
        int x = mode ? vh_rnd(ne) : ne - 1 - vh_rnd(ne < 3 ? ne : 3);
        int a = eu[x], b = ev[x];
        pg_add(g, a, vs[i]); pg_add(g, b, vs[i]);
        eu[ne] = a; ev[ne] = vs[i]; ne++;
        eu[ne] = b; ev[ne] = vs[i]; ne++;
    }
}
static void pg_complete(pg *g, int *vs, int k)
{ for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) pg_add(g, vs[i], vs[j]); }
static void pg_bip(pg *g, int *vs, int a, int b)
{ for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) pg_add(g, vs[i], vs[a + j]); }
static void pg_subdivide(pg *g, int nmax, int times)
{
    while (times-- > 0 && g->n < nmax && g->m > 0)
    {
        int i = vh_rnd(g->m), a = g->u[i], b = g->v[i];
        pg_del(g, i);
        int w = pg_newv(g);
        pg_add(g, a, w); pg_add(g, w, b);
    }
}
static void pg_petersen(pg *g, int *vs)
{ for (int i = 0; i < 5; i++) { pg_add(g, vs[i], vs[(i + 1) % 5]); pg_add(g, vs[i], vs[5 + i]); pg_add(g, vs[5 + i], vs[5 + (i + 2) % 5]); } }
static void pg_wheel(pg *g, int *vs, int k)
{ for (int i = 1; i < k; i++) { pg_add(g, vs[0], vs[i]); pg_add(g, vs[i], vs[i + 1 < k ? i + 1 : 1]); } }
static void pg_cycle(pg *g, int *vs, int k) { for (int i = 0; i < k; i++) if (k > 1) pg_add(g, vs[i], vs[(i + 1) % k]); }
static void pg_prism(pg *g, int *vs, int k)
{ for (int i = 0; i < k; i++) { pg_add(g, vs[i], vs[(i + 1) % k]); pg_add(g, vs[k + i], vs[k + (i + 1) % k]); pg_add(g, vs[i], vs[k + i]); } }

/* glue pieces of chosen kinds along vertices or edges of the graph built so far */
static void pg_glue(pg *g, int nmax, int kinds, int delglue)
{
    pg_reset(g, 1);
    int guard = 0;
    while (g->n < nmax && guard++ < 200)
    {
        static int vs[VH_MAXN];
        int kind = kinds == 0 ? vh_rnd(8) : kinds == 1 ? (int[]){0, 1, 1, 4}[vh_rnd(4)] : kinds == 2 ? (int[]){1, 2, 4}[vh_rnd(3)]
                 : kinds == 3 ? (int[]){0, 3, 5, 0}[vh_rnd(4)] : (int[]){3, 4, 1, 5}[vh_rnd(4)];
        int k = kind == 0 ? 5 : kind == 1 ? 4 : kind == 2 ? vh_between(3, 8) : kind == 3 ? vh_between(4, 9)
              : kind == 4 ? vh_between(2, 6) : kind == 5 ? vh_between(4, 7) : kind == 6 ? 6 : 6;
        int share = vh_rnd(3); /* 0 = fresh component start or vertex, 1 = vertex, 2 = edge */
        int have = 0, ge = -1;
        if (g->m > 0 && share == 2) { ge = vh_rnd(g->m); vs[0] = g->u[ge]; vs[1] = g->v[ge]; have = 2; }
        else if (share >= 1 || vh_chance(70)) { vs[0] = vh_between(1, g->n); have = 1; }
        if (g->n + k - have > nmax) { if (guard > 100) break; continue; }
        for (int i = have; i < k; i++) vs[i] = pg_newv(g);
        switch (kind)
        {
        case 0: pg_complete(g, vs, 5); break;
        case 1: pg_complete(g, vs, 4); break;
        case 2: pg_polygon(g, vs, k); break;
        case 3: pg_triang(g, vs, k); break;
        case 4: pg_cycle(g, vs, k); break;
        case 5: pg_wheel(g, vs, k); break;
        case 6: pg_bip(g, vs, 3, 3); break;
        case 7: pg_prism(g, vs, 3); break;
        }
        if (ge >= 0 && have == 2 && vh_chance(delglue))
            for (int e = 0; e < g->m; e++)
                if ((g->u[e] == vs[0] && g->v[e] == vs[1]) || (g->u[e] == vs[1] && g->v[e] == vs[0])) { pg_del(g, e); break; }
    }
}

/* a tree of pieces in which every new piece is put in the place of an edge (2-sums): small complete graphs or stronger */
static void pg_chain(pg *g, int nmax, int big)
{
    static int vs[VH_MAXN];
    int guard = 0, last = 1;
    pg_reset(g, big);
    for (int i = 0; i < big; i++) vs[i] = i + 1;
    pg_complete(g, vs, big);
    while (g->n + big - 2 <= nmax && guard++ < 100)
    {
        int kind = vh_rnd(6), k = kind < 3 ? big : kind == 3 ? 3 : kind == 4 ? 4 : 5;
        int e = vh_chance(50) ? vh_rnd(g->m) : vh_between(last, g->m) - 1, at = g->m;
        if (g->n + k - 2 > nmax) break;
        vs[0] = g->u[e]; vs[1] = g->v[e];
        if (vh_chance(85)) { pg_del(g, e); at--; }
        for (int i = 2; i < k; i++) vs[i] = pg_newv(g);
        last = at + 1;
        for (int i = 0; i < k; i++)
            for (int j = i + 1; j < k; j++)
                if (j > 1 && (kind != 5 || !(i == 2 && j == 3) || big > 4)) pg_add(g, vs[i], vs[j]);
        if (last > g->m) last = g->m;
    }
}

#define VH_FAMILIES 20
/* one random graph of the given family on at most nmax vertices */
static void pg_family(pg *g, int fam, int nmax)
{
    static int vs[VH_MAXN];
    int n, k;
    if (nmax < 1) nmax = 1;
    n = vh_between(nmax > 12 ? nmax / 3 : 1, nmax);
    for (int i = 0; i < VH_MAXN; i++) vs[i] = i + 1;
    switch (fam)
    {
    case 0: /* uniform */
    {
        pg_reset(g, n);
        long long full = (long long)n * (n - 1) / 2;
        int cap = full > VH_MAXM ? VH_MAXM : (int)full;
        int m = vh_chance(60) ? vh_rnd((cap < 3 * n ? cap : 3 * n) + 1) : vh_rnd((cap < 6 * n ? cap : 6 * n) + 1);
        pg_add_random(g, m);
        break;
    }
    case 1: pg_reset(g, n); pg_triang(g, vs, n); break;
    case 2: pg_reset(g, n); pg_triang(g, vs, n); pg_del_random(g, vh_rnd(g->m / 2 + 1)); break;
    case 3: pg_reset(g, n); pg_triang(g, vs, n); pg_add_random(g, vh_between(1, 3)); if (vh_chance(50)) pg_del_random(g, vh_rnd(g->m / 3 + 1)); break;
    case 4: pg_reset(g, n); pg_polygon(g, vs, n); if (vh_chance(60)) pg_del_random(g, vh_rnd(g->m / 3 + 1)); break;
    case 5: pg_reset(g, n); pg_polygon(g, vs, n); pg_add_random(g, vh_between(1, 2)); if (vh_chance(50)) pg_del_random(g, vh_rnd(g->m / 4 + 1)); break;
    case 6: pg_reset(g, n); pg_twotree(g, vs, n); if (vh_chance(60)) pg_del_random(g, vh_rnd(g->m / 3 + 1)); break;
    case 7: pg_reset(g, n); pg_twotree(g, vs, n); if (vh_chance(60)) pg_del_random(g, vh_rnd(g->m / 3 + 1)); pg_add_random(g, vh_between(1, 2)); break;
    case 8: pg_glue(g, n, 0, 40); break;
    case 9: pg_glue(g, n, 1, 10); break;
    case 10: pg_glue(g, n, 2, 30); break;
    case 11: pg_glue(g, n, 3, 40); break;
    case 12: pg_glue(g, n, 3, 40); pg_add_random(g, 1); break;
    case 13: /* subdivided small obstruction with extras */
        switch (vh_rnd(6))
        {
        case 0: pg_reset(g, 5); pg_complete(g, vs, 5); break;
        case 1: pg_reset(g, 6); pg_bip(g, vs, 3, 3); break;
        case 2: pg_reset(g, 4); pg_complete(g, vs, 4); break;
        case 3: pg_reset(g, 5); pg_bip(g, vs, 2, 3); break;
        case 4: pg_reset(g, 10); pg_petersen(g, vs); break;
        default: k = vh_between(3, 5); pg_reset(g, 2 * k); pg_prism(g, vs, k); break;
        }
        pg_subdivide(g, n > g->n ? n : g->n, vh_rnd(n));
        if (vh_chance(50)) pg_add_random(g, vh_between(1, 3));
        while (g->n < n && vh_chance(70)) { int w = pg_newv(g); if (vh_chance(80)) pg_add(g, w, vh_between(1, w - 1)); if (vh_chance(40)) pg_add(g, w, vh_between(1, w - 1)); }
        break;
    case 14: /* structured planar */
        k = vh_rnd(4);
        if (k == 0) { int a = vh_between(1, 5), b = n / a < 1 ? 1 : n / a; pg_reset(g, a * b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (j + 1 < b) pg_add(g, i * b + j + 1, i * b + j + 2); if (i + 1 < a) pg_add(g, i * b + j + 1, (i + 1) * b + j + 1); } }
        else if (k == 1) { pg_reset(g, n); pg_wheel(g, vs, n); }
        else if (k == 2) { pg_reset(g, n); if (n > 2) pg_bip(g, vs, 2, n - 2); if (vh_chance(50)) pg_add(g, 1, 2); }
        else { int h = n / 2 < 3 ? 3 : n / 2; pg_reset(g, 2 * h); pg_prism(g, vs, h); }
        if (vh_chance(50)) pg_add_random(g, vh_rnd(3));
        break;
    case 15: /* forests, cycles */
        pg_reset(g, n);
        for (int i = 2; i <= n; i++) if (vh_chance(85)) pg_add(g, i, vh_chance(50) ? i - 1 : vh_between(1, i - 1));
        if (vh_chance(60)) pg_add_random(g, vh_rnd(3));
        break;
    case 16: /* dense */
    {
        if (n > 14) n = 14;
        pg_reset(g, n); pg_complete(g, vs, n); pg_del_random(g, vh_rnd(g->m / 2 + 1));
        break;
    }
    case 18: pg_chain(g, n, 5); if (vh_chance(30)) pg_subdivide(g, nmax, vh_between(1, 3)); if (vh_chance(50)) pg_add_random(g, 1); break;
    case 19: pg_chain(g, n, vh_chance(60) ? 4 : 3); if (vh_chance(30)) pg_subdivide(g, nmax, vh_between(1, 3)); if (vh_chance(50)) pg_add_random(g, 1); break;
    default: /* disjoint or one-vertex unions of two families */
    {
        static pg a, b;
        pg_family(&a, vh_rnd(16), n / 2 < 1 ? 1 : n / 2);
        pg_family(&b, vh_rnd(16), n / 2 < 1 ? 1 : n / 2);
        int sh = vh_rnd(2);
        pg_reset(g, a.n + b.n - sh);
        for (int i = 0; i < a.m; i++) pg_add(g, a.u[i], a.v[i]);
        for (int i = 0; i < b.m; i++) pg_add(g, b.u[i] + a.n - sh, b.v[i] + a.n - sh);
    }
    }
}
static void pg_finish(pg *g)
{
    int r = vh_rnd(4);
    if (r) pg_relabel(g);
    if (r != 3) pg_shuffle(g);
    pg_refresh(g);
}
/* labelled graph number x on n vertices (bit i = i-th pair) */
static void pg_bits(pg *g, int n, uint64_t x)
{
    pg_reset(g, n);
    for (int i = 1, b = 0; i <= n; i++) for (int j = i + 1; j <= n; j++, b++) if ((x >> b) & 1) pg_add(g, i, j);
}
static void j_edges(pg *g)
{
    J("\"es\":[");
    for (int i = 0; i < g->m; i++) J("%s[%d,%d]", i ? "," : "", g->u[i], g->v[i]);
    J("]");
}
/* adjacency lists of primary vertices, forward order */
static void j_adj(const char *key, graphP G)
{
    J("\"%s\":[", key);
    for (int v = gp_GetFirstVertex(G); gp_VertexInRange(G, v); v++)
    {
        int e = gp_GetFirstArc(G, v), k = 0;
        J("%s[", v == gp_GetFirstVertex(G) ? "" : ",");
        while (gp_IsArc(e) && k < 2 * VH_MAXM) { J("%s%d", k++ ? "," : "", gp_GetNeighbor(G, e)); e = gp_GetNextArc(G, e); }
        J("]");
    }
    J("]");
}
static void j_index(const char *key, graphP G)
{
    J("\"%s\":[", key);
    for (int v = gp_GetFirstVertex(G); gp_VertexInRange(G, v); v++) J("%s%d", v == gp_GetFirstVertex(G) ? "" : ",", gp_GetVertexIndex(G, v));
    J("]");
}
static int vh_flags(char a)
{
    switch (a)
    {
    case 'p': return EMBEDFLAGS_PLANAR;
    case 'o': return EMBEDFLAGS_OUTERPLANAR;
    case 'd': return EMBEDFLAGS_DRAWPLANAR;
    case '2': return EMBEDFLAGS_SEARCHFORK23;
    case '3': return EMBEDFLAGS_SEARCHFORK33;
    case '4': return EMBEDFLAGS_SEARCHFORK4;
    }
    return 0;
}
static int vh_attach(graphP G, char a)
{
    switch (a)
    {
    case 'd': return gp_AttachDrawPlanar(G);
    case '2': return gp_AttachK23Search(G);
    case '3': return gp_AttachK33Search(G);
    case '4': return gp_AttachK4Search(G);
    }
    return OK;
}
static int vh_detach(graphP G, char a)
{
    switch (a)
    {
    case 'd': return gp_DetachDrawPlanar(G);
    case '2': return gp_DetachK23Search(G);
    case '3': return gp_DetachK33Search(G);
    case '4': return gp_DetachK4Search(G);
    }
    return OK;
}
/* fresh library graph holding g; links = 1: random ends of the adjacency lists, otherwise append (0/1 as the readers do) */
static graphP vh_build(pg *g, int links)
{
    graphP G = gp_New();
    if (!G) return NULL;
    if (gp_InitGraph(G, g->n) != OK) { gp_Free(&G); return NULL; }
    if (2 * g->m > 6 * g->n && gp_EnsureArcCapacity(G, 2 * g->m) != OK) { gp_Free(&G); return NULL; }
    for (int i = 0; i < g->m; i++)
        if (gp_AddEdge(G, g->u[i], links ? vh_rnd(2) : 1, g->v[i], links ? vh_rnd(2) : 1) != OK) { gp_Free(&G); return NULL; }
    return G;
}
#endif
