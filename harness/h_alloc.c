/* Allocation failures, recorded for TraceAlloc.
     h_alloc rand SEED PROGRAMS KEEP OUT
   A program is a history of library calls.  It runs once undisturbed and then once per allocation,
   with that allocation (in every third program: also all later ones) failing. Odd runs (C-side screen)
   are always recorded, the others thinned to about KEEP. Linked with --wrap. */
#include "common.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "io/strbuf.h"
#include "lowLevelUtils/stack.h"
#include "lowLevelUtils/listcoll.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
static long cnt, failat, persistent, fired, live; static int on;
static int trip(void) { if (!on) return 0; cnt++; if (failat && (cnt == failat || (persistent && cnt > failat))) { fired++; return 1; } return 0; }
/* blocks of the library, to see what is never released */
#define HB (1 << 16)
static void *blk[HB];
static void mark(void *p) { if (!p || !on) return; size_t h = ((size_t)p >> 4) % HB; while (blk[h] && blk[h] != (void *)1) h = (h + 1) % HB; blk[h] = p; live++; }
static int unmark(void *p)
{
    size_t h = ((size_t)p >> 4) % HB;
    while (blk[h]) { if (blk[h] == p) { blk[h] = (void *)1; live--; return 1; } h = (h + 1) % HB; }
    return 0;
}
void *__wrap_malloc(size_t n) { if (trip()) return NULL; void *p = __real_malloc(n); mark(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (trip()) return NULL; void *p = __real_calloc(a, b); mark(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if (trip()) return NULL; int was = q ? unmark(q) : 1; void *p = __real_realloc(q, n); if (was) mark(p ? p : q); return p; }
char *__wrap_strdup(const char *s) { if (trip()) return NULL; char *p = __real_strdup(s); mark(p); return p; }
void __wrap_free(void *p) { if (p) unmark(p); __real_free(p); }

#define NG 3
#define SKIP (-9)
enum { NEW, INIT, BUILD, READS, READF, ATTACH, DETACH, ENS, GROW, RANDG, RANDX, EMBED, DUP, COPY, COPYADJ, CHECK, SORT, DFS, WRITES, WRITEF, RENDERS, RENDERF, G6R, G6RF, G6W, G6WF, REINIT, STACK, LISTS, SBUF, FREE, NOPS };
static const char *NAME[] = {"new", "init", "build", "readstr", "readfile", "attach", "detach", "ensure", "grow", "randg", "randx", "embed", "dup", "copy", "copyadj", "check", "sort", "dfs", "writestr", "writefile", "renderstr", "renderfile", "g6read", "g6readfile", "g6write", "g6writefile", "reinit", "stack", "lists", "strbuf", "free"};
typedef struct { int code, g, h; uint64_t s; } op;
static struct { graphP G; int st, feats, alg, ret, bad; int of; } S[NG]; /* st: 0 none 1 new 2 initialised 3 embedded */
static char fn[1100];
static int val;
static void h_int(int x) { val = (int)(((unsigned)val * 31u + (unsigned)x + 7u) & 0x3fffffff); }
static void h_text(const char *s) { for (; s && *s; s++) h_int((unsigned char)*s); }
static void h_graph(graphP G)
{
    h_int(G->N); h_int(G->M);
    for (int v = gp_GetFirstVertex(G); gp_VertexInRange(G, v); v++)
        for (int e = gp_GetFirstArc(G, v); gp_IsArc(e); e = gp_GetNextArc(G, e)) h_int(gp_GetNeighbor(G, e));
}
static char *slurp(void)
{
    FILE *f = fopen(fn, "rb");
    static char b[1 << 16];
    if (!f) return NULL;
    size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; fclose(f);
    return b;
}
static pg g;
static int some_graph(int nmax) { for (int t = 0; t < 200; t++) { pg_family(&g, vh_rnd(VH_FAMILIES), vh_between(2, nmax)); if (g.n >= 2 && g.n <= nmax) { pg_finish(&g); return 1; } } return 0; }
static char text[40000]; static int tl;
static void T(const char *f, ...) { va_list a; va_start(a, f); tl += vsnprintf(text + tl, sizeof text - tl, f, a); va_end(a); }
static void g6line(void)
{
    int acc = 0, k = 0;
    T("%c", 63 + g.n);
    for (int v = 2; v <= g.n; v++)
        for (int u = 1; u < v; u++) { acc = acc * 2 + vh_adj[u][v]; if (++k == 6) { T("%c", 63 + acc); acc = k = 0; } }
    if (k) T("%c", 63 + (acc << (6 - k)));
}
static void make_text(int leda)
{
    tl = 0; text[0] = 0;
    some_graph(9); pg_refresh(&g);
    switch (vh_rnd(leda ? 4 : 3))
    {
    case 0: T("N=%d\n", g.n); for (int v = 1; v <= g.n; v++) { T("%d:", v); for (int w = 1; w <= g.n; w++) if (vh_adj[v][w]) T(" %d", w); T(" 0\n"); } break;
    case 1: T("%d\n", g.n); for (int v = 1; v <= g.n; v++) { for (int w = v + 1; w <= g.n; w++) T("%d", vh_adj[v][w]); T("\n"); } break;
    case 2: if (vh_chance(50)) T(">>graph6<<"); g6line(); T("\n"); break;
    case 3: T("LEDA.GRAPH\nstring\nint\n%d\n", g.n); for (int v = 1; v <= g.n; v++) T("|{}|\n"); T("%d\n", g.m); for (int i = 0; i < g.m; i++) T("%d %d 0 |{}|\n", g.u[i], g.v[i]); break;
    }
}
static void spit(void) { FILE *f = fopen(fn, "wb"); if (!f || fputs(text, f) < 0) exit(3); fclose(f); }
static char algof(int feats) { char c[8] = "po"; int k = 2; if (feats & 1) c[k++] = 'd'; if (feats & 2) c[k++] = '2'; if (feats & 4) c[k++] = '3'; if (feats & 8) c[k++] = '4'; return vh_chance(70) && k > 2 ? c[2 + vh_rnd(k - 2)] : c[vh_rnd(k)]; }
/* a call of the library happens with injection on; everything around it without */
#define LIB(e) do { on = 1; e; on = 0; } while (0)
static int writes_g, writes_h, uses_h, given;
static int exec_op(op *o)
{
    int x = o->g, y = o->h, r = SKIP; graphP G = S[x].G, H = S[y].G; char *s = NULL;
    vh_seed(o->s, 77); srand((unsigned)(o->s & 0x7fffffff));
    writes_g = 1; writes_h = uses_h = 0; val = 0;
    switch (o->code)
    {
    case NEW: if (S[x].st) break; LIB(S[x].G = gp_New()); r = S[x].G != NULL; S[x].st = r; S[x].feats = 0; S[x].of = -1; break;
    case INIT: if (S[x].st != 1) break; { int n = vh_between(1, 9); long f = fired; LIB(r = gp_InitGraph(G, n)); S[x].st = 2; S[x].of = -1;
            /* a failed initialization leaves a new graph behind */
            if (fired > f && !persistent && r != OK) { int q; LIB(q = gp_InitGraph(G, n)); if (q != OK || G->N != n || G->M) h_int(1), r = OK; for (int v = 1; v < n; v++) LIB(q = gp_AddEdge(G, v, 0, v + 1, 0)); if (q != OK && n > 1) r = OK; } } break;
    case BUILD: if (S[x].st) break; some_graph(9); on = 1; S[x].G = G = gp_New(); r = 0;
        if (G) { r = gp_InitGraph(G, g.n); if (r == OK && 2 * g.m > gp_GetArcCapacity(G)) r = gp_EnsureArcCapacity(G, 2 * g.m); }
        on = 0;
        for (int i = 0; r == OK && i < g.m; i++) if (gp_AddEdge(G, g.u[i], vh_rnd(2), g.v[i], vh_rnd(2)) != OK) exit(3);
        S[x].st = G ? 2 : 0; S[x].feats = 0; S[x].of = -1; if (r == OK) h_graph(G); break;
    case READS: if (S[x].st != 1) break; make_text(0); s = __real_strdup(text); LIB(r = gp_ReadFromString(G, s)); S[x].st = 2; S[x].of = -1; if (r == OK) h_graph(G); break;
    case READF: if (S[x].st != 1) break; make_text(1); spit(); LIB(r = gp_Read(G, fn)); S[x].st = 2; S[x].of = -1; if (r == OK) h_graph(G); break;
    case ATTACH: if (!S[x].st || S[x].st == 3) break; { int f = vh_rnd(4); LIB(r = vh_attach(G, "d234"[f])); if (r == OK) S[x].feats |= 1 << f; } break;
    case DETACH: if (!S[x].st || S[x].st == 3) break; { int f = vh_rnd(4); LIB(r = vh_detach(G, "d234"[f])); S[x].feats &= ~(1 << f); } break;
    case ENS: if (S[x].st != 2 || S[x].feats & 13) break; { int k = gp_GetArcCapacity(G) + 2 * vh_between(0, 8); LIB(r = gp_EnsureArcCapacity(G, k)); h_int(gp_GetArcCapacity(G)); } break;
    case GROW: if (S[x].st != 2 || S[x].feats & 13 || G->N < 5) break; r = OK;
        for (int i = 1; i <= G->N && r == OK; i++) for (int j = i + 1; j <= G->N && r == OK; j++) if (!gp_IsNeighbor(G, i, j) && vh_chance(80)) LIB(r = gp_DynamicAddEdge(G, i, 0, j, 0));
        if (r == OK) h_graph(G); break;
    case RANDG: if (S[x].st != 2 || G->M) break; LIB(r = gp_CreateRandomGraph(G)); if (r == OK) h_graph(G); break;
    case RANDX: if (S[x].st != 2 || G->M || G->N < 4 || S[x].feats & 13) break; { int k = vh_between(G->N, 3 * G->N - 6); if (k > G->N * (G->N - 1) / 2) break; LIB(r = gp_CreateRandomGraphEx(G, k)); } if (r == OK) h_graph(G); break;
    case EMBED: if (S[x].st != 2) break; S[x].alg = algof(S[x].feats); LIB(r = gp_Embed(G, vh_flags(S[x].alg))); S[x].st = 3; S[x].ret = r; break;
    case DUP: if (S[x].st < 2 || S[y].st || x == y) break; writes_g = 0; writes_h = 1; LIB(H = gp_DupGraph(G)); r = H != NULL; S[y] = S[x]; S[y].G = H; S[y].bad = 0; S[y].st = H ? S[x].st : 0; S[y].of = H && S[x].st == 2 ? x : -1; if (r == OK) h_graph(H); break;
    case COPY: if (S[x].st < 2 || S[y].st < 2 || x == y || G->N != H->N || S[y].feats != S[x].feats) break; writes_g = 0; writes_h = 1; LIB(r = gp_CopyGraph(H, G)); S[y].st = S[x].st; S[y].feats = S[x].feats; S[y].alg = S[x].alg; S[y].ret = S[x].ret; S[y].of = S[x].st == 2 ? x : -1; if (r == OK) h_graph(H); break;
    case COPYADJ: if (S[x].st != 2 || S[y].st != 2 || x == y || G->N != H->N || S[x].feats || S[y].feats) break; writes_g = 0; writes_h = 1; LIB(r = gp_CopyAdjacencyLists(H, G)); S[y].of = -1; if (r == OK) h_graph(H); break;
    case CHECK: if (S[x].st != 3 || S[y].st != 2 || S[y].of != x || S[x].ret == NOTOK) break; writes_g = 0; uses_h = 1; LIB(r = gp_TestEmbedResultIntegrity(G, H, S[x].ret)); break;
    case SORT: if (S[x].st != 3 || (S[x].ret == OK ? !strchr("pdo", S[x].alg) : S[x].alg == 'd')) break; LIB(r = gp_SortVertices(G)); if (r == OK) h_graph(G); break;
    case DFS: if (S[x].st != 2) break; LIB(r = gp_CreateDFSTree(G)); if (r == OK) LIB(r = gp_LowpointAndLeastAncestor(G)); break;
    case WRITES: case WRITEF: if (S[x].st != 2 || G->M == 0) break; writes_g = 0; { int m = vh_chance(34) ? WRITE_ADJLIST : vh_chance(50) ? WRITE_ADJMATRIX : WRITE_G6;
        if (o->code == WRITES) { LIB(r = gp_WriteToString(G, &s, m)); if (r == OK) h_text(s); if (s) free(s); }
        else { unlink(fn); LIB(r = gp_Write(G, fn, m)); if (r == OK) h_text(slurp()); } } break;
    case RENDERS: if (S[x].st != 3 || S[x].alg != 'd' || S[x].ret != OK || G->M < 1) break; writes_g = 0; LIB(r = gp_DrawPlanar_RenderToString(G, &s)); if (r == OK) h_text(s); if (s) free(s); break;
    case RENDERF: if (S[x].st != 3 || S[x].alg != 'd' || S[x].ret != OK || G->M < 1) break; writes_g = 0; unlink(fn); LIB(r = gp_DrawPlanar_RenderToFile(G, fn)); if (r == OK) h_text(slurp()); break;
    case G6R: case G6RF: if (S[x].st != 1) break;
        {
            G6ReadIterator *it = NULL; FILE *f = NULL; static char path[1100];
            tl = 0; some_graph(8); int n = g.n, k = vh_between(1, 4);
            for (int i = 0; i < k; i++) { pg_reset(&g, n); pg_add_random(&g, vh_rnd(3 * n)); g6line(); T("\n"); }
            if (o->code == G6RF) { spit(); strcpy(path, fn); if (vh_chance(50)) f = fopen(fn, "r"); } else s = __real_strdup(text);
            on = 1;
            r = allocateG6ReadIterator(&it, G);
            if (r == OK) { r = s ? beginG6ReadIterationFromG6String(it, s) : f ? beginG6ReadIterationFromG6FilePointer(it, f) : beginG6ReadIterationFromG6FilePath(it, path); s = NULL; if (r == OK) f = NULL; }
            if (f) given++;
            on = 0;
            while (r == OK) { on = 1; r = readGraphUsingG6ReadIterator(it); on = 0; if (r != OK || !it->currGraph) break; h_graph(G); }
            on = 1;
            if (it) { if (endG6ReadIteration(it) != OK) r = NOTOK; if (freeG6ReadIterator(&it) != OK) r = NOTOK; }
            on = 0;
            if (s) __real_free(s);
            /* who owns the file after a failed begin is left open */
            S[x].st = 2; S[x].of = -1;
        }
        break;
    case G6W: case G6WF: if (S[x].st != 2 || S[x].feats) break;
        {
            G6WriteIterator *it = NULL; writes_g = 0; static char path[1100]; int k = vh_between(1, 3);
            char *t = NULL;
            unlink(fn); strcpy(path, fn);
            on = 1;
            r = allocateG6WriteIterator(&it, G);
            if (r == OK) r = o->code == G6W ? beginG6WriteIterationToG6String(it, &t) : beginG6WriteIterationToG6FilePath(it, path);
            while (r == OK && k-- > 0) r = writeGraphUsingG6WriteIterator(it);
            if (it && r == OK && o->code == G6W) s = sf_takeTheStr(it->g6Output);
            if (it) { if (endG6WriteIteration(it) != OK) r = NOTOK; if (freeG6WriteIterator(&it) != OK) r = NOTOK; }
            on = 0;
            if (r == OK) h_text(o->code == G6W ? s : slurp());
            if (s) free(s);
        }
        break;
    case REINIT: if (S[x].st < 2) break; LIB(gp_ReinitializeGraph(G)); r = OK; S[x].st = 2; S[x].of = -1; break;
    case STACK:
        { writes_g = 0; stackP a, b = NULL; r = NOTOK; on = 1; a = sp_New(vh_between(1, 20)); if (a) { sp_Push(a, 3); b = sp_Duplicate(a); if (b) { r = sp_Copy(b, a); h_int(sp_GetCurrentSize(b)); } } if (a) sp_Free(&a); if (b) sp_Free(&b); on = 0; } break;
    case LISTS:
        { writes_g = 0; on = 1; listCollectionP l = LCNew(vh_between(1, 9)); r = l != NULL; if (l) LCFree(&l); on = 0; } break;
    case SBUF:
        { writes_g = 0; r = NOTOK; int a = vh_rnd(4), b = vh_rnd(4); static char w[3000]; int k = vh_rnd(2500); memset(w, 'x', k); w[k] = 0;
          on = 1; strBufP p = sb_New(a), q = NULL; if (p) r = sb_ConcatString(p, w); if (r == OK) { q = sb_Duplicate(p); r = q != NULL; } if (r == OK && b) r = sb_ConcatChar(q, 'y'); if (r == OK) r = sb_Copy(p, q);
          if (r == OK) { s = sb_TakeString(p); if (!s) r = NOTOK; } if (p) sb_Free(&p); if (q) sb_Free(&q); on = 0; if (r == OK) h_text(s); if (s) free(s); } break;
    case FREE: if (!S[x].st) break; LIB(gp_Free(&S[x].G)); r = S[x].G == NULL; memset(&S[x], 0, sizeof S[x]); break;
    }
    on = 0;
    return r;
}
#define MAXP 40
static op prog[MAXP]; static int np, pret[MAXP], pval[MAXP];
static long nruns, nprog, nfaults, nodd, nkept;
static FILE *dst; static char *mem; static size_t memlen;
static void clean(void) { for (int i = 0; i < NG; i++) { if (S[i].G) LIB(gp_Free(&S[i].G)); memset(&S[i], 0, sizeof S[i]); } }
static void on_signal(int sig)
{
    on = 0; failat = 0;
    fflush(vh_out); fwrite(mem, 1, memlen, dst); fprintf(dst, "\n{\"ev\":\"abort\",\"sig\":%d}\n", sig); fflush(dst); _exit(70);
}
static int norm(int r) { return r == OK ? 1 : r == NONEMBEDDABLE ? -1 : r == SKIP ? SKIP : 0; }
static int one_run(long at, int pers)
{
    int odd = 0, open_;
    vh_fds(1); given = 0;
    failat = 0; cnt = 0; fired = 0; live = 0; on = 0; memset(blk, 0, sizeof blk);
    J("{\"ev\":\"begin\",\"fault\":%ld,\"plan\":[", at);
    for (int k = 0; k < np; k++) J("%s[\"%s\",%d,%d]", k ? "," : "", NAME[prog[k].code], pret[k], pval[k]);
    J("]}\n");
    failat = at; persistent = pers;
    for (int k = 0; k < np; k++)
    {
        op *o = &prog[k];
        if (pret[k] == SKIP) continue;
        int free_ = o->code == FREE, two = o->code == DUP || o->code == COPY || o->code == COPYADJ || o->code == CHECK;
        int cont = o->code == STACK || o->code == LISTS || o->code == SBUF;
        /* what an object is good for after a failure is open, except that it can be released */
        if (!cont && ((S[o->g].bad && !free_) || (two && S[o->h].bad))) { if (two && o->code != CHECK) S[o->h].bad = 1; continue; }
        long f0 = fired;
        fflush(vh_out);
        int r = norm(exec_op(o)), hit = fired > f0;
        if (r == SKIP && !hit) continue; /* the object was never made */
        J("{\"ev\":\"op\",\"k\":%d,\"fired\":%d,\"ret\":%d,\"val\":%d}\n", k + 1, hit, r, val);
        if (hit) { if (r != 0) odd = 1; }
        else if (r != pret[k] || val != pval[k]) odd = 1;
        if (r == 0 && !cont)
        {
            if (writes_g) S[o->g].bad = 1;
            if (writes_h) S[o->h].bad = 1;
        }
        if (pers && hit) break;
    }
    fflush(vh_out);
    clean();
    open_ = vh_fds(0); if (open_) vh_fdclose();
    J("{\"ev\":\"end\",\"live\":%ld,\"open\":%d,\"given\":%d}\n", live, open_, given);
    if (live || open_ > given) odd = 1;
    nruns++; if (fired) nfaults++;
    failat = 0;
    return odd;
}
int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    uint64_t seed = strtoull(argv[2], 0, 10); long progs = atol(argv[3]), keep = atol(argv[4]);
    dst = fopen(argv[5], "w"); if (!dst) return 2;
    snprintf(fn, sizeof fn, "%s.f", argv[5]);
    vh_out = stderr;
    setQuietModeSetting(TRUE);
    signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal);
    { graphP w = gp_New(); for (const char *f = "d234"; *f; f++) { vh_attach(w, *f); vh_detach(w, *f); } gp_Free(&w); } /* features have their identifiers */
    for (long p = 0; p < progs; p++)
    {
        alarm(120);
        np = 0;
        vh_seed(seed, p);
        int len = vh_between(4, 16), pers = p % 3 == 2;
        /* made while it runs undisturbed, of calls that apply */
        failat = 0; fired = 0; cnt = 0; np = 0;
        while (np < len)
        {
            op *o = &prog[np];
            for (int t = 0; t < 25; t++)
            {
                uint64_t rs = vh_next();
                o->code = np < 1 ? (int[]){NEW, BUILD, BUILD}[rs % 3] : rs % 10 < 4 ? (int[]){BUILD, DUP, EMBED, COPY, ATTACH, CHECK, RENDERS, RENDERF, SORT, COPYADJ}[rs / 10 % 10] : (int)(rs / 10 % NOPS);
                o->g = (int)(rs / 1000 % NG); o->h = (int)(rs / 10000 % NG); o->s = vh_next();
                uint64_t keep_ = vh_next();
                pret[np] = norm(exec_op(o)); pval[np] = val;
                vh_seed(keep_, t);
                if (pret[np] != SKIP) break;
            }
            np++;
        }
        long total = cnt;
        clean();
        nprog++;
        long pick = total ? (long)(vh_next() % (uint64_t)(total + 1)) : 0;
        vh_seed(seed + 1, p);
        int rec = (p + 1) * keep / progs != p * keep / progs;
        for (long at = 0; at <= total; at++)
        {
            vh_out = open_memstream(&mem, &memlen);
            int odd = one_run(at, pers);
            fclose(vh_out);
            if (odd) nodd++;
            if ((odd && nodd <= 60) || (rec && at == pick)) { fwrite(mem, 1, memlen, dst); fflush(dst); nkept++; }
            free(mem); mem = NULL;
        }
    }
    unlink(fn);
    fclose(dst);
    printf("{\"programs\":%ld,\"runs\":%ld,\"failures\":%ld,\"odd\":%ld,\"recorded\":%ld}\n", nprog, nruns, nfaults, nodd, nkept);
    return 0;
}
