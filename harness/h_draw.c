/* Drawings: rendition, saving and reading back, copying; recorded for TraceDrawing.
     h_draw rand SEED RUNS KEEP NMIN NMAX OUT
   Odd runs (C-side screen) are always recorded, the others thinned to about KEEP. */
#include "common.h"
static long nruns, nev, nkept;
static FILE *dst; static char *mem; static size_t memlen;
static char scratch[600];
static void on_signal(int sig)
{
    fflush(vh_out); fwrite(mem, 1, memlen, dst); fprintf(dst, "\n{\"ev\":\"abort\",\"sig\":%d}\n", sig); fflush(dst); _exit(70);
}
static char *slurp(const char *fn)
{
    FILE *f = fopen(fn, "rb");
    if (!f) return NULL;
    size_t cap = 1 << 16, k = 0; char *s = malloc(cap);
    for (int c; (c = fgetc(f)) != EOF; ) { if (k + 1 >= cap) s = realloc(s, cap *= 2); s[k++] = (char)c; }
    s[k] = 0; fclose(f);
    return s;
}
static void spit(const char *fn, const char *s) { FILE *f = fopen(fn, "wb"); if (!f || fputs(s, f) < 0) exit(3); fclose(f); }

/* the drawing data an object writes, edges identified by its own records */
static int j_drawing(graphP G, int *m)
{
    char *s = NULL, *p;
    int ok = gp_WriteToString(G, &s, WRITE_ADJLIST) == OK && s != NULL, id, a, b, c, k, first = 1, ne = 0;
    int z = (G->internalFlags & FLAGS_ZEROBASEDIO) ? 1 : 0;
    p = ok ? strstr(s, "<DrawPlanar>") : NULL;
    if (p) p = strchr(p, '\n');
    J("\"v\":[");
    if (p)
    {
        p++;
        for (int v = 1; v <= G->N && sscanf(p, "%d: %d %d %d\n%n", &id, &a, &b, &c, &k) == 4 && id == v - z; v++) { J("%s[%d,%d,%d]", v > 1 ? "," : "", a, b, c); p += k; }
    }
    J("],\"arcs\":[");
    if (p)
        while (sscanf(p, "%d: %d %d %d\n%n", &id, &a, &b, &c, &k) == 4)
        {
            p += k;
            if (z) id += gp_GetFirstEdge(G);
            if (id < gp_GetFirstEdge(G) || id >= gp_EdgeIndexBound(G)) continue;
            int w = gp_GetNeighbor(G, id), u = gp_GetNeighbor(G, gp_GetTwinArc(G, id));
            J("%s[%d,%d,%d,%d,%d]", first ? "" : ",", u, w, a, b, c); first = 0; ne++;
        }
    J("]");
    free(s);
    *m = G->M;
    return p != NULL && ne == 2 * G->M;
}
static void j_rows(const char *s, int w)
{
    J("\"rows\":[");
    for (int r = 0; s && *s; r++)
    {
        J("%s[", r ? "," : "");
        for (int k = 0; k < w && *s; k++, s++) J("%s%d", k ? "," : "", (unsigned char)*s);
        J("]");
    }
    J("]");
}
static char *render(graphP G, int tofile, int *ret)
{
    char *s = NULL;
    if (tofile)
    {
        unlink(scratch);
        *ret = gp_DrawPlanar_RenderToFile(G, scratch);
        s = slurp(scratch);
        if (s && *ret != OK) { free(s); s = NULL; }
    }
    else *ret = gp_DrawPlanar_RenderToString(G, &s);
    return s;
}
static char *save(graphP G, int mode, int tofile, int *ret)
{
    char *s = NULL;
    if (tofile) { unlink(scratch); *ret = gp_Write(G, scratch, mode); s = slurp(scratch); }
    else *ret = gp_WriteToString(G, &s, mode);
    return s;
}
static int read_text(graphP H, const char *text, int fromfile)
{
    if (fromfile) { spit(scratch, text); return gp_Read(H, scratch); }
    return gp_ReadFromString(H, strdup(text));
}
static char *adjtext(pg *g, int zero)
{
    char *s; size_t k;
    FILE *f = open_memstream(&s, &k);
    fprintf(f, "N=%d\n", g->n);
    for (int v = 1; v <= g->n; v++)
    {
        fprintf(f, "%d:", v - zero);
        for (int i = 0; i < g->m; i++)
            if (g->u[i] == v) fprintf(f, " %d", g->v[i] - zero); else if (g->v[i] == v) fprintf(f, " %d", g->u[i] - zero);
        fprintf(f, " %d\n", zero ? -1 : 0);
    }
    fclose(f);
    return s;
}
static int j_state(graphP G, int *odd)
{
    int m, ok = j_drawing(G, &m);
    if (!ok) *odd = 1;
    return m;
}
static int pieces(char *text, char **ln, int max) { int k = 0; for (char *p = text; *p && k < max; ) { ln[k++] = p; p = strchr(p, '\n'); if (!p) break; p++; } return k; }

static int run(int nmin, int nmax)
{
    static pg g;
    int odd = 0, ret, m;
    graphP G = NULL;
    for (int t = 0; ; t++)
    {
        if (t > 300) return 0;
        pg_family(&g, vh_rnd(VH_FAMILIES), nmax); pg_finish(&g);
        if (g.n < nmin || g.m < 1 || g.m > 3 * g.n) continue;
        int zero = vh_chance(50);
        char *txt = adjtext(&g, zero);
        G = gp_New();
        if (gp_ReadFromString(G, txt) != OK) exit(3);
        for (int k = vh_chance(30) ? vh_between(1, 3) : 0; k > 0 && g.m > 1; k--)
        {
            int i = vh_rnd(g.m);
            gp_DeleteEdge(G, gp_GetNeighborEdgeRecord(G, g.u[i], g.v[i]), 0);
            g.m--; g.u[i] = g.u[g.m]; g.v[i] = g.v[g.m];
        }
        if (gp_AttachDrawPlanar(G) != OK) exit(3);
        if (gp_Embed(G, EMBEDFLAGS_DRAWPLANAR) != OK) { gp_Free(&G); continue; } /* not planar: another graph */
        J("{\"ev\":\"begin\",\"n\":%d,\"zero\":%d,", g.n, zero); j_edges(&g); J("}\n");
        break;
    }
    int sorted = vh_chance(75);
    if (sorted) gp_SortVertices(G);
    J("{\"ev\":\"drawn\",\"sorted\":%d,", sorted); m = j_state(G, &odd); J(",\"m\":%d}\n", m); nev++;
    int w = m + 1;
    graphP cur = G;
    for (int step = vh_between(2, 5); step > 0; step--)
    {
        int what = vh_rnd(10), f = vh_chance(40), r2;
        if (what < 2)
        {
            char *s = render(cur, f, &ret);
            J("{\"ev\":\"render\",\"ret\":%d,", ret); j_rows(s, w); J("}\n"); nev++;
            free(s);
        }
        else if (what < 4)
        {
            graphP H;
            if (f) H = gp_DupGraph(cur);
            else
            {
                H = gp_New();
                if (gp_InitGraph(H, cur->N) != OK) exit(3);
                if (vh_chance(50)) gp_AttachDrawPlanar(H);
                if (gp_CopyGraph(H, cur) != OK) { gp_Free(&H); H = NULL; }
            }
            if (!H) { J("{\"ev\":\"copy\",\"ok\":0}\n"); odd = 1; break; }
            if (cur != G) gp_Free(&cur);
            cur = H;
            char *s = render(cur, 0, &ret);
            J("{\"ev\":\"copy\",\"ok\":1,"); j_state(cur, &odd); J(",\"ret\":%d,", ret); j_rows(s, w); J("}\n"); nev++;
            free(s);
        }
        else if (what < 8)
        {
            int mode = vh_chance(80) ? WRITE_ADJLIST : WRITE_ADJMATRIX, tofile = f, fromfile = vh_chance(40);
            char *s = save(cur, mode, tofile, &ret);
            graphP H = gp_New();
            gp_AttachDrawPlanar(H);
            r2 = s ? read_text(H, s, fromfile) : NOTOK;
            J("{\"ev\":\"reread\",\"mode\":\"%s\",\"wret\":%d,\"ret\":%d,\"n\":%d,\"zero\":%d,", mode == WRITE_ADJLIST ? "adj" : "mat", ret, r2, r2 == OK ? H->N : 0,
              (H->internalFlags & FLAGS_ZEROBASEDIO) ? 1 : 0);
            free(s);
            if (r2 == OK)
            {
                j_state(H, &odd);
                s = render(H, 0, &ret);
                if (mode == WRITE_ADJLIST)
                {
                    int q; char *o = render(cur, 0, &q);
                    if (!o || !s || strcmp(o, s)) odd = 1;
                    free(o);
                }
                J(",\"rret\":%d,", ret); j_rows(s, w); free(s);
            }
            else { J("\"v\":[],\"arcs\":[],\"rret\":0,\"rows\":[]"); odd = 1; }
            J("}\n"); nev++;
            if (cur != G) gp_Free(&cur);
            cur = G;
            if (r2 == OK) cur = H; else { gp_Free(&H); break; }
        }
        else
        {
            /* texts that are not what was saved: reading must refuse what is incomplete, and never harm */
            static char *ln[8000];
            char *s = save(cur, WRITE_ADJLIST, 0, &ret), *t;
            const char *kind;
            int k = pieces(s, ln, 8000), a = 0, b = 0, len = (int)strlen(s);
            for (int i = 0; i < k; i++) { if (!strncmp(ln[i], "<Draw", 5)) a = i; if (!strncmp(ln[i], "</Draw", 6)) b = i; }
            t = malloc(len + 200);
            memcpy(t, s, len + 1);
            int i = vh_between(a + 1, b - 1);
            if (b <= a + 1) { free(s); free(t); continue; }
            switch (vh_rnd(5))
            {
            case 0: kind = "cut"; t[ln[i] - s] = 0; break;                                     /* whole lines missing at the end */
            case 1: kind = "cut"; t[vh_between((int)(ln[a] - s) + 1, (int)(ln[b - 1] - s))] = 0; break; /* cut inside the data, at least the last line incomplete */
            case 2: { kind = "junk"; char *q = strchr(ln[i], ':') + 2; t[q - s] = 'x'; break; } /* a position that is no number */
            case 3: { kind = "drop"; char *e = strchr(ln[i], '\n') + 1; memmove(t + (ln[i] - s), e, strlen(e) + 1); break; }
            default: {                                                                          /* another number */
                kind = "range";
                int fld = vh_between(1, 3); char *q = strchr(ln[i], ':') + 1;
                while (fld-- > 0) { while (*q == ' ') q++; if (fld) while (*q != ' ') q++; }
                char *e = q; while (*e != ' ' && *e != '\n') e++;
                static const char *vals[] = {"-1", "1000000", "2147483647", "-2147483648", "0", "1", "2", "3", "7", "100"};
                sprintf(t + (q - s), "%s%s", vals[vh_rnd(10)], e); break; }
            }
            graphP H = gp_New();
            gp_AttachDrawPlanar(H);
            r2 = read_text(H, t, f);
            int r3 = NOTOK; char *pic = NULL;
            if (r2 == OK) pic = render(H, 0, &r3);
            J("{\"ev\":\"edited\",\"kind\":\"%s\",\"ret\":%d,\"rret\":%d,\"size\":%d}\n", kind, r2, r3, pic ? (int)strlen(pic) : -1); nev++;
            if (strcmp(kind, "range") && r2 == OK) odd = 1;
            free(pic); free(s); free(t); gp_Free(&H);
        }
    }
    if (vh_chance(10))
    {
        int e = gp_GetFirstEdge(cur), mm = cur->M; (void)mm;
        gp_DeleteEdge(cur, e, 0);
        char *s = render(cur, vh_chance(50), &ret);
        J("{\"ev\":\"spoiled\",\"ret\":%d}\n", ret); nev++;
        free(s);
    }
    J("{\"ev\":\"free\"}\n");
    if (cur != G) gp_Free(&cur);
    gp_Free(&G);
    return odd;
}
int main(int argc, char **argv)
{
    if (argc < 8 || strcmp(argv[1], "rand")) return 2;
    long seed = atol(argv[2]), runs = atol(argv[3]), keep = atol(argv[4]); int nmin = atoi(argv[5]), nmax = atoi(argv[6]);
    dst = fopen(argv[7], "w");
    if (!dst) return 2;
    snprintf(scratch, sizeof scratch, "%s.scratch", argv[7]);
    signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal);
    for (long r = 0; r < runs; r++)
    {
        alarm(30);
        vh_seed(seed, r);
        int rec = (r + 1) * keep / runs != r * keep / runs;
        vh_out = open_memstream(&mem, &memlen);
        int odd = run(nmin, nmax);
        fflush(vh_out);
        if (((odd && nkept < 2 * keep + 100) || rec) && memlen) { fwrite(mem, 1, memlen, dst); fflush(dst); nkept++; }
        fclose(vh_out); free(mem); mem = NULL;
        nruns++;
    }
    fclose(dst);
    unlink(scratch);
    printf("{\"events\":%ld,\"histories\":%ld,\"recorded\":%ld}\n", nev, nruns, nkept);
    return 0;
}
