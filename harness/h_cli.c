/* The command line program on files, recorded for TraceCli.
     h_cli rand PLANARITY SEED RUNS MODE OUT      MODE: x transform chains, s specific graphs, t all graphs, m a mixture, i menu sessions
   Works in the directory OUT.d, which it creates and removes. */
#include "common.h"
#include "certs.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
static char *prog, dir[900], outp[1000];
static long ncmd, nruns, ngraphs;
static char *lastout; static size_t lastlen;

/* ---- files: what was there before the command, to show only what changed ---- */
#define MAXF 160
static struct { char name[200]; char *text; long len; } old[MAXF];
static int nold;
static void forget(void) { for (int i = 0; i < nold; i++) free(old[i].text); nold = 0; }
static char *slurp(const char *fn, long *len)
{
    FILE *f = fopen(fn, "rb");
    if (!f) return NULL;
    size_t cap = 1 << 14, k = 0; char *s = malloc(cap);
    for (int c; (c = fgetc(f)) != EOF; ) { if (k + 1 >= cap) s = realloc(s, cap *= 2); s[k++] = (char)c; }
    s[k] = 0; fclose(f); *len = (long)k;
    return s;
}
static void j_text(const char *s, long len) { J("["); for (long i = 0; i < len; i++) J("%s%d", i ? "," : "", (unsigned char)s[i]); J("]"); }
static int cmpname(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void j_listing(void)
{
    static char *names[MAXF]; int k = 0;
    DIR *d = opendir(".");
    for (struct dirent *e; (e = readdir(d)) && k < MAXF; )
    {
        if (e->d_name[0] == '.' || !strcmp(e->d_name, "full")) continue;
        DIR *in = opendir(e->d_name);
        if (!in) { names[k++] = strdup(e->d_name); continue; }
        for (struct dirent *h; (h = readdir(in)) && k < MAXF; )
            if (h->d_name[0] != '.') { char fn[600]; snprintf(fn, sizeof fn, "%s/%s", e->d_name, h->d_name); names[k++] = strdup(fn); }
        closedir(in);
    }
    closedir(d);
    qsort(names, k, sizeof *names, cmpname);
    J("\"fs\":[");
    for (int i = 0; i < k; i++)
    {
        long len; char *s = slurp(names[i], &len);
        int same = 0, at = -1;
        for (int j = 0; j < nold; j++) if (!strcmp(old[j].name, names[i])) { at = j; same = s && old[j].len == len && !memcmp(old[j].text, s, len); }
        J("%s[\"%s\",", i ? "," : "", names[i]);
        if (!s) J("[-2]"); else if (same) J("[-1]"); else j_text(s, len);
        J("]");
        if (at < 0 && nold < MAXF) { at = nold++; snprintf(old[at].name, sizeof old[at].name, "%s", names[i]); old[at].text = NULL; }
        if (at >= 0 && s) { free(old[at].text); old[at].text = s; old[at].len = len; } else free(s);
        free(names[i]);
    }
    J("]");
}
static void put(const char *name, const char *text, long len)
{
    FILE *f = fopen(name, "wb");
    if (!f || (len && fwrite(text, 1, len, f) != (size_t)len)) exit(3);
    fclose(f);
    J("{\"ev\":\"put\",\"name\":\"%s\",\"text\":", name); j_text(text, len); J("}\n");
    int at = -1;
    for (int j = 0; j < nold; j++) if (!strcmp(old[j].name, name)) at = j;
    if (at < 0) { at = nold++; snprintf(old[at].name, sizeof old[at].name, "%s", name); old[at].text = NULL; }
    free(old[at].text); old[at].text = malloc(len + 1); memcpy(old[at].text, text, len); old[at].text[len] = 0; old[at].len = len;
}
/* ---- running the program ---- */
/* what the program has kept when it ends: blocks not released, files not closed */
static int pending; static long kept; static int kept_open;
static void gone(void) { if (pending) J("{\"ev\":\"gone\",\"live\":%ld,\"open\":%d}\n", kept, kept_open); pending = 0; }
static void ended(void)
{
    FILE *f = fopen(".live", "r");
    if (!f) return; /* it was killed */
    pending = fscanf(f, "%ld %d", &kept, &kept_open) == 2;
    fclose(f); unlink(".live");
}
static int run_cmd(char **argv)
{
    char so[] = ".stdout";
    gone();
    ncmd++;
    fflush(vh_out);
    pid_t p = fork();
    if (p == 0)
    {
        int in = open("/dev/null", O_RDONLY), ou = open(so, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(in, 0); dup2(ou, 1); dup2(ou, 2);
        signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGALRM, SIG_DFL);
        alarm(30);
        execv(prog, argv);
        _exit(97);
    }
    int st = 0;
    waitpid(p, &st, 0);
    free(lastout); long n = 0; lastout = slurp(so, &n); lastlen = n;
    unlink(so); ended();
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
/* ---- texts ---- */
static char tx[400000]; static long tl;
static void T(const char *f, ...) { va_list a; va_start(a, f); tl += vsnprintf(tx + tl, sizeof tx - tl, f, a); va_end(a); }
static void blank(void) { int k = vh_chance(85) ? 1 : vh_between(1, 4); while (k-- > 0) T("%c", " \t "[vh_rnd(3)]); }
static void text_adj(pg *g, int zero, int directed)
{
    T("N=%s%d\n", vh_chance(10) ? " " : "", g->n);
    for (int v = 1; v <= g->n; v++)
    {
        T("%d:", v - zero);
        for (int i = 0; i < g->m; i++)
        {
            int w = g->u[i] == v ? g->v[i] : g->v[i] == v ? g->u[i] : 0;
            if (!w || (directed && w == g->u[i] && vh_chance(directed))) continue;
            blank(); T("%d", w - zero);
        }
        T(" %d%s", zero ? -1 : 0, vh_chance(5) ? " \n" : "\n");
    }
}
static int has(pg *g, int a, int b) { for (int i = 0; i < g->m; i++) if ((g->u[i] == a && g->v[i] == b) || (g->u[i] == b && g->v[i] == a)) return 1; return 0; }
static void text_mat(pg *g)
{
    int tight = vh_chance(30);
    T("%d\n", g->n);
    for (int u = 1; u <= g->n; u++)
    {
        if (!tight) for (int i = 0; i < u; i++) T(" ");
        for (int v = u + 1; v <= g->n; v++) T("%d", has(g, u, v));
        T("\n");
    }
}
static void line_g6(pg *g)
{
    if (g->n < 63) T("%c", 63 + g->n); else T("~%c%c%c", 63 + (g->n >> 12), 63 + ((g->n >> 6) & 63), 63 + (g->n & 63));
    int acc = 0, k = 0;
    for (int v = 2; v <= g->n; v++)
        for (int u = 1; u < v; u++) { acc = acc * 2 + has(g, u, v); if (++k == 6) { T("%c", 63 + acc); acc = k = 0; } }
    if (k) T("%c", 63 + (acc << (6 - k)));
}
static void text_leda(pg *g)
{
    T("LEDA.GRAPH\nstring\n%s\n%d\n", vh_chance(50) ? "int" : "void", g->n);
    for (int v = 1; v <= g->n; v++) T("|{%d}|\n", v);
    T("%d\n", g->m);
    for (int i = 0; i < g->m; i++) { int f = vh_chance(50); T("%d %d 0 |{1}|\n", f ? g->u[i] : g->v[i], f ? g->v[i] : g->u[i]); }
}
static void spoil(void)
{
    if (tl == 0) return;
    long p = vh_rnd((int)tl);
    switch (vh_rnd(5))
    {
    case 0: tl = p; break;
    case 1: memmove(tx + p, tx + p + 1, tl - p - 1); tl--; break;
    case 2: tx[p] = "0123456789 :\n-?@_~x"[vh_rnd(19)]; break;
    case 3: memmove(tx + p + 1, tx + p, tl - p); tx[p] = "0123456789 :\n-?@_~x"[vh_rnd(19)]; tl++; break;
    case 4: tx[0] = "xN1>L\n0"[vh_rnd(7)]; break;
    }
}
static void text_any(pg *g, int bad)
{
    tl = 0;
    switch (vh_rnd(5))
    {
    case 0: text_adj(g, 0, vh_chance(7) ? 30 : 0); break;
    case 1: text_adj(g, 1, vh_chance(7) ? 30 : 0); break;
    case 2: text_mat(g); break;
    case 3: if (vh_chance(50)) T(">>graph6<<"); line_g6(g); if (vh_chance(80)) T("\n"); break;
    case 4: text_leda(g); break;
    }
    if (vh_chance(bad)) spoil();
}
/* ---- proofs about the graph in file `name` (or given) ---- */
static void j_proof_of(pg *g, char alg)
{
    graphP G = vh_build(g, 0);
    vh_attach(G, alg);
    int ret = gp_Embed(G, vh_flags(alg));
    if (ret == NONEMBEDDABLE)
    {
        if (alg == 'd') { gp_Free(&G); G = vh_build(g, 0); gp_Embed(G, EMBEDFLAGS_PLANAR); }
        gp_SortVertices(G);
        J("{\"k\":\"sub\",\"d\":[");
        int k = 0;
        for (int v = 1; v <= G->N; v++)
            for (int e = gp_GetFirstArc(G, v); gp_IsArc(e) && k < VH_MAXM; e = gp_GetNextArc(G, e))
                if (v < gp_GetNeighbor(G, e)) J("%s[%d,%d]", k++ ? "," : "", v, gp_GetNeighbor(G, e));
        J("]}");
    }
    else if (ret == OK && strchr("pdo", alg)) { gp_SortVertices(G); J("{\"k\":\"rot\","); j_adj("d", G); J("}"); }
    else if (ret == OK && alg == '3')
    {
        if (k33free(g)) { J("{\"k\":\"cert\",\"d\":"); j_nodes(); J("}"); } else { J("{\"k\":\"sub\",\"d\":"); j_shrunk(g); J("}"); }
        cn_free();
    }
    else J("{\"k\":\"none\",\"d\":[]}");
    gp_Free(&G);
    ngraphs++;
}
static int graph_in(const char *name, pg *g)
{
    graphP G = gp_New();
    int ok = gp_Read(G, (char *)name) == OK && G->N <= 60;
    if (ok)
    {
        pg_reset(g, G->N);
        for (int v = 1; v <= G->N; v++)
            for (int e = gp_GetFirstArc(G, v); gp_IsArc(e); e = gp_GetNextArc(G, e)) pg_add(g, v, gp_GetNeighbor(G, e));
    }
    gp_Free(&G);
    return ok;
}
static void j_proof(const char *name, char alg)
{
    static pg h;
    if (strchr("pdo234", alg) && graph_in(name, &h)) j_proof_of(&h, alg);
    else J("{\"k\":\"none\",\"d\":[]}");
}
static pg g;
static void graph(int nmax) { do pg_family(&g, vh_rnd(VH_FAMILIES), vh_between(1, nmax)); while (g.n < 1 || g.n > nmax); pg_finish(&g); }
static const char *NM[] = {"a.txt", "b.txt", "c.txt", "d.txt", "e.g6", "f"};
static const char *name(void) { return NM[vh_rnd(6)]; }
/* an input: mostly a file that is there */
/* where nothing can be written: a folder that is not there, a device that is full */
static const char *nowhere(void) { return vh_chance(50) ? "nodir/x" : "full"; }
static int can(const char *o) { return !strchr(o, '/') && strcmp(o, "full"); }
static const char *input(void) { return nold && vh_chance(92) ? old[vh_rnd(nold)].name : name(); }
static char *argv_[12];
static int args(const char *first, ...)
{
    int k = 0;
    argv_[k++] = "planarity";
    va_list a; va_start(a, first);
    for (const char *s = first; s; s = va_arg(a, const char *)) argv_[k++] = (char *)s;
    va_end(a);
    argv_[k] = NULL;
    return run_cmd(argv_);
}
static void do_x(void)
{
    char f[4] = "-a"; f[1] = vh_chance(96) ? "amg"[vh_rnd(3)] : "zA"[vh_rnd(2)];
    const char *i = input(), *o = vh_chance(95) ? name() : nowhere();
    int rc = vh_chance(50) ? args("-x", "-q", f, i, o, NULL) : args("-x", f, i, o, NULL);
    J("{\"ev\":\"x\",\"fmt\":\"%c\",\"i\":\"%s\",\"o\":\"%s\",\"can\":%d,\"rc\":%d,", f[1], i, o, can(o), rc); j_listing(); J("}\n");
}
static void do_s(char alg)
{
    char f[4] = "-p"; f[1] = alg;
    const char *i = input(), *o = vh_chance(95) ? name() : nowhere(), *o2 = vh_chance(35) ? "-" : vh_chance(50) ? "" : vh_chance(92) ? name() : nowhere();
    if (!strcmp(o, o2)) o2 = "-";
    static char proof[1 << 20]; FILE *keep = vh_out;
    vh_out = fmemopen(proof, sizeof proof, "w"); j_proof(i, alg); fclose(vh_out); vh_out = keep;
    int q = vh_chance(50), rc, c2;
    const char *z = o2[0] == '-' ? NULL : o2;
    rc = q ? args("-s", "-q", f, i, o, z, NULL) : args("-s", f, i, o, z, NULL);
    /* a second name made from the first lies next to it; "full.render.txt" can be written */
    c2 = !strcmp(o2, "-") || (*o2 ? can(o2) : alg == 'd' ? !strchr(o, '/') : can(o));
    J("{\"ev\":\"s\",\"alg\":\"%c\",\"i\":\"%s\",\"o\":\"%s\",\"o2\":\"%s\",\"can\":%d,\"can2\":%d,\"rc\":%d,\"pf\":%s,", alg, i, o, o2, can(o), c2, rc, proof); j_listing(); J("}\n");
}
static void do_legacy(void)
{
    const char *i = input(), *o, *o2;
    do o = vh_chance(93) ? name() : nowhere(), o2 = vh_chance(93) ? name() : nowhere(); while (!strcmp(o, o2));
    int two = vh_chance(60), rc;
    static char proof[1 << 20]; FILE *keep = vh_out;
    vh_out = fmemopen(proof, sizeof proof, "w"); j_proof(i, 'p'); fclose(vh_out); vh_out = keep;
    rc = two ? args(i, o, "-n", o2, NULL) : args(i, o, NULL);
    J("{\"ev\":\"legacy\",\"i\":\"%s\",\"o\":\"%s\",\"o2\":\"%s\",\"can\":%d,\"can2\":%d,\"rc\":%d,\"pf\":%s,", i, o, two ? o2 : "-", can(o), can(o2), rc, proof); j_listing(); J("}\n");
}
static void do_r(void)
{
    char alg = "pppo"[vh_rnd(4)], f[4] = "-p", ks[12], ns[12];
    f[1] = alg;
    int k = vh_between(1, 60), n = vh_between(1, 12), rc, yes = -1, mi[5] = {0};
    sprintf(ks, "%d", k); sprintf(ns, "%d", n);
    rc = args("-r", f, ks, ns, NULL);
    char *p = lastout ? strstr(lastout, "Num Embedded=") : NULL;
    if (p) sscanf(p, "Num Embedded=%d", &yes);
    for (int j = 0; p && j < 5; j++)
    {
        char key[16]; sprintf(key, "Minor %c = ", 'A' + j);
        char *q = strstr(p, key);
        if (q) mi[j] = atoi(q + strlen(key)); else if (alg == 'p' || (j != 2 && j != 3)) yes = -1;
    }
    J("{\"ev\":\"r\",\"k\":%d,\"rc\":%d,\"yes\":%d,\"minors\":[%d,%d,%d,%d,%d]}\n", k, rc, yes, mi[0], mi[1], mi[2], mi[3], mi[4]);
}
static void do_rm(int extra)
{
    char ns[12]; int n = vh_between(extra ? 5 : 3, 14);
    sprintf(ns, "%d", n);
    const char *o, *o2;
    do o = vh_chance(93) ? name() : nowhere(), o2 = vh_chance(93) ? name() : nowhere(); while (!strcmp(o, o2));
    int rc = args(extra ? "-rn" : "-rm", "-q", ns, o, o2, NULL);
    J("{\"ev\":\"%s\",\"n\":%d,\"o\":\"%s\",\"o2\":\"%s\",\"can\":%d,\"rc\":%d,", extra ? "rn" : "rm", n, o, o2, can(o) && can(o2), rc); j_listing(); J("}\n");
}
static void do_usage(void)
{
    int rc;
    const char *v[] = {"-s", "-x", "-t", "-r", "-rm", "-rn"};
    const char *w = v[vh_rnd(6)];
    int help = 0;
    switch (vh_rnd(9))
    {
    /* the algorithm or format is not introduced by a dash, or missing */
    case 7: rc = args("-s", vh_chance(50) ? "p" : vh_chance(50) ? "" : "-", input(), name(), NULL); break;
    case 8: rc = vh_chance(50) ? args("-x", vh_chance(50) ? "a" : vh_chance(50) ? "" : "-", input(), name(), NULL) : args("-t", vh_chance(50) ? "p" : "", input(), name(), NULL); break;
    case 0: rc = args(w, NULL); break;
    case 1: rc = args(w, "-q", NULL); break;
    case 2: w = v[vh_rnd(4)]; rc = args(w, "-p", "a.txt", NULL); break;
    case 3: w = v[vh_rnd(4)]; rc = args(w, "-q", w[1] == 'x' ? "-a" : "-p", "a.txt", NULL); break;
    case 4: rc = args("-zz", "a.txt", "b.txt", NULL); break;
    case 5: help = 1; rc = vh_chance(50) ? args("-h", NULL) : args("-help", "-menu", NULL); break;
    default: help = 1; rc = vh_chance(50) ? args("-i", NULL) : args("-info", NULL); break;
    }
    J("{\"ev\":\"%s\",\"rc\":%d,", help ? "help" : "usage", rc); j_listing(); J("}\n");
}
/* a graph6 file with several graphs */
static pg many[40]; static int nmany;
static void text_many(int nmax, int kmax, int bad)
{
    int n = vh_between(1, nmax), k = vh_chance(4) ? 0 : vh_between(1, kmax);
    nmany = 0; tl = 0;
    if (vh_chance(70)) T(">>graph6<<");
    for (int j = 0; j < k; j++)
    {
        if (vh_chance(bad / 2)) n = vh_between(1, nmax);
        int t = 0;
        do pg_family(&g, vh_rnd(VH_FAMILIES), n); while (g.n > n && t++ < 200);
        if (g.n > n) pg_reset(&g, n);
        g.n = n; pg_finish(&g);
        if (vh_chance(40)) { pg_refresh(&g); pg_add_random(&g, vh_rnd(2 * n)); }
        many[nmany++] = g;
        line_g6(&g);
        if (j + 1 < k || vh_chance(70)) T("%s", vh_chance(5) ? "\r\n" : "\n");
    }
    if (vh_chance(bad)) spoil();
}
static void do_t(char alg, int nmax, int kmax, int bad)
{
    char f[4] = "-p"; f[1] = alg;
    const char *i = name(), *o = vh_chance(96) ? name() : nowhere();
    text_many(nmax, kmax, bad);
    put(i, tx, tl);
    if (strcmp(i, o) == 0) o = "out.txt";
    static char proofs[1 << 22]; FILE *keep = vh_out;
    for (int again = vh_chance(30); again >= 0; again--)
    {
        int fuzz = alg != 'z';
        vh_out = fmemopen(proofs, sizeof proofs, "w");
        J("[");
        for (int j = 0; fuzz && j < nmany; j++) { if (j) J(","); j_proof_of(&many[j], alg); }
        J("]"); fclose(vh_out); vh_out = keep;
        int rc = vh_chance(50) ? args("-t", "-q", f, i, o, NULL) : args("-t", f, i, o, NULL);
        J("{\"ev\":\"t\",\"alg\":\"%c\",\"i\":\"%s\",\"nm\":", alg, i); j_text(i, strlen(i));
        J(",\"o\":\"%s\",\"can\":%d,\"rc\":%d,\"pfs\":%s,", o, can(o), rc, proofs); j_listing(); J("}\n");
        if (again)
        {
            /* the same graphs in another order */
            tl = 0; T(">>graph6<<");
            for (int j = nmany - 1; j > 0; j--) { int r = vh_rnd(j + 1); pg s = many[j]; many[j] = many[r]; many[r] = s; }
            for (int j = 0; j < nmany; j++) { line_g6(&many[j]); T("\n"); }
            put(i, tx, tl);
        }
    }
}
/* ---- a session with the menu: the program reads its answers from a pipe ---- */
#include <poll.h>
static int mto = -1, mfrom = -1; static pid_t mpid;
static char *ms; static size_t mlen, mcap;
static int mode_dirs;
static void m_start(void)
{
    int a[2], b[2];
    fflush(vh_out);
    if (pipe(a) || pipe(b)) exit(3);
    mpid = fork();
    if (mpid == 0)
    {
        dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2);
        close(a[0]); close(a[1]); close(b[0]); close(b[1]);
        signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_DFL);
        alarm(60);
        execl(prog, "planarity", NULL);
        _exit(97);
    }
    close(a[0]); close(b[1]); mto = a[1]; mfrom = b[0];
    mlen = 0;
}
/* reads until the program asks for a choice (1), or ends or falls silent (0) */
static int m_wait(void)
{
    static const char *ask = "Enter Choice: "; size_t al = strlen(ask);
    for (;;)
    {
        if (mlen >= al && !memcmp(ms + mlen - al, ask, al)) return 1;
        struct pollfd p = {mfrom, POLLIN, 0};
        if (poll(&p, 1, 40000) <= 0) return 0;
        if (mlen + 70000 > mcap) ms = realloc(ms, mcap = 2 * mcap + 140000);
        ssize_t k = read(mfrom, ms + mlen, 65536);
        if (k <= 0) { ms[mlen] = 0; return 0; }
        mlen += k; ms[mlen] = 0;
        if (mlen > (size_t)1 << 24) return 0;
    }
}
static void m_send(const char *s) { size_t n = strlen(s); while (n) { ssize_t k = write(mto, s, n); if (k <= 0) break; s += k; n -= k; } }
/* the status of the program once its input has ended; 2000 when it does not end */
static int m_end(void)
{
    int st = 0;
    if (mto >= 0) close(mto);
    mto = -1; mlen = 0;
    for (int t = 0; t < 200000 && mfrom >= 0; )
    {
        struct pollfd p = {mfrom, POLLIN, 0};
        if (poll(&p, 1, 20000) <= 0) break;
        if (70000 > mcap) ms = realloc(ms, mcap = 140000);
        ssize_t k = read(mfrom, ms, 65536);
        if (k <= 0) { close(mfrom); mfrom = -1; waitpid(mpid, &st, 0); ended(); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
        mlen += k;
        if (mlen > (size_t)1 << 24) break;
    }
    kill(mpid, SIGKILL); waitpid(mpid, &st, 0); if (mfrom >= 0) close(mfrom); mfrom = -1;
    return 2000;
}
static int m_has(const char *s) { return ms && strstr(ms, s) != NULL; }
/* sends one command and shows what the program answered; 0 when the program is gone */
static int m_do(const char *tokens)
{
    ncmd++; mlen = 0; if (ms) ms[0] = 0;
    m_send(tokens);
    if (m_wait()) return 1;
    fprintf(stderr, "session lost after \"%s\": %.600s\n", tokens, ms ? ms : "");
    J("{\"ev\":\"lost\",\"rc\":%d}\n", m_end());
    return 0;
}
static int m_status(void)
{
    int yes = m_has("is planar.") || m_has("is outerplanar.") || m_has("has no subgraph"), no = m_has("is not planar.") || m_has("is not outerplanar.") || m_has("has a subgraph");
    if (m_has("AN ERROR HAS BEEN DETECTED") || m_has("Failure occurred") || yes == no) return 255;
    return yes ? 0 : 1;
}
static char mtok[4000];
static char m_case(char c) { return vh_chance(20) && c >= 'a' && c <= 'z' ? c - 32 : c; }
static char m_mode = 'r', m_fl[5] = "nnnn";
static int m_conf(void)
{
    char md = vh_chance(92) ? "rsssmn"[vh_rnd(6)] : "xq7"[vh_rnd(3)];
    int k = sprintf(mtok, "%c\n%c\n", m_case('r'), m_case(md));
    if (md == 'r') { for (int i = 0; i < 4; i++) { m_fl[i] = "yyn"[vh_rnd(3)]; k += sprintf(mtok + k, "%c\n", m_case(m_fl[i])); } }
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"conf\",\"mode\":\"%c\",\"flags\":[\"%c\",\"%c\",\"%c\",\"%c\"],", md, m_fl[0], m_fl[1], m_fl[2], m_fl[3]); j_listing(); J("}\n");
    m_mode = strchr("rsmn", md) ? md : 's';
    return 1;
}
static int m_specific(void)
{
    char alg = "ppdo234"[vh_rnd(7)], word[200], full[220];
    const char *i = input();
    strcpy(word, i);
    int long_ = vh_chance(4);
    if (long_) { int n = vh_between(129, 190); memset(word, 'w', n); strcpy(word + n, ".txt"); }
    else if (vh_chance(40) && strlen(word) > 4 && !strcmp(word + strlen(word) - 4, ".txt")) word[strlen(word) - 4] = 0;
    int dot = strchr(word, '.') != NULL;
    sprintf(full, "%s%s", word, dot ? "" : ".txt");
    static char proof[1 << 20]; FILE *keep = vh_out;
    vh_out = fmemopen(proof, sizeof proof, "w"); j_proof(full, alg); fclose(vh_out); vh_out = keep;
    sprintf(mtok, "%c\n%s\nk\n", m_case(alg), word);
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"ms\",\"alg\":\"%c\",\"word\":\"%s\",\"dot\":%d,\"long\":%d,\"rc\":%d,\"pf\":%s,", alg, word, dot, long_, m_status(), proof); j_listing(); J("}\n");
    return 1;
}
static void j_console(void)
{
    J("\"con\":");
    char *p = ms ? strstr(ms, "Output:\n") : NULL, *e = NULL;
    for (char *q = p; q && (q = strstr(q, "\n\nPress a key then hit ENTER")); q++) e = q;
    if (p && e && e >= p + 8) j_text(p + 8, e - p - 8); else J("[]");
    J(",\"shown\":%d", p && e ? 1 : 0);
}
static int m_x(void)
{
    char f = "amg"[vh_rnd(3)];
    const char *i = input(), *o = vh_chance(40) ? "" : vh_chance(95) ? name() : "nodir/x";
    int k = sprintf(mtok, "%c\n", m_case('x'));
    if (vh_chance(10)) k += sprintf(mtok + k, "stdin\n");
    k += sprintf(mtok + k, "%s\n%s\n", i, o);
    if (vh_chance(10)) k += sprintf(mtok + k, "z\n");
    sprintf(mtok + k, "%c\nk\n", m_case(f));
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"mx\",\"fmt\":\"%c\",\"i\":\"%s\",\"o\":\"%s\",\"can\":%d,\"rc\":%d,", f, i, o, !strchr(o, '/'), m_has("Failed to perform transformation.") ? 255 : 0);
    j_console(); J(","); j_listing(); J("}\n");
    return 1;
}
static int m_t(void)
{
    char alg = "pdo234"[vh_rnd(6)];
    const char *i = vh_chance(95) ? name() : input(), *o = vh_chance(40) ? "" : vh_chance(95) ? name() : "nodir/x";
    if (strcmp(i, o) == 0) o = "out.txt";
    text_many(8, 6, vh_chance(30) ? 25 : 0);
    put(i, tx, tl);
    static char proofs[1 << 22]; FILE *keep = vh_out;
    vh_out = fmemopen(proofs, sizeof proofs, "w"); J("[");
    for (int j = 0; j < nmany; j++) { if (j) J(","); j_proof_of(&many[j], alg); }
    J("]"); fclose(vh_out); vh_out = keep;
    int k = sprintf(mtok, "%c\n%s\n%s\n", m_case('t'), i, o);
    if (vh_chance(10)) k += sprintf(mtok + k, "z\n");
    sprintf(mtok + k, "%c\nk\n", m_case(alg));
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"mt\",\"alg\":\"%c\",\"i\":\"%s\",\"nm\":", alg, i); j_text(i, strlen(i));
    J(",\"o\":\"%s\",\"can\":%d,\"rc\":%d,\"pfs\":%s,", o, !strchr(o, '/'), m_has("test on all graphs in .g6 input file failed.") ? 255 : 0, proofs);
    j_console(); J(","); j_listing(); J("}\n");
    return 1;
}
static int m_after(const char *key, int other) { char *p = ms ? strstr(ms, key) : NULL; return p ? atoi(p + strlen(key)) : other; }
static int m_many(void)
{
    char alg = "ppoodd234"[vh_rnd(9)];
    int k = vh_between(1, vh_chance(70) ? 10 : 40), n = vh_between(1, 10), mi[9] = {0}, yes = -1;
    sprintf(mtok, "%c\n%d\n%d\nk\n", m_case(alg), k, n);
    if (!m_do(mtok)) return 0;
    for (int j = 0; j < 5; j++) { char key[16]; sprintf(key, "Minor %c = ", 'A' + j); mi[j] = m_after(key, alg == 'p' || (alg == 'o' && j != 2 && j != 3) ? -1 : 0); }
    for (int j = 5; j < 9; j++) { char key[16]; sprintf(key, "Minor E%d = ", j - 4); mi[j] = m_after(key, alg == 'p' ? -1 : 0); }
    yes = alg == 'p' || alg == 'o' ? m_after("Num Embedded=", -1) : alg == 'd' ? m_after("Num Graphs Embedded and Drawn=", -1) : m_after("Of the generated graphs, ", -1);
    J("{\"ev\":\"mr\",\"alg\":\"%c\",\"k\":%d,\"n\":%d,\"rc\":%d,\"yes\":%d,\"minors\":[", alg, k, n, m_has("No Errors Found.") ? 0 : 255, yes);
    for (int j = 0; j < 9; j++) J("%s%d", j ? "," : "", mi[j]);
    J("],\"dirs\":%d,\"pfs\":[", mode_dirs);
    for (int j = 0; mode_dirs && m_fl[0] == 'y' && j < k && k <= 10; j++) { char fn[40]; sprintf(fn, "random/%d.txt", j); if (j) J(","); j_proof(fn, alg); }
    J("],"); j_listing(); J("}\n");
    return 1;
}
static int m_one(int extra)
{
    char alg = "ppdo234"[vh_rnd(7)]; int n = vh_between(5, 14), save = vh_chance(60);
    sprintf(mtok, "%c\n%d\n%c\nk\n", m_case(alg), n, m_case(save ? 'y' : 'n'));
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"mm\",\"alg\":\"%c\",\"n\":%d,\"extra\":%d,\"save\":%d,\"rc\":%d,\"edges\":%d,", alg, n, extra, save, m_status(), m_after("Created random graph with ", -1));
    const char *b = extra ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt"; char b2[60]; sprintf(b2, "%s.out.txt", b);
    J("\"nms\":["); j_text(b, strlen(b)); J(","); j_text(b2, strlen(b2)); J("],"); j_listing(); J("}\n");
    return 1;
}
static int m_other(void)
{
    int help = vh_chance(40);
    sprintf(mtok, "%c\nk\n", help ? m_case('h') : "zy159?!"[vh_rnd(7)]);
    if (!m_do(mtok)) return 0;
    J("{\"ev\":\"msame\",\"said\":%d,", help ? m_has("Common usages") : m_has("Invalid menu choice")); j_listing(); J("}\n");
    return 1;
}
/* the input ends in the middle of a command */
static void m_cut(void)
{
    const char *i = nold ? old[vh_rnd(nold)].name : "a.txt";
    const char *m[8]; int k = 0; static char a[4][300];
    m[k++] = ""; m[k++] = "r\n"; m[k++] = "x\n"; m[k++] = "t\n";
    sprintf(a[0], "x\n%s\n", i); m[k++] = a[0];
    sprintf(a[1], "%c\n%s\n%s\n", "xt"[vh_rnd(2)], i, vh_chance(50) ? "" : "f"); m[k++] = a[1];
    if (m_mode == 's') m[k++] = "p\n", m[k++] = "3\n";
    else if (m_mode != 'r') { sprintf(a[2], "p\n%d\n", vh_between(5, 9)); m[k++] = a[2]; }
    m_send(m[vh_rnd(k)]);
    int rc = m_end();
    J("{\"ev\":\"meof\",\"rc\":%d,", rc); j_listing(); J("}\n");
}
static void menu_history(void)
{
    mode_dirs = vh_chance(50);
    if (mode_dirs) { static const char *D[] = {"random", "embedded", "obstructed", "adjlist"}; for (int j = 0; j < 4; j++) if (mkdir(D[j], 0700) && errno != EEXIST) exit(3); }
    for (int k = vh_between(1, 3); k > 0; k--) { graph(10); text_any(&g, 8); put(name(), tx, tl); }
    m_mode = 'r'; strcpy(m_fl, "nnnn");
    m_start();
    J("{\"ev\":\"mstart\"}\n");
    int ok = m_wait();
    if (!ok) { J("{\"ev\":\"lost\",\"rc\":%d}\n", m_end()); return; }
    for (int k = vh_between(2, 8); ok && k > 0; k--)
        switch (vh_rnd(10))
        {
        case 0: case 1: case 2: ok = m_conf(); break;
        case 3: ok = m_x(); break;
        case 4: ok = m_t(); break;
        case 5: ok = m_other(); break;
        default:
            ok = m_mode == 's' ? m_specific() : m_mode == 'r' ? m_many() : m_one(m_mode == 'n');
            break;
        }
    if (!ok) return;
    if (vh_chance(50)) { m_send(vh_chance(80) ? "q\n" : "Q\n"); int rc = m_end(); J("{\"ev\":\"mquit\",\"rc\":%d,", rc); j_listing(); J("}\n"); }
    else m_cut();
}
static void sweep(void)
{
    static const char *D[] = {"random", "embedded", "obstructed", "adjlist", "."};
    for (int j = 0; j < 5; j++)
    {
        DIR *d = opendir(D[j]);
        if (!d) continue;
        for (struct dirent *e; (e = readdir(d)); ) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { char fn[600]; snprintf(fn, sizeof fn, "%s/%s", D[j], e->d_name); unlink(fn); }
        closedir(d);
        if (D[j][0] != '.') rmdir(D[j]);
    }
}
int main(int argc, char **argv)
{
    if (argc < 7) return 2;
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGFPE, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGALRM, vh_abort_note);
    signal(SIGPIPE, SIG_IGN);
    prog = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10); int runs = atoi(argv[4]); char mode = argv[5][0];
    vh_out = fopen(argv[6], "w");
    if (!vh_out) return 2;
    setenv("VH_LIVE", ".live", 1);
    snprintf(dir, sizeof dir, "%s.d", argv[6]);
    if (mkdir(dir, 0700) && errno != EEXIST) return 2;
    if (chdir(dir)) return 2;
    for (int r = 0; r < runs; r++)
    {
        alarm(300);
        vh_seed(seed, r);
        sweep(); forget();
        if (mode != 'i' && symlink("/dev/full", "full")) exit(3);
        J("{\"ev\":\"begin\"}\n");
        switch (mode)
        {
        case 'x':
            for (int k = vh_between(1, 2); k > 0; k--) { graph(vh_chance(10) ? 70 : 12); text_any(&g, 15); put(name(), tx, tl); }
            for (int k = vh_between(2, 6); k > 0; k--) do_x();
            break;
        case 's':
            for (int k = vh_between(1, 3); k > 0; k--) { graph(12); text_any(&g, 8); put(name(), tx, tl); }
            for (int k = vh_between(2, 6); k > 0; k--) do_s(vh_chance(98) ? "pdo234"[vh_rnd(6)] : 'z');
            break;
        case 'i': menu_history(); break;
        case 't': do_t(vh_chance(98) ? "pdo234"[vh_rnd(6)] : 'z', 9, 12, vh_chance(40) ? 25 : 0); break;
        case 'm':
            for (int k = vh_between(1, 3); k > 0; k--) { graph(12); text_any(&g, 8); put(name(), tx, tl); }
            for (int k = vh_between(3, 7); k > 0; k--)
                switch (vh_rnd(8))
                {
                case 0: case 1: do_x(); break;
                case 2: do_s("pdo234"[vh_rnd(6)]); break;
                case 3: do_legacy(); break;
                case 4: do_usage(); break;
                case 5: do_rm(0); break;
                case 6: do_rm(1); break;
                case 7: do_r(); break;
                }
            break;
        }
        gone(); nruns++;
    }
    sweep();
    fclose(vh_out);
    if (chdir("/") == 0) rmdir(dir);
    printf("{\"histories\":%ld,\"commands\":%ld,\"proofs\":%ld}\n", nruns, ncmd, ngraphs);
    return 0;
}
