/* String-or-file streams and string buffers, recorded for TraceStreams.
     h_stream rand SEED RUNS OPS OUT */
#include "common.h"
#include "io/strOrFile.h"
#include "io/strbuf.h"
static long nev, nruns;
static char tmpn[64], tmpo[64];
static void jstr(const char *k, const char *s, int len)
{
    J("\"%s\":[", k);
    for (int i = 0; i < len; i++) J("%s%d", i ? "," : "", (unsigned char)s[i]);
    J("]");
}
static int rndch(void) { return vh_chance(20) ? '\n' : vh_chance(30) ? (int[]){' ', '\t', '-', '0', '7', '9'}[vh_rnd(6)] : vh_chance(95) ? vh_between(33, 126) : vh_between(128, 254); }
static int rndtext(char *s, int max, int cr)
{
    int n = vh_rnd(max + 1), k = 0;
    while (k < n) { if (cr && k + 1 < n && vh_chance(8)) { s[k++] = '\r'; s[k++] = '\n'; } else s[k++] = (char)rndch(); }
    s[k] = 0;
    return k;
}
static strOrFileP R[2], W[2];
static strBufP B[2];
static int can[2], lastch[2];
static void obs_b(int b)
{
    char *t = sb_GetReadString(B[b]);
    J("\"size\":%d,\"cap\":%d,\"pos\":%d,", sb_GetSize(B[b]), sb_GetCapacity(B[b]), sb_GetReadPos(B[b]));
    jstr("full", sb_GetFullString(B[b]), strlen(sb_GetFullString(B[b]))); J(","); jstr("tail", t, strlen(t)); J("}\n");
    nev++;
}
static void op(void)
{
    static char s[400];
    int r = vh_rnd(2), n, o;
    switch (vh_rnd(14))
    {
    case 0: case 1: case 2:
        o = sf_getc(R[r]); can[r] = o != EOF; lastch[r] = o;
        J("{\"ev\":\"getc\",\"r\":%d,\"out\":%d}\n", r + 1, o); nev++; break;
    case 3:
        if (!can[r]) return;
        n = vh_chance(50) ? (unsigned char)lastch[r] : rndch();
        if (n == '\r') n = 'r';
        if ((unsigned char)lastch[r] == '\r') return; /* lone carriage returns are line ends only for strings */
        o = sf_ungetc((char)n, R[r]); can[r] = 0;
        J("{\"ev\":\"ungetc\",\"r\":%d,\"ch\":%d,\"out\":%d}\n", r + 1, n, o); nev++; break;
    case 4: case 5:
        n = vh_chance(10) ? vh_rnd(2) : vh_chance(50) ? vh_between(2, 6) : vh_between(2, 60);
        { char *dst = malloc(n > 0 ? n : 1); char *g = sf_fgets(dst, n, R[r]);
          can[r] = 0;
          J("{\"ev\":\"fgets\",\"r\":%d,\"cnt\":%d,\"ok\":%s,", r + 1, n, g ? "true" : "false"); jstr("got", g ? g : "", g ? strlen(g) : 0); J("}\n"); nev++; free(dst); }
        break;
    case 6: case 7:
        n = rndtext(s, vh_chance(5) ? 300 : 12, 1);
        o = sf_fputs(s, W[r]);
        J("{\"ev\":\"fputs\",\"w\":%d,\"ret\":%d,", r + 1, o); jstr("s", s, n); J("}\n"); nev++; break;
    case 8: case 9: case 10:
        if (vh_chance(25)) { s[0] = (char)rndch(); s[1] = 0; n = 1; o = sb_ConcatChar(B[r], s[0]); }
        else { n = rndtext(s, vh_chance(5) ? 300 : 12, 0); o = sb_ConcatString(B[r], s); }
        J("{\"ev\":\"bconcat\",\"b\":%d,\"ret\":%d,", r + 1, o); jstr("s", s, n); J(","); obs_b(r); break;
    case 11:
        switch (vh_rnd(4))
        {
        case 0: sb_ClearBuf(B[r]); J("{\"ev\":\"bclear\",\"b\":%d,", r + 1); obs_b(r); break;
        case 1: { char *t = sb_TakeString(B[r]); J("{\"ev\":\"btake\",\"b\":%d,", r + 1); jstr("s", t, strlen(t)); J(","); obs_b(r); free(t); break; }
        case 2: o = sb_Copy(B[r], B[1 - r]); J("{\"ev\":\"bcopy\",\"b\":%d,\"src\":%d,\"ret\":%d,", r + 1, 2 - r, o); obs_b(r); break;
        default: sb_Free(&B[r]); B[r] = sb_Duplicate(B[1 - r]); J("{\"ev\":\"bcopy\",\"b\":%d,\"src\":%d,\"ret\":%d,", r + 1, 2 - r, B[r] != NULL); obs_b(r); break;
        }
        break;
    default:
        switch (vh_rnd(4))
        {
        case 0: sb_ReadSkipWhitespace(B[r]); J("{\"ev\":\"bskipws\",\"b\":%d,", r + 1); obs_b(r); break;
        case 1: sb_ReadSkipInteger(B[r]); J("{\"ev\":\"bskipint\",\"b\":%d,", r + 1); obs_b(r); break;
        case 2: sb_ReadSkipChar(B[r]); J("{\"ev\":\"bskipchar\",\"b\":%d,", r + 1); obs_b(r); break;
        default: n = vh_rnd(sb_GetSize(B[r]) + 1); sb_SetReadPos(B[r], n); J("{\"ev\":\"bsetpos\",\"b\":%d,", r + 1); obs_b(r); break;
        }
    }
}
int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    vh_out = fopen(argv[5], "w");
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    long seed = atol(argv[2]), runs = atol(argv[3]); int ops = atoi(argv[4]);
    static char in[600], out[100000];
    snprintf(tmpn, sizeof tmpn, "%s.in", "/tmp/vh_stream"); snprintf(tmpn, sizeof tmpn, "/tmp/vh_stream.%d.in", (int)getpid()); snprintf(tmpo, sizeof tmpo, "/tmp/vh_stream.%d.out", (int)getpid());
    for (long r = 0; r < runs; r++)
    {
        alarm(20);
        vh_fds(1);
        vh_seed(seed, r);
        int n = rndtext(in, vh_chance(20) ? 300 : 40, 1);
        FILE *f = fopen(tmpn, "wb"); fwrite(in, 1, n, f); fclose(f);
        R[0] = sf_New(NULL, strdup(in)); R[1] = sf_New(fopen(tmpn, "r"), NULL);
        W[0] = sf_New(NULL, strdup("")); W[1] = sf_New(fopen(tmpo, "w"), NULL);
        B[0] = sb_New(vh_rnd(10)); B[1] = sb_New(0);
        can[0] = can[1] = 0;
        J("{\"ev\":\"begin\","); jstr("in", in, n); J("}\n");
        if (vh_chance(5))
        {
            strOrFileP x = sf_New(stdin, in), y = sf_New(NULL, NULL), z = sf_New(stdin, NULL), z2 = sf_New(stdout, NULL);
            char q[4];
            sf_closeFile(z); sf_Free(&z); sf_Free(&z2);
            J("{\"ev\":\"misuse\",\"std\":%d,\"both\":%d,\"none\":%d,\"nullgets\":%d,\"nullputs\":%d,\"startunget\":%d}\n", z == NULL && z2 == NULL && fcntl(0, F_GETFD) != -1 && fcntl(1, F_GETFD) != -1, x != NULL, y != NULL,
              sf_fgets(NULL, 3, R[0]) != NULL || sf_fgets(q, 3, NULL) != NULL || sf_fgets(q, -1, R[0]) != NULL,
              sf_fputs(NULL, W[0]) == EOF && sf_fputs("a", NULL) == EOF ? -1 : 0, sf_ungetc('a', R[0]));
        }
        for (int k = vh_between(ops / 2, ops); k > 0; k--) op();
        /* what is left is read to the end */
        for (int q = 0; q < 2; q++)
            for (;;) { int o = sf_getc(R[q]); J("{\"ev\":\"getc\",\"r\":%d,\"out\":%d}\n", q + 1, o); nev++; if (o == EOF) break; }
        char *t = sf_takeTheStr(W[0]);
        J("{\"ev\":\"final\",\"w\":1,\"ok\":%s,", t ? "true" : "false"); jstr("s", t ? t : "", t ? strlen(t) : 0); J("}\n");
        free(t);
        int ok = sf_closeFile(W[1]) == OK;
        f = fopen(tmpo, "rb"); n = fread(out, 1, sizeof out - 1, f); fclose(f);
        J("{\"ev\":\"final\",\"w\":2,\"ok\":%s,", ok ? "true" : "false"); jstr("s", out, n); J("}\n");
        for (int q = 0; q < 2; q++) { sf_Free(&R[q]); sf_Free(&W[q]); sb_Free(&B[q]); }
        n = vh_fds(0); if (n) vh_fdclose();
        J("{\"ev\":\"freed\",\"open\":%d,\"null\":%d}\n", n, !R[0] && !R[1] && !W[0] && !W[1] && !B[0] && !B[1]); nev++;
        nruns++;
    }
    remove(tmpn); remove(tmpo);
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld}\n", nev, nruns);
    return 0;
}
