/* List collections and stacks driven at random, recorded for TraceContainers.
     h_cont rand SEED RUNS OPS OUT */
#include "common.h"
#include "lowLevelUtils/listcoll.h"
#include "lowLevelUtils/stack.h"
#define SL 4
static listCollectionP L[2];
static int head[2][SL], slots, nn, in[2][64];
static stackP S[2];
static int sz[2], cp[2]; /* what the driver knows, so that it does not overrun where the checks are compiled out */
static long nev, nruns;
#ifdef SPEED_MACROS
#define CHECKED 0
#else
#define CHECKED 1
#endif
static void obs_l(void)
{
    J("\"l\":[");
    for (int c = 0; c < 2; c++)
    {
        J("%s[", c ? "," : "");
        for (int k = 0; k < slots; k++)
        {
            int h = head[c][k], n = 0, x;
            J("%s[[", k ? "," : "");
            for (x = h; x != NIL && n < 2 * nn; n++) { J("%s%d", n ? "," : "", x); int y = LCGetNext(L[c], h, x); x = y; }
            J("],["); n = 0;
            if (h != NIL)
                for (x = LCGetPrev(L[c], h, NIL); x != NIL && n < 2 * nn; n++) { J("%s%d", n ? "," : "", x); x = LCGetPrev(L[c], h, x); }
            J("]]");
        }
        J("]");
    }
    J("]}\n"); nev++;
}
static void obs_s(void)
{
    J("\"s\":[");
    for (int s = 0; s < 2; s++)
    {
        int n = sp_GetCurrentSize(S[s]), e1 = sp_IsEmpty(S[s]), e2 = sp_NonEmpty(S[s]);
        J("%s[", s ? "," : "");
        for (int i = 0; i < n && i < 1000; i++) J("%s%d", i ? "," : "", sp_Get(S[s], i));
        if (!!e1 != (n == 0) || !!e2 != (n != 0)) J("%s999999", n ? "," : "");
        J("]");
        sz[s] = n;
    }
    J("]}\n"); nev++;
}
static int push1(stackP s, int a) { sp_Push(s, a); return OK; }
static int push2(stackP s, int a, int b) { sp_Push2(s, a, b); return OK; }
static int pop1(stackP s, int *a) { sp_Pop(s, *a); return OK; }
static int pop2(stackP s, int *a, int *b) { sp_Pop2(s, *a, *b); return OK; }
static int popf(stackP s, int *a) { sp_Pop2_Discard1(s, *a); return OK; }
static int dis1(stackP s) { sp_Pop_Discard(s); return OK; }
static int dis2(stackP s) { sp_Pop2_Discard(s); return OK; }
static int fresh(int c) { int x[64], n = 0; for (int i = 1; i <= nn; i++) if (in[c][i] < 0) x[n++] = i; return n ? x[vh_rnd(n)] : 0; }
static int member(int c, int k) { int x[64], n = 0; for (int i = 1; i <= nn; i++) if (in[c][i] == k) x[n++] = i; return n ? x[vh_rnd(n)] : 0; }
static int value(void) { return vh_chance(80) ? vh_rnd(50) - 5 : (int)(vh_next() >> 34); }
static int lop(void)
{
    int c = vh_rnd(2), k = vh_rnd(slots), x = fresh(c), a = member(c, k), h;
    switch (vh_rnd(vh_chance(90) ? 5 : 7))
    {
    case 0: if (!x) return 0; h = LCAppend(L[c], head[c][k], x); head[c][k] = h; in[c][x] = k; J("{\"ev\":\"lapp\",\"c\":%d,\"k\":%d,\"x\":%d,", c + 1, k + 1, x); break;
    case 1: if (!x) return 0; h = LCPrepend(L[c], head[c][k], x); head[c][k] = h; in[c][x] = k; J("{\"ev\":\"lpre\",\"c\":%d,\"k\":%d,\"x\":%d,", c + 1, k + 1, x); break;
    case 2: if (!x || !a) return 0; LCInsertAfter(L[c], a, x); in[c][x] = k; J("{\"ev\":\"laft\",\"c\":%d,\"k\":%d,\"a\":%d,\"x\":%d,", c + 1, k + 1, a, x); break;
    case 3: if (!x || !a) return 0; LCInsertBefore(L[c], a, x); in[c][x] = k; J("{\"ev\":\"lbef\",\"c\":%d,\"k\":%d,\"a\":%d,\"x\":%d,", c + 1, k + 1, a, x); break;
    case 4: if (!a) return 0; h = LCDelete(L[c], head[c][k], a); head[c][k] = h; in[c][a] = -1; J("{\"ev\":\"ldel\",\"c\":%d,\"k\":%d,\"x\":%d,", c + 1, k + 1, a); break;
    case 5: LCReset(L[c]); for (int i = 0; i < 64; i++) in[c][i] = -1; for (int i = 0; i < SL; i++) head[c][i] = NIL; J("{\"ev\":\"lreset\",\"c\":%d,", c + 1); break;
    default: LCCopy(L[1 - c], L[c]); memcpy(in[1 - c], in[c], sizeof in[c]); memcpy(head[1 - c], head[c], sizeof head[c]); J("{\"ev\":\"lcopy\",\"d\":%d,\"c\":%d,", 2 - c, c + 1); break;
    }
    obs_l();
    return 1;
}
static int sop(void)
{
    int s = vh_rnd(2), r, a = 0, b = 0, d = 1 - s, p, x;
    switch (vh_rnd(15))
    {
    case 0: case 1: if (!CHECKED && sz[s] + 1 > cp[s]) return 0; a = value(); r = push1(S[s], a); J("{\"ev\":\"push\",\"k\":%d,\"vs\":[%d],\"ret\":%d,", s + 1, a, r); break;
    case 2: case 3: if (!CHECKED && sz[s] + 2 > cp[s]) return 0; a = value(); b = value(); r = push2(S[s], a, b); J("{\"ev\":\"push\",\"k\":%d,\"vs\":[%d,%d],\"ret\":%d,", s + 1, a, b, r); break;
    case 4: if (!CHECKED && sz[s] < 1) return 0; r = pop1(S[s], &a); J("{\"ev\":\"pop\",\"k\":%d,\"cnt\":1,\"ret\":%d,\"out\":[%d],", s + 1, r, a); break;
    case 5: if (!CHECKED && sz[s] < 2) return 0; r = pop2(S[s], &a, &b); J("{\"ev\":\"pop\",\"k\":%d,\"cnt\":2,\"ret\":%d,\"out\":[%d,%d],", s + 1, r, a, b); break;
    case 6: if (!CHECKED && sz[s] < 2) return 0; r = popf(S[s], &a); J("{\"ev\":\"popfirst\",\"k\":%d,\"ret\":%d,\"a\":%d,", s + 1, r, a); break;
    case 7: x = 1 + vh_rnd(2); if (!CHECKED && sz[s] < x) return 0; r = x == 1 ? dis1(S[s]) : dis2(S[s]); J("{\"ev\":\"discard\",\"k\":%d,\"cnt\":%d,\"ret\":%d,", s + 1, x, r); break;
    case 8: r = sp_Top(S[s]); J("{\"ev\":\"top\",\"k\":%d,\"val\":%d,", s + 1, r); break;
    case 9: p = CHECKED ? vh_between(-1, sz[s] + 1) : vh_rnd(sz[s]); if (!CHECKED && !sz[s]) return 0; r = sp_Get(S[s], p); J("{\"ev\":\"get\",\"k\":%d,\"p\":%d,\"val\":%d,", s + 1, p, r); break;
    case 10: p = CHECKED ? vh_between(-1, sz[s] + 1) : vh_rnd(sz[s]); if (!CHECKED && !sz[s]) return 0; x = value(); r = sp_Set(S[s], p, x); J("{\"ev\":\"set\",\"k\":%d,\"p\":%d,\"x\":%d,\"val\":%d,", s + 1, p, x, r); break;
    case 11:
        if (vh_chance(20)) { sp_ClearStack(S[s]); J("{\"ev\":\"clear\",\"k\":%d,", s + 1); break; }
        p = vh_chance(70) ? vh_rnd(sz[s] + 1) : cp[s] + 1 + vh_rnd(3);
        r = sp_SetCurrentSize(S[s], p); J("{\"ev\":\"cut\",\"k\":%d,\"p\":%d,\"ret\":%d,", s + 1, p, r); break;
    case 12: r = sp_CopyContent(S[d], S[s]); J("{\"ev\":\"copycontent\",\"d\":%d,\"k\":%d,\"ret\":%d,", d + 1, s + 1, r); break;
    case 13: r = sp_Copy(S[d], S[s]); cp[d] = sp_GetCapacity(S[d]); J("{\"ev\":\"scopy\",\"d\":%d,\"k\":%d,\"ret\":%d,\"nc\":%d,", d + 1, s + 1, r, cp[d]); break;
    default:
        sp_Free(&S[d]);
        if (vh_chance(50)) { S[d] = sp_Duplicate(S[s]); cp[d] = sp_GetCapacity(S[d]); J("{\"ev\":\"sdup\",\"d\":%d,\"k\":%d,\"nc\":%d,", d + 1, s + 1, cp[d]); }
        else { cp[d] = vh_rnd(12); S[d] = sp_New(cp[d]); cp[d] = sp_GetCapacity(S[d]); J("{\"ev\":\"snew\",\"d\":%d,\"nc\":%d,", d + 1, cp[d]); }
    }
    obs_s();
    return 1;
}
int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    vh_out = fopen(argv[5], "w");
    signal(SIGSEGV, vh_abort_note); signal(SIGABRT, vh_abort_note); signal(SIGALRM, vh_abort_note); signal(SIGBUS, vh_abort_note); signal(SIGFPE, vh_abort_note);
    long seed = atol(argv[2]), runs = atol(argv[3]); int ops = atoi(argv[4]);
    for (long r = 0; r < runs; r++)
    {
        alarm(20);
        vh_seed(seed, r);
        slots = vh_between(1, SL); nn = vh_between(1, 9);
        for (int c = 0; c < 2; c++)
        {
            L[c] = LCNew(nn + 1); cp[c] = vh_rnd(12); S[c] = sp_New(cp[c]); sz[c] = 0;
            for (int i = 0; i < 64; i++) in[c][i] = -1;
            for (int i = 0; i < SL; i++) head[c][i] = NIL;
        }
        J("{\"ev\":\"begin\",\"slots\":%d,\"caps\":[%d,%d]}\n", slots, cp[0], cp[1]);
        int bias = vh_rnd(3);
        for (int k = 0, t = 0; k < ops && t < 10 * ops; t++) k += (bias == 0 || (bias == 1 && vh_chance(50))) ? lop() : sop();
        for (int c = 0; c < 2; c++) { LCFree(&L[c]); sp_Free(&S[c]); if (L[c] || S[c]) abort(); }
        nruns++;
    }
    fclose(vh_out);
    printf("{\"events\":%ld,\"histories\":%ld}\n", nev, nruns);
    return 0;
}
