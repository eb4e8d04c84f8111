/* A life of graphs as a list of numbers, run in plain C so that every value can be tracked (MemorySanitizer).
   Numbers that make no valid call in the present situation are skipped. */
#define VF_NO_REDEFINE
#include "vfhook.h"
#include "graphLib.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "io/strbuf.h"
#include "io/strOrFile.h"
#include "lowLevelUtils/listcoll.h"
#include "lowLevelUtils/stack.h"
#include <stdint.h>
#include <unistd.h>
int gp_LowpointAndLeastAncestor(graphP);
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNPOISON(p, n) __msan_unpoison((p), (n))
#define VS_MSAN 1
#endif
#endif
#ifndef UNPOISON
#define UNPOISON(p, n) ((void)0)
#define VS_MSAN 0
#endif
const int *vs_ops; int vs_nops; const char *vs_text[8]; int vs_textLen[8]; int vs_textKind[8]; int vs_textOrder[8], vs_textEdges[8]; int vs_ntexts; char vs_scratch[512];
uint64_t vs_digest; long vs_calls; char vs_error[2000]; int vs_counts[64]; int vs_msan = VS_MSAN; int vs_maxM; char vs_trace[6000]; static int trc;
enum { EMPTY, FRESH, SIZED, DFS, DONE, DRAWN, SPENT };
static struct slot { graphP g; int phase, feats; } S[4];
static int pos;
static int next(int n) { int x = pos < vs_nops ? vs_ops[pos++] : 0; return n > 0 ? (int)((unsigned)x % (unsigned)n) : x; }
static void dig(uint64_t x) { vs_digest = (vs_digest ^ x) * 1099511628211ULL; vs_digest ^= vs_digest >> 29; }
static void digStr(const char *s) { while (*s) dig((unsigned char)*s++); dig(257); }
static void tr(const char *f, int a, int b) { if (trc < (int)sizeof vs_trace - 60) trc += sprintf(vs_trace + trc, f, a, b); }
static void err(const char *s, int a, int b) { if (!vs_error[0]) snprintf(vs_error, sizeof vs_error, s, a, b); }
static void digGraph(graphP g) {
    int v, e; dig(g->N); dig(g->M); dig(g->internalFlags); dig(gp_GetArcCapacity(g)); if (g->N <= 0) return;
    for (v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++) { dig(gp_GetVertexIndex(g, v)); for (e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) { dig(gp_GetNeighbor(g, e)); dig(gp_GetDirection(g, e)); dig(e); if (gp_GetTwinArc(g, e) != (e ^ 1)) err("twin of record %d", e, 0); } dig(~0ULL); }
}
static void freeSlot(int i) { gp_Free(&S[i].g); if (S[i].g) err("gp_Free left the pointer of slot %d", i, 0); S[i].phase = EMPTY; S[i].feats = 0; vs_calls++; }
enum { F_D = 1, F_23 = 2, F_33 = 4, F_4 = 8 };
static int noGrow(int i) { return S[i].feats & (F_D | F_33 | F_4); }
static int attach(int i, int a) { int rc = a == 0 ? gp_AttachDrawPlanar(S[i].g) : a == 1 ? gp_AttachK23Search(S[i].g) : a == 2 ? gp_AttachK33Search(S[i].g) : gp_AttachK4Search(S[i].g); vs_calls++; if (rc != OK) err("attaching %d refused", a, 0); else S[i].feats |= 1 << a; return rc; }
static int arcAt(graphP g, int k) { int v, e, n = 2 * g->M; if (n <= 0) return NIL; k %= n; for (v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); v++) for (e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) if (k-- == 0) return e; return NIL; }
static char *own(int t) { char *p = (char *)vf_malloc(vs_textLen[t] + 1); memcpy(p, vs_text[t], vs_textLen[t]); p[vs_textLen[t]] = 0; return p; }
static int fileSum(const char *p) { FILE *f = fopen(p, "rb"); int c, n = 0; if (!f) { err("no output file", 0, 0); return 0; } while ((c = fgetc(f)) != EOF) { dig(c); n++; } fclose(f); return n; }
static void writeOut(int i, int mode, int how, char *path) {
    graphP g = S[i].g; int rc; tr(" write%d/%d", mode, how); vs_calls++; if (mode == WRITE_DEBUGINFO) how = 0; if (mode == WRITE_ADJMATRIX && g->N > 1500) return;
    if (how) { char *s = NULL; rc = gp_WriteToString(g, &s, mode); if (rc == OK) { digStr(s); vf_free(s); } } else { rc = gp_Write(g, path, mode); if (rc == OK && mode != WRITE_DEBUGINFO) fileSum(path); } /* the debug form shows internal fields without a defined value */
    if (rc != OK) err("writing in mode %d failed (%d)", mode, rc);
}
static int readIn(int i, int t, int how, char *path) { int rc; vs_calls++; tr(" read%d/%d", vs_textKind[t], how); if (how && vs_textKind[t] != 2) rc = gp_ReadFromString(S[i].g, own(t)); else { FILE *f = fopen(path, "wb"); if (!f) return NOTOK; fwrite(vs_text[t], 1, vs_textLen[t], f); fclose(f); rc = gp_Read(S[i].g, path); } if (rc != OK) err("reading text %d failed (%d)", t, rc); return rc; }
static void one(void) {
    static char path[600]; int op = next(34), i = next(4), j = next(4), a = next(0), b = next(0), k, e, rc; graphP g = S[i].g; int ph = S[i].phase; snprintf(path, sizeof path, "%s/m02.txt", vs_scratch); a &= 0x7fffffff; b &= 0x7fffffff;
    vs_counts[op]++;
    switch (op) {
    case 0: if (ph != EMPTY) { freeSlot(i); tr(" free%d", i, 0); } S[i].g = gp_New(); vs_calls++; tr(" new%d", i, 0); if (S[i].g) { S[i].phase = FRESH; S[i].feats = 0; } break;
    case 1: if (ph != EMPTY && b % 4 == 0) { freeSlot(i); tr(" free%d", i, 0); } break;
    case 2: if (ph == FRESH || (ph == SIZED && !noGrow(i))) { if (ph == FRESH && noGrow(i) && 0) break; rc = gp_EnsureArcCapacity(g, 2 * (1 + a % 300)); tr(" ensure%d=%d", i, 2 * (1 + a % 300)); vs_calls++; if (rc != OK) err("gp_EnsureArcCapacity of slot %d refused", i, 0); } break;
    case 3: if (ph == FRESH || ph == SIZED) { tr(" attach%d.%d", i, a % 4); attach(i, a % 4); } break;
    case 4: if (ph != EMPTY && ph != SPENT && S[i].feats) { for (k = 0; k < 4; k++) if (S[i].feats >> ((a + k) % 4) & 1) { int f = (a + k) % 4; tr(" detach%d.%d", i, f); rc = f == 0 ? gp_DetachDrawPlanar(g) : f == 1 ? gp_DetachK23Search(g) : f == 2 ? gp_DetachK33Search(g) : gp_DetachK4Search(g); vs_calls++; S[i].feats &= ~(1 << f); if (rc != OK) err("detaching %d refused", f, 0); if (f == 0 && ph == DRAWN) S[i].phase = DONE; break; } } break;
    case 5: case 6: if (ph == FRESH) { k = b % 40 == 0 ? 1 + a % 400 : 1 + a % 14; tr(" init%d=%d", i, k); vs_calls++; if (gp_InitGraph(g, k) != OK) err("gp_InitGraph(%d) refused", k, 0); else S[i].phase = SIZED; } break;
    case 7: case 8: case 9: case 10: if (ph == SIZED && g->N > 1) { int n = 1 + b % (3 * g->N); tr(" add%d*%d", i, n); for (k = 0; k < n; k++) { int u = 1 + next(g->N), v = 1 + next(g->N), l = next(4), d = next(2); if (u == v || gp_IsNeighbor(g, u, v)) continue; if (d && noGrow(i) && 2 * g->M + 2 > gp_GetArcCapacity(g)) d = 0; vs_calls++; rc = d ? gp_DynamicAddEdge(g, u, l & 1, v, l >> 1) : gp_AddEdge(g, u, l & 1, v, l >> 1); if (rc != OK && !(rc == NONEMBEDDABLE && !d && 2 * g->M + 2 > gp_GetArcCapacity(g))) { err("adding an edge: %d", rc, 0); return; } if (g->M > vs_maxM) vs_maxM = g->M; } digGraph(g); } break;
    case 11: if (ph == SIZED && g->M > 0) { tr(" delete%d*%d", i, 1 + b % 5); for (k = 1 + b % 5; k > 0 && g->M > 0; k--) { gp_DeleteEdge(g, arcAt(g, a += 7), k & 1); vs_calls++; } digGraph(g); } break;
    case 12: if (ph != EMPTY && ph != FRESH && i != j) { if (ph == SPENT) break; if (S[j].phase != EMPTY) freeSlot(j); tr(" dup%d>%d", i, j); S[j].g = gp_DupGraph(g); vs_calls++; if (!S[j].g) { err("gp_DupGraph of slot %d refused", i, 0); break; } S[j].phase = ph; S[j].feats = S[i].feats; digGraph(S[j].g); } break;
    case 13: if (i != j && S[j].phase == SIZED && ph != EMPTY && ph != FRESH && ph != SPENT && g->N == S[j].g->N && (!noGrow(j) || gp_GetArcCapacity(S[j].g) >= gp_GetArcCapacity(g))) { tr(" copy%d>%d", i, j); vs_calls++; if (gp_CopyGraph(S[j].g, g) != OK) { err("gp_CopyGraph refused", 0, 0); S[j].phase = SPENT; break; } S[j].phase = ph; S[j].feats = S[i].feats; digGraph(S[j].g); } break;
    case 14: if (ph == SIZED || ph == DFS || ph == DONE || ph == DRAWN || (ph == SPENT && b % 2)) { tr(" reinit%d", i, 0); gp_ReinitializeGraph(g); vs_calls++; S[i].phase = SIZED; digGraph(g); if (g->M) err("M=%d after gp_ReinitializeGraph", g->M, 0); } break;
    case 15: if (ph == SIZED && g->M > 0) { int h[12], n = 0; tr(" hideedges%d", i, 0); for (k = 1 + b % 12; k > 0 && g->M > 0 && n < 12; k--) { h[n] = arcAt(g, a += 5); gp_HideEdge(g, h[n]); n++; vs_calls++; g = S[i].g; } digGraph(g); while (n-- > 0) { gp_RestoreEdge(g, h[n]); vs_calls++; } digGraph(g); } break;
    case 16: if (ph == SIZED && g->M > 0) { tr(" reduce%d*%d", i, 1 + b % 6); for (k = 1 + b % 6; k > 0 && g->M > 0; k--) { int u, v; e = arcAt(g, a += 11); u = gp_GetNeighbor(g, e); v = 1 + next(g->N); vs_calls++; switch (next(3)) { case 0: rc = gp_HideVertex(g, u); break; case 1: rc = gp_ContractEdge(g, e); break; default: rc = OK; if (u != v && gp_IsArc(gp_GetFirstArc(g, v))) rc = gp_IdentifyVertices(g, v, u, NIL); } if (rc != OK) break; /* no room to remember more */ digGraph(g); } vs_calls++; if (gp_RestoreVertices(g) != OK) err("gp_RestoreVertices refused", 0, 0); digGraph(g); } break;
    case 17: if (ph == SIZED) { tr(" dfs%d", i, 0); vs_calls += 2; if (gp_CreateDFSTree(g) != OK) err("gp_CreateDFSTree refused", 0, 0); S[i].phase = DFS; if (b & 1) { if (gp_SortVertices(g) != OK) err("gp_SortVertices refused", 0, 0); if (b & 2) if (gp_LowpointAndLeastAncestor(g) != OK) err("gp_LowpointAndLeastAncestor refused", 0, 0); if (b & 4) if (gp_SortVertices(g) != OK) err("gp_SortVertices refused", 0, 0); } for (k = 1; k <= g->N; k++) { dig(gp_GetVertexParent(g, k)); if ((b & 3) == 3 && !(b & 4)) { dig(gp_GetVertexLowpoint(g, k)); dig(gp_GetVertexLeastAncestor(g, k)); } } digGraph(g); } break;
    case 18: case 19: case 20: case 21: if (ph == SIZED && g->N >= 1) { static const int fl[6] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_DRAWPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4}; int al = a % 6, search = al >= 3; graphP o = NULL; if (al == 2 && sp_NonEmpty(g->edgeHoles)) al = 0; if (al >= 2 && !(S[i].feats >> (al - 2) & 1) && attach(i, al - 2) != OK) break; if (b & 1) o = gp_DupGraph(g); tr(" embed%d.%d", i, al); vs_calls += 2; rc = gp_Embed(g, fl[al]); dig(rc); if (rc != OK && rc != NONEMBEDDABLE) err("gp_Embed for %d returned %d", al, rc); vs_counts[40 + al]++; if (rc == OK && search) S[i].phase = SPENT; else if (rc == NONEMBEDDABLE && al == 2) S[i].phase = SPENT; else { S[i].phase = al == 2 ? DRAWN : DONE; digGraph(g); if (o && (b & 2)) { vs_calls++; if (gp_TestEmbedResultIntegrity(g, o, rc) != rc) err("result of algorithm %d (%d) not confirmed", al, rc); vs_counts[50]++; } if (b & 4) { vs_calls++; if (gp_SortVertices(g) != OK) err("gp_SortVertices refused", 0, 0); digGraph(g); } } if (o) gp_Free(&o); } break;
    case 22: case 23: if (ph != EMPTY && ph != FRESH && ph != SPENT) writeOut(i, 1 + a % 4, b & 1, path); break;
    case 24: if (ph == DRAWN && (double)g->N * g->M < 4e6) { tr(" render%d/%d", i, b & 1); vs_calls++; if (b & 1) { char *s = NULL; if (gp_DrawPlanar_RenderToString(g, &s) != OK || !s) err("rendering refused", 0, 0); else { digStr(s); vf_free(s); } } else if (gp_DrawPlanar_RenderToFile(g, path) != OK) err("rendering refused", 0, 0); else fileSum(path); vs_counts[51]++; } break;
    case 25: case 26: if (ph == FRESH && vs_ntexts) { int t = a % vs_ntexts; if (noGrow(i) || (S[i].feats & F_D)) { if (gp_EnsureArcCapacity(g, 2 * vs_textEdges[t] + 2) != OK) { err("gp_EnsureArcCapacity refused", 0, 0); break; } } if ((S[i].feats & F_D) && (vs_textKind[t] == 0 || vs_textKind[t] == 1) && b % 3) { } if (readIn(i, t, b & 1, path) == OK) { S[i].phase = vs_textKind[t] == 4 && (S[i].feats & F_D) ? DRAWN : SIZED; if (g->N != vs_textOrder[t] || g->M != vs_textEdges[t]) err("read %d edges instead of %d", g->M, vs_textEdges[t]); digGraph(g); vs_counts[52]++; } else S[i].phase = SPENT; } break;
    case 27: if (ph == SIZED || ph == DONE || ph == DRAWN) { G6WriteIterator *w = NULL; char *s = NULL; int str = b & 1, n = 1 + a % 4; tr(" g6write%d*%d", i, n); vs_calls += 4 + n; if (allocateG6WriteIterator(&w, g) != OK || (str ? beginG6WriteIterationToG6String(w, &s) : beginG6WriteIterationToG6FilePath(w, path)) != OK) err("beginning a stream refused", 0, 0); else { for (k = 0; k < n; k++) if (writeGraphUsingG6WriteIterator(w) != OK) err("writing a graph refused", 0, 0); if (!(b & 8) && endG6WriteIteration(w) != OK) err("ending a stream refused", 0, 0); } if (freeG6WriteIterator(&w) != OK || w) err("freeing a write iterator", 0, 0); if (!str) fileSum(path); else if (s) digStr(s); if (s) vf_free(s); vs_counts[53]++; } break;
    case 28: if ((ph == FRESH || ph == SIZED) && vs_ntexts) { int t, n = 0; G6ReadIterator *r = NULL; for (t = 0; t < vs_ntexts && vs_textKind[t] != 3; t++) ; if (t == vs_ntexts || (ph == SIZED && g->N != vs_textOrder[t])) break; if (noGrow(i) && gp_GetArcCapacity(g) < vs_textOrder[t] * (vs_textOrder[t] - 1)) { if (ph != FRESH) break; gp_EnsureArcCapacity(g, 2 + vs_textOrder[t] * (vs_textOrder[t] - 1)); } tr(" g6read%d stop%d", i, b % 5); vs_calls += 4;
        if (allocateG6ReadIterator(&r, g) != OK) { err("read iterator refused", 0, 0); break; } if (b & 1) rc = beginG6ReadIterationFromG6String(r, own(t)); else { FILE *f = fopen(path, "wb"); fwrite(vs_text[t], 1, vs_textLen[t], f); fclose(f); rc = beginG6ReadIterationFromG6FilePath(r, path); } if (rc != OK) { err("beginning to read a stream refused", 0, 0); freeG6ReadIterator(&r); S[i].phase = SPENT; break; }
        S[i].phase = SIZED; for (;;) { graphP q = NULL; int m; rc = readGraphUsingG6ReadIterator(r); vs_calls++; if (rc != OK) { err("reading a graph of a stream refused after %d", n, 0); break; } getPointerToGraphReadIn(r, &q); if (!q) break; if (q != g) err("another graph pointer", 0, 0); n++; getNumGraphsRead(r, &m); if (m != n) err("graph %d counted as %d", n, m); digGraph(g); if (n > b % 5 && (b & 64)) break; } if ((b & 8) == 0 && endG6ReadIteration(r) != OK) err("ending a read stream refused", 0, 0); if (freeG6ReadIterator(&r) != OK || r) err("freeing a read iterator", 0, 0); vs_counts[54]++; } break;
    case 29: if (ph == SIZED && g->M == 0 && sp_IsEmpty(g->edgeHoles)) { int most = g->N * (g->N - 1) / 2, m = g->N - 1 + (most - g->N + 1 > 0 ? b % (most - g->N + 2) : 0); if (g->N > 60) m = 3 * g->N - 6; if (2 * m > gp_GetArcCapacity(g)) break; if (g->N < 3) break; tr(" random%d.%d", i, a & 1); srand((unsigned)a); vs_calls++; rc = a & 1 ? gp_CreateRandomGraphEx(g, m) : gp_GetArcCapacity(g) < 6 * g->N ? OK : gp_CreateRandomGraph(g); if (rc != OK) err("random graph refused (%d)", rc, 0); digGraph(g); vs_counts[55]++; } break;
    case 30: if (ph == SIZED || ph == DONE || ph == DRAWN || ph == DFS) { for (k = 0; k < 6; k++) { int u = 1 + next(g->N), v = 1 + next(g->N); dig(gp_GetVertexDegree(g, u)); dig(gp_GetVertexInDegree(g, u)); dig(gp_GetVertexOutDegree(g, v)); dig(gp_IsNeighbor(g, u, v)); dig(gp_GetNeighborEdgeRecord(g, u, v)); vs_calls += 5; } } break;
    case 31: if (ph == DRAWN && i != j) { char *t = NULL; int m = g->M; if (g->N > 300) break; if (S[j].phase != EMPTY) freeSlot(j); tr(" reread%d>%d", i, j); vs_calls += 5; if (gp_WriteToString(g, &t, WRITE_ADJLIST) != OK || !t) { err("writing a drawing refused", 0, 0); break; } S[j].g = gp_New(); S[j].phase = FRESH; S[j].feats = 0; g = S[j].g; if (gp_EnsureArcCapacity(g, 2 * m + 2) != OK || attach(j, 0) != OK) { vf_free(t); break; }
        if (b & 1) { FILE *f = fopen(path, "wb"); fputs(t, f); fclose(f); rc = gp_Read(g, path); vf_free(t); } else rc = gp_ReadFromString(g, t); if (rc != OK) { err("reading a drawing refused", 0, 0); S[j].phase = SPENT; break; } S[j].phase = DRAWN; digGraph(g); vs_counts[56]++; } break;
    default: { stackP s = sp_New(1 + a % 9), t; strBufP x = sb_New(b % 20), y; vs_calls += 8; if (!s || !x) break; for (k = a % 9; k > 0; k--) { sp_Push(s, k); } t = sp_Duplicate(s); if (t) { stackP u = sp_New(2); dig(sp_GetCurrentSize(t)); if (u) { if (sp_Copy(u, t) == OK) while (sp_NonEmpty(u)) { sp_Pop(u, k); dig(k); } sp_Free(&u); } sp_Free(&t); } sp_Free(&s); for (k = b % 50; k > 0; k--) { if (k & 1) sb_ConcatString(x, "ab"); else sb_ConcatChar(x, 'c'); } y = sb_Duplicate(x); if (y) { if (sb_GetSize(y)) digStr(sb_GetFullString(y)); if (b & 1) { char *z = sb_TakeString(y); if (z) { digStr(z); vf_free(z); } } sb_Free(&y); } sb_Free(&x); } }
}
void vs_run(void) {
    int i; UNPOISON(&vs_ops, sizeof vs_ops); vs_digest = 1469598103934665603ULL; vs_calls = 0; vs_error[0] = 0; pos = 0; trc = 0; vs_trace[0] = 0; memset(vs_counts, 0, sizeof vs_counts); vs_maxM = 0;
    UNPOISON(vs_ops, vs_nops * sizeof(int)); for (i = 0; i < vs_ntexts; i++) UNPOISON(vs_text[i], vs_textLen[i] + 1); UNPOISON(vs_scratch, sizeof vs_scratch);
    for (i = 0; i < 4; i++) { S[i].g = NULL; S[i].phase = EMPTY; }
    while (pos < vs_nops && !vs_error[0]) one();
    for (i = 0; i < 4; i++) if (S[i].g) freeSlot(i);
    if (vs_digest == 12345) vs_calls++;   /* a decision on everything observed */
}
