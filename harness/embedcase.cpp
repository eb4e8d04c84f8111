#include "common.hpp"
#include <unistd.h>
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
extern int DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID;
}
static int *featureID(int a) { return a == A_D ? &DRAWPLANAR_ID : a == A_23 ? &K23SEARCH_ID : a == A_33 ? &K33SEARCH_ID : &K4SEARCH_ID; }
bool hasFeature(graphP g, int a) { return gp_FindExtension(g, *featureID(a), NULL) == TRUE; }
int detachFor(graphP g, int a) { switch (a) { case A_D: return gp_DetachDrawPlanar(g); case A_23: return gp_DetachK23Search(g); case A_33: return gp_DetachK33Search(g); case A_4: return gp_DetachK4Search(g); default: return OK; } }
bool getDrawing(graphP g, Drawing &d, string &why) {
    DrawPlanarContext *x = 0; gp_FindExtension(g, DRAWPLANAR_ID, (void **)&x); if (!x) { why = "no drawing feature"; return false; }
    int n = g->N; d.vpos.assign(n + 1, 0); d.vs = d.ve = d.vpos; d.e.clear();
    for (int v = 1; v <= n; v++) { d.vpos[v] = x->VI[v].pos; d.vs[v] = x->VI[v].start; d.ve[v] = x->VI[v].end; }
    auto L = arcLists(g);
    for (int v = 1; v <= n; v++) for (int e : L[v]) { int w = gp_GetNeighbor(g, e), t = gp_GetTwinArc(g, e); if (v > w) continue;
        if (x->E[e].pos != x->E[t].pos || x->E[e].start != x->E[t].start || x->E[e].end != x->E[t].end) { why = strf("the two records of edge %d-%d disagree", v, w); return false; }
        d.e[Edge(v, w)] = {x->E[e].pos, x->E[e].start, x->E[e].end}; }
    return true;
}
string stateOf(graphP g, bool caps) {
    string s = strf("N=%d NV=%d M=%d flags=%d embed=%d\n", g->N, g->NV, g->M, g->internalFlags, g->embedFlags); if (caps) s += strf("capacity=%d\n", gp_GetArcCapacity(g)); if (g->N <= 0 || !g->V) return s + "unsized\n";
    ll guard = 4LL * gp_EdgeIndexBound(g);
    for (int v = 1; v <= g->N + g->NV; v++) { bool real = v <= g->N; if (!real && !gp_IsArc(gp_GetFirstArc(g, v))) continue;
        s += strf("%d[%d t%d]", v, gp_GetVertexIndex(g, v), gp_GetVertexObstructionType(g, v)); if (real) s += strf("(p%d la%d lo%d)", gp_GetVertexParent(g, v), gp_GetVertexLeastAncestor(g, v), gp_GetVertexLowpoint(g, v)); s += ":";
        for (int e = gp_GetFirstArc(g, v); gp_IsArc(e) && guard-- > 0; e = gp_GetNextArc(g, e)) s += strf(" %d", e); s += strf(" last %d\n", gp_GetLastArc(g, v)); }
    s += "records:"; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g) && e < gp_EdgeIndexBound(g); e++) if (gp_EdgeInUse(g, e)) s += strf(" %d>%d<%d,%d t%d d%d  i%d", e, gp_GetNeighbor(g, e), gp_GetPrevArc(g, e), gp_GetNextArc(g, e), gp_GetEdgeType(g, e), (int)gp_GetDirection(g, e), !!gp_GetEdgeFlagInverted(g, e));
    s += "\nholes:"; { vector<int> h; for (int i = 0; i < sp_GetCurrentSize(g->edgeHoles); i++) h.push_back(sp_Get(g->edgeHoles, i) & ~1); for (int x : h) s += strf(" %d", x); }
    s += "\nstack:"; for (int i = 0; i < sp_GetCurrentSize(g->theStack); i++) s += strf(" %d", sp_Get(g->theStack, i));
    s += "\nfeatures:"; for (int *id : {&DRAWPLANAR_ID, &K23SEARCH_ID, &K33SEARCH_ID, &K4SEARCH_ID}) s += gp_FindExtension(g, *id, NULL) == TRUE ? " 1" : " 0"; s += "\n";
    DrawPlanarContext *x = 0; gp_FindExtension(g, DRAWPLANAR_ID, (void **)&x);
    if (x && x->VI && x->E) { s += "drawing:"; for (int v = 1; v <= g->N; v++) s += strf(" %d,%d,%d", x->VI[v].pos, x->VI[v].start, x->VI[v].end); s += " |"; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g) && e < gp_EdgeIndexBound(g); e++) if (gp_EdgeInUse(g, e)) s += strf(" %d,%d,%d", x->E[e].pos, x->E[e].start, x->E[e].end); s += "\n"; }
    return s;
}
string firstDiff(const string &a, const string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; if (i == a.size() && i == b.size()) return ""; size_t k = i > 80 ? i - 80 : 0; return strf("differs at %zu: '", i) + a.substr(k, 200) + "' / '" + b.substr(k, 200) + "'"; }
string hexOf(const string &s, size_t max) { string o; for (unsigned char c : s.substr(0, max)) { if (c >= 32 && c < 127 && c != '\\') o += (char)c; else if (c == '\n') o += "\\n"; else o += strf("\\x%02x", c); } if (s.size() > max) o += strf("...(%zu bytes)", s.size()); return o; }
string readFile(const string &p, bool *ok) { FILE *f = fopen(p.c_str(), "rb"); if (ok) *ok = f != 0; if (!f) return ""; string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
bool writeFile(const string &p, const string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(d.data(), 1, d.size(), f) == d.size(); return fclose(f) == 0 && ok; }

RunInfo runAlgo(Ctx &c, const SG &in, int algo, int truth, bool wantDrawing) {
    RunInfo r; BuildOpt o; o.linkMode = c.rng.below(3); o.rng = &c.rng; o.ensureAfter = c.rng.chance(1, 4);
    GraphHolder g(buildGraph(in, o));
    if (!g.g) { r.err = "building the graph failed"; return r; }
    if (attachFor(g, algo) != OK) { r.err = "attaching the feature failed"; return r; }
    r.verdict = gp_Embed(g, embedFlagsOf(algo));
    c.count(r.verdict == OK ? "verdict_ok" : r.verdict == NONEMBEDDABLE ? "verdict_nonembeddable" : "verdict_error");
    if (r.verdict == OK || r.verdict == NONEMBEDDABLE) {
        bool searchOk = r.verdict == OK && (algo == A_23 || algo == A_33 || algo == A_4);
        if (!searchOk && gp_SortVertices(g) != OK) { r.err = "restoring the vertex order failed"; return r; }
    }
    r.err = judge(g, in, algo, r.verdict, truth);
    c.count("edges_examined", (ll)in.e.size()); c.maxi("largest_N", in.n); c.maxi("largest_M", (ll)in.e.size());
    if (r.err.empty() && wantDrawing && r.verdict == OK) {
        Drawing d; string why;
        if (!getDrawing(g, d, why)) { r.err = why; return r; }
        r.err = drawingError(in, d); c.count("drawings_checked");
        if (r.err.empty() && in.n * (ll)in.e.size() < 2000000) {
            char *s = 0; int base = c.rng.below(2);
            if (base == 0) g->internalFlags |= FLAGS_ZEROBASEDIO;
            if (gp_DrawPlanar_RenderToString(g, &s) != OK || !s) r.err = "rendering failed";
            else { r.err = renderError(in, d, s, base); c.count("pictures_checked"); if (!r.err.empty()) r.dump = s; vf_free(s); }
        }
        if (r.err.empty() && in.n * (ll)in.e.size() < 2000000 && c.rng.chance(1, 20)) {
            string f = c.scratch + "/pic"; char *s = 0;
            if (gp_DrawPlanar_RenderToFile(g, (char *)f.c_str()) != OK) r.err = "rendering to a file failed";
            else if (gp_DrawPlanar_RenderToString(g, &s) != OK) r.err = "rendering failed";
            else if (readFile(f) != s) r.err = "picture file and picture string differ";
            vf_free(s); unlink(f.c_str());
        }
    }
    return r;
}
