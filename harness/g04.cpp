#include "common.hpp"
extern "C" int gp_RestoreVertex(graphP);
static bool reader(int a) { return a == A_D || a == A_33 || a == A_4; }   // features that fix the capacity
struct Src { graphP g = 0; int phase = 0, algo = -1, verdict = -9; set<int> feats; string hist; SG in; bool hidden = false; };
static bool makeSource(Ctx &c, Src &s) {
    Rng &r = c.rng; string nm; s.in = genAny(r, r.chance(1, 12) ? 60 : 18, &nm); s.in.simplify(); if (s.in.n < 1) return false; s.hist = nm + " " + s.in.str() + ":";
    int capE = r.chance(1, 3) ? (int)s.in.e.size() + r.below(3) : r.chance(1, 2) ? 3 * s.in.n + r.below(20) : 0;
    if (capE) s.g = newSized(s.in.n, std::max(1, std::max(capE, (int)s.in.e.size()))); else s.g = newSized(s.in.n, (int)s.in.e.size());
    if (!s.g) { c.fail("build", s.hist); return false; }
    s.phase = r.below(6); int nf = r.below(4); bool early = r.chance(1, 2);
    auto feats = [&]() { for (int k = 0; k < nf; k++) { int a = r.range(A_D, A_4); attachFor(s.g, a); s.feats.insert(a); s.hist += strf(" +%s", algoName(a)); } };
    if (early) feats();
    for (auto &x : s.in.e) if (gp_AddEdge(s.g, x.first, r.below(2), x.second, r.below(2)) != OK) { c.fail("build", s.hist); return false; }
    if (!early) feats();
    if (r.chance(1, 5)) s.g->internalFlags |= FLAGS_ZEROBASEDIO;
    auto all = [&]() { vector<int> v; for (auto &l : arcLists(s.g)) v.insert(v.end(), l.begin(), l.end()); return v; };
    if (s.phase == 1 || r.chance(1, 8)) { int k = r.range(1, 3); while (k--) { auto A = all(); if (A.empty()) break; gp_DeleteEdge(s.g, A[r.below((int)A.size())], 0); } s.hist += " deleted some"; s.in = sgOf(s.g); }
    if (s.phase == 2) { for (int e : all()) if (r.chance(1, 3)) gp_SetDirection(s.g, e, r.chance(1, 2) ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY); s.hist += " directed"; }
    if (s.phase == 3) { if (r.chance(1, 3)) gp_CreateDFSTree(s.g); else if (r.chance(1, 2)) gp_SortVertices(s.g); else gp_LowpointAndLeastAncestor(s.g); s.hist += " dfs"; }
    if (s.phase == 4) { int k = r.range(1, 2); while (k--) { int v = r.range(1, s.in.n); if (gp_GetVertexDegree(s.g, v) + 8 + sp_GetCurrentSize(s.g->theStack) < sp_GetCapacity(s.g->theStack)) { gp_HideVertex(s.g, v); s.hist += strf(" hide %d", v); s.hidden = true; } } }
    if (s.phase == 5) { vector<int> can = {A_P, A_O}; for (int a : s.feats) can.push_back(a); s.algo = can[r.below((int)can.size())]; s.verdict = gp_Embed(s.g, embedFlagsOf(s.algo)); s.hist += strf(" %s=%d", algoName(s.algo), s.verdict); bool undefinedLeft = (s.verdict == OK && (s.algo == A_23 || s.algo == A_33 || s.algo == A_4)) || (s.verdict != OK && s.algo == A_D); if (!undefinedLeft && r.chance(1, 2)) { gp_SortVertices(s.g); s.hist += " unsorted"; } if (undefinedLeft) s.phase = 6; }
    return true;
}
// one operation with a fixed random stream, so that it can be repeated identically on the other graph; returns an outcome text
static string act(graphP &g, Src &s, uint64_t seed, int kind) {
    Rng q(seed); string o = strf("op%d ", kind);
    switch (kind) {
    case 0: for (int k = 0; k < 4; k++) { int u = q.range(1, g->N), v = q.range(1, g->N); if (u == v || gp_IsNeighbor(g, u, v) || gp_IsNeighbor(g, v, u)) continue; o += strf("%d,", gp_AddEdge(g, u, q.below(2), v, q.below(2))); } break;
    case 1: for (int k = 0; k < 2; k++) { vector<int> A; for (auto &l : arcLists(g)) A.insert(A.end(), l.begin(), l.end()); if (A.empty()) break; o += strf("%d,", gp_DeleteEdge(g, A[q.below((int)A.size())], q.below(2))); } break;
    case 2: { vector<int> A; for (auto &l : arcLists(g)) A.insert(A.end(), l.begin(), l.end()); if (!A.empty()) gp_SetDirection(g, A[q.below((int)A.size())], EDGEFLAG_DIRECTION_OUTONLY); break; }
    case 3: while (sp_NonEmpty(g->theStack) && s.hidden && gp_RestoreVertex(g) == OK) o += "restored,"; break;
    case 4: o += strf("%d", gp_SortVertices(g)); break;
    case 5: gp_ReinitializeGraph(g); for (auto &x : s.in.e) gp_AddEdge(g, x.first, 0, x.second, q.below(2)); o += strf("embed %d", gp_Embed(g, EMBEDFLAGS_PLANAR)); break;
    case 6: { gp_ReinitializeGraph(g); for (auto &x : s.in.e) gp_AddEdge(g, x.first, q.below(2), x.second, 0); vector<int> can = {A_P, A_O}; for (int a : s.feats) can.push_back(a); int a = can[q.below((int)can.size())]; int v = gp_Embed(g, embedFlagsOf(a)); o += strf("%s %d", algoName(a), v); break; }
    case 7: { vector<int> f(s.feats.begin(), s.feats.end()); if (f.empty()) break; int a = f[q.below((int)f.size())]; o += strf("detach %s %d", algoName(a), a == A_D ? gp_DetachDrawPlanar(g) : a == A_23 ? gp_DetachK23Search(g) : a == A_33 ? gp_DetachK33Search(g) : gp_DetachK4Search(g)); break; }
    case 8: { int a = q.range(A_D, A_4); o += strf("attach %s %d", algoName(a), attachFor(g, a)); break; }
    case 9: { bool fixed = false; for (int a : s.feats) fixed |= reader(a); if (!fixed) o += strf("grow %d", gp_EnsureArcCapacity(g, 12 * g->N)); break; }
    default: { char *t = 0; int k = gp_WriteToString(g, &t, WRITE_ADJLIST); o += strf("write %d ", k) + (t ? t : ""); vf_free(t); } break;
    }
    return o;
}
static void run(Ctx &c) {
    Rng &r = c.rng; Src s; if (!makeSource(c, s)) { if (s.g) gp_Free(&s.g); return; } GraphHolder src(s.g); c.note(s.hist);
    string st = stateOf(src, false); GraphHolder cp; int how = r.below(8);
    if (how < 4) { cp.g = gp_DupGraph(src); s.hist += " dup"; if (!cp.g) { c.fail("dup-failed", s.hist); return; } }
    else if (how < 7) {
        // the target: fresh or used, with smaller or larger capacity, with or without features of its own
        int dcap = r.chance(1, 2) ? 0 : r.range(1, 8 * s.in.n + 4); bool feats = r.chance(1, 4); if (feats) dcap = std::max(dcap, src->arcCapacity / 2); if (dcap) dcap = std::max(dcap, 3); int pre = r.chance(1, 3) ? 60 : 12;
        cp.g = gp_New(); if (!cp.g || (dcap && gp_EnsureArcCapacity(cp, 2 * dcap) != OK) || gp_InitGraph(cp, s.in.n) != OK) { c.fail("build", "target"); return; }
        if (feats) { if (!dcap && src->arcCapacity > cp->arcCapacity) feats = false; else attachFor(cp, r.range(A_D, A_4)); }
        if (r.chance(1, 2)) { for (int k = 0; k < pre; k++) { int u = r.range(1, s.in.n), v = r.range(1, s.in.n); if (u != v && !gp_IsNeighbor(cp, u, v)) gp_AddEdge(cp, u, 0, v, 0); } for (auto &l : arcLists(cp)) for (int e : l) if (r.chance(1, 3)) gp_SetDirection(cp, e, EDGEFLAG_DIRECTION_INONLY); if (r.chance(1, 3)) gp_CreateDFSTree(cp); if (r.chance(1, 4)) gp_SortVertices(cp); s.hist += " (used target)"; }
        s.hist += strf(" copy into capacity %d features %d", dcap, feats); c.note(s.hist); if (gp_CopyGraph(cp, src) != OK) { c.fail("copy-failed", s.hist); return; }
    } else { // adjacency lists only
        if (s.phase >= 4) return; cp.g = gp_New(); if (!cp.g || gp_InitGraph(cp, s.in.n) != OK) return; if (r.chance(1, 3)) for (int k = 0; k < 6; k++) { int u = r.range(1, s.in.n), v = r.range(1, s.in.n); if (u != v) gp_AddEdge(cp, u, 0, v, 0); }
        s.hist += " copy lists"; if (gp_CopyAdjacencyLists(cp, src) != OK) { c.fail("copylists-failed", s.hist); return; } c.count("list_copies");
        auto A = arcLists(src), B = arcLists(cp); string e = structureError(cp); if (e.empty() && A != B) e = "lists differ"; if (e.empty() && src->M != cp->M) e = "edge count differs"; for (auto &l : A) for (int x : l) if (e.empty() && gp_GetNeighbor(src, x) != gp_GetNeighbor(cp, x)) e = strf("record %d differs", x);
        if (e.empty()) { SG x = sgOf(cp); if (stateOf(src, false) != st) e = "the source changed"; int room = gp_GetArcCapacity(cp) / 2 - cp->M, added = 0; for (int u = 1; u <= s.in.n && e.empty(); u++) for (int v = u + 1; v <= s.in.n && added < 5 && added < room; v++) if (!gp_IsNeighbor(cp, u, v) && !gp_IsNeighbor(cp, v, u)) { if (gp_AddEdge(cp, u, 0, v, 0) != OK) { e = "no edge can be added to the copy"; break; } added++; } if (e.empty()) e = structureError(cp); if (e.empty() && stateOf(src, false) != st) e = "editing the copy changed the source"; }
        if (!e.empty()) c.fail("copylists", e + " | " + s.hist); c.distinct(hashStr(s.hist)); return;
    }
    c.count("copies"); string cs = stateOf(cp, false);
    if (cs != st) { c.fail("copy-differs", firstDiff(st, cs) + " | " + s.hist); return; }
    if (stateOf(src, false) != st) { c.fail("source-changed", "copying changed the source | " + s.hist); return; }
    if (gp_GetArcCapacity(cp) < gp_GetArcCapacity(src)) { c.fail("copy-capacity", s.hist); return; }
    if (s.phase == 6) { s.feats.clear(); }
    // the same operations on either, in an interleaving; the one not operated on must not change
    graphP *G[2] = {&src.g, &cp.g}; int steps = r.range(1, 5); bool eqcap = gp_GetArcCapacity(cp) == gp_GetArcCapacity(src);
    for (int k = 0; k < steps; k++) {
        int kind = s.phase == 6 ? 5 : r.below(11); uint64_t seed = r.next(); int first = r.below(2); string out[2]; if (kind == 4 && s.phase == 4) kind = 3; if (kind <= 3 && kind != 3 && s.phase == 4) kind = 3;
        if (kind == 9 && src->arcCapacity != cp->arcCapacity) continue; if (kind == 0 && !eqcap && src->M + 4 > gp_GetArcCapacity(src) / 2) continue;
        if (s.algo >= 0 && s.phase == 5 && kind <= 2) kind = 10; // edit embeddings only after reinitialising
        s.hist += strf(" op%d", kind); c.note(s.hist);
        for (int i = 0; i < 2; i++) { int w = i ^ first; string other = stateOf(*G[w ^ 1]); out[w] = act(*G[w], s, seed, kind); if (stateOf(*G[w ^ 1]) != other) { c.fail("not-independent", strf("operation %d on the %s changed the %s: ", kind, w ? "copy" : "source", w ? "source" : "copy") + firstDiff(other, stateOf(*G[w ^ 1])) + " | " + s.hist); return; } c.count("independence_checks"); }
        if (kind == 5 || kind == 6) { if (s.phase != 6) s.phase = 5, s.algo = 0; s.hidden = false; }
        bool und = kind == 6 && (out[0].find("search 1") != string::npos || out[0].find("drawing 0") != string::npos || out[0].find("draw 0") != string::npos);
        if (out[0] != out[1]) { c.fail("behaves-differently", firstDiff(out[0], out[1]) + " | " + s.hist); return; }
        string a = stateOf(src, false), b = stateOf(cp, false); c.count("equal_behaviour_checks");
        if (a != b) { c.fail("behaves-differently", firstDiff(a, b) + " | " + s.hist); return; }
        if (und) break; if (kind == 7 || kind == 8) { s.feats.clear(); if (kind == 8) {} }
    }
    // filled up to its capacity, the copy still holds plain edges only
    if (s.phase < 3 && r.chance(1, 3)) { string keep = stateOf(src); set<int> old; for (auto &l : arcLists(cp)) old.insert(l.begin(), l.end()); int want = cp->M, cap = gp_GetArcCapacity(cp) / 2;
        for (int u = 1; u <= s.in.n && want < cap; u++) for (int v = u + 1; v <= s.in.n && want < cap; v++) { if (gp_AddEdge(cp, u, 0, v, 1) != OK) { c.fail("copy-not-fillable", s.hist); return; } want++; }
        string e = structureError(cp); for (auto &l : arcLists(cp)) for (int x : l) if (!old.count(x) && (gp_GetDirection(cp, x) || (!s.phase && gp_GetEdgeType(cp, x)))) e = strf("a new edge (record %d) has direction %d, class %d", x, (int)gp_GetDirection(cp, x), gp_GetEdgeType(cp, x));
        if (e.empty() && stateOf(src) != keep) e = "filling the copy changed the source"; if (!e.empty()) { c.fail("copy-not-clean", e + " | " + s.hist); return; } c.count("copies_filled"); gp_ReinitializeGraph(cp); gp_ReinitializeGraph(src); }
    // free one, the other must work
    int kill = r.below(2); string other = stateOf(*G[kill ^ 1]); gp_Free(G[kill]); if (stateOf(*G[kill ^ 1]) != other) { c.fail("not-independent", "freeing one changed the other | " + s.hist); return; }
    graphP g = *G[kill ^ 1]; s.hist += strf(" freed %s", kill ? "copy" : "source"); c.note(s.hist);
    { vector<int> order = {A_D, A_23, A_33, A_4}; r.shuffle(order); for (int a : order) if (r.chance(1, 2)) { bool had = hasFeature(g, a); if ((a == A_D ? gp_DetachDrawPlanar(g) : a == A_23 ? gp_DetachK23Search(g) : a == A_33 ? gp_DetachK33Search(g) : gp_DetachK4Search(g)) != OK && had) { c.fail("detach-failed", s.hist); return; } } }
    gp_ReinitializeGraph(g); for (auto &x : s.in.e) if (gp_AddEdge(g, x.first, 0, x.second, 0) != OK) { c.fail("survivor-unusable", s.hist); return; }
    int algo = r.below(A_COUNT); if (attachFor(g, algo) != OK) { c.fail("survivor-unusable", s.hist); return; } int v = gp_Embed(g, embedFlagsOf(algo)); bool sr = v == OK && (algo == A_23 || algo == A_33 || algo == A_4); if (!sr) gp_SortVertices(g);
    string e = judge(g, s.in, algo, v, s.in.n <= 12 ? truthOf(s.in, algo) : -1); if (!e.empty()) { c.fail("survivor-wrong", e + " | " + s.hist); return; }
    c.count("survivor_runs"); c.distinct(hashStr(s.hist)); c.sample(s.hist);
}
const Prop PROP = {"G04", 48000, 480000, 20, "distinct (source state, way of copying, later operations); full observable states of source and copy compared at first and after every operation on either", run};
