#include "common.hpp"
#include <climits>
extern "C" int gp_RestoreVertex(graphP); extern "C" int gp_LeastAncestor(graphP);
// A graph in some state of its life. `usable`: can still be rebuilt and processed afterwards
struct Sub { graphP g = 0; SG in; string hist; set<int> feats; bool sized = true; };
static bool makeSubject(Ctx &c, Sub &s) {
    Rng &r = c.rng; string nm;
    if (r.chance(1, 10)) { s.g = gp_New(); s.sized = false; s.hist = "unsized:"; if (s.g && r.chance(1, 2)) { int a = r.range(A_D, A_4); attachFor(s.g, a); s.feats.insert(a); } if (s.g && r.chance(1, 3)) gp_EnsureArcCapacity(s.g, 2 * r.range(3, 40)); return s.g; }
    s.in = genAny(r, r.chance(1, 10) ? 50 : 14, &nm); s.in.simplify(); if (s.in.n < 1) return false; s.hist = nm + " " + s.in.str() + ":";
    int m = (int)s.in.e.size(); bool tight = r.chance(1, 2); s.g = newSized(s.in.n, tight ? std::max(1, m) : std::max(m, 3 * s.in.n)); if (!s.g) return false; if (tight) s.hist += " full store";
    bool early = r.chance(1, 2); int nf = r.below(3); auto feats = [&]() { for (int k = 0; k < nf; k++) { int a = r.range(A_D, A_4); attachFor(s.g, a); s.feats.insert(a); s.hist += strf(" +%s", algoName(a)); } };
    if (early) feats(); for (auto &x : s.in.e) if (gp_AddEdge(s.g, x.first, r.below(2), x.second, r.below(2)) != OK) return false; if (!early) feats();
    if (r.chance(1, 6)) s.g->internalFlags |= FLAGS_ZEROBASEDIO;
    auto all = [&]() { vector<int> v; for (auto &l : arcLists(s.g)) v.insert(v.end(), l.begin(), l.end()); return v; };
    switch (r.below(6)) {
    case 0: { auto A = all(); if (!A.empty()) { gp_DeleteEdge(s.g, A[r.below((int)A.size())], 0); s.hist += " deleted one"; } break; }
    case 1: for (int e : all()) if (r.chance(1, 4)) gp_SetDirection(s.g, e, r.chance(1, 2) ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY); s.hist += " directed"; break;
    case 2: if (r.chance(1, 2)) gp_CreateDFSTree(s.g); else gp_LowpointAndLeastAncestor(s.g); s.hist += " dfs"; break;
    case 3: { int v = r.range(1, s.in.n); if (gp_GetVertexDegree(s.g, v) + 8 < sp_GetCapacity(s.g->theStack)) { gp_HideVertex(s.g, v); s.hist += strf(" hide %d", v); } break; }
    case 4: { vector<int> can = {A_P, A_O}; for (int a : s.feats) can.push_back(a); int a = can[r.below((int)can.size())]; int v = gp_Embed(s.g, embedFlagsOf(a)); s.hist += strf(" %s=%d", algoName(a), v); break; }
    default: break;
    }
    return true;
}
struct Req { const char *name; std::function<bool()> refused; };   // true when the request was refused as promised
static void run(Ctx &c) {
    Rng &r = c.rng; Sub s; bool built = makeSubject(c, s); GraphHolder g(s.g); if (!built) return;
    int N = g->N, hi = N + g->NV; bool full = s.sized && g->M >= g->arcCapacity / 2;
    string path = c.scratch + "/g06.txt", before = "N=1\n1: 0\n"; graphP null = NULL; char *out = NULL;
    auto badV = [&]() -> int { static const int fixed[] = {0, -1, INT_MIN, INT_MAX, -2147483647, 1 << 30}; int k = r.below(9); return k < 6 ? fixed[k] : k == 6 ? hi + 1 : k == 7 ? hi + r.range(1, 1000) : -r.range(1, 1000); };
    auto okV = [&]() { return s.sized ? r.range(1, hi) : 1; };
    auto pairV = [&](int &u, int &v) { u = okV(); v = okV(); int k = r.below(3); if (k != 1) u = badV(); if (k != 0) v = badV(); };
    vector<Req> q; int u, v, e = NIL, bm; pairV(u, v); int x1 = r.below(2), x2 = r.below(2), w = badV();
    { vector<int> A; if (s.sized) for (auto &l : arcLists(g)) A.insert(A.end(), l.begin(), l.end()); if (!A.empty()) e = A[r.below((int)A.size())]; }
    int inUse = s.sized ? gp_EdgeInUseIndexBound(g.g) : 2;
    do bm = r.chance(1, 2) ? r.range(-3, 12) : (int)r.next(); while (bm >= 1 && bm <= 4);
    string detail = strf("u=%d v=%d w=%d mode=%d", u, v, w, bm);
    // missing graph
    q.push_back({"null gp_InitGraph", [&] { return gp_InitGraph(null, 5) == NOTOK; }});
    q.push_back({"null gp_ReinitializeGraph", [&] { gp_ReinitializeGraph(null); return true; }});
    q.push_back({"null gp_CopyGraph src", [&] { return gp_CopyGraph(g, null) == NOTOK; }});
    q.push_back({"null gp_CopyGraph dst", [&] { return gp_CopyGraph(null, g) == NOTOK; }});
    q.push_back({"null gp_CopyAdjacencyLists src", [&] { return gp_CopyAdjacencyLists(g, null) == NOTOK; }});
    q.push_back({"null gp_CopyAdjacencyLists dst", [&] { return gp_CopyAdjacencyLists(null, g) == NOTOK; }});
    q.push_back({"null gp_DupGraph", [&] { graphP d = gp_DupGraph(null); bool ok = !d; if (d) gp_Free(&d); return ok; }});
    q.push_back({"null gp_Free", [&] { gp_Free(&null); gp_Free(NULL); return null == NULL; }});
    q.push_back({"null gp_CreateRandomGraph", [&] { return gp_CreateRandomGraph(null) == NOTOK && gp_CreateRandomGraphEx(null, 5) == NOTOK; }});
    q.push_back({"null gp_Read", [&] { writeFile(path, before); bool k = gp_Read(null, (char *)path.c_str()) == NOTOK; return k; }});
    q.push_back({"null name gp_Read", [&] { return gp_Read(g, NULL) == NOTOK; }});
    q.push_back({"absent file gp_Read", [&] { return gp_Read(g, (char *)(c.scratch + "/no/such").c_str()) == NOTOK; }});
    q.push_back({"null gp_ReadFromString", [&] { return gp_ReadFromString(null, vfDup(before)) == NOTOK; }});
    q.push_back({"null text gp_ReadFromString", [&] { return gp_ReadFromString(g, NULL) == NOTOK; }});
    q.push_back({"null gp_Write", [&] { return gp_Write(null, (char *)path.c_str(), WRITE_ADJLIST) == NOTOK; }});
    q.push_back({"null name gp_Write", [&] { return gp_Write(g, NULL, WRITE_ADJLIST) == NOTOK; }});
    q.push_back({"bad dir gp_Write", [&] { return gp_Write(g, (char *)(c.scratch + "/no/such").c_str(), s.sized ? r.range(1, 3) : 1) == NOTOK; }});
    q.push_back({"null gp_WriteToString", [&] { out = NULL; bool k = gp_WriteToString(null, &out, WRITE_ADJLIST) == NOTOK && !out; return k; }});
    q.push_back({"null target gp_WriteToString", [&] { return gp_WriteToString(g, NULL, WRITE_ADJLIST) == NOTOK; }});
    q.push_back({"null queries", [&] { return gp_GetVertexDegree(null, 1) == 0 && gp_GetVertexInDegree(null, 1) == 0 && gp_GetVertexOutDegree(null, 1) == 0 && !gp_IsNeighbor(null, 1, 2) && gp_GetNeighborEdgeRecord(null, 1, 2) == NIL && gp_GetArcCapacity(null) == 0; }});
    q.push_back({"null gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(null, 10) == NOTOK; }});
    q.push_back({"null edges", [&] { return gp_AddEdge(null, 1, 0, 2, 0) == NOTOK && gp_DynamicAddEdge(null, 1, 0, 2, 0) == NOTOK && gp_InsertEdge(null, 1, NIL, 0, 2, NIL, 0) == NOTOK; }});
    q.push_back({"null minors", [&] { return gp_HideVertex(null, 1) == NOTOK && gp_ContractEdge(null, 2) == NOTOK && gp_IdentifyVertices(null, 1, 2, NIL) == NOTOK && gp_RestoreVertices(null) == NOTOK; }});
    q.push_back({"null dfs", [&] { return gp_CreateDFSTree(null) == NOTOK && gp_SortVertices(null) == NOTOK && gp_LowpointAndLeastAncestor(null) == NOTOK && gp_LeastAncestor(null) == NOTOK; }});
    q.push_back({"null gp_Embed", [&] { return gp_Embed(null, embedFlagsOf(r.below(A_COUNT))) == NOTOK; }});
    q.push_back({"null gp_TestEmbedResultIntegrity", [&] { int k = r.below(2) ? OK : NONEMBEDDABLE; return gp_TestEmbedResultIntegrity(null, g, k) == NOTOK && gp_TestEmbedResultIntegrity(g, null, k) == NOTOK; }});
    q.push_back({"null attach", [&] { bool k = true; for (int a = A_D; a <= A_4; a++) k = k && attachFor(null, a) == NOTOK; return k; }});
    // capacity requests that make no sense
    q.push_back({"bad gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(g, -r.below(1000)) == NOTOK && gp_EnsureArcCapacity(g, 2 * r.below(1000) + 1) == NOTOK; }});
    q.push_back({"unknown mode gp_Write", [&] { return gp_Write(g, (char *)path.c_str(), bm) == NOTOK; }});
    q.push_back({"unknown mode gp_WriteToString", [&] { out = NULL; bool k = gp_WriteToString(g, &out, bm) == NOTOK; if (out) vf_free(out); return k; }});
    q.push_back({"bad size gp_InitGraph", [&] { return gp_InitGraph(g, -r.below(100)) == NOTOK; }});
    // a vertex outside the graph (for an unsized graph: any vertex)
    q.push_back({"bad vertex gp_AddEdge", [&] { return gp_AddEdge(g, u, x1, v, x2) == NOTOK; }});
    q.push_back({"bad vertex gp_DynamicAddEdge", [&] { return gp_DynamicAddEdge(g, u, x1, v, x2) == NOTOK; }});
    q.push_back({"bad vertex gp_InsertEdge", [&] { return gp_InsertEdge(g, u, NIL, x1, v, NIL, x2) == NOTOK; }});
    if (s.sized && hi >= 2) q.push_back({"bad place gp_InsertEdge", [&] { int a = r.range(1, hi), b = a % hi + 1, k = r.below(5), be = r.chance(1, 3) ? 1 : r.chance(1, 2) ? -r.range(1, 9) : inUse + r.below(30); return gp_InsertEdge(g, a, k == 0 ? be : NIL, k == 1 ? 2 : k == 2 ? -1 : 0, b, k == 3 ? be : NIL, k == 4 ? r.range(2, 9) : 0) == NOTOK; }});
    q.push_back({"bad vertex gp_HideVertex", [&] { return gp_HideVertex(g, w) == NOTOK; }});
    q.push_back({"bad vertex gp_IdentifyVertices", [&] { return gp_IdentifyVertices(g, u, v, NIL) == NOTOK; }});
    q.push_back({"no edge gp_ContractEdge", [&] { return gp_ContractEdge(g, NIL) == NOTOK; }});
    q.push_back({"bad vertex queries", [&] { return gp_GetVertexDegree(g, w) == 0 && gp_GetVertexInDegree(g, w) == 0 && gp_GetVertexOutDegree(g, w) == 0 && !gp_IsNeighbor(g, u, v) && gp_GetNeighborEdgeRecord(g, u, v) == NIL; }});
    if (s.sized) {
        int M = g->M;
        q.push_back({"second gp_InitGraph", [&] { return gp_InitGraph(g, r.chance(1, 2) ? N : r.range(1, 40)) == NOTOK; }});
        q.push_back({"read into a sized graph", [&] { SG t = genAny(r, 9); t.simplify(); string txt, p = c.scratch + "/g06in.txt"; if (t.n < 2) t = Kn(3); int f = r.below(3); if (f == 0) txt = g6encode(t) + "\n"; else { GraphHolder h(buildGraph(t)); char *o = NULL; if (!h.g || gp_WriteToString(h, &o, f == 1 ? WRITE_ADJLIST : WRITE_ADJMATRIX) != OK || !o) { vf_free(o); return true; } txt = o; vf_free(o); } if (f == 0 && r.chance(3, 4)) { } // any order, its own included
            if (f == 0 && t.n == N) return true; if (r.chance(1, 2)) { writeFile(p, txt); return gp_Read(g, (char *)p.c_str()) == NOTOK; } return gp_ReadFromString(g, vfDup(txt)) == NOTOK; }});
        q.push_back({"copy between different orders", [&] { GraphHolder h(gp_New()); if (!h.g || gp_InitGraph(h, N + r.range(1, 3)) != OK) return true; string st = stateOf(h); bool k = gp_CopyGraph(h, g) == NOTOK && gp_CopyGraph(g, h) == NOTOK && gp_CopyAdjacencyLists(h, g) == NOTOK && gp_CopyAdjacencyLists(g, h) == NOTOK; return k && stateOf(h) == st; }});
        q.push_back({"copy from an unsized graph", [&] { GraphHolder h(gp_New()); return !h.g || (gp_CopyGraph(g, h) == NOTOK && gp_CopyGraph(h, g) == NOTOK); }});
        if (full && N >= 2) { q.push_back({"full store gp_AddEdge", [&, M] { int a = r.range(1, hi), b = a % hi + 1; return gp_AddEdge(g, a, x1, b, x2) != OK && g->M == M; }});
            q.push_back({"full store gp_InsertEdge", [&, M] { int a = r.range(1, hi), b = a % hi + 1; return gp_InsertEdge(g, a, NIL, x1, b, NIL, x2) != OK && g->M == M; }}); }
    } else {
        q.push_back({"unsized gp_Embed", [&] { return gp_Embed(g, embedFlagsOf(r.below(A_COUNT))) == NOTOK; }});
        q.push_back({"unsized dfs", [&] { return gp_CreateDFSTree(g) == NOTOK && gp_SortVertices(g) == NOTOK && gp_LowpointAndLeastAncestor(g) == NOTOK && gp_LeastAncestor(g) == NOTOK; }});
        q.push_back({"unsized gp_DupGraph", [&] { graphP d = gp_DupGraph(g); bool ok = !d; if (d) gp_Free(&d); return ok; }});
        q.push_back({"unsized gp_CopyGraph", [&] { GraphHolder h(gp_New()); return !h.g || (gp_CopyGraph(g, h) == NOTOK && gp_CopyAdjacencyLists(g, h) == NOTOK); }});
        q.push_back({"unsized gp_ReinitializeGraph", [&] { gp_ReinitializeGraph(g); return true; }});
    }
    auto snapshot = [&]() -> string { return s.sized ? stateOf(g) : strf("N=%d M=%d cap=%d flags=%d feats=%d%d%d%d", g->N, g->M, g->arcCapacity, g->internalFlags, hasFeature(g, A_D), hasFeature(g, A_23), hasFeature(g, A_33), hasFeature(g, A_4)); };
    // the queries above may grow `hist` only; every request is issued alone, in random order, some twice
    string st = snapshot(); int nq = c.thorough ? 40 : 14;
    writeFile(path, before); string doing; c.note(s.hist + " " + detail);
    for (int k = 0; k < nq; k++) {
        Req &x = q[r.below((int)q.size())]; doing = x.name; c.note(s.hist + " request: " + doing + " " + detail);
        if (!x.refused()) { c.fail("accepted-" + string(doing), doing + " was not refused; " + s.hist + " " + detail); return; }
        c.count("requests_refused"); c.count(strf("kind: %s", s.sized ? "sized" : "unsized").c_str()); c.distinct(mix64(hashStr(doing), hashStr(st)));
        string now = snapshot(); if (now != st) { c.fail("changed-" + string(doing), doing + " changed the graph: " + firstDiff(st, now) + "; " + s.hist + " " + detail); return; }
        if (readFile(path) != before) { c.fail("file-changed-" + string(doing), doing + " changed the output file; " + s.hist + " " + detail); return; }
    }
    c.note(s.hist + " use afterwards " + detail);
    // still fully usable
    if (!s.sized) { s.in = genAny(r, 12); s.in.simplify(); if (s.in.n < 1) return; if (gp_InitGraph(g, s.in.n) != OK) { c.fail("unusable", "gp_InitGraph failed after the refused requests; " + s.hist); return; } }
    else gp_ReinitializeGraph(g);
    for (auto &x : s.in.e) if (gp_AddEdge(g, x.first, r.below(2), x.second, r.below(2)) != OK) { if (!s.sized && g->M >= g->arcCapacity / 2) break; c.fail("unusable", "gp_AddEdge failed after the refused requests; " + s.hist); return; }
    if ((int)s.in.e.size() != g->M) return;
    vector<int> can = {A_P, A_O}; for (int a : s.feats) can.push_back(a); int a = can[r.below((int)can.size())];
    int verdict = gp_Embed(g, embedFlagsOf(a)); if (verdict == OK || (a != A_D && verdict == NONEMBEDDABLE)) gp_SortVertices(g);
    string err = judge(g, s.in, a, verdict, truthOf(s.in, a)); c.count("runs_judged");
    if (!err.empty()) c.fail("unusable", err + "; after refused requests; " + s.hist);
}
const Prop PROP = {"G06", 24000, 240000, 20, "distinct (request, graph state) pairs; after every refused request the visible graph state, features, capacity and the output file are compared with before, then the graph is rebuilt, processed and judged", run};
