#include "common.hpp"
// Both generators, on every small order and many larger ones, over many seeds of the C random source.
static void run(Ctx &c) {
    Rng &r = c.rng; int n; bool sized = c.idx % 3 != 0;
    if (c.idx % 500 == 7) n = r.chance(1, 2) ? r.range(46339, 46345) : r.range(59000, 70000);    // where products of the order pass the int range
    else n = r.chance(1, 3) ? r.range(1, 7) : r.chance(1, 12) ? r.range(60, 400) : r.range(2, 40);
    bool big = n > 1000; ll all = (ll)n * (n - 1) / 2; int tri = n >= 3 ? 3 * n - 6 : n - 1;
    int capE = 3 * n; string hist = strf("n=%d", n); GraphHolder g(gp_New()); if (!g.g) { c.fail("new", "gp_New failed"); return; }
    auto capTo = [&](int e) { if (gp_EnsureArcCapacity(g, 2 * e) != OK) return false; capE = std::max(capE, e); return true; };
    int mode = big ? 0 : r.below(5); int before = r.chance(1, 2);
    if (mode == 1 && all > 0) { // a store smaller than the default
        capE = (int)std::min<ll>(all, r.range(std::max(1, n - 1), 3 * n)); if (before) { int want = capE; if (gp_EnsureArcCapacity(g, 2 * want) != OK) { c.fail("capacity", "gp_EnsureArcCapacity failed"); return; } capE = want; } else capE = 3 * n;
    }
    if (mode == 2 && before && all > 0) { capE = (int)std::min<ll>(all, 200000); if (gp_EnsureArcCapacity(g, 2 * capE) != OK) { c.fail("capacity", "gp_EnsureArcCapacity failed"); return; } }
    if (gp_InitGraph(g, n) != OK) { c.fail("init", "gp_InitGraph failed: " + hist); return; }
    if (mode == 2 && !before && all > 0 && !capTo((int)std::min<ll>(all, 200000))) { c.fail("capacity", "gp_EnsureArcCapacity failed"); return; }
    capE = gp_GetArcCapacity(g.g) / 2; hist += strf(" capacity=%d", capE);
    set<int> feats; for (int k = r.below(3); k > 0 && !big; k--) { int a = r.range(A_D, A_4); if (attachFor(g, a) != OK) { c.fail("attach", "attaching a feature failed"); return; } feats.insert(a); hist += strf(" +%s", algoName(a)); }
    if (!big && r.chance(1, 4)) { for (int v = 2; v <= n; v++) if (gp_GetArcCapacity(g.g) / 2 > g->M) gp_AddEdge(g, v - 1, 0, v, 1); if (feats.empty() || r.chance(1, 2)) gp_CreateDFSTree(g); gp_ReinitializeGraph(g); hist += " reused"; }
    string fresh = big ? "" : stateOf(g, false);
    unsigned seed = (unsigned)r.next(); srand(seed); int want = 0;
    if (sized) {
        ll cap = std::min<ll>(all, capE); int k = r.below(6);
        want = (int)(k == 0 ? std::min<ll>(tri, cap) : k == 1 ? cap : k == 2 ? std::min<ll>(cap, tri + r.range(0, 6)) : k == 3 ? std::min<ll>(cap, r.range(std::max(0, n - 3), n + 2)) : k == 4 ? cap + r.range(0, 5) : r.range(0, (int)std::min<ll>(cap, 4 * n)));
        if (cap > 20000 && want > tri + 100) want = tri + r.range(0, 100);
        hist += strf(" gp_CreateRandomGraphEx(%d)", want);
    } else hist += " gp_CreateRandomGraph";
    hist += strf(" seed=%u", seed); c.note(hist);
    int rc = sized ? gp_CreateRandomGraphEx(g, want) : gp_CreateRandomGraph(g);
    int expect = !sized ? -1 : (int)std::min<ll>(std::min<ll>(want, capE), all); if (sized && expect < n - 1) expect = n - 1;   // always a spanning tree
    if (capE < n - 1) { if (rc == OK) c.fail("accepted", "a graph without room for a spanning tree was filled: " + hist); return; }
    if (rc != OK) { c.fail("refused", strf("returned %d: ", rc) + hist); return; }
    if (g->N != n || g->M < n - 1 || g->M > capE || g->M > all) { c.fail("edge-count", strf("N=%d M=%d: ", g->N, g->M) + hist); return; }
    if (sized && g->M != expect) { c.fail("edge-count", strf("M=%d, expected %d: ", g->M, expect) + hist); return; }
    string w = structureError(g); if (!w.empty()) { c.fail("structure", w + ": " + hist); return; }
    SG s = sgOf(g); SG t = s; t.simplify(); if (t.e.size() != s.e.size()) { c.fail("not-simple", "loops or parallel edges: " + hist); return; }
    auto comp = componentsOf(s); for (int v = 1; v <= n; v++) if (comp[v] != comp[1]) { c.fail("not-connected", hist); return; }
    c.count("graphs_checked"); c.distinct(mix64(s.hash(), (uint64_t)sized)); c.maxi("largest_order", n); c.maxi("largest_size", g->M); c.sample(hist + strf(" -> M=%d", g->M));
    if (g->M == (int)all && n > 2) c.count("complete_graphs"); if (sized && n >= 3 && g->M == tri) c.count("triangulations");
    // planar as long as it may be; beyond that it contains a triangulation
    bool planar = sized && g->M <= tri; int verdict;
    if (planar || n <= 60) { if (!big && planar && !oraclePlanar(s)) { c.fail("not-planar", hist + " " + s.str()); return; }
        if (!big && n >= 3 && planar) c.count("planar_confirmed"); }
    if (sized && !big && n >= 3 && g->M > tri) { SG t3(n); for (int e = gp_GetFirstEdge(g.g); e < 2 + 2 * tri; e += 2) t3.add(gp_GetNeighbor(g, e), gp_GetNeighbor(g, e + 1)); if (!oraclePlanar(t3)) { c.fail("no-triangulation-first", "the first 3n-6 edges do not form a planar graph: " + hist + " " + s.str()); return; } c.count("triangulation_first_confirmed"); }
    // it is a graph like any other one: edited, with the same result as one built by hand
    if (!big) { if (r.chance(1, 2)) { // flags and numbering are those of a graph built edge by edge
            GraphHolder h(gp_DupGraph(g)); if (!h.g) { c.fail("dup", "gp_DupGraph failed: " + hist); return; } gp_ReinitializeGraph(h); string a = stateOf(h, false); if (a != fresh) { c.fail("leftover", "after clearing the graph: " + firstDiff(fresh, a) + " " + hist); return; } }
        for (auto &l : arcLists(g)) for (int e : l) if (gp_GetEdgeType(g.g, e) || gp_GetEdgeVisited(g.g, e)) { c.fail("edge-marks", strf("edge record %d keeps a mark: ", e) + hist); return; }
        vector<int> can = {A_P, A_O}; for (int a : feats) can.push_back(a); int a = can[r.below((int)can.size())];
        verdict = gp_Embed(g, embedFlagsOf(a)); if (verdict == OK || (a != A_D && verdict == NONEMBEDDABLE)) gp_SortVertices(g);
        string err = judge(g, s, a, verdict, n <= 80 ? truthOf(s, a) : -1); c.count("runs_judged"); if (!err.empty()) c.fail("unusable", err + "; " + hist + " " + s.str());
    } else { verdict = gp_Embed(g, EMBEDFLAGS_PLANAR); if (verdict == NOTOK || (planar && verdict != OK)) c.fail("not-planar", strf("verdict %d: ", verdict) + hist); c.count("runs_judged"); }
}
const Prop PROP = {"G07", 12000, 150000, 12, "distinct generated graphs, each checked for its edge count, simplicity, connectivity, planarity up to the maximum, and for being usable like a graph built edge by edge", run};
