#include "common.hpp"
static string full(graphP g, int algo, bool emb) { string s = dumpGraph(g, true); if (algo == A_D && emb) { Drawing d; string w; if (!getDrawing(g, d, w)) return "?" + w; for (int v = 1; v <= g->N; v++) s += strf("v%d %d %d %d\n", v, d.vpos[v], d.vs[v], d.ve[v]); for (auto &e : d.e) s += strf("e%d-%d %d %d %d\n", e.first.first, e.first.second, e.second[0], e.second[1], e.second[2]); } return s; }
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, r.chance(1, 10) ? 90 : 28, &nm); int algo = (int)(c.idx % A_COUNT); c.note(string(algoName(algo)) + " " + nm + " " + in.str());
    // sorting is its own inverse and keeps edges, orders and drawing entries with their vertices
    BuildOpt o; o.linkMode = r.below(3); o.rng = &r;
    GraphHolder g(buildGraph(in, o)); if (!g.g || attachFor(g, algo) != OK) { c.fail("build", "building the graph failed"); return; }
    int stage = r.below(5); int verdict = OK; bool emb = false;
    vector<vector<int>> orig(in.n + 1); auto L0 = arcLists(g); for (int v = 1; v <= in.n; v++) for (int e : L0[v]) orig[v].push_back(gp_GetNeighbor(g, e));
    if (stage == 0) { if (gp_CreateDFSTree(g) != OK) { c.fail("dfs", "DFS failed"); return; } }
    else if (stage == 1) { if (gp_CreateDFSTree(g) != OK || gp_SortVertices(g) != OK || gp_LowpointAndLeastAncestor(g) != OK) { c.fail("dfs", "DFS failed"); return; } }
    else { verdict = gp_Embed(g, embedFlagsOf(algo)); emb = true; if (verdict != OK && verdict != NONEMBEDDABLE) { c.fail("error-result", strf("gp_Embed returned %d", verdict)); return; } }
    bool search = algo == A_23 || algo == A_33 || algo == A_4; bool stable = !(emb && ((verdict == OK && search) || (verdict == NONEMBEDDABLE && algo == A_D)));
    if (stable) {
        bool d = emb && verdict == OK;
        string s1 = full(g, algo, d); auto A = arcLists(g); int n = in.n; vector<int> idx(n + 1), seen(n + 1, 0); bool ok = true;
        for (int v = 1; v <= n; v++) { idx[v] = gp_GetVertexIndex(g, v); if (idx[v] < 1 || idx[v] > n || seen[idx[v]]++) { c.fail("index-not-permutation", strf("vertex %d has index %d", v, idx[v])); return; } }
        vector<vector<int>> nb(n + 1); for (int v = 1; v <= n; v++) for (int e : A[v]) nb[v].push_back(gp_GetNeighbor(g, e));
        Drawing d1, d2; string w; if (algo == A_D && d && !getDrawing(g, d1, w)) { c.fail("drawing", w); return; }
        if (gp_SortVertices(g) != OK) { c.fail("sort", "gp_SortVertices failed"); return; }
        auto B = arcLists(g);
        for (int v = 1; v <= n && ok; v++) { int x = idx[v]; vector<int> got; for (int e : B[x]) got.push_back(gp_GetNeighbor(g, e)); vector<int> want; for (int q : nb[v]) want.push_back(idx[q]);
            if (got != want) { ok = false; c.fail("sort-relabels-wrongly", strf("vertex %d (other number %d): neighbour list does not carry over", v, x)); } if (gp_GetVertexIndex(g, x) != v) { ok = false; c.fail("sort-index", strf("after sorting, vertex %d has index %d, not %d", x, gp_GetVertexIndex(g, x), v)); } }
        if (ok && algo == A_D && d) { if (!getDrawing(g, d2, w)) { c.fail("drawing", w); return; } for (int v = 1; v <= n && ok; v++) if (d1.vpos[v] != d2.vpos[idx[v]] || d1.vs[v] != d2.vs[idx[v]] || d1.ve[v] != d2.ve[idx[v]]) { ok = false; c.fail("sort-moves-drawing", strf("drawing entry of vertex %d does not follow it", v)); }
            for (auto &e : d1.e) { int a = idx[e.first.first], b = idx[e.first.second]; auto it = d2.e.find(Edge(std::min(a, b), std::max(a, b))); if (ok && (it == d2.e.end() || it->second != e.second)) { ok = false; c.fail("sort-moves-drawing", strf("drawing entry of edge %d-%d does not follow it", e.first.first, e.first.second)); } } }
        // which of the two states is the caller's numbering? gp_Embed leaves DFI order, so the sorted one is
        if (ok && emb) { SG got = sgOf(g); string e = verdict == OK ? sameEdges(in, got) : subsetEdges(got, in); if (!e.empty()) { ok = false; c.fail("labels-lost", e); } }
        if (ok && gp_SortVertices(g) != OK) { c.fail("sort", "gp_SortVertices failed"); return; }
        if (ok && full(g, algo, d) != s1) c.fail("sort-not-involution", "sorting twice does not give the same graph");
        c.count("sorts_checked", 2);
    }
    // verdict does not depend on numbering or edge order
    int first = -9; int reps = c.thorough ? 8 : 4;
    if (emb) first = verdict;
    for (int k = 0; k < reps; k++) {
        SG p = k == 0 ? in : permuted(in, r); BuildOpt q; q.linkMode = r.below(3); q.rng = &r; GraphHolder h(buildGraph(p, q)); if (!h.g || attachFor(h, algo) != OK) { c.fail("build", "building the graph failed"); return; }
        int v = gp_Embed(h, embedFlagsOf(algo)); c.count("relabelled_runs"); if (first == -9) first = v;
        if (v != first) { c.fail("verdict-depends-on-labels", strf("%s: %d for one numbering, %d for ", algoName(algo), first, v) + p.str()); break; }
    }
    c.distinct(mix64(in.hash(), (uint64_t)algo)); c.sample(strf("%s stage %d ", algoName(algo), stage) + in.str());
}
const Prop PROP = {"C09", 80000, 800000, 20, "distinct (input, algorithm) pairs: sort/unsort compared entry by entry, verdict compared over random renumberings", run};
