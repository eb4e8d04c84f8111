#include "common.hpp"
extern "C" int gp_LeastAncestor(graphP);
// State of the DFS as the library shows it, translated to the caller's numbering (orig[]: slot -> caller's vertex).
struct View { vector<int> dfi, parent, least, low; map<pair<int, int>, int> type; int n; vector<vector<int>> order; };
static string view(graphP g, bool sorted, View &w) {
    int n = g->N; w = View(); w.n = n; w.dfi.assign(n + 1, 0); w.parent = w.least = w.low = w.dfi; w.order.assign(n + 1, {}); vector<int> orig(n + 1, 0), used(n + 1, 0);
    for (int v = 1; v <= n; v++) { int x = gp_GetVertexIndex(g, v); if (x < 1 || x > n) return strf("vertex %d has index %d of %d", v, x, n); if (used[x]++) return strf("index %d appears twice", x); orig[v] = sorted ? x : v; }
    auto tr = [&](int p) { return p >= 1 && p <= n ? orig[p] : p == NIL ? 0 : -1; };
    for (int v = 1; v <= n; v++) { int o = orig[v]; w.dfi[o] = sorted ? v : gp_GetVertexIndex(g, v); w.parent[o] = tr(gp_GetVertexParent(g, v)); w.least[o] = tr(gp_GetVertexLeastAncestor(g, v)); w.low[o] = tr(gp_GetVertexLowpoint(g, v));
        if (w.parent[o] < 0) return strf("vertex %d has parent %d", v, gp_GetVertexParent(g, v));
        for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) { int q = tr(gp_GetNeighbor(g, e)); if (q <= 0) return strf("vertex %d has neighbour %d", v, gp_GetNeighbor(g, e)); w.order[o].push_back(q); w.type[{o, q}] = gp_GetEdgeType(g, e); } }
    return "";
}
static string checkDFS(const SG &in, const View &w) {
    int n = in.n; auto adj = in.adj(); vector<int> at(n + 1, 0), size(n + 1, 1), comp = componentsOf(in); set<int> roots; for (int v = 1; v <= n; v++) at[w.dfi[v]] = v;
    for (int v = 1; v <= n; v++) { int p = w.parent[v]; if (!p) { if (!roots.insert(comp[v]).second) return strf("two trees in the component of %d", v); continue; } if (w.dfi[p] >= w.dfi[v]) return strf("parent %d of %d is numbered %d, the child %d", p, v, w.dfi[p], w.dfi[v]); if (std::find(adj[v].begin(), adj[v].end(), p) == adj[v].end()) return strf("parent %d of %d is not a neighbour", p, v); }
    for (int d = n; d >= 1; d--) { int v = at[d]; if (w.parent[v]) size[w.parent[v]] += size[v]; }
    auto anc = [&](int a, int b) { return w.dfi[a] <= w.dfi[b] && w.dfi[b] < w.dfi[a] + size[a]; };
    for (int v = 1; v <= n; v++) if (w.parent[v] && !anc(w.parent[v], v)) return strf("numbers of the descendants of %d are not consecutive", w.parent[v]);
    for (auto &x : in.e) for (int k = 0; k < 2; k++) { int a = k ? x.second : x.first, b = k ? x.first : x.second; auto it = w.type.find({a, b}); if (it == w.type.end()) return strf("edge %d-%d is missing", a, b);
        int want = w.parent[b] == a ? EDGE_TYPE_CHILD : w.parent[a] == b ? EDGE_TYPE_PARENT : anc(a, b) ? EDGE_TYPE_FORWARD : anc(b, a) ? EDGE_TYPE_BACK : -1;
        if (want < 0) return strf("edge %d-%d joins vertices of which neither is an ancestor of the other", a, b);
        if (it->second != want) return strf("edge end %d->%d has class %d, not %d", a, b, it->second, want); }
    return "";
}
static string checkLow(const SG &in, const View &w, bool lowToo) {
    int n = in.n; auto adj = in.adj(); vector<int> at(n + 1), la(n + 1), lo(n + 1); for (int v = 1; v <= n; v++) at[w.dfi[v]] = v;
    for (int d = n; d >= 1; d--) { int v = at[d]; la[v] = d; for (int u : adj[v]) if (u != w.parent[v]) la[v] = std::min(la[v], w.dfi[u]); lo[v] = la[v]; for (int u : adj[v]) if (w.parent[u] == v) lo[v] = std::min(lo[v], lo[u]); }
    for (int v = 1; v <= n; v++) { if (w.least[v] != at[la[v]]) return strf("least ancestor of %d is %d, should be %d", v, w.least[v], at[la[v]]); if (lowToo && w.low[v] != at[lo[v]]) return strf("lowpoint of %d is %d, should be %d", v, w.low[v], at[lo[v]]); }
    return "";
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, r.chance(1, 40) ? 400 : c.thorough ? 60 : 24, &nm); in.simplify(); BuildOpt o; o.linkMode = 2; o.rng = &r; GraphHolder g; string hist = nm + " " + in.str() + ":";
    int start = r.below(5);
    if (start == 0) { // used before for something else, then reinitialised
        SG other = genAny(r, 12); while (other.n != in.n) { other.n = in.n; vector<Edge> k; for (auto &x : other.e) if (x.first <= in.n && x.second <= in.n) k.push_back(x); other.e = k; }
        g.g = buildGraph(other, o); if (!g.g) { c.fail("build", "building failed"); return; } int a = r.below(3); hist += strf(" earlier use %d", a); if (a == 0) gp_Embed(g, EMBEDFLAGS_PLANAR); else if (a == 1) gp_LowpointAndLeastAncestor(g); else gp_SortVertices(g); gp_ReinitializeGraph(g);
        if ((int)in.e.size() * 2 > gp_GetArcCapacity(g) && gp_EnsureArcCapacity(g, 2 * (int)in.e.size()) != OK) { c.fail("ensure", hist); return; }
        for (auto &x : in.e) if (gp_AddEdge(g, x.first, r.below(2), x.second, r.below(2)) != OK) { c.fail("build", hist); return; }
    } else { g.g = buildGraph(in, o); if (!g.g) { c.fail("build", "building failed"); return; } }
    if (start == 1 && !in.e.empty()) { // holes in the edge store
        hist += " with holes"; auto L = arcLists(g); vector<int> es; for (auto &l : L) for (int e : l) if (!(e & 1)) es.push_back(e); r.shuffle(es); int k = r.range(1, (int)es.size()); SG left(in.n); set<int> del(es.begin(), es.begin() + k);
        for (auto &l : L) for (int e : l) if (!(e & 1) && !del.count(e)) { left.add(gp_GetNeighbor(g, e ^ 1), gp_GetNeighbor(g, e)); } for (int e : del) gp_DeleteEdge(g, e, 0); in = left; hist += " left " + in.str();
    }
    if (start == 2) { int f = r.range(A_D, A_4); attachFor(g, f); hist += strf(" feature %d", f); }
    auto before = arcLists(g); string err; View w0, w; bool have = false, sorted = false; bool low = false, least = false; int steps = r.range(1, 6);
    for (int s = 0; s < steps; s++) {
        int k = r.below(5), res; const char *op;
        if (k == 0) { res = gp_CreateDFSTree(g); op = "CreateDFSTree"; }
        else if (k == 1) { res = gp_SortVertices(g); op = "SortVertices"; if (res == OK) sorted = !sorted; }
        else if (k == 2) { res = gp_LowpointAndLeastAncestor(g); op = "LowpointAndLeastAncestor"; sorted = true; low = least = true; }
        else if (k == 3) { res = gp_LeastAncestor(g); op = "LeastAncestor"; sorted = true; least = true; }
        else { graphP d = gp_DupGraph(g); if (!d) { c.fail("dup", hist); return; } gp_Free(&g.g); g.g = d; res = OK; op = "DupGraph"; }
        hist += string(" ") + op; c.note(hist); c.count(op);
        if (res != OK) { c.fail("refused:" + string(op), strf("returned %d: ", res) + hist); return; }
        if (k == 4 && !have && s == 0) continue; if (k != 4) have = true; if (!have) continue;
        if (k == 2 || k == 3) { err = view(g, sorted, w); if (err.empty()) err = checkLow(in, w, k == 2); if (!err.empty()) { c.fail(k == 2 ? "lowpoint" : "least-ancestor", err + " | " + hist); return; } c.count("vertices_checked", in.n); }
        if (!!(g->internalFlags & FLAGS_SORTEDBYDFI) != sorted) { c.fail("sort-flag", hist); return; }
        err = structureError(g); if (err.empty()) err = view(g, sorted, w); if (err.empty()) err = checkDFS(in, w);
        if (err.empty() && !w0.dfi.empty()) { if (w.dfi != w0.dfi || w.parent != w0.parent || w.type != w0.type) err = "numbers, parents or classes changed"; else if (w.order != w0.order) err = "neighbour order changed"; }
        if (!err.empty()) { c.fail("dfs", err + " | " + hist); return; }
        // lowpoints are values in the sorted numbering: compare only while sorted
        if (sorted && least && (k == 4)) { err = checkLow(in, w, low); if (!err.empty()) { c.fail("values-lost", err + " | " + hist); return; } }
        w0 = w; c.count("edges_checked", (ll)in.e.size());
    }
    if (!in.e.empty()) c.distinct(mix64(in.hash(), hashStr(hist))); c.sample(hist);
}
const Prop PROP = {"G03", 80000, 800000, 20, "distinct (graph, neighbour orders, call sequence); every vertex number, parent, edge class, least ancestor and lowpoint compared with its definition", run};
