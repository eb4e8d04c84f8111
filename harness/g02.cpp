#include "common.hpp"
extern "C" int gp_RestoreVertex(graphP);
typedef vector<vector<pair<int, int>>> State;   // per vertex: (record, neighbour) in order
static string read(graphP g, State &s) {
    int n = g->N; s.assign(n + 1, {}); ll guard = 4LL * gp_EdgeIndexBound(g) + 10; vector<int> seen(gp_EdgeIndexBound(g) + 2, 0);
    for (int v = 1; v <= n; v++) { int prev = NIL, e = gp_GetFirstArc(g, v);
        while (gp_IsArc(e)) { if (--guard < 0) return strf("the list of vertex %d does not end", v); if (e < 2 || e >= gp_EdgeIndexBound(g)) return strf("vertex %d lists record %d", v, e); if (seen[e]++) return strf("record %d is listed twice", e);
            if (gp_GetPrevArc(g, e) != prev) return strf("vertex %d: record %d has previous %d, not %d", v, e, gp_GetPrevArc(g, e), prev); s[v].push_back({e, gp_GetNeighbor(g, e)}); prev = e; e = gp_GetNextArc(g, e); }
        if (gp_GetLastArc(g, v) != prev) return strf("vertex %d: last record is %d, the list ends with %d", v, gp_GetLastArc(g, v), prev); }
    for (int e = 2; e < gp_EdgeIndexBound(g); e++) if (seen[e] && !seen[e ^ 1]) return strf("record %d is listed, its twin is not", e);
    for (int v = 1; v <= n; v++) for (auto &x : s[v]) { bool ok = false; for (auto &y : s[x.second]) if (y.first == (x.first ^ 1) && y.second == v) ok = true; if (!ok) return strf("record %d of vertex %d names %d, whose list does not hold its twin", x.first, v, x.second); }
    return "";
}
static string text(const State &s) { string o; for (size_t v = 1; v < s.size(); v++) { o += strf("%zu:", v); for (auto &x : s[v]) o += strf(" %d(%d)", x.second, x.first); o += "; "; } return o; }
static void drop(State &s, int e) { for (auto &l : s) for (size_t i = 0; i < l.size(); i++) if ((l[i].first | 1) == (e | 1)) { l.erase(l.begin() + i); i--; } }
// v into u, v's remaining entries placed before record `before` (NIL: at the end)
static void identify(State &s, int u, int v, int before) {
    set<int> nb; for (auto &x : s[u]) nb.insert(x.second); vector<int> dup; for (auto &x : s[v]) if (nb.count(x.second)) dup.push_back(x.first); for (int e : dup) drop(s, e);
    auto mv = s[v]; s[v].clear(); for (auto &x : mv) for (auto &y : s[x.second]) if (y.first == (x.first ^ 1)) y.second = u;
    size_t at = s[u].size(); if (before != NIL) for (size_t i = 0; i < s[u].size(); i++) if (s[u][i].first == before) at = i;
    s[u].insert(s[u].begin() + at, mv.begin(), mv.end());
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, c.thorough ? 30 : 16, &nm); BuildOpt o; o.linkMode = 2; o.rng = &r; GraphHolder g(buildGraph(in, o)); if (!g.g) { c.fail("build", "building failed"); return; }
    if (r.chance(1, 4)) attachFor(g, r.range(A_D, A_4));
    if (r.chance(1, 5)) { gp_CreateDFSTree(g); if (r.chance(1, 2)) gp_SortVertices(g); for (int v = 1; v <= 2 * in.n; v++) gp_ClearVertexVisited(g.g, v); for (int e = 2; e < gp_EdgeIndexBound(g.g); e++) gp_ClearEdgeVisited(g.g, e); }
    State start, cur; string w = read(g, start); if (!w.empty()) { c.fail("start", w); return; } cur = start;
    struct Rec { State before; int edge; }; vector<Rec> st; string hist = nm + " " + in.str() + " ops:"; int steps = r.range(1, 14); int M0 = g->M;
    int style = r.below(4); // 0: vertex operations only, unwound at once; else mixed, unwound one by one
    auto verify = [&](const string &op, const State &want, const State *alt = 0) -> bool {
        State s; string e = read(g, s); c.count("states_compared");
        if (e.empty() && s != want && !(alt && s == *alt)) e = "state " + text(s) + " expected " + text(want);
        if (e.empty() && g->M != M0) e = strf("edge count changed to %d", g->M);
        for (int v = 1; e.empty() && v <= in.n; v++) if (gp_GetVertexVisited(g.g, v)) e = strf("vertex %d is left marked", v);
        if (!e.empty()) { c.fail("wrong-effect:" + op, e + " | " + hist); return false; } cur = s; return true; };
    auto room = [&](int v) { return (int)cur[v].size() + 7 + sp_GetCurrentSize(g->theStack) <= sp_GetCapacity(g->theStack); };  // the stack takes seven integers and the hidden edges
    auto undo = [&]() -> bool { Rec q = st.back(); st.pop_back(); if (q.edge != NIL) { gp_RestoreEdge(g, q.edge); hist += strf(" restoreEdge(%d)", q.edge); } else { hist += " restoreVertex"; if (gp_RestoreVertex(g) != OK) { c.fail("restore-failed", "gp_RestoreVertex failed | " + hist); return false; } } c.count("restores"); return verify("restore", q.before); };
    for (int s = 0; s < steps; s++) {
        int k = style == 0 ? r.range(1, 3) : r.below(5); State want = cur; vector<int> es; for (auto &l : cur) for (auto &x : l) es.push_back(x.first);
        if (k == 0) { if (es.empty()) continue; int e = es[r.below((int)es.size())]; hist += strf(" hideEdge(%d)", e); st.push_back({cur, e}); gp_HideEdge(g, e); drop(want, e); c.count("edges_hidden"); if (!verify("hideEdge", want)) return; }
        else if (k == 1) { int v = r.range(1, in.n); hist += strf(" hideVertex(%d)", v); st.push_back({cur, NIL}); if (bool rm = room(v); gp_HideVertex(g, v) != OK) { if (!rm) { st.pop_back(); c.count("refused_stack_full"); if (!verify("refused", cur)) return; continue; } c.fail("hideVertex-failed", hist); return; } while (!want[v].empty()) drop(want, want[v][0].first); c.count("vertices_hidden"); if (!verify("hideVertex", want)) return; }
        else if (k == 2) { if (es.empty()) continue; int e = es[r.below((int)es.size())], u = 0, v = gp_GetNeighbor(g, e); u = gp_GetNeighbor(g, e ^ 1); int nx = NIL; for (size_t i = 0; i < cur[u].size(); i++) if (cur[u][i].first == e && i + 1 < cur[u].size()) nx = cur[u][i + 1].first;
            hist += strf(" contract(%d=%d-%d)", e, u, v); st.push_back({cur, NIL}); if (bool rm = room(v); gp_ContractEdge(g, e) != OK) { if (!rm) { st.pop_back(); c.count("refused_stack_full"); if (!verify("refused", cur)) return; continue; } c.fail("contract-failed", hist); return; } drop(want, e); identify(want, u, v, nx); c.count("edges_contracted"); if (!verify("contract", want)) return; }
        else if (k == 3) { int u = r.range(1, in.n), v = r.range(1, in.n); if (u == v) continue; int before = NIL; if (!cur[u].empty() && r.chance(2, 3)) before = cur[u][r.below((int)cur[u].size())].first; int adj = NIL, nx = NIL; for (size_t i = 0; i < cur[u].size(); i++) if (cur[u][i].second == v) { adj = cur[u][i].first; if (i + 1 < cur[u].size()) nx = cur[u][i + 1].first; }
            hist += strf(" identify(%d,%d,%d)", u, v, before); st.push_back({cur, NIL}); if (bool rm = room(v); gp_IdentifyVertices(g, u, v, before) != OK) { if (!rm) { st.pop_back(); c.count("refused_stack_full"); if (!verify("refused", cur)) return; continue; } c.fail("identify-failed", hist); return; } State alt = want; if (adj != NIL) { drop(want, adj); drop(alt, adj); identify(want, u, v, nx); identify(alt, u, v, before == adj ? nx : before); c.count("adjacent_identified"); } else { identify(want, u, v, before); alt = want; } c.count("vertices_identified"); if (!verify("identify", want, &alt)) return; }
        else if (!st.empty() && !undo()) return;
        c.note(hist);
    }
    c.distinct(mix64(hashStr(hist), 1)); c.sample(hist);
    if (style == 0 || (r.chance(1, 3) && std::all_of(st.begin(), st.end(), [](const Rec &q) { return q.edge == NIL; }))) { hist += " restoreVertices"; if (gp_RestoreVertices(g) != OK) { c.fail("restore-failed", "gp_RestoreVertices failed | " + hist); return; } c.count("full_restores"); if (!verify("restoreVertices", start)) return; }
    else { while (!st.empty()) if (!undo()) return; if (cur != start) c.fail("not-restored", hist); }
    if (sp_NonEmpty(g->theStack)) c.fail("stack-not-empty", strf("%d entries are left on the graph's stack | ", sp_GetCurrentSize(g->theStack)) + hist);
}
const Prop PROP = {"G02", 120000, 1200000, 20, "distinct sequences of hide/contract/identify/restore operations; after every operation all neighbour lists (records, order, links) are compared with a reference", run};
