#include "common.hpp"
// The model: for every vertex (virtual ones included) the ordered list of edge ends; an edge end is known by
// the record index observed when it appeared, which must then stay its name until the edge is deleted.
struct End { int nb, dir; };
struct Model { int n, cap; map<int, End> ends; vector<vector<int>> L; int M = 0;
    void link(int v, int at, int e) { L[v].insert(L[v].begin() + at, e); }
    int owner(int e) { return ends[e ^ 1].nb; } };
static string compare(graphP g, Model &m) {
    string s = structureError(g); if (!s.empty()) return s;
    if (g->M != m.M) return strf("edge count %d, model %d", g->M, m.M);
    for (int v = 1; v <= 2 * m.n; v++) {
        size_t k = 0; for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e), k++) {
            if (k >= m.L[v].size() || m.L[v][k] != e) return strf("vertex %d: entry %zu is record %d, model has %d (list of %zu)", v, k, e, k < m.L[v].size() ? m.L[v][k] : -1, m.L[v].size());
            End &x = m.ends[e]; if (gp_GetNeighbor(g, e) != x.nb) return strf("record %d: neighbour %d, model %d", e, gp_GetNeighbor(g, e), x.nb);
            if ((int)gp_GetDirection(g, e) != x.dir) return strf("record %d: direction %d, model %d", e, (int)gp_GetDirection(g, e), x.dir);
        }
        if (k != m.L[v].size()) return strf("vertex %d: %zu entries, model %zu", v, k, m.L[v].size());
    }
    return "";
}
static string queries(Ctx &c, graphP g, Model &m) {
    Rng &r = c.rng; int hi = r.chance(1, 6) ? 2 * m.n : m.n;
    for (int q = 0; q < 3; q++) {
        int u = r.range(1, hi), v = r.range(1, hi); int deg = 0, in = 0, out = 0, rec = NIL; bool nb = false;
        for (int e : m.L[u]) { End &x = m.ends[e]; deg++; if (x.dir != EDGEFLAG_DIRECTION_OUTONLY) in++; if (x.dir != EDGEFLAG_DIRECTION_INONLY) out++; if (x.nb == v) { if (rec == NIL) rec = e; if (x.dir != EDGEFLAG_DIRECTION_INONLY) nb = true; } }
        if (gp_GetVertexDegree(g, u) != deg) return strf("degree of %d is %d, model %d", u, gp_GetVertexDegree(g, u), deg);
        if (gp_GetVertexInDegree(g, u) != in) return strf("in-degree of %d is %d, model %d", u, gp_GetVertexInDegree(g, u), in);
        if (gp_GetVertexOutDegree(g, u) != out) return strf("out-degree of %d is %d, model %d", u, gp_GetVertexOutDegree(g, u), out);
        if (!!gp_IsNeighbor(g, u, v) != nb) return strf("gp_IsNeighbor(%d,%d) says %d", u, v, gp_IsNeighbor(g, u, v));
        if (gp_GetNeighborEdgeRecord(g, u, v) != rec) return strf("gp_GetNeighborEdgeRecord(%d,%d) gives %d, model %d", u, v, gp_GetNeighborEdgeRecord(g, u, v), rec);
        c.count("queries_compared", 5);
    }
    return "";
}
// a graph of very many vertices: N * N does not fit an int
static void bigGrowth(Ctx &c) {
    Rng &r = c.rng; int n = r.range(46341, 70000); GraphHolder g(gp_New()); int cap = 2 * r.range(1, 40);
    if (!g.g || gp_EnsureArcCapacity(g, cap) != OK || gp_InitGraph(g, n) != OK) { c.fail("build", "large graph"); return; }
    int adds = cap / 2 + r.range(1, 3 * cap), m = 0; string h = strf("N=%d capacity %d, edge ", n, cap);
    for (int i = 1; i <= adds; i++, m++) { int u = i, v = n - i; if (gp_DynamicAddEdge(g, u, r.below(2), v, r.below(2)) != OK) { c.fail("growth-refused", h + strf("%d refused; capacity now %d", i, gp_GetArcCapacity(g))); return; } c.count("dynamic_adds"); }
    if (g->M != m || gp_GetArcCapacity(g) < 2 * m || gp_GetVertexDegree(g, 1) != 1 || !gp_IsNeighbor(g, m, n - m)) c.fail("differs-from-model", h + strf("%d edges were added, the graph says %d", m, g->M));
    c.count("large_graphs"); c.count("growths"); c.distinct(mix64(n, adds));
}
static void run(Ctx &c) {
    if (c.idx % 800 == 7) { bigGrowth(c); return; }
    Rng &r = c.rng; int n = r.chance(1, 5) ? r.range(2, 3) : r.range(2, 14); int pre = 0; bool attach = r.chance(1, 5);
    GraphHolder g(gp_New()); if (!g.g) return;
    if (r.chance(1, 2)) { pre = 2 * r.range(1, 3 * n + 8); if (gp_EnsureArcCapacity(g, pre) != OK) { c.fail("ensure", "setting a capacity before sizing failed"); return; } }
    if (gp_InitGraph(g, n) != OK) { c.fail("init", "gp_InitGraph failed"); return; }
    int ext = -1; if (attach) { static const int A[4] = {A_23, A_33, A_4, A_D}; ext = A[r.below(4)]; attachFor(g, ext); }
    Model m; m.n = n; m.cap = pre ? pre : 6 * n; m.L.resize(2 * n + 1); string hist = strf("N=%d capacity %d feature %d:", n, m.cap, ext);
    bool loops = false, multi = r.chance(1, 2); int steps = r.range(5, c.thorough ? 250 : 80), bias = r.below(3); uint64_t h = 0; (void)loops;
    auto pickEdge = [&]() -> int { if (m.ends.empty()) return NIL; auto it = m.ends.begin(); std::advance(it, r.below((int)m.ends.size())); return it->first; };
    for (int s = 0; s < steps; s++) {
        if (gp_GetArcCapacity(g) != m.cap) { c.fail("capacity", strf("gp_GetArcCapacity says %d, capacity is %d; ", gp_GetArcCapacity(g), m.cap) + hist); return; }
        int k = r.below(20); int hi = r.chance(1, 8) ? 2 * n : n; int u = r.range(1, hi), v = r.range(1, hi); while (v == u) v = r.range(1, hi);
        int want = OK, got = OK; string op;
        bool full = m.M >= m.cap / 2;
        if (k < (bias == 0 ? 12 : 8)) { // add or insert
            if (!multi && gp_IsNeighbor(g, u, v)) continue;
            int kind = r.below(4), ul = r.below(2), vl = r.below(2), eu = NIL, ev = NIL, pu, pv;
            pu = ul == 0 ? 0 : (int)m.L[u].size(); pv = vl == 0 ? 0 : (int)m.L[v].size();
            if (kind >= 2) { // next to an existing entry: the new one is reached by following that link from it
                if (!m.L[u].empty() && r.chance(4, 5)) { int at = r.below((int)m.L[u].size()); eu = m.L[u][at]; pu = ul == 0 ? at + 1 : at; }
                if (!m.L[v].empty() && r.chance(4, 5)) { int at = r.below((int)m.L[v].size()); ev = m.L[v][at]; pv = vl == 0 ? at + 1 : at; }
                op = strf(" insert(%d,%d,%d,%d,%d,%d)", u, eu, ul, v, ev, vl); got = gp_InsertEdge(g, u, eu, ul, v, ev, vl); want = full ? NONEMBEDDABLE : OK; c.count("inserts");
            } else if (kind == 1) { op = strf(" dynadd(%d,%d,%d,%d)", u, ul, v, vl); got = gp_DynamicAddEdge(g, u, ul, v, vl); c.count("dynamic_adds");
                if (full) { int nc = std::min(2 * m.cap, n * (n - 1)); if (nc > m.cap) { bool can = ext < 0 || ext == A_23; if (can) { m.cap = nc; want = OK; c.count("growths"); } else want = NOTOK; } else want = NONEMBEDDABLE; } }
            else { op = strf(" add(%d,%d,%d,%d)", u, ul, v, vl); got = gp_AddEdge(g, u, ul, v, vl); want = full ? NONEMBEDDABLE : OK; c.count("adds"); }
            hist += op;
            if (got != want) { c.fail(full ? "full-store" : "add-refused", strf("%s returned %d, expected %d; M=%d capacity=%d; ", op.c_str(), got, want, m.M, m.cap) + hist); return; }
            if (want == OK) { // find the new record at the position where it belongs
                int e = gp_GetFirstArc(g, u); for (int i = 0; i < pu && gp_IsArc(e); i++) e = gp_GetNextArc(g, e);
                if (!gp_IsArc(e) || m.ends.count(e)) { c.fail("wrong-position", strf("%s: no new entry at position %d of vertex %d; ", op.c_str(), pu, u) + hist); return; }
                if (e < 2 || e >= 2 + m.cap) { c.fail("record-out-of-store", strf("record %d with capacity %d; ", e, m.cap) + hist); return; }
                m.ends[e] = {v, 0}; m.ends[e ^ 1] = {u, 0}; m.link(u, pu, e); m.link(v, pv, e ^ 1); m.M++;
            } else c.count("full_store_refusals");
        } else if (k < 14) { // delete
            int e = pickEdge(); if (e == NIL) continue; int nl = r.below(2); int o = m.owner(e), o2 = m.owner(e ^ 1);
            auto &A = m.L[o]; int at = (int)(std::find(A.begin(), A.end(), e) - A.begin()); int exp = nl == 0 ? (at + 1 < (int)A.size() ? A[at + 1] : NIL) : (at > 0 ? A[at - 1] : NIL);
            op = strf(" delete(%d,%d)", e, nl); hist += op; int ret = gp_DeleteEdge(g, e, nl); c.count("deletes");
            if (ret != exp) { c.fail("delete-result", strf("%s returned %d, the neighbouring entry is %d; ", op.c_str(), ret, exp) + hist); return; }
            A.erase(A.begin() + at); auto &B = m.L[o2]; B.erase(std::find(B.begin(), B.end(), e ^ 1)); m.ends.erase(e); m.ends.erase(e ^ 1); m.M--;
        } else if (k < 17) { // direct
            int e = pickEdge(); if (e == NIL) continue; int d = r.below(3); int D = d == 0 ? 0 : d == 1 ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY; op = strf(" direct(%d,%d)", e, D); hist += op;
            gp_SetDirection(g.g, e, D); m.ends[e].dir = D; m.ends[e ^ 1].dir = d == 0 ? 0 : d == 1 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY; c.count("directions_set");
        } else if (k < 18) {
            int req = 2 * r.range(1, m.cap / 2 + 6); op = strf(" ensure(%d)", req); hist += op; got = gp_EnsureArcCapacity(g, req); bool can = ext < 0 || ext == A_23 || req <= m.cap; want = can ? OK : NOTOK; c.count("ensures");
            if (got != want) { c.fail("ensure", strf("%s returned %d, expected %d; ", op.c_str(), got, want) + hist); return; } if (can) m.cap = std::max(m.cap, req);
        } else if (k == 18 && r.chance(1, 6)) { gp_ReinitializeGraph(g); hist += " reinit"; m.ends.clear(); for (auto &l : m.L) l.clear(); m.M = 0; c.count("reinits"); }
        string w = compare(g, m); c.count("states_compared"); if (w.empty()) w = queries(c, g, m);
        if (!w.empty()) { c.fail("differs-from-model", op + ": " + w + "; " + hist); return; }
        if (s % 8 == 0) c.note(hist); h = mix64(h, hashStr(op));
    }
    c.maxi("largest_M", m.M); c.distinct(h); c.sample(hist);
}
const Prop PROP = {"G01", 120000, 1200000, 20, "distinct operation sequences; after every operation all neighbour lists, records, directions, counts and sampled queries are compared with the model", run};
