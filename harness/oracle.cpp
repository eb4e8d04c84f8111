// Independent reference answers: planarity, outerplanarity, homeomorph containment, homeomorph shape.
#include "common.hpp"

vector<int> componentsOf(const SG &g) {
    vector<int> id(g.n + 1, -1); auto a = g.adj(); int c = 0;
    for (int s = 1; s <= g.n; s++) if (id[s] < 0) { vector<int> st{s}; id[s] = c; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : a[v]) if (id[w] < 0) { id[w] = c; st.push_back(w); } } c++; }
    return id;
}
vector<vector<int>> blocksOf(const SG &g) {
    auto a = g.adjE(); vector<int> num(g.n + 1, 0), low(g.n + 1, 0), it(g.n + 1, 0), pe(g.n + 1, -1); vector<vector<int>> out; vector<int> es; int t = 0;
    for (int s = 1; s <= g.n; s++) if (!num[s]) {
        vector<int> st{s}; num[s] = low[s] = ++t;
        while (!st.empty()) {
            int v = st.back();
            if (it[v] < (int)a[v].size()) {
                auto [w, e] = a[v][it[v]++]; if (e == pe[v]) continue;
                if (!num[w]) { pe[w] = e; num[w] = low[w] = ++t; es.push_back(e); st.push_back(w); }
                else if (num[w] < num[v]) { es.push_back(e); low[v] = std::min(low[v], num[w]); }
            } else {
                st.pop_back(); if (st.empty()) break; int p = st.back(); low[p] = std::min(low[p], low[v]);
                if (low[v] >= num[p]) { vector<int> b; while (1) { int e = es.back(); es.pop_back(); b.push_back(e); if (e == pe[v]) break; } out.push_back(b); }
            }
        }
    }
    return out;
}
static SG subOf(const SG &g, const vector<int> &es) { // compact relabelling
    map<int, int> m; SG o; for (int i : es) { for (int v : {g.e[i].first, g.e[i].second}) if (!m.count(v)) { m[v] = ++o.n; } o.add(m[g.e[i].first], m[g.e[i].second]); } return o;
}
// Demoucron-Malgrange-Pertuiset on a biconnected graph
static bool dmp(const SG &g) {
    int n = g.n, m = (int)g.e.size();
    if (n < 5 || m < 9) return true; if (m > 3 * n - 6) return false;
    auto a = g.adjE(); vector<char> inV(n + 1, 0), inE(m, 0);
    // initial cycle by DFS
    vector<vector<int>> faces;
    {
        vector<int> par(n + 1, 0), pe(n + 1, -1), dep(n + 1, -1), it(n + 1, 0), st{1}; dep[1] = 0; vector<int> cyc; 
        while (!st.empty() && cyc.empty()) { int v = st.back(); if (it[v] >= (int)a[v].size()) { st.pop_back(); continue; } auto [w, e] = a[v][it[v]++]; if (e == pe[v]) continue;
            if (dep[w] < 0) { dep[w] = dep[v] + 1; par[w] = v; pe[w] = e; st.push_back(w); }
            else if (dep[w] < dep[v]) { inE[e] = 1; int x = v; while (x != w) { cyc.push_back(x); inE[pe[x]] = 1; x = par[x]; } cyc.push_back(w); } }
        for (int v : cyc) inV[v] = 1; faces.push_back(cyc); faces.push_back(cyc);
    }
    int emb = 0; for (char c : inE) emb += c;
    vector<int> comp(n + 1), mark(n + 1, 0); int stamp = 0;
    while (emb < m) {
        // fragments
        std::fill(comp.begin(), comp.end(), 0); int nc = 0; struct Fr { vector<int> att; int edge; int c; }; vector<Fr> fr;
        for (int s = 1; s <= n; s++) if (!inV[s] && !comp[s]) {
            nc++; comp[s] = nc; vector<int> st{s}; set<int> at; while (!st.empty()) { int v = st.back(); st.pop_back(); for (auto &x : a[v]) { if (inV[x.first]) at.insert(x.first); else if (!comp[x.first]) { comp[x.first] = nc; st.push_back(x.first); } } }
            fr.push_back({vector<int>(at.begin(), at.end()), -1, nc});
        }
        for (int e = 0; e < m; e++) if (!inE[e] && inV[g.e[e].first] && inV[g.e[e].second]) fr.push_back({{g.e[e].first, g.e[e].second}, e, 0});
        int bestF = -1, bestFace = -1, bestCnt = 1 << 30; vector<int> cnt(fr.size(), 0), ff(fr.size(), -1);
        for (int f = 0; f < (int)faces.size(); f++) { ++stamp; for (int v : faces[f]) mark[v] = stamp;
            for (int i = 0; i < (int)fr.size(); i++) { bool ok = true; for (int v : fr[i].att) if (mark[v] != stamp) { ok = false; break; } if (ok) { cnt[i]++; ff[i] = f; } } }
        for (int i = 0; i < (int)fr.size(); i++) { if (!cnt[i]) return false; if (cnt[i] < bestCnt) { bestCnt = cnt[i]; bestF = i; bestFace = ff[i]; } }
        // path between two attachments through the fragment
        Fr &F = fr[bestF]; vector<int> path;
        if (F.edge >= 0) { inE[F.edge] = 1; emb++; path = {F.att[0], F.att[1]}; }
        else {
            int s = F.att[0]; vector<int> par(n + 1, 0), pe(n + 1, -1); vector<char> vis(n + 1, 0); vector<int> q; int end = 0; vis[s] = 1;
            for (auto &x : a[s]) if (comp[x.first] == F.c && !vis[x.first] && !inE[x.second]) { vis[x.first] = 1; par[x.first] = s; pe[x.first] = x.second; q.push_back(x.first); }
            for (size_t h = 0; h < q.size() && !end; h++) { int v = q[h]; for (auto &x : a[v]) { if (x.second == pe[v]) continue; if (inV[x.first]) { if (x.first != s) { end = x.first; par[end] = v; pe[end] = x.second; break; } } else if (!vis[x.first]) { vis[x.first] = 1; par[x.first] = v; pe[x.first] = x.second; q.push_back(x.first); } } }
            int x = end; path.push_back(x); while (x != s) { inE[pe[x]] = 1; emb++; x = par[x]; path.push_back(x); } 
            for (int v : path) inV[v] = 1;
        }
        // split the face
        vector<int> f = faces[bestFace]; int p0 = path.front(), p1 = path.back(); size_t i0 = std::find(f.begin(), f.end(), p0) - f.begin(); std::rotate(f.begin(), f.begin() + i0, f.end()); size_t i1 = std::find(f.begin(), f.end(), p1) - f.begin();
        vector<int> A(f.begin(), f.begin() + i1 + 1); for (size_t k = path.size() - 2; k >= 1; k--) A.push_back(path[k]);   // p0..p1 then interior back
        vector<int> B(f.begin() + i1, f.end()); B.push_back(p0); for (size_t k = 1; k + 1 < path.size(); k++) B.push_back(path[k]);
        faces[bestFace] = A; faces.push_back(B);
    }
    return true;
}
bool oraclePlanar(const SG &g0) {
    SG g = g0; g.simplify(); if (g.n >= 3 && (ll)g.e.size() > 3LL * g.n - 6) return false;
    for (auto &b : blocksOf(g)) if (b.size() >= 9 && !dmp(subOf(g, b))) return false;
    return true;
}
static bool blockOuter(const SG &b) { SG h = b; h.n++; for (int v = 1; v <= b.n; v++) h.add(v, h.n); if ((int)b.e.size() > 2 * b.n - 3 && b.n >= 2) return false; return b.n < 4 || dmp(h); }
bool oracleOuterplanar(const SG &g0) {
    SG g = g0; g.simplify(); if (g.n >= 2 && (ll)g.e.size() > 2LL * g.n - 3) return false;
    for (auto &b : blocksOf(g)) if (b.size() >= 5 && !blockOuter(subOf(g, b))) return false;
    return true;
}
bool oracleHasK4(const SG &g0) { // reduce vertices of degree <= 2 with parallel merging; anything left means K4
    SG g = g0; g.simplify(); vector<set<int>> a(g.n + 1); for (auto &x : g.e) { a[x.first].insert(x.second); a[x.second].insert(x.first); }
    vector<int> q; for (int v = 1; v <= g.n; v++) if (a[v].size() <= 2) q.push_back(v); vector<char> gone(g.n + 1, 0); int left = g.n;
    while (!q.empty()) { int v = q.back(); q.pop_back(); if (gone[v] || a[v].size() > 2) continue; gone[v] = 1; left--; vector<int> nb(a[v].begin(), a[v].end()); for (int w : nb) a[w].erase(v); if (nb.size() == 2) { a[nb[0]].insert(nb[1]); a[nb[1]].insert(nb[0]); } for (int w : nb) if (a[w].size() <= 2) q.push_back(w); a[v].clear(); }
    return left > 0;
}
bool oracleHasK23(const SG &g0) { // a block has no K2,3 exactly when it is outerplanar or K4
    SG g = g0; g.simplify();
    for (auto &bi : blocksOf(g)) { if (bi.size() < 6) continue; SG b = subOf(g, bi); if (b.n == 4) continue; if (!blockOuter(b)) return true; }
    return false;
}
// biconnected simple graph: does it contain a K3,3 subdivision?
static bool k33in(SG b) {
    while (true) {
        if (b.n < 6 || b.e.size() < 9) return false;
        // suppress degree-2 vertices (keeping the graph simple)
        bool red = false; vector<vector<int>> a = b.adj();
        for (int v = 1; v <= b.n; v++) if (a[v].size() == 2) {
            set<Edge> s; vector<set<int>> nb(b.n + 1); for (auto &x : b.e) { nb[x.first].insert(x.second); nb[x.second].insert(x.first); }
            vector<int> q; for (int w = 1; w <= b.n; w++) if (nb[w].size() <= 2) q.push_back(w);
            vector<char> gone(b.n + 1, 0);
            while (!q.empty()) { int w = q.back(); q.pop_back(); if (gone[w] || nb[w].size() > 2) continue; gone[w] = 1; vector<int> t(nb[w].begin(), nb[w].end()); for (int z : t) nb[z].erase(w); if (t.size() == 2) { nb[t[0]].insert(t[1]); nb[t[1]].insert(t[0]); } for (int z : t) if (nb[z].size() <= 2) q.push_back(z); nb[w].clear(); }
            SG o; vector<int> id(b.n + 1, 0); for (int w = 1; w <= b.n; w++) if (!gone[w]) id[w] = ++o.n;
            for (int w = 1; w <= b.n; w++) for (int z : nb[w]) if (w < z) o.add(id[w], id[z]);
            b = o; red = true; break;
        }
        if (!red) break;
    }
    if (b.n < 6 || b.e.size() < 9) return false;
    if (dmp(b)) return false;
    // find a separation pair
    vector<vector<int>> a = b.adj();
    for (int x = 1; x <= b.n; x++) {
        // articulation points of b - x
        SG h(b.n); for (auto &e : b.e) if (e.first != x && e.second != x) h.e.push_back(e);
        auto bl = blocksOf(h); if (bl.size() <= 1) continue;
        vector<int> cntB(b.n + 1, 0); for (auto &q : bl) { set<int> s; for (int i : q) { s.insert(h.e[i].first); s.insert(h.e[i].second); } for (int v : s) cntB[v]++; }
        for (int y = 1; y <= b.n; y++) if (cntB[y] > 1) {
            // split at {x,y}
            SG r(b.n); for (auto &e : b.e) if (e.first != x && e.second != x && e.first != y && e.second != y) r.e.push_back(e);
            vector<int> c = componentsOf(r); map<int, vector<int>> parts; for (int v = 1; v <= b.n; v++) if (v != x && v != y) parts[c[v]].push_back(v);
            for (auto &p : parts) {
                vector<int> id(b.n + 1, 0); SG o; id[x] = ++o.n; id[y] = ++o.n; for (int v : p.second) id[v] = ++o.n;
                for (auto &e : b.e) { if (!id[e.first] || !id[e.second]) continue; if (id[e.first] <= 2 && id[e.second] <= 2) continue; o.add(id[e.first], id[e.second]); }
                o.add(1, 2); if (k33in(o)) return true;
            }
            return false;
        }
    }
    return true; // 3-connected, nonplanar, more than 5 vertices
}
bool oracleHasK33(const SG &g0) {
    SG g = g0; g.simplify();
    for (auto &bi : blocksOf(g)) { if (bi.size() < 9) continue; SG b = subOf(g, bi); if (b.n < 6) continue; if (dmp(b)) continue; if (k33in(b)) return true; }
    return false;
}
string homeomorphKind(const SG &g, string *why) {
    auto bad = [&](const string &s) { if (why) *why = s; return string(); };
    auto a = g.adjE(); vector<int> br; 
    { set<Edge> s; for (auto &x : g.e) { if (x.first == x.second) return bad("loop"); if (!s.insert(Edge(std::min(x.first, x.second), std::max(x.first, x.second))).second) return bad("parallel edges"); } }
    for (int v = 1; v <= g.n; v++) { int d = (int)a[v].size(); if (d == 1) return bad(strf("vertex %d has degree 1", v)); if (d > 4) return bad(strf("vertex %d has degree %d", v, d)); if (d > 2) br.push_back(v); }
    map<int, int> idx; for (size_t i = 0; i < br.size(); i++) idx[br[i]] = (int)i;
    vector<char> used(g.e.size(), 0); map<Edge, int> paths; bool shortPath = false; int np = 0;
    for (int b : br) for (auto &x : a[b]) { if (used[x.second]) continue; int len = 0, e = x.second, v = x.first; used[e] = 1; len++; while (!idx.count(v)) { auto &y = a[v][0].second == e ? a[v][1] : a[v][0]; e = y.second; if (used[e]) return bad("path revisits an edge"); used[e] = 1; v = y.first; len++; }
        if (v == b) return bad("path returns to its own branch vertex"); if (len == 1) shortPath = true; paths[Edge(std::min(b, v), std::max(b, v))]++; np++; }
    for (char c : used) if (!c) return bad("separate cycle");
    size_t nb = br.size(); int d0 = nb ? (int)a[br[0]].size() : 0; for (int b : br) if ((int)a[b].size() != d0) return bad("branch vertices of different degree");
    if (nb == 2) { if (d0 != 3) return bad("two branch vertices of degree 4"); if (shortPath) return bad("theta with a direct edge"); return "K23"; }
    for (auto &p : paths) if (p.second != 1) return bad("parallel paths");
    if (nb == 4 && d0 == 3 && np == 6) return "K4";
    if (nb == 5 && d0 == 4 && np == 10) return "K5";
    if (nb == 6 && d0 == 3 && np == 9) { // bipartite 3+3
        vector<int> side(6, -1); side[0] = 0; for (auto &p : paths) if (p.first.first == br[0] || p.first.second == br[0]) { int o = p.first.first == br[0] ? p.first.second : p.first.first; side[idx[o]] = 1; }
        for (auto &s : side) if (s < 0) s = 0; for (auto &p : paths) if (side[idx[p.first.first]] == side[idx[p.first.second]]) return bad("six branch vertices but not K3,3"); return "K33"; }
    return bad(strf("%zu branch vertices of degree %d with %d paths", nb, d0, np));
}
