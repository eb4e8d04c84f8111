#include "common.hpp"
#include <cmath>

vector<vector<int>> SG::adj() const { vector<vector<int>> a(n + 1); for (auto &x : e) { a[x.first].push_back(x.second); a[x.second].push_back(x.first); } return a; }
vector<vector<pair<int, int>>> SG::adjE() const { vector<vector<pair<int, int>>> a(n + 1); for (int i = 0; i < (int)e.size(); i++) { a[e[i].first].push_back({e[i].second, i}); a[e[i].second].push_back({e[i].first, i}); } return a; }
set<Edge> SG::eset() const { set<Edge> s; for (auto &x : e) s.insert(Edge(std::min(x.first, x.second), std::max(x.first, x.second))); return s; }
bool SG::has(int u, int v) const { for (auto &x : e) if ((x.first == u && x.second == v) || (x.first == v && x.second == u)) return true; return false; }
void SG::simplify() { set<Edge> s; vector<Edge> o; for (auto &x : e) { if (x.first == x.second) continue; Edge k(std::min(x.first, x.second), std::max(x.first, x.second)); if (s.insert(k).second) o.push_back(x); } e = o; }
string SG::str() const { string s = strf("n=%d m=%zu:", n, e.size()); for (auto &x : e) s += strf(" %d-%d", x.first, x.second); return s; }
uint64_t SG::hash() const { uint64_t h = (uint64_t)n * 7919; for (auto &x : eset()) h = mix64(h, (uint64_t)x.first * 1000003u + (uint64_t)x.second); return h; }

SG permuted(const SG &g, Rng &r, vector<int> *perm) {
    vector<int> p(g.n); for (int i = 0; i < g.n; i++) p[i] = i + 1; r.shuffle(p);
    vector<int> map1(g.n + 1); for (int i = 0; i < g.n; i++) map1[i + 1] = p[i];
    SG o(g.n); for (auto &x : g.e) { int a = map1[x.first], b = map1[x.second]; if (r.chance(1, 2)) std::swap(a, b); o.add(a, b); }
    r.shuffle(o.e); if (perm) *perm = map1; return o;
}

// Random triangulation: insert vertices in random faces, then random diagonal flips.
SG genPlanarTri(Rng &r, int n) {
    SG g(n); if (n < 1) return g; if (n == 1) return g; if (n == 2) { g.add(1, 2); return g; }
    struct F { int a, b, c; }; vector<F> f; f.push_back({1, 2, 3}); f.push_back({1, 3, 2});
    set<Edge> es; auto E = [&](int a, int b) { return Edge(std::min(a, b), std::max(a, b)); };
    es.insert(E(1, 2)); es.insert(E(2, 3)); es.insert(E(1, 3));
    int mode = r.below(3);
    for (int v = 4; v <= n; v++) {
        int i = mode == 1 ? (int)f.size() - 1 - r.below(std::min<int>(3, (int)f.size())) : r.below((int)f.size());
        F t = f[i]; f[i] = {t.a, t.b, v}; f.push_back({t.b, t.c, v}); f.push_back({t.c, t.a, v});
        es.insert(E(v, t.a)); es.insert(E(v, t.b)); es.insert(E(v, t.c));
    }
    if (n >= 5) {
        map<Edge, int> opp; // directed edge -> face index
        auto reg = [&](int i) { opp[Edge(f[i].a, f[i].b)] = i; opp[Edge(f[i].b, f[i].c)] = i; opp[Edge(f[i].c, f[i].a)] = i; };
        for (int i = 0; i < (int)f.size(); i++) reg(i);
        int flips = r.chance(1, 4) ? 0 : r.below(4 * n + 1);
        for (int k = 0; k < flips; k++) {
            int i = r.below((int)f.size()); F t = f[i]; int rot = r.below(3);
            int a = rot == 0 ? t.a : rot == 1 ? t.b : t.c, b = rot == 0 ? t.b : rot == 1 ? t.c : t.a, c = rot == 0 ? t.c : rot == 1 ? t.a : t.b;
            auto it = opp.find(Edge(b, a)); if (it == opp.end()) continue; int j = it->second; if (j == i) continue; F u = f[j];
            int d = (u.a != a && u.a != b) ? u.a : (u.b != a && u.b != b) ? u.b : u.c;
            if (d == c || es.count(E(c, d))) continue;
            es.erase(E(a, b)); es.insert(E(c, d)); opp.erase(Edge(a, b)); opp.erase(Edge(b, a));
            f[i] = {a, d, c}; f[j] = {d, b, c}; reg(i); reg(j);
        }
    }
    for (auto &x : es) g.e.push_back(x);
    return g;
}
SG genPlanar(Rng &r, int n) {
    SG g = genPlanarTri(r, n); int keep = r.range(20, 100); r.shuffle(g.e);
    g.e.resize(g.e.size() * keep / 100); return g;
}
SG genOuterplanar(Rng &r, int n) {
    SG g(n); if (n < 2) return g; if (n == 2) { g.add(1, 2); return g; }
    vector<int> cyc; for (int i = 1; i <= n; i++) { cyc.push_back(i); g.add(i, i % n + 1); }
    std::function<void(int, int)> tri = [&](int a, int b) { // polygon a..b
        if (b - a < 2) return; int c = r.range(a + 1, b - 1); if (c - a >= 2) g.add(a, c); if (b - c >= 2) g.add(c, b); tri(a, c); tri(c, b); };
    if (n <= 100000) tri(1, n);
    g.simplify(); r.shuffle(g.e); if (r.chance(2, 3)) g.e.resize(g.e.size() * r.range(40, 100) / 100); return g;
}
SG genSeriesParallel(Rng &r, int n) {
    SG g(n); if (n < 2) return g; vector<Edge> act; act.push_back(Edge(1, 2)); g.add(1, 2);
    int style = r.below(3);
    for (int v = 3; v <= n; v++) { Edge x = style == 0 ? act[r.below((int)act.size())] : style == 1 ? act[(int)act.size() - 1 - r.below(std::min<int>(4, (int)act.size()))] : act[r.below(std::min<int>(3, (int)act.size()))];
        g.add(x.first, v); g.add(v, x.second); act.push_back(Edge(x.first, v)); act.push_back(Edge(v, x.second)); }
    int drop = r.below(4); if (drop) { r.shuffle(g.e); g.e.resize(g.e.size() * (drop == 1 ? 95 : drop == 2 ? 80 : 60) / 100); }
    return g;
}
SG genTree(Rng &r, int n) { SG g(n); int style = r.below(3); for (int v = 2; v <= n; v++) g.add(style == 0 ? r.range(1, v - 1) : style == 1 ? std::max(1, v - 1 - r.below(3)) : r.range(1, std::min(v - 1, 3)), v); return g; }
SG genRandom(Rng &r, int n, int m) {
    SG g(n); ll mx = (ll)n * (n - 1) / 2; if (m > mx) m = (int)mx; set<Edge> s;
    if ((ll)m * 2 > mx) { vector<Edge> all; for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) all.push_back(Edge(i, j)); r.shuffle(all); all.resize(m); g.e = all; return g; }
    while ((int)s.size() < m) { int a = r.range(1, n), b = r.range(1, n); if (a == b) continue; if (a > b) std::swap(a, b); if (s.insert(Edge(a, b)).second) g.add(a, b); }
    return g;
}
SG Kn(int n) { SG g(n); for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) g.add(i, j); return g; }
SG Kab(int a, int b) { SG g(a + b); for (int i = 1; i <= a; i++) for (int j = 1; j <= b; j++) g.add(i, a + j); return g; }
SG cycleG(int n) { SG g(n); for (int i = 1; i < n; i++) g.add(i, i + 1); if (n > 2) g.add(1, n); return g; }
SG pathG(int n) { SG g(n); for (int i = 1; i < n; i++) g.add(i, i + 1); return g; }
SG gridG(int a, int b) { SG g(a * b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { int v = i * b + j + 1; if (j + 1 < b) g.add(v, v + 1); if (i + 1 < a) g.add(v, v + b); } return g; }
SG wheelG(int n) { SG g(n); for (int i = 2; i <= n; i++) { g.add(1, i); int j = i == n ? 2 : i + 1; if (i != j) g.add(i, j); } g.simplify(); return g; }

SG genNamed(Rng &r, int size, string *name) {
    int k = r.below(24); SG g; string nm; int s = std::max(4, size);
    switch (k) {
    case 0: g = Kn(std::min(s, r.range(3, 9))); nm = "K_n"; break;
    case 1: { int a = r.range(2, 5); g = Kab(a, std::max(2, std::min(s - a, 12))); nm = "K_ab"; break; }
    case 2: g = cycleG(s); nm = "cycle"; break;
    case 3: g = pathG(s); nm = "path"; break;
    case 4: { int a = r.range(2, 5); g = gridG(a, std::max(2, s / a)); nm = "grid"; break; }
    case 5: g = wheelG(s); nm = "wheel"; break;
    case 6: { int h = s / 2; g = SG(2 * h); for (int i = 1; i <= h; i++) { g.add(i, i % h + 1); g.add(h + i, h + i % h + 1); g.add(i, h + i); } nm = "prism"; break; }
    case 7: { int h = s / 2; g = SG(2 * h); for (int i = 1; i <= h; i++) { g.add(i, i % h + 1); g.add(h + i, h + i % h + 1); g.add(i, h + i); g.add(i, h + i % h + 1); } nm = "antiprism"; break; }
    case 8: { g = cycleG(2 * (s / 2)); int h = s / 2; for (int i = 1; i <= h; i++) g.add(i, i + h); nm = "mobius"; break; }
    case 9: { int h = std::max(3, s / 2), t = r.range(1, std::max(1, (h - 1) / 2)); g = SG(2 * h); for (int i = 0; i < h; i++) { g.add(i + 1, (i + 1) % h + 1); g.add(i + 1, h + i + 1); g.add(h + i + 1, h + (i + t) % h + 1); } nm = "genPetersen"; break; }
    case 10: { int d = s >= 32 ? 5 : s >= 16 ? 4 : 3; g = SG(1 << d); for (int i = 0; i < (1 << d); i++) for (int b = 0; b < d; b++) if (!(i >> b & 1)) g.add(i + 1, (i | 1 << b) + 1); nm = "cube"; break; }
    case 11: { int a = std::max(3, s / 4), b = std::max(3, s / a); g = SG(a * b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { g.add(i * b + j + 1, i * b + (j + 1) % b + 1); g.add(i * b + j + 1, ((i + 1) % a) * b + j + 1); } nm = "torusgrid"; break; }
    case 12: { // nested triangles / polygons
        int w = r.range(3, 5), l = std::max(2, s / w); g = SG(w * l); for (int i = 0; i < l; i++) for (int j = 0; j < w; j++) { g.add(i * w + j + 1, i * w + (j + 1) % w + 1); if (i + 1 < l) { g.add(i * w + j + 1, (i + 1) * w + j + 1); if (r.chance(1, 2)) g.add(i * w + j + 1, (i + 1) * w + (j + 1) % w + 1); } } nm = "nested"; break; }
    case 13: { int a = 2; g = Kab(a, s - 2); nm = "K_2n"; if (r.chance(1, 2)) g.add(1, 2); break; }
    case 14: { // Halin
        g = genTree(r, std::max(4, s)); vector<int> deg(g.n + 1); for (auto &x : g.e) deg[x.first]++, deg[x.second]++; vector<int> lv; vector<vector<int>> a = g.adj(); std::function<void(int, int)> dfs = [&](int v, int p) { if (deg[v] == 1) lv.push_back(v); for (int w : a[v]) if (w != p) dfs(w, v); }; dfs(1, 0); for (size_t i = 0; i < lv.size(); i++) g.add(lv[i], lv[(i + 1) % lv.size()]); nm = "halin"; break; }
    case 15: { g = SG(s); for (int i = 1; i <= s; i++) for (int d = 1; d <= 3; d++) if (i + d <= s) g.add(i, i + d); nm = "3-path power"; break; }
    case 16: { g = SG(s); for (int i = 1; i <= s; i++) for (int d = 1; d <= 2; d++) g.add(i, (i + d - 1) % s + 1); nm = "circulant12"; break; }
    case 17: { // icosahedron
        static const int ic[30][2] = {{1,2},{1,3},{1,4},{1,5},{1,6},{2,3},{3,4},{4,5},{5,6},{6,2},{2,7},{2,8},{3,8},{3,9},{4,9},{4,10},{5,10},{5,11},{6,11},{6,7},{7,8},{8,9},{9,10},{10,11},{11,7},{12,7},{12,8},{12,9},{12,10},{12,11}};
        g = SG(12); for (auto &x : ic) g.add(x[0], x[1]); nm = "icosahedron"; break; }
    case 18: { // cactus of cycles
        g = SG(1); while (g.n < s) { int a = r.range(1, g.n), L = r.range(2, 6), p = a; for (int i = 0; i < L; i++) { g.n++; g.add(p, g.n); p = g.n; } if (r.chance(4, 5)) g.add(p, a); } nm = "cactus"; break; }
    case 19: { // k-tree-like: random 3-tree
        g = Kn(4); vector<vector<int>> tri = {{1,2,3},{1,2,4},{1,3,4},{2,3,4}}; while (g.n < s) { vector<int> t = tri[r.below((int)tri.size())]; g.n++; for (int x : t) g.add(x, g.n); tri.push_back({t[0], t[1], g.n}); tri.push_back({t[0], t[2], g.n}); tri.push_back({t[1], t[2], g.n}); } nm = "3-tree"; break; }
    case 20: { // random cubic multigraph simplified
        g = SG(s & ~1); vector<int> st; for (int i = 1; i <= g.n; i++) for (int j = 0; j < 3; j++) st.push_back(i); r.shuffle(st); for (size_t i = 0; i + 1 < st.size(); i += 2) g.add(st[i], st[i + 1]); nm = "cubic"; break; }
    case 21: { // fan / double fan
        g = SG(s); for (int i = 2; i <= s; i++) { g.add(1, i); if (i < s) g.add(i, i + 1); } nm = "fan"; break; }
    case 22: { // caterpillar / star
        g = SG(s); int spine = r.range(1, std::max(1, s / 2)); for (int i = 2; i <= spine; i++) g.add(i - 1, i); for (int i = spine + 1; i <= s; i++) g.add(r.range(1, spine), i); nm = "caterpillar"; break; }
    default: { // ladder with crossing rungs
        int h = s / 2; g = SG(2 * h); for (int i = 1; i <= h; i++) { if (i < h) { g.add(i, i + 1); g.add(h + i, h + i + 1); } g.add(i, h + i); if (i < h && r.chance(1, 5)) g.add(i, h + i + 1); } nm = "ladder"; break; }
    }
    g.simplify(); if (name) *name = nm; return g;
}
SG subdivide(const SG &g0, Rng &r, int extra) {
    SG g = g0; for (int k = 0; k < extra && !g.e.empty(); k++) { int i = r.below((int)g.e.size()); Edge x = g.e[i]; g.n++; g.e[i] = Edge(x.first, g.n); g.add(g.n, x.second); } return g;
}
SG glue(Rng &r, const SG &a, const SG &b, int k, int dropEdge) {
    SG g(a.n); g.e = a.e; vector<int> m(b.n + 1, 0);
    if (k == 1 && a.n && b.n) m[r.range(1, b.n)] = r.range(1, a.n);
    if (k == 2 && !a.e.empty() && !b.e.empty()) {
        Edge x = a.e[r.below((int)a.e.size())], y = b.e[r.below((int)b.e.size())]; if (r.chance(1, 2)) std::swap(y.first, y.second);
        m[y.first] = x.first; m[y.second] = x.second;
    }
    Edge shared(0, 0); { vector<int> q; for (int v = 1; v <= b.n; v++) if (m[v]) q.push_back(m[v]); if (q.size() == 2) shared = Edge(std::min(q[0], q[1]), std::max(q[0], q[1])); }
    for (int v = 1; v <= b.n; v++) if (!m[v]) m[v] = ++g.n;
    for (auto &x : b.e) g.add(m[x.first], m[x.second]);
    g.simplify();
    if (dropEdge && shared.first) { vector<Edge> o; for (auto &x : g.e) if (Edge(std::min(x.first, x.second), std::max(x.first, x.second)) != shared) o.push_back(x); g.e = o; }
    return g;
}
// flavour: 0 any, 1 K3,3-free (planar pieces and K5), 2 K2,3-free (outerplanar blocks and K4), 3 mostly planar
SG genGlued(Rng &r, int target, int flavour) {
    SG g; bool first = true; int guard = 0;
    while ((first || g.n < target) && guard++ < 400) {
        SG p; int k = r.below(10); int left = std::max(4, target - g.n);
        if (flavour == 2) { p = k < 6 ? Kn(4) : k < 8 ? cycleG(r.range(3, 6)) : genOuterplanar(r, std::min(left, r.range(3, 9))); if (p.e.empty()) p = pathG(2); }
        else if (flavour == 1) p = k < 5 ? Kn(5) : k < 7 ? genPlanarTri(r, std::min(left, r.range(4, 12))) : k < 8 ? Kn(4) : k < 9 ? cycleG(r.range(3, 6)) : genPlanar(r, std::min(left, r.range(4, 12)));
        else if (flavour == 3) p = k < 1 ? Kn(5) : k < 6 ? genPlanarTri(r, std::min(left, r.range(4, 12))) : k < 8 ? Kn(4) : k < 9 ? cycleG(r.range(3, 6)) : genPlanar(r, std::min(left, r.range(4, 12)));
        else p = k < 2 ? Kn(5) : k < 4 ? Kab(3, 3) : k < 6 ? genPlanarTri(r, std::min(left, r.range(4, 10))) : k < 7 ? Kn(4) : k < 8 ? genNamed(r, std::min(left, 10)) : k < 9 ? cycleG(r.range(3, 6)) : genRandom(r, 6, r.range(8, 12));
        if (flavour == 1 && r.chance(1, 3)) p = subdivide(p, r, r.below(4));
        if (first) { g = p; first = false; continue; }
        int s = r.below(20); int kk = flavour == 2 ? (s < 1 ? 0 : 1) : (s < 1 ? 0 : s < 6 ? 1 : 2);
        g = glue(r, g, p, kk, r.chance(1, 2));
    }
    if (r.chance(1, 5)) g.n += r.range(1, 3);
    return g;
}
// a base graph whose edges are replaced again and again by larger pieces: flavour 1 = K5, planar pieces and paths, flavour 4 = series-parallel pieces
SG genExpanded(Rng &r, const SG &base, int target, int flavour) {
    SG g = base; int guard = 0; int pathy = r.range(1, 6);
    while (g.n < target && !g.e.empty() && guard++ < 300) {
        int i = r.below((int)g.e.size()); Edge x = g.e[i]; bool keep = r.chance(1, 3); SG p;
        if (r.below(10) < pathy) { int m = ++g.n; g.e[i] = Edge(x.first, m); g.add(m, x.second); continue; }
        if (flavour == 1) p = r.chance(2, 3) ? Kn(5) : r.chance(1, 2) ? genPlanarTri(r, r.range(4, 7)) : Kn(4);
        else p = r.chance(1, 2) ? genOuterplanar(r, r.range(3, 7)) : r.chance(1, 2) ? genSeriesParallel(r, r.range(3, 7)) : cycleG(r.range(3, 4));
        if (p.e.empty()) continue;
        if (flavour == 1 && r.chance(1, 4)) p = subdivide(p, r, r.range(1, 3));
        int j = r.below((int)p.e.size()); vector<int> m(p.n + 1, 0); m[p.e[j].first] = x.first; m[p.e[j].second] = x.second;
        for (int v = 1; v <= p.n; v++) if (!m[v]) m[v] = ++g.n;
        if (!keep) g.e.erase(g.e.begin() + i);
        for (int k = 0; k < (int)p.e.size(); k++) if (k != j) g.add(m[p.e[k].first], m[p.e[k].second]);
    }
    g.simplify(); return g;
}
SG genNearPlanar(Rng &r, int n, int extra) {
    SG g = r.chance(1, 2) ? genPlanarTri(r, n) : genPlanar(r, n); int tries = 0; set<Edge> s = g.eset();
    while (extra > 0 && tries++ < 1000 && n >= 2) { int a = r.range(1, n), b = r.range(1, n); if (a == b) continue; if (a > b) std::swap(a, b); if (s.insert(Edge(a, b)).second) { g.add(a, b); extra--; } }
    return g;
}
SG genAny(Rng &r, int maxN, string *name) {
    int n; { int z = r.below(10); n = z < 1 ? r.range(1, std::min(5, maxN)) : z < 4 ? r.range(std::min(4, maxN), std::min(14, maxN)) : z < 8 ? r.range(std::min(10, maxN), std::max(std::min(10, maxN), maxN / 2)) : r.range(maxN / 2, maxN); if (n < 1) n = 1; }
    SG g; string nm; int k = r.below(18);
    switch (k) {
    case 0: g = genPlanarTri(r, n); nm = "triangulation"; break;
    case 1: case 2: g = genPlanar(r, n); nm = "planar"; break;
    case 3: g = genOuterplanar(r, n); nm = "outerplanar"; break;
    case 4: g = genSeriesParallel(r, n); nm = "series-parallel"; break;
    case 5: g = genNearPlanar(r, n, r.range(1, 3)); nm = "near-planar"; break;
    case 6: { int m = n <= 1 ? 0 : (int)std::min<ll>((ll)n * (n - 1) / 2, n * r.range(5, 40) / 10); g = genRandom(r, n, m); nm = "random"; break; }
    case 7: case 8: g = genGlued(r, n, 0); nm = "glued"; break;
    case 9: g = genGlued(r, n, 1); nm = "glued-K33free"; break;
    case 10: g = genGlued(r, n, 2); nm = "glued-K23free"; break;
    case 11: case 12: g = genNamed(r, n, &nm); break;
    case 13: { g = r.chance(1, 2) ? Kn(5) : Kab(3, 3); g = subdivide(g, r, std::max(0, n - g.n)); nm = "subdivided-kuratowski"; if (r.chance(1, 2)) g = glue(r, g, genPlanar(r, r.range(3, 8)), r.range(0, 2), 0); break; }
    case 14: g = genTree(r, n); nm = "tree"; break;
    case 15: { SG b; switch (r.below(8)) { case 0: b = Kab(3, 3); break; case 1: b = Kn(6); break; case 2: b = Kn(r.range(4, 7)); break; case 3: b = genRandom(r, 6, r.range(10, 14)); break; case 4: b = genRandom(r, 7, r.range(12, 18)); break; case 5: b = genNamed(r, r.range(4, 9)); break; case 6: b = genNearPlanar(r, r.range(5, 9), 1); break; default: b = genPlanarTri(r, r.range(4, 9)); }
        g = genExpanded(r, b, std::max(n, b.n + 1), 1); nm = "expanded"; break; }
    case 16: { SG b; switch (r.below(5)) { case 0: b = Kn(4); break; case 1: b = Kab(2, 3); break; case 2: b = genOuterplanar(r, r.range(3, 8)); break; case 3: b = genSeriesParallel(r, r.range(3, 8)); break; default: b = genPlanar(r, r.range(4, 9)); }
        g = genExpanded(r, b, std::max(n, b.n + 1), 4); nm = "expanded-sp"; break; }
    default: { g = genNamed(r, n / 2 + 2, &nm); g = subdivide(g, r, r.below(n / 2 + 1)); g = glue(r, g, genNamed(r, n / 3 + 3), r.range(0, 2), r.below(2)); nm = "mixed " + nm; break; }
    }
    g.simplify();
    if (r.chance(1, 12)) g.n += r.range(1, 2);
    if (!r.chance(1, 5)) g = permuted(g, r);
    if (name) *name = nm;
    return g;
}

// Large graphs whose answer is known by construction: either a large member of the class of `algo`, or one with an obstruction planted
// (a subdivision with long paths sharing some vertices with the rest, or an edge added to a maximal member).
SG genLarge(Rng &r, int algo, int lo, int hi, int &truth, string *name) {
    double f = r.below(1 << 20) / double(1 << 20); int n = (int)(lo * pow((double)hi / lo, f)); SG g; string nm; bool maximal = false;
    auto outer = [&](int n) { SG h; switch (r.below(6)) { case 0: h = genTree(r, n); break; case 1: h = pathG(n); break; case 2: h = cycleG(n); break; case 3: { h = SG(n); for (int i = 2; i <= n; i++) { h.add(1, i); if (i < n) h.add(i, i + 1); } break; }
        case 4: { h = SG(1); while (h.n < n) { int a = r.chance(1, 2) ? h.n : r.range(1, h.n), L = r.range(2, 8), p = a; for (int i = 0; i < L; i++) { h.n++; h.add(p, h.n); p = h.n; } if (r.chance(4, 5)) h.add(p, a); } break; } default: h = genOuterplanar(r, n); } return h; };
    auto append = [&](SG &h, const SG &p, int share) { vector<int> m(p.n + 1, 0); if (share && h.n) m[r.range(1, p.n)] = r.chance(1, 2) ? h.n : r.range(1, h.n); for (int v = 1; v <= p.n; v++) if (!m[v]) m[v] = ++h.n; for (auto &x : p.e) h.add(m[x.first], m[x.second]); };
    int k = r.below(8);
    if (k == 0) { nm = "large outerplanar"; g = outer(n); }
    else if (k == 1) { nm = "large many parts"; int top = r.range(2, 30); while (g.n < n) { SG p = algo == A_P || algo == A_D || algo == A_33 ? genPlanar(r, r.range(1, top)) : algo == A_4 ? genSeriesParallel(r, r.range(1, top)) : outer(r.range(1, top)); append(g, p, r.below(2)); } }
    else if (algo == A_O || algo == A_23) {
        if (k <= 3 && algo == A_23) { nm = "large K23-free"; while (g.n < n) append(g, r.chance(1, 2) ? Kn(4) : outer(r.range(2, 12)), r.below(20)); }
        else if (k <= 4) { nm = "large maximal outerplanar"; g = cycleG(n); vector<Edge> st(1, Edge(1, n)); bool fan = r.chance(1, 3); while (!st.empty()) { Edge x = st.back(); st.pop_back(); if (x.second - x.first < 2) continue; int c = fan ? x.first + 1 : r.range(x.first + 1, x.second - 1); if (c - x.first >= 2) { g.add(x.first, c); st.push_back(Edge(x.first, c)); } if (x.second - c >= 2) { g.add(c, x.second); st.push_back(Edge(c, x.second)); } } maximal = true; }
        else { nm = "large outerplanar"; g = outer(n); } }
    else if (algo == A_4) { nm = "large 2-tree"; g = SG(2); g.add(1, 2); vector<Edge> act(1, Edge(1, 2)); int style = r.below(3); while (g.n < n) { Edge x = act[style == 0 ? r.below((int)act.size()) : style == 1 ? (int)act.size() - 1 - r.below(std::min<int>(4, (int)act.size())) : r.below(std::min<int>(3, (int)act.size()))]; int v = ++g.n; g.add(x.first, v); g.add(x.second, v); act.push_back(Edge(x.first, v)); act.push_back(Edge(x.second, v)); } maximal = true; if (r.chance(1, 3)) { r.shuffle(g.e); g.e.resize(g.e.size() * r.range(50, 99) / 100); maximal = false; } }
    else if (algo == A_33 && k <= 4) { nm = "large K33-free"; g = genPlanarTri(r, 8); while (g.n < n) { int i = r.chance(1, 2) ? r.below((int)g.e.size()) : std::max(0, (int)g.e.size() - 1 - r.below(20)); SG p = r.chance(1, 2) ? Kn(5) : genPlanarTri(r, r.range(4, 30)); int j = r.below((int)p.e.size()); vector<int> m(p.n + 1, 0); m[p.e[j].first] = g.e[i].first; m[p.e[j].second] = g.e[i].second; for (int v = 1; v <= p.n; v++) if (!m[v]) m[v] = ++g.n; for (int q = 0; q < (int)p.e.size(); q++) if (q != j) g.add(m[p.e[q].first], m[p.e[q].second]); } }
    else switch (k) { case 2: nm = "large triangulation"; g = genPlanarTri(r, n); maximal = algo != A_33; break; case 3: nm = "large planar"; g = genPlanar(r, n); break; case 4: { nm = "large grid"; int a = r.range(2, (int)sqrt((double)n)); g = gridG(a, std::max(2, n / a)); break; }
        case 5: nm = "large K2n"; g = Kab(2, std::max(3, n - 2)); if (r.chance(1, 2)) g.add(1, 2); break; case 6: nm = "large wheel"; g = wheelG(n); break; default: nm = "large series-parallel"; g = genSeriesParallel(r, n); }
    g.simplify(); truth = 1;
    if (r.chance(1, 2)) { truth = 0;
        if (maximal && r.chance(1, 2)) { set<Edge> s = g.eset(); bool done = false; for (int t = 0; t < 50 && !done; t++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a > b) std::swap(a, b); if (a != b && !s.count(Edge(a, b))) { g.add(a, b); done = true; } } truth = done ? 0 : 1; nm += " plus an edge"; }
        else { SG w = algo == A_4 ? Kn(4) : algo == A_33 ? Kab(3, 3) : algo == A_23 ? Kab(2, 3) : algo == A_O ? (r.chance(1, 2) ? Kn(4) : Kab(2, 3)) : r.chance(1, 2) ? Kn(5) : Kab(3, 3);
            int extra = r.chance(1, 3) ? r.below(20) : r.below(std::max(1, n)); vector<Edge> paths = w.e; SG q(w.n); vector<int> cnt(paths.size(), 0); for (int i = 0; i < extra; i++) cnt[r.below((int)cnt.size())]++;
            for (size_t i = 0; i < paths.size(); i++) { int p = paths[i].first; for (int t = 0; t < cnt[i]; t++) { q.n++; q.add(p, q.n); p = q.n; } q.add(p, paths[i].second); }
            vector<int> m(q.n + 1, 0); set<int> taken; int share = r.chance(1, 2) ? r.below(4) : r.below(std::min(q.n, std::min(g.n, 60)) + 1); for (int t = 0; t < share; t++) { int v = r.range(1, q.n), x = r.range(1, g.n); if (m[v] || !taken.insert(x).second) continue; m[v] = x; }
            for (int v = 1; v <= q.n; v++) if (!m[v]) m[v] = ++g.n; for (auto &x : q.e) g.add(m[x.first], m[x.second]); g.simplify(); nm += " with a planted obstruction"; } }
    if (r.chance(1, 6)) g.n += r.range(1, 40);
    if (!r.chance(1, 4)) g = permuted(g, r); else nm += ", in order";
    if (name) *name = nm; return g;
}
