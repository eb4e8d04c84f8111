#include "common.hpp"
// Work = control-flow edges the library executes (plus words moved by memset/memcpy) while the algorithm runs.
extern "C" { extern unsigned long vf_work;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { vf_work++; } }
static void tri(SG &g, Rng &r, int n, int mode) { // stacked triangulation: uniform, recent face, one hub
    struct F { int a, b, c; }; vector<F> f{{1, 2, 3}, {1, 3, 2}}; g = SG(n); g.add(1, 2); g.add(2, 3); g.add(1, 3);
    for (int v = 4; v <= n; v++) { int i = mode == 0 ? r.below((int)f.size()) : mode == 1 ? (int)f.size() - 1 : mode == 2 ? 0 : (int)f.size() - 1 - r.below(std::min<int>(20, (int)f.size())); F t = f[i]; f[i] = {t.a, t.b, v}; f.push_back({t.b, t.c, v}); f.push_back({t.c, t.a, v}); g.add(v, t.a); g.add(v, t.b); g.add(v, t.c); }
}
static void sub(SG &g, Rng &r, double keep) { r.shuffle(g.e); g.e.resize((size_t)(g.e.size() * keep)); }
static void piece(SG &g, int a, int b, const SG &p, bool keepAB) { // glue p on g, its vertices 1,2 at a,b (b = 0: only vertex 1)
    vector<int> m(p.n + 1, 0); m[1] = a; if (b) m[2] = b; for (int v = 1; v <= p.n; v++) if (!m[v]) m[v] = ++g.n;
    for (auto &x : p.e) { if (b && x == Edge(1, 2)) { if (!keepAB) continue; } g.add(m[x.first], m[x.second]); }
}
static void randomExtra(SG &g, Rng &r, int k) { std::unordered_set<ll> s; for (auto &x : g.e) s.insert((ll)std::min(x.first, x.second) * (g.n + 1) + std::max(x.first, x.second)); while (k > 0) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a == b) continue; if (a > b) std::swap(a, b); if (s.insert((ll)a * (g.n + 1) + b).second) { g.add(a, b); k--; } } }
static SG Kminus(int n) { SG k = Kn(n); return k; }
static SG subdiv(const SG &a, int lo, int hi, Rng &r, bool keep12) { SG g(a.n); for (auto &x : a.e) { int k = keep12 && x == Edge(1, 2) ? 0 : r.range(lo, hi), p = x.first; while (k-- > 0) { g.n++; g.add(p, g.n); p = g.n; } g.add(p, x.second); } return g; }
static SG seriesParallel(Rng &r, int n) { SG g(2); vector<Edge> a{Edge(1, 2)}; while (g.n < n) { Edge x = a[r.below((int)a.size())]; int v = ++g.n; g.add(x.first, v); g.add(v, x.second); a.push_back(Edge(x.first, v)); a.push_back(Edge(v, x.second)); } return g; }
static void bundles(SG &g, const SG &core, int n, const std::function<SG()> &p) { g = SG(core.n); if (core.e.empty()) return; for (size_t i = 0;; i++) { SG x = p(); if (g.n + x.n - 2 > n && i >= core.e.size()) break; Edge e = core.e[i % core.e.size()]; piece(g, e.first, e.second, x, false); } }
// what a search finds at its end (in the component of vertex 1, that is processed last), after many reductions elsewhere
static void finalPiece(SG &g, const SG &fin, const SG &rest) { g = fin; int o = g.n; g.n += rest.n; for (auto &x : rest.e) g.add(o + x.first, o + x.second); }
static const int NF = 78;
static SG family(int f, int n, Rng &r, string &nm) {
    SG g(n);
    switch (f) {
#define F(k, name) break; case k: nm = name;
    F(0, "stacked") tri(g, r, n, 0);
    F(1, "stacked-deep") tri(g, r, n, 1);
    F(2, "stacked-hub") tri(g, r, n, 2);
    F(3, "stacked-local") tri(g, r, n, 3);
    F(4, "planar-60%") tri(g, r, n, 3); sub(g, r, 0.6);
    F(5, "grid") { int a = 2; while (a * a < n) a++; g = gridG(a, n / a); }
    F(6, "strip") g = gridG(3, n / 3);
    F(7, "path") g = pathG(n);
    F(8, "cycle") g = cycleG(n);
    F(9, "star") for (int i = 2; i <= n; i++) g.add(1, i);
    F(10, "tree") for (int i = 2; i <= n; i++) g.add(r.range(1, i - 1), i);
    F(11, "binary-tree") for (int i = 2; i <= n; i++) g.add(i / 2, i);
    F(12, "caterpillar") { int h = n / 2; for (int i = 2; i <= h; i++) g.add(i - 1, i); for (int i = h + 1; i <= n; i++) g.add(i - h, i); }
    F(13, "wheel") for (int i = 2; i <= n; i++) { g.add(1, i); g.add(i, i == n ? 2 : i + 1); }
    F(14, "K2n") g = Kab(2, n - 2);
    F(15, "K2n+edge") g = Kab(2, n - 2); g.add(1, 2);
    F(16, "fan") for (int i = 2; i <= n; i++) { g.add(1, i); if (i < n) g.add(i, i + 1); }
    F(17, "double-fan") for (int i = 3; i <= n; i++) { g.add(1, i); g.add(2, i); if (i < n) g.add(i, i + 1); }
    F(18, "nested-triangles") { int l = n / 3; g = SG(3 * l); for (int i = 0; i < l; i++) for (int j = 0; j < 3; j++) { g.add(3 * i + j + 1, 3 * i + (j + 1) % 3 + 1); if (i + 1 < l) g.add(3 * i + j + 1, 3 * i + j + 4); } }
    F(19, "prism") { int h = n / 2; g = SG(2 * h); for (int i = 1; i <= h; i++) { g.add(i, i % h + 1); g.add(h + i, h + i % h + 1); g.add(i, h + i); } }
    F(20, "antiprism") { int h = n / 2; g = SG(2 * h); for (int i = 1; i <= h; i++) { g.add(i, i % h + 1); g.add(h + i, h + i % h + 1); g.add(i, h + i); g.add(i, h + i % h + 1); } }
    F(21, "series-parallel") { vector<Edge> a{Edge(1, 2)}; g.add(1, 2); for (int v = 3; v <= n; v++) { Edge x = a[r.below((int)a.size())]; g.add(x.first, v); g.add(v, x.second); a.push_back(Edge(x.first, v)); a.push_back(Edge(v, x.second)); } }
    F(22, "series-parallel-deep") { vector<Edge> a{Edge(1, 2)}; g.add(1, 2); for (int v = 3; v <= n; v++) { Edge x = a[a.size() - 1 - r.below(std::min<int>(4, (int)a.size()))]; g.add(x.first, v); g.add(v, x.second); a.push_back(Edge(x.first, v)); a.push_back(Edge(v, x.second)); } }
    F(23, "series-parallel-70%") { vector<Edge> a{Edge(1, 2)}; g.add(1, 2); for (int v = 3; v <= n; v++) { Edge x = a[r.below((int)a.size())]; g.add(x.first, v); g.add(v, x.second); a.push_back(Edge(x.first, v)); a.push_back(Edge(v, x.second)); } sub(g, r, 0.7); }
    F(24, "cactus") { g = SG(1); while (g.n < n) { int a = r.range(1, g.n), L = r.range(2, 6), p = a; for (int i = 0; i < L; i++) { g.n++; g.add(p, g.n); p = g.n; } g.add(p, a); } }
    F(25, "outerplanar") { for (int i = 1; i < n; i++) g.add(i, i + 1); g.add(1, n); vector<Edge> st{Edge(1, n)}; while (!st.empty()) { Edge x = st.back(); st.pop_back(); if (x.second - x.first < 2) continue; int c = r.range(x.first + 1, x.second - 1); if (c - x.first > 1) g.add(x.first, c); if (x.second - c > 1) g.add(c, x.second); st.push_back(Edge(x.first, c)); st.push_back(Edge(c, x.second)); } }
    F(26, "outerplanar-zigzag") { for (int i = 1; i < n; i++) g.add(i, i + 1); int a = 1, b = n; g.add(a, b); for (int k = 0; b - a > 2; k++) { if (k & 1) a++; else b--; g.add(a, b); } }
    F(27, "nested-arcs") { for (int i = 1; i < n; i++) g.add(i, i + 1); for (int i = 1; i < n / 2 - 1; i++) g.add(i, n + 1 - i); }
    F(28, "two-sided-arcs") { for (int i = 1; i < n; i++) g.add(i, i + 1); for (int i = 1; i + 3 <= n; i += 2) g.add(i, i + 3); for (int i = 3; i < n; i += 5) g.add(1, i); }
    F(29, "disjoint-K4") { g = SG(n / 4 * 4); for (int b = 0; b + 4 <= n; b += 4) for (int i = 1; i <= 4; i++) for (int j = i + 1; j <= 4; j++) g.add(b + i, b + j); }
    F(30, "K4-chain") { g = SG(1); while (g.n + 3 <= n) piece(g, g.n, 0, Kn(4), true); }
    F(31, "K4-cut-tree") { g = SG(1); while (g.n + 3 <= n) piece(g, r.range(1, g.n), 0, Kn(4), true); }
    F(32, "K4-2sum-tree") { g = Kn(4); vector<Edge> a = g.e; while (g.n + 2 <= n) { Edge x = a[r.below((int)a.size())]; size_t k = g.e.size(); piece(g, x.first, x.second, Kn(4), false); for (; k < g.e.size(); k++) a.push_back(g.e[k]); } }
    F(33, "stacked+1") tri(g, r, n, 0); randomExtra(g, r, 1);
    F(34, "stacked-deep+1") tri(g, r, n, 1); g.add(1, n);
    F(35, "planar60%+n/20") tri(g, r, n, 3); sub(g, r, 0.6); randomExtra(g, r, n / 20);
    F(36, "K5-subdivided") { g = SG(5); SG k = Kn(5); int per = (n - 5) / 10; for (auto &x : k.e) { int p = x.first; for (int i = 0; i < per; i++) { g.n++; g.add(p, g.n); p = g.n; } g.add(p, x.second); } }
    F(37, "K33-subdivided") { g = SG(6); SG k = Kab(3, 3); int per = (n - 6) / 9; for (auto &x : k.e) { int p = x.first; for (int i = 0; i < per; i++) { g.n++; g.add(p, g.n); p = g.n; } g.add(p, x.second); } }
    F(38, "torus-grid") { int a = 3; while (a * a < n) a++; int b = n / a; g = SG(a * b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { g.add(i * b + j + 1, i * b + (j + 1) % b + 1); g.add(i * b + j + 1, ((i + 1) % a) * b + j + 1); } }
    F(39, "random-sparse") randomExtra(g, r, n * 6 / 10);
    F(40, "random-2n") randomExtra(g, r, n * 2);
    F(41, "random-3n") randomExtra(g, r, n * 3 - 6);
    F(42, "moebius") { int h = n / 2; g = cycleG(2 * h); for (int i = 1; i <= h; i++) g.add(i, i + h); }
    F(43, "K5-cut-chain") { g = SG(1); while (g.n + 4 <= n) piece(g, g.n, 0, Kn(5), true); }
    F(44, "K5-cut-tree") { g = SG(1); while (g.n + 4 <= n) piece(g, r.range(1, g.n), 0, Kn(5), true); }
    F(45, "K5-2sum-tree") { g = Kn(5); vector<Edge> a = g.e; while (g.n + 3 <= n) { Edge x = a[r.below((int)a.size())]; size_t k = g.e.size(); piece(g, x.first, x.second, Kn(5), false); for (; k < g.e.size(); k++) a.push_back(g.e[k]); } }
    F(46, "K5-2sum-chain") { g = Kn(5); Edge x(1, 2); while (g.n + 3 <= n) { size_t k = g.e.size(); piece(g, x.first, x.second, Kn(5), false); x = g.e[k + 8]; } }
    F(47, "K5-2sum-same-edge") { g = Kn(5); while (g.n + 3 <= n) piece(g, 1, 2, Kn(5), false); }
    F(48, "stacked-with-K5") { tri(g, r, n / 4, 0); vector<Edge> a = g.e; for (size_t i = 0; i < a.size() && g.n + 3 <= n; i++) piece(g, a[i].first, a[i].second, Kn(5), false); }
    F(49, "K5-2sum-removed") { g = Kn(5); vector<Edge> a = g.e; while (g.n + 3 <= n) { int i = r.below((int)a.size()); Edge x = a[i]; a[i] = a.back(); a.pop_back(); size_t k = g.e.size(); piece(g, x.first, x.second, Kn(5), false); for (; k < g.e.size(); k++) a.push_back(g.e[k]); auto it = std::find(g.e.end() - std::min<size_t>(g.e.size(), 40), g.e.end(), x); if (it != g.e.end()) g.e.erase(it); } }
    F(50, "stacked-then-K33") { tri(g, r, n - 4, 1); g.n = n - 4; piece(g, n - 4, n - 5, Kab(3, 3), true); }
    F(51, "cubic") { g = SG(n & ~1); vector<int> st; for (int i = 1; i <= g.n; i++) for (int j = 0; j < 3; j++) st.push_back(i); r.shuffle(st); for (size_t i = 0; i + 1 < st.size(); i += 2) g.add(st[i], st[i + 1]); g.simplify(); }
    F(52, "K2n-subdivided") { g = SG(2); while (g.n + 3 <= n) { g.add(1, g.n + 1); g.add(g.n + 1, g.n + 2); g.add(g.n + 2, g.n + 3); g.add(g.n + 3, 2); g.n += 3; } }
    F(53, "hub-of-cycles") { g = SG(1); while (g.n + 5 <= n) { int s = g.n; g.n += 5; g.add(1, s + 1); for (int i = 1; i < 5; i++) g.add(s + i, s + i + 1); g.add(s + 5, 1); } }
    F(54, "edgeless") ;
    F(55, "3-tree") { g = Kn(4); vector<vector<int>> t = {{1,2,3},{1,2,4},{1,3,4},{2,3,4}}; while (g.n < n) { vector<int> q = t[r.below((int)t.size())]; g.n++; for (int x : q) g.add(x, g.n); t.push_back({q[0], q[1], g.n}); t.push_back({q[0], q[2], g.n}); t.push_back({q[1], q[2], g.n}); } }
    F(56, "outerplanar+1") { for (int i = 1; i < n; i++) g.add(i, i + 1); g.add(1, n); vector<Edge> st{Edge(1, n)}; while (!st.empty()) { Edge x = st.back(); st.pop_back(); if (x.second - x.first < 2) continue; int c = r.range(x.first + 1, x.second - 1); if (c - x.first > 1) g.add(x.first, c); if (x.second - c > 1) g.add(c, x.second); st.push_back(Edge(x.first, c)); st.push_back(Edge(c, x.second)); } randomExtra(g, r, 1); }
    F(57, "bundle-of-K33s") { g = SG(1); while (g.n + 5 <= n) piece(g, g.n, 0, Kab(3, 3), true); }
    F(58, "K33-one-edge-of-K5s") { g = Kab(3, 3); Edge x(2, 5); g.e.erase(std::find(g.e.begin(), g.e.end(), x)); /* the pair is not where the search starts, so that the reductions come before the end of the search */ SG q = subdiv(Kn(5), 1, 2, r, true); while (g.n + q.n <= n) { piece(g, x.first, x.second, q, false); q = subdiv(Kn(5), 1, 2, r, true); } }
    F(59, "K33-edges-of-K5s") bundles(g, Kab(3, 3), n, [&] { return subdiv(Kn(5), 0, 2, r, true); });
    F(60, "K4-one-edge-of-paths") { g = Kn(4); g.e.erase(std::find(g.e.begin(), g.e.end(), Edge(2, 3))); while (g.n + 4 <= n) piece(g, 2, 3, subdiv(seriesParallel(r, 3), 1, 1, r, true), false); }
    F(61, "K4-edges-series-parallel") bundles(g, Kn(4), n, [&] { return seriesParallel(r, 8); });
    F(62, "K4-big-edges-series-parallel") bundles(g, Kn(4), n, [&] { return seriesParallel(r, std::max(3, n / 7)); });
    F(63, "K4-chain-then-K23") { g = SG(1); while (g.n + 8 <= n) piece(g, g.n, 0, Kn(4), true); piece(g, g.n, 0, Kab(2, 3), true); }
    F(64, "K33-edges-stacked") bundles(g, Kab(3, 3), n, [&] { SG t; tri(t, r, std::max(4, n / 12), 0); return t; });
    F(65, "K5-edges-stacked") bundles(g, Kn(5), n, [&] { SG t; tri(t, r, std::max(4, n / 13), 0); return t; });
    F(66, "K4s-one-cut-vertex") { g = SG(1); while (g.n + 3 <= n) piece(g, 1, 0, Kn(4), true); }
    F(67, "K5s-one-cut-vertex") { g = SG(1); while (g.n + 4 <= n) piece(g, 1, 0, Kn(5), true); }
    F(68, "subdivided-K5s-one-pair") { g = SG(2); SG q = subdiv(Kn(5), 1, 2, r, true); while (g.n + q.n <= n) { piece(g, 1, 2, q, false); q = subdiv(Kn(5), 1, 2, r, true); } }
    F(69, "K4s-one-edge") { g = Kn(4); while (g.n + 2 <= n) piece(g, 1, 2, Kn(4), false); }
    F(70, "fan-of-K5s") { g = SG(2); g.add(1, 2); while (g.n + 9 <= n) { int a = g.n; g.n++; g.add(a, g.n); int b = g.n; piece(g, 1, b, subdiv(Kn(5), 0, 1, r, true), true); std::swap(a, b); g.add(b, ++g.n); } }
    F(71, "fan-of-series-parallel") { g = SG(2); g.add(1, 2); while (g.n + 9 <= n) { int a = ++g.n; g.add(a - 1, a); piece(g, 1, a, seriesParallel(r, 6), false); g.add(a, ++g.n); } }
    F(72, "K5-one-edge-of-planar") { g = Kn(5); g.e.erase(std::find(g.e.begin(), g.e.end(), Edge(2, 3))); while (g.n + 6 <= n) { SG t; tri(t, r, 6, 0); piece(g, 2, 3, t, false); } }
    F(73, "K33-and-K5s-of-one-pair") { SG t(2); SG q = subdiv(Kn(5), 1, 2, r, true); while (t.n + q.n + 6 <= n) { piece(t, 1, 2, q, false); q = subdiv(Kn(5), 1, 2, r, true); } finalPiece(g, Kab(3, 3), t); }
    F(74, "K33-and-K5-2sum-tree") { SG t = Kn(5); vector<Edge> a = t.e; while (t.n + 15 <= n) { int i = r.below((int)a.size()); Edge x = a[i]; size_t k = t.e.size(); SG q = Kn(5); q.add(2, 6); q.add(6, 3); q.n = 6; q.e.erase(std::find(q.e.begin(), q.e.end(), Edge(2, 3))); piece(t, x.first, x.second, q, false); for (; k < t.e.size(); k++) if (r.chance(1, 3)) a.push_back(t.e[k]); } finalPiece(g, Kab(3, 3), t); }
    F(75, "K4-and-paths-of-one-pair") { SG t(2); while (t.n + 8 <= n) piece(t, 1, 2, subdiv(seriesParallel(r, 4), 1, 1, r, true), false); finalPiece(g, Kn(4), t); }
    F(76, "K4-and-fan-of-series-parallel") { SG t(2); t.add(1, 2); while (t.n + 16 <= n) { int a = ++t.n; t.add(a - 1, a); piece(t, 1, a, subdiv(seriesParallel(r, 4), 0, 1, r, true), false); t.add(a, ++t.n); } finalPiece(g, Kn(4), t); }
    F(77, "K4-and-series-parallel") finalPiece(g, Kn(4), seriesParallel(r, n - 4));
    break; default: nm = "?"; }
    return g;
}
static double unitWork(Ctx &c, const SG &g, int algo, int &verdict) {
    graphP h = newSized(g.n, (int)g.e.size()); if (!h) { c.fail("build", "no graph"); return -1; }
    GraphHolder H(h); if (attachFor(h, algo) != OK) { c.fail("build", "attach"); return -1; }
    for (auto &x : g.e) if ((c.rng.chance(1, 2) ? gp_AddEdge(h, x.first, 0, x.second, 0) : gp_AddEdge(h, x.second, 0, x.first, 0)) != OK) { c.fail("build", "add"); return -1; }
    vf_work = 0; verdict = gp_Embed(h, embedFlagsOf(algo)); unsigned long w = vf_work;
    if (verdict != OK && verdict != NONEMBEDDABLE) { c.fail("error-result", strf("gp_Embed returned %d", verdict)); return -1; }
    c.count("runs_measured"); c.count("control_flow_edges_counted", (ll)w); c.maxi("largest_N", g.n); c.maxi("largest_M", (ll)g.e.size());
    return (double)w / (g.n + (double)g.e.size());
}
static void run(Ctx &c) {
    Rng &r = c.rng; int combo = (int)(c.idx % (NF * 2 * A_COUNT)); int algo = combo % A_COUNT, f = combo / A_COUNT % NF, perm = combo / A_COUNT / NF; string nm;
    auto mk = [&](int n) { SG g = family(f, n, r, nm); if (perm) g = permuted(g, r); return g; };
    double small = 0; int v = 0, vb = 0; int reps = 6; string meas;
    c.note(strf("%s family %d order %d", algoName(algo), f, perm));
    for (int n : {150, 300, 600}) for (int k = 0; k < reps; k++) { double w = unitWork(c, mk(n), algo, v); if (w < 0) return; small = std::max(small, w); }
    // families whose result depends on where a random edge falls vary more between instances
    bool luck = (f >= 33 && f <= 35) || (f >= 38 && f <= 41) || f == 51 || f == 56; double limit = luck ? 4 : 2.2;
    int big = c.thorough ? 400000 : 60000; if (getenv("VF_C10_N")) big = atoi(getenv("VF_C10_N"));
    for (int n : {big / 4, big}) { SG g = mk(n); double w = unitWork(c, g, algo, vb); if (w < 0) return; c.maxi("worst_growth_percent", (ll)(100 * w / small));
        if (w > limit * small && w > 30) { c.fail(strf("superlinear:%s", algoName(algo)), strf("%s on family %s (order %d): %.1f control-flow edges per vertex and edge at N=%d M=%zu, at most %.1f at N<=600", algoName(algo), nm.c_str(), perm, w, g.n, g.e.size(), small)); return; }
        if (getenv("VF_C10_CAL")) printf("CAL %s %s perm%d n=%d small=%.1f w=%.1f ratio=%.2f verdict %d\n", algoName(algo), nm.c_str(), perm, n, small, w, w / small, vb); }
    c.distinct(mix64((uint64_t)combo, (uint64_t)c.idx)); c.sample(strf("%s on %s", algoName(algo), nm.c_str()));
}
const Prop PROP = {"C10", 936, 936 * 3, 120, "distinct (family, vertex order, algorithm) measurements: work per vertex and edge of large instances compared with small ones", run};
