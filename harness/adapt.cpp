// Bridges between the plain graphs of the monitors and the library's graph objects, and the judgements
// made about a graph object from what it shows through its public accessors.
#include "common.hpp"

static const int FLAGS[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_DRAWPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4};
static const char *NAMES[] = {"planarity", "outerplanarity", "drawing", "K2,3 search", "K3,3 search", "K4 search"};
int embedFlagsOf(int a) { return FLAGS[a]; }
const char *algoName(int a) { return NAMES[a]; }
int attachFor(graphP g, int a) {
    switch (a) { case A_D: return gp_AttachDrawPlanar(g); case A_23: return gp_AttachK23Search(g); case A_33: return gp_AttachK33Search(g); case A_4: return gp_AttachK4Search(g); default: return OK; }
}
graphP newSized(int n, int capEdges) {
    graphP g = gp_New(); if (!g) return 0;
    if (capEdges > 3 * n && gp_EnsureArcCapacity(g, 2 * capEdges) != OK) { gp_Free(&g); return 0; }
    if (gp_InitGraph(g, n) != OK) { gp_Free(&g); return 0; }
    return g;
}
graphP buildGraph(const SG &in, const BuildOpt &o) {
    graphP g;
    if (o.ensureAfter) { g = gp_New(); if (!g) return 0; if (gp_InitGraph(g, in.n) != OK) { gp_Free(&g); return 0; } if ((int)in.e.size() > 3 * in.n && gp_EnsureArcCapacity(g, 2 * (int)in.e.size()) != OK) { gp_Free(&g); return 0; } }
    else g = newSized(in.n, std::max(o.capacityEdges, (int)in.e.size()));
    if (!g) return 0;
    for (auto &x : in.e) {
        int a = o.linkMode == 1 ? 1 : o.linkMode == 2 && o.rng ? o.rng->below(2) : 0, b = o.linkMode == 1 ? 1 : o.linkMode == 2 && o.rng ? o.rng->below(2) : 0;
        if (gp_AddEdge(g, x.first, a, x.second, b) != OK) { gp_Free(&g); return 0; }
    }
    return g;
}
string structureError(graphP g) {
    int N = g->N; int bound = gp_EdgeIndexBound(g); vector<int> owner(bound + 2, 0); ll arcs = 0;
    for (int v = 1; v <= N + g->NV; v++) {
        int e = gp_GetFirstArc(g, v), prev = NIL;
        if (!gp_IsArc(e) && gp_IsArc(gp_GetLastArc(g, v))) return strf("vertex %d has a last but no first edge", v);
        while (gp_IsArc(e)) {
            if (e < 2 || e >= bound) return strf("vertex %d lists edge index %d outside %d..%d", v, e, 2, bound - 1);
            if (owner[e]) return strf("edge record %d is listed twice (vertices %d and %d)", e, owner[e], v);
            owner[e] = v; arcs++;
            if (gp_GetPrevArc(g, e) != prev) return strf("edge record %d of vertex %d: previous is %d, not %d", e, v, gp_GetPrevArc(g, e), prev);
            prev = e; e = gp_GetNextArc(g, e);
        }
        if (gp_GetLastArc(g, v) != prev) return strf("vertex %d: last edge is %d, list ends at %d", v, gp_GetLastArc(g, v), prev);
    }
    for (int e = 2; e < bound; e++) if (owner[e]) {
        if (!owner[gp_GetTwinArc(g, e)]) return strf("edge record %d is listed but its twin is not", e);
        if (gp_GetNeighbor(g, e) != owner[gp_GetTwinArc(g, e)]) return strf("edge record %d names neighbour %d but its twin is in the list of %d", e, gp_GetNeighbor(g, e), owner[gp_GetTwinArc(g, e)]);
    }
    if (arcs != 2LL * g->M) return strf("%lld edge records are listed but the edge count is %d", arcs, g->M);
    return "";
}
vector<vector<int>> arcLists(graphP g) {
    vector<vector<int>> r(g->N + 1); ll guard = (ll)gp_EdgeIndexBound(g) + 4;
    for (int v = 1; v <= g->N; v++) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e) && guard > 0; e = gp_GetNextArc(g, e)) { r[v].push_back(e); guard--; }
    return r;
}
SG sgOf(graphP g) {
    SG s(g->N); auto L = arcLists(g);
    for (int v = 1; v <= s.n; v++) for (int e : L[v]) if (!(e & 1)) s.add(v, gp_GetNeighbor(g, e));
    return s;
}
string sameEdges(const SG &want, const SG &got) {
    if (want.n != got.n) return strf("%d vertices instead of %d", got.n, want.n);
    set<Edge> a = want.eset(), b = got.eset();
    for (auto &x : a) if (!b.count(x)) return strf("edge %d-%d is missing", x.first, x.second);
    for (auto &x : b) if (!a.count(x)) return strf("edge %d-%d is not an edge of the input", x.first, x.second);
    if (want.e.size() != got.e.size()) return strf("%zu edges instead of %zu", got.e.size(), want.e.size());
    return "";
}
string subsetEdges(const SG &sub, const SG &of) {
    if (sub.n != of.n) return strf("%d vertices instead of %d", sub.n, of.n);
    set<Edge> b = of.eset(); for (auto &x : sub.e) if (!b.count(Edge(std::min(x.first, x.second), std::max(x.first, x.second)))) return strf("edge %d-%d is not an edge of the input", x.first, x.second);
    return "";
}
string embeddingError(graphP g, bool outer) {
    auto L = arcLists(g); int n = g->N, bound = gp_EdgeIndexBound(g); vector<int> posIn(bound + 2, -1), own(bound + 2, 0);
    for (int v = 1; v <= n; v++) for (size_t i = 0; i < L[v].size(); i++) { posIn[L[v][i]] = (int)i; own[L[v][i]] = v; }
    SG s = sgOf(g); vector<int> comp = componentsOf(s); int nc = 0; for (int v = 1; v <= n; v++) nc = std::max(nc, comp[v] + 1);
    vector<ll> nv(nc, 0), ne(nc, 0), nf(nc, 0), big(nc, 0); for (int v = 1; v <= n; v++) nv[comp[v]]++; for (auto &x : s.e) ne[comp[x.first]]++;
    vector<char> seen(bound + 2, 0); vector<int> st(n + 1, 0); int stamp = 0;
    for (int v = 1; v <= n; v++) for (int e0 : L[v]) if (!seen[e0]) {
        int e = e0; ll dv = 0; ++stamp;
        do { seen[e] = 1; int u = own[e]; if (st[u] != stamp) { st[u] = stamp; dv++; } int t = gp_GetTwinArc(g, e), w = own[t]; e = L[w][(posIn[t] + 1) % L[w].size()]; } while (e != e0 && !seen[e]);
        if (e != e0) return "face traversal does not close"; nf[comp[v]]++; big[comp[v]] = std::max(big[comp[v]], dv);
    }
    for (int c = 0; c < nc; c++) { if (ne[c] == 0) continue; if (nv[c] - ne[c] + nf[c] != 2) return strf("component with %lld vertices, %lld edges has %lld faces: not a planar rotation", nv[c], ne[c], nf[c]);
        if (outer && big[c] != nv[c]) return strf("no face holds all %lld vertices of a component (largest has %lld)", nv[c], big[c]); }
    return "";
}
string dumpGraph(graphP g, bool withFlags) {
    string s = strf("N=%d M=%d\n", g->N, g->M); auto L = arcLists(g);
    for (int v = 1; v <= g->N; v++) { s += strf("%d[%d]:", v, gp_GetVertexIndex(g, v)); for (int e : L[v]) { s += strf(" %d(e%d)", gp_GetNeighbor(g, e), e); if (withFlags) s += strf("/%d", gp_GetDirection(g, e)); } s += "\n"; }
    return s;
}
char *vfDup(const string &s) { char *p = (char *)vf_malloc(s.size() + 1); if (p) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } return p; }
int truthOf(const SG &g, int a) {
    switch (a) { case A_P: case A_D: return oraclePlanar(g); case A_O: return oracleOuterplanar(g); case A_23: return !oracleHasK23(g); case A_33: return !oracleHasK33(g); default: return !oracleHasK4(g); }
}
string judge(graphP g, const SG &in, int a, int verdict, int truth) {
    if (verdict != OK && verdict != NONEMBEDDABLE) return strf("%s returned %d", algoName(a), verdict);
    if (truth >= 0 && (verdict == OK) != (truth == 1)) return strf("%s answered %s but the truth is %s", algoName(a), verdict == OK ? "embeddable/none" : "not embeddable/found", truth ? "embeddable/none" : "not embeddable/present");
    if (g->N != in.n) return "vertex count changed";
    bool search = a == A_23 || a == A_33 || a == A_4;
    if (verdict == OK && search) return "";
    if (a == A_D && verdict == NONEMBEDDABLE) return "";   // only the refusal is promised
    string e = structureError(g); if (!e.empty()) return "result graph is malformed: " + e;
    SG got = sgOf(g);
    if (verdict == OK) {
        if (!(e = sameEdges(in, got)).empty()) return "result differs from the input: " + e;
        return embeddingError(g, a == A_O);
    }
    if (!(e = subsetEdges(got, in)).empty()) return "obstruction is not part of the input: " + e;
    string why, k = homeomorphKind(got, &why);
    bool ok = a == A_P ? k == "K5" || k == "K33" : a == A_O ? k == "K4" || k == "K23" : a == A_23 ? k == "K23" : a == A_33 ? k == "K33" : k == "K4";
    if (!ok) return strf("the subgraph left is not the required obstruction: %s (%s)", k.empty() ? "none" : k.c_str(), why.c_str()) + " " + got.str();
    return "";
}
static Edge ord(int a, int b) { return Edge(std::min(a, b), std::max(a, b)); }
string drawingError(const SG &in, const Drawing &d) {
    int n = in.n, m = (int)in.e.size(); vector<int> usedR(n, 0), usedC(std::max(1, m), 0);
    if ((int)d.vpos.size() != n + 1) return "vertex entries missing";
    for (int v = 1; v <= n; v++) {
        if (d.vpos[v] < 0 || d.vpos[v] >= n) return strf("vertex %d has row %d of %d", v, d.vpos[v], n);
        if (usedR[d.vpos[v]]) return strf("vertices %d and %d share row %d", usedR[d.vpos[v]], v, d.vpos[v]); usedR[d.vpos[v]] = v;
        if (m > 0 && (d.vs[v] < 0 || d.vs[v] > d.ve[v] || d.ve[v] >= m)) return strf("vertex %d has column range %d..%d of %d", v, d.vs[v], d.ve[v], m);
    }
    if ((int)d.e.size() != m) return strf("%zu edge entries for %d edges", d.e.size(), m);
    for (auto &x : in.e) {
        auto it = d.e.find(ord(x.first, x.second)); if (it == d.e.end()) return strf("no entry for edge %d-%d", x.first, x.second);
        int p = it->second[0], s = it->second[1], t = it->second[2];
        if (p < 0 || p >= m) return strf("edge %d-%d has column %d of %d", x.first, x.second, p, m);
        if (usedC[p]++) return strf("column %d is shared (edge %d-%d)", p, x.first, x.second);
        int a = d.vpos[x.first], b = d.vpos[x.second];
        if (s != std::min(a, b) || t != std::max(a, b)) return strf("edge %d-%d spans rows %d..%d, endpoints are at %d and %d", x.first, x.second, s, t, a, b);
        for (int v : {x.first, x.second}) if (p < d.vs[v] || p > d.ve[v]) return strf("edge %d-%d at column %d is outside vertex %d (%d..%d)", x.first, x.second, p, v, d.vs[v], d.ve[v]);
        for (int r = s + 1; r < t; r++) { int v = usedR[r]; if (d.vs[v] <= p && p <= d.ve[v]) return strf("edge %d-%d crosses vertex %d", x.first, x.second, v); }
    }
    return "";
}
string renderError(const SG &in, const Drawing &d, const string &pic, int base) {
    int n = in.n, m = (int)in.e.size();
    if (m == 0) return "";
    if (pic.size() != (size_t)(m + 1) * 2 * n) return strf("picture has %zu characters instead of %zu", pic.size(), (size_t)(m + 1) * 2 * n);
    auto at = [&](int r, int c) { return pic[(size_t)r * (m + 1) + c]; };
    vector<string> want(2 * n, string(m, ' ')); vector<string> free_(2 * n, string(m, ' '));
    vector<int> vAt(n, 0); for (int v = 1; v <= n; v++) vAt[d.vpos[v]] = v;
    for (auto &x : d.e) { int p = x.second[0], s = x.second[1], t = x.second[2]; for (int r = s; r < t; r++) { want[2 * r + 1][p] = '|'; if (r > s) want[2 * r][p] = '|'; } }
    for (int r = 0; r < 2 * n; r++) if (at(r, m) != '\n') return strf("row %d does not end in a line break", r);
    for (int r = 0; r < n; r++) {
        int v = vAt[r]; string lab = strf("%d", v - (base == 0 ? 1 : 0)); int w = d.ve[v] - d.vs[v] + 1; bool narrow = w < (int)lab.size();
        string seg; for (int c = d.vs[v]; c <= d.ve[v]; c++) seg += at(2 * r, c);
        if (!narrow) {
            size_t i = seg.find_first_not_of('-'); if (i == string::npos) return strf("vertex %d has no label", v);
            if (seg.compare(i, lab.size(), lab) != 0 || seg.find_first_not_of('-', i + lab.size()) != string::npos) return strf("vertex %d is shown as '%s'", v, seg.c_str());
        } else { for (char ch : seg) if (ch == ' ' || ch == '|') return strf("vertex %d is shown as '%s'", v, seg.c_str()); }
        for (int c = 0; c < m; c++) {
            if (c < d.vs[v] || c > d.ve[v]) { if (at(2 * r, c) != want[2 * r][c]) return strf("row of vertex %d column %d shows '%c' instead of '%c'", v, c, at(2 * r, c), want[2 * r][c]); }
            char b = at(2 * r + 1, c), k = want[2 * r + 1][c];
            if (b != k && !(narrow && k == ' ' && c >= d.vs[v] && c <= d.ve[v] && b == lab.back())) return strf("row below vertex %d column %d shows '%c' instead of '%c'", v, c, b, k);
        }
    }
    return "";
}
// Parses adjacency-list text by the documented format. rawE gets {index,pos,start,end} per drawing edge line.
bool parseAdjListWithDrawing(const string &t, SG &out, vector<vector<int>> &lists, int &base, Drawing *d, vector<vector<int>> *rawE, string &why) {
    const char *p = t.c_str(); int n, used;
    if (sscanf(p, "N=%d%n", &n, &used) != 1 || n < 1 || n > 10000000) { why = "no N= line"; return false; } p += used;
    if (*p++ != '\n') { why = "N= line not ended"; return false; }
    lists.assign(n + 1, vector<int>()); base = -1;
    for (int v = 1; v <= n; v++) {
        int x; if (sscanf(p, "%d:%n", &x, &used) != 1) { why = strf("no line for vertex %d", v); return false; } p += used;
        if (v == 1) { if (x != 0 && x != 1) { why = "first vertex number"; return false; } base = x; }
        if (x != v - 1 + base) { why = strf("line of vertex %d is numbered %d", v, x); return false; }
        while (true) { if (sscanf(p, " %d%n", &x, &used) != 1) { why = strf("line of vertex %d not terminated", v); return false; } p += used; if (x == base - 1) break; if (x < base || x > n - 1 + base) { why = strf("neighbour %d out of range", x); return false; } lists[v].push_back(x - base + 1); }
        if (*p++ != '\n') { why = strf("line of vertex %d not ended", v); return false; }
    }
    out = SG(n); for (int v = 1; v <= n; v++) for (int w : lists[v]) if (v < w) out.add(v, w);
    for (int v = 1; v <= n; v++) for (int w : lists[v]) if (std::count(lists[w].begin(), lists[w].end(), v) != std::count(lists[v].begin(), lists[v].end(), w)) { why = strf("adjacency %d-%d is not symmetric", v, w); return false; }
    if (!d) { if (*p) { why = "text after the graph"; return false; } return true; }
    if (strncmp(p, "<DrawPlanar>\n", 13) != 0) { why = "no drawing section"; return false; } p += 13;
    d->vpos.assign(n + 1, 0); d->vs = d->ve = d->vpos; d->e.clear();
    for (int v = 1; v <= n; v++) { int x; if (sscanf(p, "%d: %d %d %d%n", &x, &d->vpos[v], &d->vs[v], &d->ve[v], &used) != 4 || x != v - 1 + base) { why = strf("drawing line of vertex %d", v); return false; } p += used; if (*p++ != '\n') { why = "drawing line not ended"; return false; } }
    while (strncmp(p, "</DrawPlanar>\n", 14) != 0) { vector<int> q(4); if (sscanf(p, "%d: %d %d %d%n", &q[0], &q[1], &q[2], &q[3], &used) != 4) { why = "drawing edge line"; return false; } p += used; if (*p++ != '\n') { why = "drawing line not ended"; return false; } if (rawE) rawE->push_back(q); }
    p += 14; if (*p) { why = "text after the drawing section"; return false; }
    return true;
}
string g6encode(const SG &g) {
    string s; int n = g.n; auto six = [&](ll x, int k) { for (int i = k - 1; i >= 0; i--) s += (char)(63 + ((x >> (6 * i)) & 63)); };
    if (n <= 62) six(n, 1); else if (n <= 258047) { s += '~'; six(n, 3); } else { s += "~~"; six(n, 6); }
    ll bits = (ll)n * (n - 1) / 2, chars = (bits + 5) / 6; string body((size_t)chars, (char)0);
    for (auto &x : g.e) { ll a = std::min(x.first, x.second) - 1, b = std::max(x.first, x.second) - 1; ll k = b * (b - 1) / 2 + a; body[(size_t)(k / 6)] |= (char)(1 << (5 - k % 6)); }
    for (char &c : body) c = (char)(c + 63); return s + body;
}
bool g6decode(const string &l, SG &o) {
    size_t p = 0; auto six = [&](int k, ll &x) { x = 0; for (int i = 0; i < k; i++) { if (p >= l.size() || l[p] < 63 || l[p] > 126) return false; x = x << 6 | (l[p++] - 63); } return true; };
    ll n; if (l.empty()) return false; if (l[0] != '~') { if (!six(1, n)) return false; } else if (l.size() > 1 && l[1] == '~') { p = 2; if (!six(6, n) || n < 258048) return false; } else { p = 1; if (!six(3, n) || n < 63) return false; }
    ll bits = n * (n - 1) / 2, chars = (bits + 5) / 6; if ((ll)l.size() != (ll)p + chars) return false; o = SG((int)n); size_t s = p;
    for (size_t i = s; i < l.size(); i++) if ((unsigned char)l[i] < 63 || (unsigned char)l[i] > 126) return false;
    ll k = 0; for (int b = 1; b < n; b++) for (int a = 0; a < b; a++, k++) if ((l[s + k / 6] - 63) >> (5 - k % 6) & 1) o.add(a + 1, b + 1);
    for (; k < chars * 6; k++) if ((l[s + k / 6] - 63) >> (5 - k % 6) & 1) return false;
    return true;
}
