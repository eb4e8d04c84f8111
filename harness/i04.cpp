#include "textgen.hpp"
#include <climits>
extern "C" {
#include "io/g6-read-iterator.h"
}
// An independent strict reading of each format. GOOD: the text denotes `g`. BAD: it breaks the format.
// LOOSE: the format leaves it open; if it is read at all, it has to be read as `g`.
enum { BAD, GOOD, LOOSE };
struct Ref { int kind = BAD; SG g; set<Edge> arcs; int base = 1; string why; };
struct Cur { const string &t; size_t p; Cur(const string &s) : t(s), p(0) {} 
    bool num(ll &x) { while (p < t.size() && isspace((unsigned char)t[p])) p++; size_t q = p; bool neg = false; if (q < t.size() && (t[q] == '-' || t[q] == '+')) neg = t[q++] == '-'; if (q >= t.size() || !isdigit((unsigned char)t[q])) return false; x = 0; while (q < t.size() && isdigit((unsigned char)t[q])) { if (x < (1LL << 40)) x = x * 10 + (t[q] - '0'); q++; } if (neg) x = -x; p = q; return x >= INT_MIN && x <= INT_MAX; } };
static string coarse(const string &w) { string o; int sp = 0; for (char ch : w) { if (ch == ' ' && ++sp == 3) break; if (ch == '\'' || ch == '"' || ch == ':') break; if (isdigit((unsigned char)ch) || (unsigned char)ch < 32 || (unsigned char)ch > 126) continue; o += ch; } return o; }
static Ref bad(const string &w) { Ref r; r.why = w; return r; }
static Ref refList(const string &t) {
    Ref R; Cur c(t); ll n, x; if (t.compare(0, 2, "N=")) return bad("no N="); c.p = 2; if (!c.num(n) || n < 1) return bad("number of vertices"); vector<vector<int>> L; int base = -1;
    if (n > (ll)t.size()) return bad("more vertices than text"); R.g = SG((int)n);
    for (int v = 1; v <= n; v++) { if (!c.num(x)) return bad(strf("label %d missing", v)); if (base < 0) base = x == 0 ? 0 : 1; if (x != v - 1 + base) return bad(strf("label %lld for vertex %d", x, v)); if (c.p >= t.size() || t[c.p] != ':') return bad("no colon"); c.p++;
        while (true) { if (!c.num(x)) return bad(strf("list of vertex %d is not terminated", v)); if (x > n - 1 + base) return bad(strf("neighbour %lld out of range", x)); if (x < base) break; int w = (int)x - base + 1; if (w == v) return bad("self-loop"); if (!R.arcs.insert(Edge(v, w)).second) return bad("repeated neighbour"); } }
    set<Edge> es; for (auto &a : R.arcs) es.insert(Edge(std::min(a.first, a.second), std::max(a.first, a.second))); for (auto &e : es) R.g.add(e.first, e.second); R.base = base; R.kind = GOOD; return R;
}
static Ref refMatrix(const string &t) {
    Ref R; Cur c(t); ll n; if (!c.num(n) || n < 1) return bad("number of vertices"); if (n > 1 && n * (n - 1) / 2 > (ll)t.size()) return bad("too few entries"); R.g = SG((int)n);
    for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) { while (c.p < t.size() && isspace((unsigned char)t[c.p])) c.p++; if (c.p >= t.size()) return bad("too few entries"); char ch = t[c.p++]; if (ch == '1') R.g.add(i, j); else if (ch != '0') return bad(strf("entry '%c'", ch)); } R.kind = GOOD; return R;
}
static Ref refLeda(const string &t) {
    Ref R; vector<string> L; { string l; for (char ch : t) { l += ch; if (ch == '\n') { L.push_back(l); l.clear(); } } if (!l.empty()) L.push_back(l); } R.kind = GOOD; size_t i = 3; for (auto &l : L) if (l.size() > 250) { R.kind = LOOSE; } 
    auto one = [&](ll &x, bool pairLine, ll &y) { if (i >= L.size()) return false; Cur c(L[i]); if (!c.num(x)) return false; if (pairLine && !c.num(y)) return false; if (!pairLine) { while (c.p < L[i].size() && isspace((unsigned char)L[i][c.p])) c.p++; if (c.p < L[i].size()) R.kind = LOOSE; } else if (c.p < L[i].size() && !isspace((unsigned char)L[i][c.p])) R.kind = LOOSE; i++; return true; };
    ll n, m, u, v; if (R.kind == LOOSE) return bad("long line"); if (t.find('\0') != string::npos) R.kind = LOOSE; if (!one(n, false, v) || n < 1) return bad("number of vertices"); if (n > (ll)L.size()) return bad("too few lines"); i += (size_t)n; if (i > L.size()) return bad("too few lines"); R.g = SG((int)n); set<Edge> es;
    if (!one(m, false, v) || m < 0) return bad("number of edges"); for (ll k = 0; k < m; k++) { if (!one(u, true, v)) return bad("edge line"); if (u < 1 || u > n || v < 1 || v > n) return bad("edge endpoint out of range"); if (u != v && es.insert(Edge(std::min(u, v), std::max(u, v))).second) R.g.add((int)u, (int)v); }
    if (i < L.size()) R.kind = LOOSE; return R;
}
// the lines of a graph6 text; kinds per line
static Ref refLine(const string &line) { Ref R; SG g; if (g6decode(line, g) && g.n >= 1) { R.kind = GOOD; R.g = g; R.base = 0; return R; }
    if (line.size() >= 4 && line[0] == '~' && line[1] != '~') { int n = 0; for (int i = 1; i < 4; i++) { if (line[i] < 63 || line[i] > 126) return bad("order"); n = n << 6 | (line[i] - 63); } if (n >= 1 && n < 63 && g6decode(string(1, (char)(63 + n)) + line.substr(4), g)) { R.kind = LOOSE; R.g = g; R.base = 0; return R; } } // the order in a longer form than needed
    return bad("graph6 line"); }
static vector<Ref> refG6(const string &t0) { // one per line; the last may be BAD and ends the list
    vector<Ref> R; string t = t0; if (!t.empty() && t[0] == '>') { if (t.compare(0, 10, ">>graph6<<")) { R.push_back(bad("header")); return R; } t = t.substr(10); }
    size_t i = 0; bool first = true; bool loose = false; if (t.empty()) { R.push_back(bad("empty")); return R; }
    while (i < t.size()) { size_t j = t.find('\n', i); string l = t.substr(i, j == string::npos ? string::npos : j - i); i = j == string::npos ? t.size() : j + 1; size_t z = l.find('\0'); if (z != string::npos) { R.push_back(bad("NUL")); R.back().kind = LOOSE; R.back().g.n = -1; return R; }
        size_t cr = l.find('\r'); if (cr != string::npos) { if (cr == l.size() - 1 && cr > 0) { l.pop_back(); } else { Ref x; x.kind = LOOSE; x.g.n = -1; R.push_back(x); return R; } }   // anything goes from here
        if (l.empty()) { Ref x; x.kind = first ? BAD : LOOSE; x.g.n = -1; if (!first) for (size_t k = i; k < t.size(); k++) if (t[k] != '\n' && t[k] != '\r') x.kind = BAD; x.why = "blank line"; R.push_back(x); return R; }
        Ref x = refLine(l); if (x.kind != BAD && !first && R[0].g.n != x.g.n) x = bad("another order"); if (x.kind == LOOSE && !first) loose = true; R.push_back(x); if (x.kind == BAD) return R; first = false; }
    return R;
}
static string same(graphP g, const Ref &R, bool lists) {
    if (g->N != R.g.n) return strf("%d vertices instead of %d", g->N, R.g.n); string w = structureError(g); if (!w.empty()) return w; w = sameEdges(R.g, sgOf(g)); if (!w.empty()) return w; if (g->M != (int)R.g.e.size()) return strf("M=%d", g->M);
    if (lists) { auto L = arcLists(g); set<Edge> a; for (int v = 1; v <= g->N; v++) for (int e : L[v]) if (gp_GetDirection(g, e) != EDGEFLAG_DIRECTION_INONLY) a.insert(Edge(v, gp_GetNeighbor(g, e))); if (a != R.arcs) return "the directions differ"; if (((g->internalFlags & FLAGS_ZEROBASEDIO) != 0) != (R.base == 0)) return "the numbering base differs"; }
    return "";
}
static void run(Ctx &c) {
    Rng &r = c.rng; size_t lim = vf_max_request; vf_max_request = (size_t)16 << 20; SG s = genAny(r, r.chance(1, 10) ? 70 : 9); s.simplify(); if (s.n < 1) s = SG(r.range(1, 5)); if (r.chance(1, 30)) s = SG(r.range(1, 4));
    int kind = r.below(4); string t = tgText(c, kind, s); bool damaged = !r.chance(1, 15); string what;
    if (damaged) {
        if (kind == T_G6 && r.chance(1, 3)) { // damage particular to the format
            size_t h = t.compare(0, 10, ">>graph6<<") == 0 ? 10 : 0; vector<size_t> at(1, h); for (size_t i = h; i + 1 < t.size(); i++) if (t[i] == '\n') at.push_back(i + 1); size_t a = at[r.below((int)at.size())], b = t.find_first_of("\r\n", a); if (b == string::npos) b = t.size();
            switch (r.below(6)) { case 0: { SG o = genAny(r, 9); if (o.n < 1) o = SG(2); o.simplify(); t.replace(a, b - a, g6encode(o)); what = "another graph in its place"; break; } case 1: if (b > a) { t[b - 1] = (char)(((t[b - 1] - 63) | 1 << r.below(6)) + 63); what = "padding or last bits"; } break; case 2: t.insert(b, 1, (char)r.range(63, 126)); what = "longer"; break; case 3: if (b > a) t.erase(b - 1, 1); what = "shorter"; break; case 4: if (b > a) { t[a] = (char)(t[a] + (r.chance(1, 2) ? 1 : -1)); what = "order"; } break; default: if (h) t.erase(r.below(10), 1); else t.insert(a, 1, ":;&>"[r.below(4)]); what = "header or prefix"; } }
        else if (kind == T_LIST && r.chance(1, 2)) { // a number replaced by a plausible one
            vector<pair<size_t, size_t>> ns; for (size_t i = 0; i < t.size();) if (isdigit((unsigned char)t[i])) { size_t j = i; while (j < t.size() && isdigit((unsigned char)t[j])) j++; ns.push_back({i, j - i}); i = j; } else i++; auto &x = ns[r.below((int)ns.size())]; t.replace(x.first, x.second, strf("%d", r.range(-1, s.n + 1))); what = "number replaced"; }
        else { int k = r.chance(2, 3) ? 1 : r.range(2, 5); for (int i = 0; i < k; i++) tgDamage(r, t); what = "damaged"; } }
    bool it = kind == T_G6 && r.chance(1, 2); int how = r.below(2); if (how == 1 && t.find('\0') != string::npos) t = t.substr(0, t.find('\0'));
    string hist = strf("kind %d %s %s (%s): ", kind, it ? "stream" : "single", how ? "string" : "file", damaged ? what.c_str() : "valid") + hexOf(t, 1200) + " \"" + t.substr(0, 300) + "\""; c.note(hist);
    string p = c.scratch + "/i04.txt"; if (how == 0) writeFile(p, t); GraphHolder g(gp_New()); if (!g.g) return; c.distinct(mix64(hashStr(t), it * 2 + how)); c.sample(strf("kind %d %s: ", kind, damaged ? what.c_str() : "valid") + t.substr(0, 160));
    if (!it) {
        Ref R; bool lists = false; string f = t.substr(0, std::min<size_t>(t.find('\n'), 254)); if (f.compare(0, 10, "LEDA.GRAPH") == 0) { R = how ? bad("LEDA from a string") : refLeda(t); if (how == 1) R.kind = LOOSE, R.g.n = -1; } else if (f.compare(0, 2, "N=") == 0) { R = refList(t); lists = true; } else if (!f.empty() && isdigit((unsigned char)f[0])) R = refMatrix(t); else { auto v = refG6(t); R = v[0]; }
        int rc = how ? gp_ReadFromString(g, vfDup(t)) : gp_Read(g, (char *)p.c_str());
        if (rc == OK) { if (R.kind == BAD) c.fail("malformed-accepted", R.why + "; read as " + sgOf(g).str() + "; " + hist); else if (R.g.n >= 0) { string w = same(g, R, lists); if (!w.empty()) c.fail("misread", w + "; " + hist); } c.count(R.kind == GOOD ? "good_accepted" : "loose_accepted"); }
        else { if (R.kind == GOOD && R.g.n <= 100000) c.fail("well-formed-refused", strf("result %d; ", rc) + hist); c.count(R.kind == BAD ? "malformed_refused" : "loose_refused"); if (R.kind == BAD) c.count(("why: " + coarse(R.why)).c_str()); }
    } else {
        auto V = refG6(t); G6ReadIterator *ri = NULL; if (allocateG6ReadIterator(&ri, g) != OK) return; string pc = p; int rc; if (how) { char *d = vfDup(t); if (t.empty()) { vf_free(d); rc = NOTOK; } else rc = beginG6ReadIterationFromG6String(ri, d); } else rc = beginG6ReadIterationFromG6FilePath(ri, &pc[0]); size_t k = 0; bool open = false;
        while (rc == OK) { rc = readGraphUsingG6ReadIterator(ri); graphP q = 0; getPointerToGraphReadIn(ri, &q); if (rc != OK || !q) break; if (k >= V.size()) { c.fail("stream-extra-graph", strf("graph %d; ", (int)k + 1) + hist); break; } if (V[k].g.n < 0 && V[k].kind == LOOSE) { open = true; break; } if (V[k].kind == BAD) { c.fail("malformed-accepted", strf("line %d: ", (int)k + 1) + V[k].why + "; read as " + sgOf(g).str() + "; " + hist); break; } string w = same(g, V[k], false); if (!w.empty()) { c.fail("misread", strf("line %d: ", (int)k + 1) + w + "; " + hist); break; } k++; c.count("stream_graphs_read"); }
        if (!open && !c.fails) { int num = -1; getNumGraphsRead(ri, &num); bool loose = false; for (size_t q = 0; q <= k && q < V.size(); q++) if (V[q].kind == LOOSE) loose = true; bool hasBad = k < V.size() && V[k].kind == BAD;
            if (rc == OK && k < V.size() && !loose) c.fail(hasBad ? "malformed-stream-accepted" : "stream-cut-short", strf("%d graphs read; ", (int)k) + hist); if (rc != OK && !hasBad && !loose) c.fail("well-formed-refused", strf("after %d graphs; ", (int)k) + hist); if (num != (int)k && !loose) c.fail("stream-count", strf("%d instead of %d; ", num, (int)k) + hist); c.count(rc == OK ? "streams_accepted" : "streams_refused"); }
        freeG6ReadIterator(&ri);
    }
    vf_max_request = lim;
}
const Prop PROP = {"I04", 300000, 3000000, 20, "distinct texts, mostly damaged ones, whose reading is compared with an independent strict reading of the format: refused when malformed, the same graph when well-formed", run};
