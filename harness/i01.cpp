#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
// What a graph says to a reader of it: neighbour lists in link order with directions, numbering, sizes
struct View { int n = 0, m = 0, zero = 0; vector<vector<pair<int, int>>> l; };   // (neighbour, 0 both ways | 1 only in | 2 only out)
static View viewOf(graphP g) { View v; v.n = g->N; v.m = g->M; v.zero = (g->internalFlags & FLAGS_ZEROBASEDIO) != 0; auto L = arcLists(g); v.l.resize(v.n + 1);
    for (int i = 1; i <= v.n; i++) for (int e : L[i]) { int d = gp_GetDirection(g, e); v.l[i].push_back({gp_GetNeighbor(g, e), d == EDGEFLAG_DIRECTION_INONLY ? 1 : d == EDGEFLAG_DIRECTION_OUTONLY ? 2 : 0}); } return v; }
static string lst(const vector<pair<int, int>> &l) { string s; for (auto &p : l) s += strf(" %d%s", p.first, p.second == 1 ? "<" : p.second == 2 ? ">" : ""); return s; }
// order: 2 exact; 1 the order of the arcs that leave the vertex, the others as a set; 0 sets
static string diffView(const View &a, const View &b, int order, bool zero) {
    if (a.n != b.n) return strf("%d vertices became %d", a.n, b.n); if (a.m != b.m) return strf("%d edges became %d", a.m, b.m);
    if (zero && a.zero != b.zero) return strf("zero-based numbering %d became %d", a.zero, b.zero);
    for (int v = 1; v <= a.n; v++) { auto x = a.l[v], y = b.l[v]; string w = strf("vertex %d:", v) + lst(x) + " became" + lst(y);
        if (order == 2) { if (x != y) return w; continue; }
        if (order == 1) { vector<pair<int, int>> p, q; for (auto &t : x) if (t.second != 1) p.push_back(t); for (auto &t : y) if (t.second != 1) q.push_back(t); if (p != q) return w + " (order)"; }
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) return w; }
    return "";
}
static string outOf(graphP g, int mode, int how, const string &dir, bool &ok) {   // how: 0 file, 1 string, 2 stdout
    ok = false; string p = dir + "/i01out.txt";
    if (how == 1) { char *s = NULL; if (gp_WriteToString(g, &s, mode) != OK || !s) return ""; string t = s; vf_free(s); ok = true; return t; }
    unlink(p.c_str());
    if (how == 0) { if (gp_Write(g, (char *)p.c_str(), mode) != OK) return ""; return readFile(p, &ok); }
    fflush(stdout); int save = dup(1), fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 1); close(fd); int rc = gp_Write(g, (char *)"stdout", mode); fflush(stdout); dup2(save, 1); close(save); if (rc != OK) return ""; return readFile(p, &ok);
}
static int readBack(graphP g, const string &text, int how, const string &dir) {   // 0 file, 1 string, 2 stdin
    string p = dir + "/i01in.txt"; if (how == 1) return gp_ReadFromString(g, vfDup(text));
    writeFile(p, text); if (how == 0) return gp_Read(g, (char *)p.c_str());
    if (!freopen(p.c_str(), "r", stdin)) return NOTOK; int rc = gp_Read(g, (char *)"stdin"); if (!freopen("/dev/null", "r", stdin)) { } return rc;
}
// the text as tokens, by the documented format; lists in file order
static bool parseAdj(const string &t, View &v, string &why) {
    const char *p = t.c_str(); if (strncmp(p, "N=", 2)) { why = "no N="; return false; } char *q; v.n = (int)strtol(p + 2, &q, 10); p = q; v.l.assign(v.n + 1, {}); int base = -1;
    for (int i = 1; i <= v.n; i++) { int x = (int)strtol(p, &q, 10); if (q == p) { why = strf("no label %d", i); return false; } p = q; if (base < 0) base = x; if ((base != 0 && base != 1) || x != i - 1 + base || *p++ != ':') { why = strf("bad label %d", x); return false; }
        while (true) { int w = (int)strtol(p, &q, 10); if (q == p) { why = strf("unterminated list of %d", x); return false; } p = q; if (w < base) { if (w != base - 1) { why = "odd terminator"; return false; } break; } v.l[i].push_back({w - base + 1, 0}); } if (*p != '\n') { why = "no line end"; return false; } p++; }
    v.zero = base == 0; if (*p) { why = "more text follows"; return false; } return true;
}
static string ws(Rng &r, bool lines) { static const char *w[] = {" ", "  ", "\t", " \t ", "\n", "\r\n", " \n "}; return w[r.below(lines ? 7 : 4)]; }
static void fromLibrary(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = r.chance(1, 12) ? genAny(r, 150, &nm) : genAny(r, 20, &nm); in.simplify(); if (in.n < 1) return; if (c.idx % 1501 == 10) { in = genTree(r, r.range(1500, 40000)); nm = "large tree"; for (int k = r.below(200); k > 0; k--) { int a = r.range(1, in.n), b = r.range(1, in.n); if (a != b) in.add(a, b); } in.simplify(); c.count("large_graphs"); c.maxi("largest_order", in.n); } else if (r.chance(1, 15)) { in.n += r.range(1, 60); nm += "+isolated"; }
    BuildOpt o; o.linkMode = 2; o.rng = &r; GraphHolder g(buildGraph(in, o)); if (!g.g) { c.fail("build", "building the graph failed"); return; }
    string hist = nm + " " + in.str() + ":"; bool zero = r.chance(1, 2); if (zero) { g->internalFlags |= FLAGS_ZEROBASEDIO; hist += " zero-based"; }
    int feat = r.chance(1, 4) ? r.range(A_23, A_4) : -1; if (feat >= 0) { attachFor(g, feat); hist += strf(" +%s", algoName(feat)); }
    bool directed = false, embedded = false;
    if (r.chance(1, 4)) for (int k = r.range(1, 6); k > 0 && g->M > 0; k--) { vector<int> E; for (auto &l : arcLists(g)) for (int e : l) if (!(e & 1)) E.push_back(e); gp_DeleteEdge(g, E[r.below((int)E.size())], 0); hist += " del"; }
    if (r.chance(1, 3)) { for (auto &l : arcLists(g)) for (int e : l) if (r.chance(1, 5)) { gp_SetDirection(g, e, r.chance(1, 2) ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY); directed = true; } if (directed) hist += " directed"; }
    else if (r.chance(1, 2)) { int a = r.chance(1, 2) ? A_P : A_O; int rc = gp_Embed(g, embedFlagsOf(a)); if (rc == NOTOK || gp_SortVertices(g) != OK) { c.fail("embed", hist); return; } embedded = true; hist += strf(" %s=%d", algoName(a), rc); }
    c.note(hist); View v = viewOf(g); string st = stateOf(g); c.sample(hist); bool ok;
    int modes[2] = {WRITE_ADJLIST, WRITE_ADJMATRIX};
    for (int mode : modes) {
        bool mat = mode == WRITE_ADJMATRIX; const char *mn = mat ? "matrix" : "list";
        if (mat && v.n > 2500) continue;
        if (mat && directed) { for (int h = 0; h < 2; h++) { outOf(g, mode, h, c.scratch, ok); if (ok) c.fail("digraph-as-matrix", hist); c.count("digraph_matrix_refused"); } continue; }
        string t[3]; int hows = r.chance(1, 10) ? 3 : 2; for (int h = 0; h < hows; h++) { t[h] = outOf(g, mode, h, c.scratch, ok); if (!ok) { c.fail(strf("write-%s", mn), strf("writing failed (way %d): ", h) + hist); return; } if (t[h] != t[0]) { c.fail(strf("file-string-differ-%s", mn), hist + " file: " + t[0] + " other: " + t[h]); return; } c.count("texts_written"); }
        if (stateOf(g) != st) { c.fail("write-changed-graph", hist + firstDiff(st, stateOf(g))); return; }
        if (!mat) { View f; string why; if (!parseAdj(t[0], f, why)) { c.fail("written-list-format", why + ": " + hist + " text: " + t[0]); return; }
            if (f.n != v.n || f.zero != v.zero) { c.fail("written-list", hist + " text: " + t[0]); return; } for (int i = 1; i <= v.n; i++) { vector<int> a, b; for (auto &x : v.l[i]) if (x.second != 1) a.push_back(x.first); for (auto &x : f.l[i]) b.push_back(x.first); std::reverse(b.begin(), b.end()); if (a != b) { c.fail("written-list", strf("vertex %d: ", i) + hist + " text: " + t[0]); return; } } }
        else { string want = strf("%d\n", v.n); set<Edge> es = sgOf(g).eset(); for (int i = 1; i <= v.n; i++) for (int j = i + 1; j <= v.n; j++) want += es.count(Edge(i, j)) ? '1' : '0'; string got; size_t nl = t[0].find('\n'); if (nl == string::npos) nl = 0; got = t[0].substr(0, nl + 1); for (char ch : t[0].substr(nl + 1)) if (!isspace((unsigned char)ch)) got += ch; if (got != want) { c.fail("written-matrix", hist + " text: " + t[0]); return; } }
        for (int h = 0; h < hows; h++) {
            GraphHolder b(gp_New()); bool f2 = r.chance(1, 4); if (f2) { gp_EnsureArcCapacity(b, 2 * std::max(1, v.m)); attachFor(b, r.range(A_23, A_4)); } int rc = readBack(b, t[0], h, c.scratch); if (rc != OK) { c.fail(strf("read-%s", mn), strf("reading back failed with %d (way %d): ", rc, h) + hist + " text: " + t[0]); return; }
            string w = structureError(b); if (!w.empty()) { c.fail(strf("read-structure-%s", mn), w + " " + hist); return; }
            View u = viewOf(b); w = diffView(v, u, mat ? 0 : directed ? 1 : 2, !mat); if (!w.empty()) { c.fail(strf("round-trip-%s", mn), w + strf(" (way %d): ", h) + hist); return; } c.count("round_trips");
            for (int i = 1; i <= b->N; i++) if (gp_GetVertexIndex(b, i) != i) { c.fail("numbering", hist); return; }
            if (!directed && !mat) { string again = outOf(b, mode, 1 - (h & 1), c.scratch, ok); if (!ok || again != t[0]) { c.fail(strf("second-text-%s", mn), hist + " first: " + t[0] + " second: " + again); return; } }
            if (embedded && !mat) c.count("embedded_round_trips"); if (directed) c.count("digraph_round_trips"); if (h == 2) c.count("standard_streams"); if (v.zero && !mat) c.count("zero_based_round_trips");
        }
    }
    c.distinct(mix64(hashStr(st), 1));
    if (r.chance(1, 20)) { string p = c.scratch + "/nullwrite"; unlink(p.c_str()); if (gp_Write(g, (char *)"nullwrite", WRITE_ADJLIST) != OK) c.fail("nullwrite", "nullwrite failed"); }
}
static void fromText(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = r.chance(1, 12) ? genAny(r, 120, &nm) : genAny(r, 18, &nm); in.simplify(); if (in.n < 1) return; if (r.chance(1, 15)) in.n += r.range(1, 40);
    int kind = r.below(5); string t; View v; v.n = in.n; v.l.resize(in.n + 1); bool lines = r.chance(1, 2), crlf = r.chance(1, 5); string nl = crlf ? "\r\n" : "\n"; int order = 0; bool leda = false;
    if (kind <= 2) { // adjacency lists with free layout; some edges listed on one side only
        int base = r.below(2); bool dig = r.chance(1, 3); vector<vector<pair<int, int>>> L(in.n + 1); for (auto &e : in.e) { int side = dig && r.chance(1, 3) ? r.range(1, 2) : 0; if (side != 2) L[e.first].push_back({e.second, side ? 2 : 0}); else v.l[e.first].push_back({e.second, 1}); if (side != 1) L[e.second].push_back({e.first, side ? 2 : 0}); else v.l[e.second].push_back({e.first, 1}); }
        for (auto &l : L) r.shuffle(l);
        t = strf("N=%s%d", r.chance(1, 4) ? " " : "", in.n) + nl; bool bigTerm = r.chance(1, 4);
        for (int i = 1; i <= in.n; i++) { if (r.chance(1, 8) && lines) t += nl; t += strf("%s%d:", r.chance(1, 8) ? " " : "", i - 1 + base); for (auto &x : L[i]) { t += ws(r, lines && r.chance(1, 6)); t += strf("%d", x.first - 1 + base); } t += ws(r, lines && r.chance(1, 8)); t += strf("%d", bigTerm && r.chance(1, 2) ? base - 1 - r.range(1, 9) : base - 1); if (r.chance(1, 6)) t += " "; if (i < in.n || r.chance(3, 4)) t += nl; }
        for (int i = 1; i <= in.n; i++) { auto x = L[i]; std::reverse(x.begin(), x.end()); v.l[i].insert(v.l[i].end(), x.begin(), x.end()); } order = 1; v.zero = base == 0; c.count(dig ? "list_texts_one_sided" : "list_texts");
    } else if (kind == 3) { t = strf("%d", in.n) + nl; set<Edge> es = in.eset(); bool spaced = r.chance(1, 2), upper = r.chance(1, 2); for (int i = 1; i <= in.n; i++) { if (upper) t += string(r.below(i + 1), ' '); for (int j = i + 1; j <= in.n; j++) { t += es.count(Edge(i, j)) ? '1' : '0'; if (spaced && r.chance(1, 2)) t += ws(r, lines); } if (r.chance(5, 6)) t += nl; }
        if (r.chance(1, 4)) t += nl; c.count("matrix_texts");
    } else { leda = true; t = "LEDA.GRAPH" + nl + (r.chance(1, 2) ? "string" : "void") + nl + (r.chance(1, 2) ? "void" : "int") + nl + strf("%d", in.n) + nl; for (int i = 1; i <= in.n; i++) t += (r.chance(1, 2) ? "|{}|" : r.chance(1, 2) ? strf("|{%d}|", r.range(-9, 99)) : "|{" + string(r.below(60), 'x') + "}|") + nl;
        vector<pair<int, int>> E; for (auto &e : in.e) E.push_back(r.chance(1, 2) ? e : Edge(e.second, e.first)); int m = (int)E.size(); if (r.chance(1, 4)) for (int k = r.range(1, 4); k > 0; k--) { if (r.chance(1, 2) && m) { auto e = E[r.below(m)]; E.push_back(r.chance(1, 2) ? e : Edge(e.second, e.first)); } else { int x = r.range(1, in.n); E.push_back({x, x}); } } r.shuffle(E);
        t += strf("%d", (int)E.size()) + nl; for (size_t k = 0; k < E.size(); k++) { t += strf("%d %d%s", E[k].first, E[k].second, r.chance(1, 2) ? " 0 |{}|" : ""); if (k + 1 < E.size() || r.chance(3, 4)) t += nl; } c.count("leda_texts"); }
    if (kind > 2) for (auto &e : in.e) { v.l[e.first].push_back({e.second, 0}); v.l[e.second].push_back({e.first, 0}); }
    v.m = (int)in.e.size(); string hist = strf("layout %d ", kind) + in.str() + " text: " + t; c.note(hist); c.distinct(mix64(hashStr(t), 2)); c.sample(hist);
    View first; for (int h = 0; h < (leda ? 1 : r.chance(1, 10) ? 3 : 2); h++) { GraphHolder b(gp_New()); if (r.chance(1, 5)) { gp_EnsureArcCapacity(b, 2 * std::max(1, v.m)); attachFor(b, r.range(A_23, A_4)); } int rc = readBack(b, t, h, c.scratch); if (rc != OK) { c.fail("read-text", strf("reading failed with %d (way %d): ", rc, h) + hist); return; }
        string w = structureError(b); if (!w.empty()) { c.fail("text-structure", w + " " + hist); return; } View u = viewOf(b); w = diffView(v, u, order, kind <= 2); if (!w.empty()) { c.fail("text-misread", w + strf(" (way %d): ", h) + hist); return; } c.count("texts_read");
        if (h == 0) first = u; else { w = diffView(first, u, 2, true); if (!w.empty()) { c.fail("file-string-read-differ", w + " " + hist); return; } }
        if (b->N <= 40 && r.chance(1, 4)) { int a = r.chance(1, 2) ? A_P : A_O, verdict = gp_Embed(b, embedFlagsOf(a)); if (verdict == OK || verdict == NONEMBEDDABLE) gp_SortVertices(b); w = judge(b, in, a, verdict, truthOf(in, a)); c.count("runs_judged"); if (!w.empty()) c.fail("read-unusable", w + " " + hist); } }
}
static void run(Ctx &c) { if (c.idx % 2) fromLibrary(c); else fromText(c); }
const Prop PROP = {"I01", 30000, 150000, 20, "distinct graphs written and read back in both text formats through files, strings and the standard streams, and distinct texts of free layout read; lists, order, directions, numbering and both ways compared", run};
