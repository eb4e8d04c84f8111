#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
// Chains of format transformations by the program; every file written is decoded by the monitor's own decoders
static bool decode(const string &t, int kind, SG &g, int &base, string &why) {
    if (kind == T_G6) { string b = t; if (b.compare(0, 10, ">>graph6<<") == 0) b = b.substr(10); if (!b.empty() && b.back() == '\n') b.pop_back(); if (b.find('\n') != string::npos) { why = "more than one line"; return false; } base = 0; if (!g6decode(b, g)) { why = "no graph6 line"; return false; } if (g6encode(g) != b) { why = "padding is not zero"; return false; } return true; }
    if (kind == T_MATRIX) { char *q; long n = strtol(t.c_str(), &q, 10); if (n < 0 || *q != '\n') { why = "no order line"; return false; } q++; base = 1; g = SG((int)n); for (int i = 1; i <= n; i++) { for (int j = 1; j <= i; j++) if (*q++ != ' ') { why = strf("row %d is not indented", i); return false; } for (int j = i + 1; j <= n; j++) { if (*q != '0' && *q != '1') { why = strf("row %d has no entry %d", i, j); return false; } if (*q++ == '1') g.add(i, j); } if (*q++ != '\n') { why = strf("row %d does not end", i); return false; } } if (*q) { why = "more text follows"; return false; } return true; }
    vector<vector<int>> L; if (t.find('<') != string::npos) { why = "unexpected section"; return false; } if (!parseAdjListWithDrawing(t, g, L, base, 0, 0, why)) return false; for (int v = 1; v <= g.n; v++) { set<int> q(L[v].begin(), L[v].end()); if (q.size() != L[v].size()) { why = strf("vertex %d lists a neighbour twice", v); return false; } } return true;
}
static bool decodeArcs(const string &t, vector<Edge> &w) { const char *p = t.c_str(); int n, used, x; if (sscanf(p, "N=%d%n", &n, &used) != 1) return false; p += used; int base = -1; for (int v = 1; v <= n; v++) { if (sscanf(p, "%d:%n", &x, &used) != 1) return false; p += used; if (v == 1) base = x; if (x != v - 1 + base) return false; while (true) { if (sscanf(p, "%d%n", &x, &used) != 1) return false; p += used; if (x < base) break; w.push_back(Edge(v, x - base + 1)); } } std::sort(w.begin(), w.end()); return true; }
static void run(Ctx &c) {
    Rng &r = c.rng; SG s; int k = r.below(12); if (c.idx == 3) { s = SG(r.range(4094, 4100)); for (int i = 0; i < 3000; i++) s.add(r.range(1, s.n), r.chance(1, 2) ? s.n - r.below(5) : r.range(1, s.n)); } else if (c.idx == 4) s = SG(r.range(500, 2000)); else s = k < 2 ? SG(r.range(1, 8)) : k < 5 ? genAny(r, 14) : k < 7 ? genPlanar(r, r.range(1, 80)) : k < 8 ? genRandom(r, r.range(60, 70), r.range(0, 600)) : k < 9 ? Kn(r.range(1, r.chance(1, 4) ? 70 : 12)) : k < 10 ? genTree(r, r.range(1, 130)) : genRandom(r, r.range(2, 30), r.range(0, 100)); s.simplify(); if (s.n < 1) s = SG(1);
    string dir = cliDir(c); int kind = r.below(5), base; string t; if (kind == T_DRAW) { base = r.below(2); t = tgDrawn(c, s, base); if (t.empty()) { kind = T_LIST; t = tgList(r, s, base); } } else t = cliText(c, s, kind, base);
    static const char *fmt = "amLg"; const char *kn[] = {"list", "matrix", "leda", "g6", "drawing"}; bool damaged = r.chance(1, 6); string I = cliFileName(r, ".in"), hist; if (damaged) { for (int q = r.range(1, 2); q > 0; q--) tgDamage(r, t); base = -1; } bool dig = !damaged && kind == T_LIST && !s.e.empty() && r.chance(1, 15); vector<Edge> arcs;
    if (dig) { size_t p = t.find('\n') + 1; string o = t.substr(0, p); vector<vector<int>> L(s.n + 1); int one = r.below((int)s.e.size()); for (size_t i = 0; i < s.e.size(); i++) { auto e = s.e[i]; if (r.chance(1, 2)) std::swap(e.first, e.second); L[e.first].push_back(e.second); arcs.push_back(e); if ((int)i != one && r.chance(1, 2)) { L[e.second].push_back(e.first); arcs.push_back(Edge(e.second, e.first)); } } for (int i = 1; i <= s.n; i++) { o += strf("%d:", i - 1 + base); for (int w : L[i]) o += strf(" %d", w - 1 + base); o += strf(" %d\n", base - 1); } t = o; std::sort(arcs.begin(), arcs.end()); }
    int rd = -9; if (damaged) { bool tooBig = false; for (size_t i = 0; i < t.size(); i++) if (isdigit((unsigned char)t[i])) { size_t j = i; while (j < t.size() && isdigit((unsigned char)t[j])) j++; if (j - i > 4) tooBig = true; i = j; } if (t.find('~') != string::npos || tooBig) return; string p = c.scratch + "/probe"; writeFile(p, t); GraphHolder g(gp_New()); rd = gp_Read(g, (char *)p.c_str()); if (rd == OK) { s = sgOf(g); base = (g->internalFlags & FLAGS_ZEROBASEDIO) ? 0 : 1; for (auto &l : arcLists(g)) for (int e : l) if (gp_GetDirection(g, e)) dig = true; } }
    writeFile(dir + "/" + I, t); int steps = r.range(1, 4); for (int q = 0; q < steps; q++) {
        int to = r.below(3); to = to == 2 ? T_G6 : to; string O = cliFileName(r, ".o") + strf("%d", q); bool inPlace = r.chance(1, 20), con = !inPlace && r.chance(1, 12), wrong = r.chance(1, 40), noOut = !wrong && !inPlace && r.chance(1, 30), miss = !wrong && !noOut && r.chance(1, 40); if (inPlace) O = I; if (con) O = "stdout"; if (noOut) O = r.chance(1, 2) ? "nowhere/o" : "/dev/full"; if (r.chance(1, 60) && !con && !inPlace && !noOut) O = string(r.range(129, 200), 'o');
        bool quiet = con || r.chance(1, 2); vector<string> a = {"-x"}; if (quiet) a.push_back("-q"); a.push_back(wrong ? (r.chance(1, 2) ? "-y" : r.chance(1, 2) ? "-" : "g") : string("-") + fmt[to]); a.push_back(miss ? "no such file" : I); a.push_back(O); string h = shown(a) + strf(" (%s of base %d to %s) ", kn[kind], base, kn[to]) + hexOf(readFile(dir + "/" + I), 3000); c.note(h); c.sample(h.substr(0, 300)); string before = readFile(dir + "/" + I); set<string> fs = filesIn(dir);
        CliRes R = cli(c, dir, a); if (R.abnormal) { c.fail(R.key, R.why + ": " + h + "\n" + R.err.substr(0, 1500)); return; } bool accept = R.code == 0 || R.code == 1, expect = !(wrong || noOut || miss) && !(damaged && q == 0 && rd != OK) && !(dig && to == T_MATRIX);
        if (!expect) { if (accept) c.fail("failure-unreported", strf("exit status %d: ", R.code) + h); c.count(wrong ? "unknown_formats" : noOut ? "unwritable_outputs" : miss ? "missing_files" : dig ? "digraphs_refused" : "unreadable_inputs"); return; } if (R.code != 0) { c.fail("transformation-refused", strf("exit status %d: ", R.code) + h + "\n" + R.err.substr(0, 300)); return; }
        string got = con ? R.out : readFile(dir + "/" + O); SG g; int b; string why; if (dig && to == T_LIST) { vector<Edge> w; if (!decodeArcs(got, w)) c.fail("undecodable", h + "\nwritten: " + hexOf(got, 1000)); else if (!damaged && w != arcs) c.fail("arcs-changed", h + "\nwritten: " + hexOf(got, 1000)); c.count("digraphs_transformed"); return; } if (!decode(got, to, g, b, why)) { c.fail("undecodable", why + ": " + h + "\nwritten: " + hexOf(got, 1500)); return; } if (g.n != s.n) { c.fail("order-changed", strf("%d instead of %d: ", g.n, s.n) + h); return; } if (to == T_LIST && b != base) { c.fail("base-changed", strf("numbering starts at %d: ", b) + h + "\nwritten: " + hexOf(got, 1000)); return; }
        why = sameEdges(s, g); if (!why.empty()) { c.fail("edges-changed", why + ": " + h + "\nwritten: " + hexOf(got, 1000)); return; }
        for (auto &f : filesIn(dir)) if (!fs.count(f) && f != O) { c.fail("unpromised-file", f + ": " + h); return; } if (!inPlace && readFile(dir + "/" + I) != before) { c.fail("input-changed", h); return; }
        c.count(strf("%s_to_%s", kn[kind], kn[to]).c_str()); c.distinct(mix64(hashStr(got), hashStr(before))); c.maxi("largest_order", s.n); if (con || dig) return; base = b; I = O; kind = to; damaged = false; hist = h;
    }
}
const Prop PROP = {"U03", 6000, 120000, 60, "chains of format transformations of one graph, every file written decoded and compared with the graph meant", run};
