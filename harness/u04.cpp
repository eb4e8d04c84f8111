#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
// The random-graph modes: what they write is judged, and what they count is compared with the truth of the graphs they saved
static long numberAfter(const string &t, const string &k, size_t from = 0) { size_t p = t.find(k, from); if (p == string::npos) return -1; return atol(t.c_str() + p + k.size()); }
static bool readList(const string &t, SG &g, vector<vector<int>> &L, string &why) { int b; if (!parseAdjListWithDrawing(t, g, L, b, 0, 0, why)) return false; if (b != 1) { why = "numbering does not start at 1"; return false; } for (int v = 1; v <= g.n; v++) { set<int> q(L[v].begin(), L[v].end()); if (q.size() != L[v].size() || q.count(v)) { why = strf("vertex %d lists a neighbour twice or itself", v); return false; } } return true; }
static bool readMatrix(const string &t, SG &g, string &why) { char *q; long n = strtol(t.c_str(), &q, 10); if (n < 1 || *q++ != '\n') { why = "no order line"; return false; } g = SG((int)n); for (int i = 1; i <= n; i++) { for (int j = 1; j <= i; j++) if (*q++ != ' ') { why = "row not indented"; return false; } for (int j = i + 1; j <= n; j++) { if (*q != '0' && *q != '1') { why = "short row"; return false; } if (*q++ == '1') g.add(i, j); } if (*q++ != '\n') { why = "row does not end"; return false; } } if (*q) { why = "more text"; return false; } return true; }
static vector<int> degrees(const SG &g) { vector<int> d(g.n + 1, 0); for (auto &e : g.e) { d[e.first]++; d[e.second]++; } std::sort(d.begin(), d.end()); return d; }
struct Stats { long k = -1, emb = -1, mi[9]; bool minors = false, any = false; };
static string statsError(const string &out, int algo, int K, int n, Stats &S) { // reads the report and checks what must hold of its numbers
    for (auto &x : S.mi) x = 0; static const char *one[] = {"Num Embedded=", "Num Embedded=", "Num Graphs Embedded and Drawn="}; const char *pat[] = {"K_{2,3}", "K_{3,3}", "K_4"}; if (out.find("No Errors Found.") == string::npos) return "no success report";
    if (algo <= A_D) S.emb = numberAfter(out, one[algo]); else { size_t p = out.find("Of the generated graphs, "); if (p == string::npos) return "no count"; S.emb = atol(out.c_str() + p + 25); string want = strf("%ld did not contain a %s homeomorph as a subgraph.", S.emb, pat[algo - A_23]); if (out.compare(p + 25, want.size(), want)) return "the count names another pattern"; }
    if (S.emb < 0 || S.emb > K) return strf("%ld of %d graphs embedded", S.emb, K); static const int bound[] = {5, 4, 5, 5, 6, 4}; if (n < bound[algo] && S.emb != K) return strf("%ld of %d graphs of %d vertices", S.emb, K, n);
    if (algo == A_P || algo == A_O) { long sum = S.emb; for (int i = 0; i < 5; i++) { if (algo == A_O && (i == 2 || i == 3)) continue; S.mi[i] = numberAfter(out, strf("Minor %c = ", 'A' + i)); if (S.mi[i] < 0) return "a minor is not counted"; sum += S.mi[i]; } if (sum != K) return strf("embedded and minors sum to %ld instead of %d", sum, K); S.minors = true; }
    if (algo == A_P) { for (int i = 0; i < 4; i++) { S.mi[5 + i] = numberAfter(out, strf("Minor E%d = ", i + 1)); if (S.mi[5 + i] < 0) return "a minor is not counted"; } if (S.mi[5] > S.mi[2] || S.mi[6] > S.mi[0] || S.mi[7] + S.mi[8] > S.mi[4]) return "more special minors than minors"; }
    return "";
}
static void many(Ctx &c, bool menu) {
    Rng &r = c.rng; int algo = r.below(A_COUNT), K = menu ? (r.chance(1, 4) ? r.range(11, 35) : r.range(1, 10)) : r.chance(1, 3) ? r.range(1, 60) : r.range(1, 400), n = r.chance(1, 4) ? r.range(1, 6) : r.chance(2, 3) ? r.range(5, 14) : r.range(10, menu ? 60 : 40); string dir = cliDir(c); Stats S; CliOpt o; vector<string> a; bool quiet = false, w[4] = {false, false, false, false}; string hist; static const char *dn[] = {"random", "embedded", "obstructed", "adjlist"}; bool have[4];
    if (menu) { o.input = "r\nr\n"; for (int i = 0; i < 4; i++) { w[i] = i == 0 || r.chance(2, 3); have[i] = r.chance(14, 15) || i == 0; o.input += w[i] ? (r.chance(1, 2) ? "y\n" : "Y\n") : (r.chance(1, 2) ? "n\n" : "x\n"); if (have[i]) mkdir((dir + "/" + dn[i]).c_str(), 0700); } o.input += strf("%c\n%d\n%d\ny\nq\n", r.chance(1, 6) && algo < 3 ? toupper(ALGO_LETTERS[algo]) : ALGO_LETTERS[algo], K, n); hist = "menu " + hexOf(o.input); }
    else { a = {"-r"}; quiet = r.chance(1, 8); if (quiet) a.push_back("-q"); a.push_back(string("-") + ALGO_LETTERS[algo]); a.push_back(strf("%d", K)); a.push_back(strf("%d", n)); hist = shown(a); }
    o.clock = 1 + r.below(2000000000); hist += strf(" at %ld", o.clock); c.note(hist); c.sample(hist); CliRes R = cli(c, dir, a, o); if (R.abnormal) { c.fail(R.key, R.why + ": " + hist + "\n" + R.err.substr(0, 1500)); return; } if (R.code != 0) { c.fail("exit-status", strf("%d: ", R.code) + hist + R.err.substr(0, 300)); return; }
    if (quiet) { if (!(R.out + R.err).empty()) c.fail("not-quiet", hist + R.out.substr(0, 200)); c.count("quiet_runs"); return; } string e = statsError(R.out, algo, K, n, S); if (!e.empty()) { c.fail("counts", e + ": " + hist + "\n" + R.out.substr(R.out.size() > 900 ? R.out.size() - 900 : 0)); return; } c.count("graphs_counted", K); c.count("embeddable_counted", S.emb);
    c.distinct(mix64(hashStr(hist), S.emb)); if (!menu) { for (auto &f : filesIn(dir)) c.fail("unpromised-file", f + ": " + hist); return; }
    int emb = 0, k5 = 0; for (auto &f : filesIn(dir)) { bool known = false; for (auto d : dn) known |= f == d; if (!known) { c.fail("unpromised-file", f + ": " + hist); return; } }
    // the directories keep the last ten graphs: graph i is in file i % 10; of an earlier graph with the same file, one of another outcome may be left
    const bool many10 = K > 10; for (int d = 0; d < 4; d++) if (have[d]) for (auto &f : filesIn(dir + "/" + dn[d])) { bool known = false; for (int i = 0; i < std::min(K, 10); i++) known |= f == strf("%d.txt", i); if (!known) { c.fail("unpromised-file", string(dn[d]) + "/" + f + ": " + hist); return; } }
    for (int i = 0; i < std::min(K, 10); i++) { string why, q = strf("/%d.txt", i); SG g, h; vector<vector<int>> L, L2; string rt = readFile(dir + "/random" + q); if (algo == A_D && rt.find("<DrawPlanar>") != string::npos) rt.resize(rt.find("<DrawPlanar>")); if (!readList(rt, g, L, why)) { c.fail("random-graph", why + strf(" (graph %d): ", i) + hist); return; } if (g.n != n) { c.fail("random-graph", strf("%d vertices: ", g.n) + hist); return; } if ((int)componentsOf(g).size() && n > 1) { vector<int> co = componentsOf(g); for (int v = 1; v <= n; v++) if (co[v] != co[1]) { c.fail("random-graph-not-connected", hist); return; } }
        bool t = truthOf(g, algo) == 1; emb += t; bool ok; auto fail = [&](const char *key, const string &w2) { c.fail(key, w2 + strf(" (graph %d: ", i) + g.str() + "): " + hist); };
        string me = readFile(dir + "/embedded" + q, &ok); if (algo == A_D && me.find("<DrawPlanar>") != string::npos) me.resize(me.find("<DrawPlanar>")); bool want = w[1] && have[1] && t; if (many10 && !t && ok && w[1] && have[1]) ok = false, c.count("files_of_earlier_graphs"); if (ok != want) { fail("embedded-file", ok ? "written" : "not written"); return; } if (ok) { if (!readMatrix(me, h, why) || h.n != n || degrees(h) != degrees(g)) { fail("embedded-file", "not the graph: " + why + hexOf(me)); return; } if (truthOf(h, algo) != 1) { fail("embedded-file", "another graph"); return; } c.count("embedded_files"); }
        SG em = h; bool haveEm = ok; string al = readFile(dir + "/adjlist" + q, &ok); want = w[3] && have[3] && t && algo <= A_D; if (many10 && !t && ok && w[3] && have[3]) ok = false; if (algo <= A_D ? ok != want : ok && !(w[3] && have[3] && t)) { fail("adjlist-file", ok ? "written" : "not written"); return; } if (ok && algo <= A_D) { if (algo == A_D) { size_t p = al.find("<DrawPlanar>"); if (p == string::npos) { fail("adjlist-file", "no drawing section"); return; } al.resize(p); } if (!readList(al, h, L2, why) || h.n != n || degrees(h) != degrees(g)) { fail("adjlist-file", "not the graph: " + why); return; } if (haveEm && !(why = sameEdges(em, h)).empty()) { fail("adjlist-file", "differs from the matrix: " + why); return; } why = rotationError(L2, algo == A_O); if (!why.empty()) { fail("adjlist-file", why); return; } c.count("embeddings_judged"); }
        string ob = readFile(dir + "/obstructed" + q, &ok); want = w[2] && have[2] && !t && (algo == A_P || algo == A_O); if (many10 && t && ok && w[2] && have[2]) ok = false; if (ok != want) { fail("obstructed-file", ok ? "written" : "not written"); return; } if (ok) { string k; if (!readMatrix(ob, h, why) || h.n != n || h.e.size() > g.e.size() || (k = homeomorphKind(h, &why), algo == A_P ? k != "K5" && k != "K33" : k != "K4" && k != "K23")) { fail("obstructed-file", "not an obstruction: " + why + hexOf(ob)); return; } k5 += k == "K5"; c.count("obstructions_judged"); } c.distinct(mix64(g.hash(), algo)); }
    if (many10) { if (emb > S.emb) c.fail("counts", strf("%ld graphs reported, %d of those saved: ", S.emb, emb) + hist); c.count("sessions_of_more_than_ten_graphs"); return; } if (emb != S.emb) { c.fail("counts", strf("%ld graphs reported, %d of those saved: ", S.emb, emb) + hist); return; } if (algo == A_P && w[2] && have[2] && k5 != S.mi[4] - S.mi[7] - S.mi[8]) { c.fail("minor-counts", strf("%d K5 subgraphs, but E=%ld E3=%ld E4=%ld: ", k5, S.mi[4], S.mi[7], S.mi[8]) + hist); return; } c.count("reports_compared_with_saved_graphs");
}
static bool readEdgeList(const string &t, const string &name, SG &g, string &why) { if (t.compare(0, name.size() + 1, name + "\n")) { why = "first line is not the name"; return false; } const char *p = t.c_str() + name.size() + 1; g = SG(0); while (true) { int u, v, used; if (sscanf(p, "%d %d%n", &u, &v, &used) != 2) { why = "no end line"; return false; } p += used; if (*p++ != '\n') { why = "line not ended"; return false; } if (!u && !v) { if (*p) { why = "more text"; return false; } return true; } if (u < 1 || v < 1) { why = "vertex number"; return false; } g.add(u, v); g.n = std::max(g.n, std::max(u, v)); } }
static void single(Ctx &c) {
    Rng &r = c.rng; bool rn = r.chance(1, 2), menu = r.chance(1, 5); int algo = menu ? r.below(A_COUNT) : A_P, n = r.chance(1, 4) ? r.range(1, 7) : r.chance(9, 10) ? r.range(5, 80) : r.range(80, 400); string dir = cliDir(c), O = cliFileName(r, ".o"), O2 = cliFileName(r, ".p"); if (O == O2 || O2.empty()) O2 = O + "2"; CliOpt o; vector<string> a; bool two = !menu && r.chance(2, 3), noO = false, quiet = !menu && r.chance(1, 2); char ans = "ynqYx"[r.below(5)]; bool say = r.chance(2, 3); const char *ef = rn ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt";
    if (menu) { o.input = strf("r\n%c\n%c\n%d\n%c\ny\nq\n", rn ? 'n' : 'm', ALGO_LETTERS[algo], n, ans); say = true; } else { a = {rn ? "-rn" : "-rm"}; if (quiet) a.push_back("-q"); a.push_back(strf("%d", n)); if (r.chance(1, 30)) { noO = true; (two && r.chance(1, 2) ? O2 : O) = r.chance(1, 2) ? "nowhere/o" : "/dev/full"; } a.push_back(O); if (two) a.push_back(O2); if (say) o.input = strf("%c\n", ans); }
    o.clock = 1 + r.below(2000000000); string hist = shown(a) + " typing " + hexOf(o.input) + strf(" at %ld", o.clock); c.note(hist); c.sample(hist); CliRes R = cli(c, dir, a, o); if (R.abnormal) { c.fail(R.key, R.why + ": " + hist + "\n" + R.err.substr(0, 1500)); return; } if (noO) { if (R.code == 0 || R.code == 1) c.fail("failure-unreported", hist); c.count("unwritable_outputs"); return; }
    ll tri = n == 1 ? 0 : n == 2 ? 1 : 3 * n - 6, edges = rn && n >= 5 ? tri + 1 : tri; bool nonplanar = rn && n >= 5; if (R.code != 0 && !(R.code == 1 && nonplanar && !menu)) { c.fail("exit-status", strf("%d: ", R.code) + hist + R.err.substr(0, 300)); return; }
    SG g, h; vector<vector<int>> L; string why; bool ok; auto judgeOrig = [&](const SG &x, const char *what) { if ((ll)x.e.size() != edges) return strf("%s has %d edges instead of %lld", what, (int)x.e.size(), edges); SG y = x; y.simplify(); if (y.e.size() != x.e.size()) return strf("%s has parallel edges", what); if ((truthOf(x, A_P) == 1) == nonplanar) return strf("%s is %splanar", what, nonplanar ? "" : "not "); return string(); };
    bool haveOrig = false; if (two) { if (!readList(readFile(dir + "/" + O2), g, L, why) || g.n != n) { c.fail("original", why + strf(" %d vertices: ", g.n) + hist); return; } why = judgeOrig(g, "the original"); if (!why.empty()) { c.fail("original", why + ": " + hist); return; } haveOrig = true; c.count("originals_judged"); }
    bool save = say && !quiet && (ans == 'y' || ans == 'Y'); string el = readFile(dir + "/" + ef, &ok); if (ok != save) { c.fail("edge-list", ok ? "written unasked: " : "not written: " + hist); return; }
    if (save) { SG x; if (!readEdgeList(el, ef, x, why)) { c.fail("edge-list", why + ": " + hist + "\n" + el.substr(0, 600)); return; } if (x.n > n) { c.fail("edge-list", "vertex out of range: " + hist); return; } x.n = n; why = judgeOrig(x, "the edge list"); if (!why.empty()) { c.fail("edge-list", why + ": " + hist); return; } if (haveOrig && !(why = sameEdges(g, x)).empty()) { c.fail("edge-list", "not the original: " + why + ": " + hist); return; } g = x; haveOrig = true; c.count("edge_lists_judged"); }
    if (save) { string f = string(ef) + ".out.txt"; el = readFile(dir + "/" + f, &ok); int verdict = truthOf(g, algo) == 1 ? OK : NONEMBEDDABLE; bool has = verdict == OK ? algo <= A_D : algo != A_D; if (has != ok) { c.fail("edge-list-result", (ok ? "written although the algorithm leaves no result: " : "not written: ") + hist); return; } if (has) { if (!readEdgeList(el, f, h, why) || h.n > n) { c.fail("edge-list-result", why + ": " + hist + "\n" + el.substr(0, 600)); return; } h.n = n; why = verdict == NONEMBEDDABLE ? patternError(h, g, algo) : sameEdges(g, h); if (!why.empty()) { c.fail("edge-list-result", why + ": " + hist); return; } c.count("edge_list_results_judged"); } }
    if (!menu) { string t = readFile(dir + "/" + O, &ok); if (!ok || !readList(t, h, L, why) || h.n != n) { c.fail("result", (ok ? why : "not written") + ": " + hist); return; } if (nonplanar) { why = haveOrig ? patternError(h, g, A_P) : ""; string k, w2; if (why.empty() && (k = homeomorphKind(h, &w2), k != "K5" && k != "K33")) why = "no obstruction: " + w2; } else { why = haveOrig ? sameEdges(g, h) : judgeOrig(h, "the result"); if (why.empty()) why = rotationError(L, false); } if (!why.empty()) { c.fail("result", why + ": " + hist + "\n" + t.substr(0, 800)); return; } c.count(nonplanar ? "obstructions_judged" : "embeddings_judged"); c.distinct(mix64(h.hash(), g.hash())); }
    else c.distinct(mix64(hashStr(hist), 3)); set<string> allowed = {O, O2}; if (save) { allowed.insert(ef); allowed.insert(string(ef) + ".out.txt"); } for (auto &f : filesIn(dir)) if (!allowed.count(f)) { c.fail("unpromised-file", f + ": " + hist); return; }
    if (!quiet) { string m = strf("Created random graph with %lld edges in ", edges); if (R.out.find(m) == string::npos) { c.fail("message", "the number of edges is not reported: " + hist + R.out.substr(0, 600)); return; } static const char *v[2][6] = {{"is planar.", "is outerplanar.", "is planar.", "has no subgraph homeomorphic to K_{2,3}.", "has no subgraph homeomorphic to K_{3,3}.", "has no subgraph homeomorphic to K_4."}, {"is not planar.", "is not outerplanar.", "is not planar.", "has a subgraph homeomorphic to K_{2,3}.", "has a subgraph homeomorphic to K_{3,3}.", "has a subgraph homeomorphic to K_4."}}; if (haveOrig && R.out.find(string("The graph ") + v[truthOf(g, algo) != 1][algo]) == string::npos) { c.fail("message", "the verdict is not reported: " + hist + R.out.substr(0, 900)); return; } if (haveOrig) c.count("reported_verdicts"); }
}
static void wrong(Ctx &c) { // algorithms that do not exist
    Rng &r = c.rng; string dir = cliDir(c); vector<string> a = {"-r"}; if (r.chance(1, 2)) a.push_back("-q"); static const char *w[] = {"-y", "-", "", "p", "-z", "5", "-P"}; a.push_back(w[r.below(7)]); a.push_back(strf("%d", r.range(1, 9))); a.push_back(strf("%d", r.range(1, 30))); string h = shown(a); c.note(h); CliRes R = cli(c, dir, a); if (R.abnormal) c.fail(R.key, R.why + ": " + h + "\n" + R.err.substr(0, 1500)); else if (R.code == 0 || R.code == 1) c.fail("unknown-algorithm-accepted", strf("exit status %d: ", R.code) + h); c.count("unknown_algorithms"); }
static void run(Ctx &c) { if (c.idx % 50 == 9) return wrong(c); int k = c.rng.below(5); if (k < 2) single(c); else many(c, k < 4); }
const Prop PROP = {"U04", 9000, 120000, 60, "one run of a random-graph mode with a known clock: counts of -r compared with the truth of the graphs it saved, and the results of -rm, -rn and their menu modes judged", run};
