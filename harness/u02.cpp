#include "clirun.hpp"
#include <sys/stat.h>
// One file of graphs, all tested by one run of the program; the counts reported are compared with the truth of every graph
static SG member(Rng &r, int n, int algo) {
    SG s(n); int k = r.below(9); auto fit = [&](SG x) { x.simplify(); if (x.n < n) x.n = n; if (x.n > n) { SG y(n); for (auto &q : x.e) if (q.first <= n && q.second <= n) y.e.push_back(q); x = y; } return x; };
    if (k == 0) { if (n <= 12) { for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) s.add(i, j); return s; } k = 3; }
    if (k == 1) return r.chance(1, 4) ? s : fit(genTree(r, n)); if (k == 2) return fit(genOuterplanar(r, n)); if (k == 3) return fit(genPlanar(r, n)); if (k == 4) return fit(n >= 3 ? genPlanarTri(r, n) : s); if (k == 5) return fit(genSeriesParallel(r, n)); if (k == 6) return fit(genNearPlanar(r, n, r.range(1, 3)));
    if (k == 7) return fit(genRandom(r, n, r.range(0, n <= 12 ? n * (n - 1) / 2 : 3 * n))); return fit(genGlued(r, n, r.below(6))); (void)algo;
}
static void run(Ctx &c) {
    Rng &r = c.rng; int algo = r.below(A_COUNT); int n = r.chance(1, 10) ? r.range(1, 4) : r.chance(2, 3) ? r.range(3, 9) : r.chance(3, 4) ? r.range(10, 30) : r.chance(1, 2) ? r.range(60, 66) : r.range(31, 130); int k = n <= 9 ? r.range(0, r.chance(1, 5) ? 300 : 40) : n <= 30 ? r.range(1, 25) : r.range(1, 4); if (r.chance(1, 6)) k = 1;
    if (c.idx == 3) { n = 5; k = 1024; } if (c.idx == 4) { n = 4; k = 3000; }
    vector<SG> gs; for (int i = 0; i < k; i++) gs.push_back(c.idx == 3 ? SG(5) : member(r, n, algo)); if (c.idx == 3) for (int i = 0; i < k; i++) { int b = 0; for (int x = 1; x <= 5; x++) for (int y = x + 1; y <= 5; y++) if (i >> b++ & 1) gs[i].add(x, y); }
    vector<string> lines; for (auto &s : gs) lines.push_back(g6encode(s)); int bad = -1, kind = -1; bool begun = true; // the line that cannot be read, and how
    if (k > 0 && r.chance(1, 5)) { bad = r.chance(1, 4) ? 0 : r.below(k); kind = r.below(5); string &l = lines[bad]; int ob = n < 63 ? 1 : 4; if (bad == 0 && kind == 0 && k == 1) kind = 2; // another order
        if (kind == 0) { SG o(n > 1 && r.chance(1, 2) ? n - 1 : n + 1); o.add(1, o.n > 1 ? 2 : 1); if (o.n < 2) o.e.clear(); l = g6encode(o); if (bad == 0) { bad = 1; } } else if (kind == 1 && n >= 2) l.pop_back(); else if (kind == 3 && n >= 2) l[r.range(ob, (int)l.size() - 1)] = " !:\x7f"[r.below(4)]; else if (kind == 4) { l = string(1, "#:!"[r.below(3)]) + l; } else { kind = 2; l += '?'; } }
    if (bad == 1 && kind == 0) { /* the first line set the order; the second differs from it */ if (lines[0].substr(0, n < 62 ? 1 : 4) == lines[1].substr(0, n < 62 ? 1 : 4)) begun = true; SG first; if (!g6decode(lines[0], first)) return; gs[0] = first; }
    bool crlf = r.chance(1, 6), hdr = r.chance(1, 2), last = r.chance(3, 4); string t = hdr ? ">>graph6<<" : ""; for (size_t i = 0; i < lines.size(); i++) { t += lines[i]; if (i + 1 < lines.size() || last) t += crlf ? "\r\n" : "\n"; }
    if (k == 0) begun = false; (void)begun;
    string dir = cliDir(c), I = cliFileName(r, ".g6"), O = cliFileName(r, ".out"); if (I == O) O += "2"; string base = I; if (r.chance(1, 6)) { I = "sub/" + I; mkdir((dir + "/sub").c_str(), 0700); } else if (r.chance(1, 8)) I = dir + "/" + I; bool missing = r.chance(1, 40), noOut = !missing && r.chance(1, 30); if (!missing) writeFile(I[0] == '/' ? I : dir + "/" + I, t); if (noOut) O = r.chance(1, 2) ? "nowhere/o" : "/dev/full";
    bool quiet = r.chance(1, 2); vector<string> a = {"-t"}; if (quiet) a.push_back("-q"); a.push_back(string("-") + ALGO_LETTERS[algo]); a.push_back(I); a.push_back(O); string hist = shown(a) + strf(" on %d graphs of order %d%s%s: ", k, n, bad >= 0 ? strf(", line %d unreadable (%d)", bad + 1, kind).c_str() : "", missing ? ", no such file" : "") + hexOf(t, 4000); c.note(hist); c.sample(hist.substr(0, 300));
    CliRes R = cli(c, dir, a); if (R.abnormal) { c.fail(R.key, R.why + ": " + hist + "\n" + R.err.substr(0, 1500)); return; } bool ok; bool accept = R.code == 0 || R.code == 1;
    if (missing || noOut) { if (accept) c.fail("failure-unreported", strf("exit status %d: ", R.code) + hist); c.count(missing ? "missing_files" : "unwritable_outputs"); return; }
    int read = 0, yes = 0, no = 0; for (int i = 0; i < (bad >= 0 ? bad : k); i++) { read++; if (truthOf(gs[i], algo) == 1) yes++; else no++; } bool error = bad >= 0 || k == 0; string got = readFile(dir + "/" + O, &ok); if (!ok) { c.fail("no-output", hist); return; }
    string first = "FILENAME=\"" + base + "\" DURATION=\""; size_t e = got.find('\n'); if (got.compare(0, first.size(), first) || e == string::npos || e < first.size() + 2 || got[e - 1] != '"') { c.fail("header", hexOf(got) + ": " + hist); return; } char *end; string dur = got.substr(first.size(), e - 1 - first.size()); double d = strtod(dur.c_str(), &end); if (*end || dur.empty() || d < 0 || d > 1000) { c.fail("duration", hexOf(got) + ": " + hist); return; }
    string want = strf("-%c %d %d %d %s\n", ALGO_LETTERS[algo], read, yes, no, error ? "ERROR" : "SUCCESS"); if (got.substr(e + 1) != want) { c.fail("counts", "reported " + hexOf(got.substr(e + 1)) + " instead of " + hexOf(want) + ": " + hist + "\n" + R.err.substr(0, 400)); return; }
    if (error ? accept : R.code != 0) { c.fail("exit-status", strf("%d: ", R.code) + hist); return; } for (auto &f : filesIn(dir)) if (f != base && f != O && f != "sub") { c.fail("unpromised-file", f + ": " + hist); return; }
    c.count("graphs_counted", read); c.count("embeddable_counted", yes); c.count("nonembeddable_counted", no); c.count(error ? "streams_with_unreadable_line" : "streams_read"); c.maxi("largest_stream", k); c.maxi("largest_order", n); c.distinct(mix64(hashStr(t), algo));
}
const Prop PROP = {"U02", 10000, 200000, 60, "one file of graphs of the same order counted by one run of the all-graphs test; all algorithms, with and without header, line ends and unreadable lines", run};
