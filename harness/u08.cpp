#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
#include <unistd.h>
// Each command with and without -q: quiet runs print nothing and otherwise do the same
static string steady(string t) { size_t p = 0; while ((p = t.find("DURATION=\"", p)) != string::npos) { p += 10; size_t e = t.find('"', p); if (e == string::npos) break; t.erase(p, e - p); } return t; }
static map<string, string> all(const string &d) { map<string, string> m; for (auto &f : filesIn(d)) m[f] = steady(readFile(d + "/" + f)); return m; }
static void run(Ctx &c) {
    Rng &r = c.rng; string dir = cliDir(c), D[2] = {dir + "/loud", dir + "/quiet"}; for (auto &d : D) mkdir(d.c_str(), 0700); SG s = r.chance(1, 2) ? genPlanar(r, r.range(1, 30)) : genAny(r, 14); s.simplify(); if (s.n < 1) s = SG(1); int base, kind = r.below(4), al = r.below(A_COUNT), cmd = r.below(6); string t = cliText(c, s, kind, base), I = cliFileName(r, ".in"), O = cliFileName(r, ".out"), O2 = cliFileName(r, ".2"); if (cmd == 1) { t = r.chance(1, 2) ? ">>graph6<<" : ""; for (int k = r.range(1, 9); k > 0; k--) { SG x = s; x.e.resize(r.below((int)s.e.size() + 1)); t += g6encode(x) + "\n"; } } bool damaged = r.chance(1, 4); if (damaged) for (int k = r.range(1, 2); k > 0; k--) tgDamage(r, t); if (r.chance(1, 15)) I = "absent"; else for (auto &d : D) writeFile(d + "/" + I, t);
    if (r.chance(1, 12)) O = r.chance(1, 2) ? "nowhere/o" : "/dev/full"; if (r.chance(1, 12)) O2 = r.chance(1, 2) ? "nowhere/o" : "/dev/full"; if (r.chance(1, 12)) O = string(r.range(129, 200), 'o'); if (r.chance(1, 20)) I = string(r.range(129, 1200), 'i'); string A = string("-") + (r.chance(1, 12) ? 'y' : ALGO_LETTERS[al]); vector<string> a; CliOpt o; int n = r.range(1, 30);
    switch (cmd) { case 0: a = {"-s", A, I, O}; if (r.chance(2, 3)) a.push_back(r.chance(1, 4) ? "" : O2); break; case 1: a = {"-t", A, I, O}; break; case 2: a = {"-x", string("-") + "gamz"[r.chance(1, 5) ? 3 : r.below(3)], I, O}; break; case 3: a = {"-r", A, strf("%d", r.range(1, 50)), strf("%d", n)}; break; default: a = {cmd == 4 ? "-rm" : "-rn", strf("%d", n), O}; if (r.chance(1, 2)) a.push_back(O2); o.input = "n\n"; } if (r.chance(1, 15)) a.resize(r.range(1, (int)a.size()));
    if (cmd == 3 && a.size() < 4) return; if (cmd >= 4 && a.size() < 3) return; /* an unanswered number means thousands of vertices */ o.clock = 1 + r.below(2000000000); if (cmd == 3 && r.chance(1, 4)) { a[2] = "1"; a[3] = "-3"; return; } string h = shown(a) + strf(" at %ld, with and without -q, input: ", o.clock) + hexOf(t, 2000); c.note(h); c.sample(h.substr(0, 250));
    if (cmd == 0 && a.size() >= 4 && r.chance(1, 10)) o.failAt = r.range(1, 60); CliRes R[2]; for (int k = 0; k < 2; k++) { vector<string> b = a; if (k) b.insert(b.begin() + 1, "-q"); R[k] = cli(c, D[k], b, o); if (R[k].abnormal) { c.fail(R[k].key, R[k].why + ": " + h + "\n" + R[k].err.substr(0, 1500)); return; } }
    if (!R[1].out.empty() || !R[1].err.empty()) { c.fail("not-silent", "quiet run printed '" + hexOf((R[1].out + R[1].err).substr(0, 300)) + "': " + h); return; } if (R[0].code != R[1].code) { c.fail("exit-status", strf("%d, but %d with -q: ", R[0].code, R[1].code) + h); return; } map<string, string> x = all(D[0]), y = all(D[1]); if (x != y) { string w; for (auto &f : x) if (!y.count(f.first)) w = f.first + " is missing with -q"; else if (y[f.first] != f.second) w = f.first + " differs: " + f.second.substr(0, 300) + " / " + y[f.first].substr(0, 300); for (auto &f : y) if (!x.count(f.first)) w = f.first + " is written with -q only"; c.fail("files-differ", w + ": " + h); return; }
    if (!(R[0].out + R[0].err).empty()) c.count("silenced_runs"); c.count("pairs_compared"); if (R[0].code == 255) c.count("failing_pairs"); c.distinct(mix64(hashStr(h), R[0].code));
}
const Prop PROP = {"U08", 4000, 60000, 60, "one command line run twice with the same clock, without and with -q", run};
