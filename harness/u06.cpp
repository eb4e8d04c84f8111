#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
#include <unistd.h>
// Command lines and menu sessions under bad file names, unreadable and unwritable files and refused memory
static string badPath(Rng &r) { switch (r.below(7)) { case 0: return "nowhere/file"; case 1: return "."; case 2: return string(r.range(120, 260), 'n'); case 3: return string(r.range(900, 1400), 'm'); case 4: return string(r.range(3000, 5000), 'k'); case 5: return "missing"; default: return ""; } }
static bool judgeRun(Ctx &c, const CliRes &Q, const string &h, const string &suffix) {
    if (Q.abnormal) { c.fail(Q.key + suffix, Q.why + ": " + h + "\n" + Q.err.substr(0, 2500)); return false; } if (Q.blocks < 0) { c.fail("no-ledger", h); return false; }
    if (Q.blocks > 0) { c.fail("leak" + suffix, strf("%ld blocks not freed: ", Q.blocks) + h + "\n" + Q.err.substr(0, 500)); return false; } if (Q.files > 0) { c.fail("open-file" + suffix, h); return false; } return true;
}
// what a successful run did not deliver
static string missing(const string &dir, int cmd, char al, const vector<string> &a, bool quiet, const string &O, const string &O2, bool needO, bool needO2, int code) {
    if (code != 0 && code != 1) return ""; struct stat st; auto wrote = [&](const string &p) { return stat((p[0] == '/' ? p : dir + "/" + p).c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0; };
    if (cmd == 0) { needO = strchr("pdo", al) ? code == 0 : code == 1; needO2 = (int)a.size() == 5 + quiet && !O2.empty() && (strchr("po", al) ? code == 1 : al == 'd' && code == 0); if (O.size() > 128) needO = false; } if (cmd == 5) return "";
    if (needO && !wrote(O)) return "nothing in " + O.substr(0, 40); if (needO2 && !wrote(O2)) return "nothing in " + O2.substr(0, 40); return "";
}
static map<string, string> outputs(const string &dir) { map<string, string> m; for (auto &f : filesIn(dir)) if (f != "in.txt") { string t = readFile(dir + "/" + f); size_t p = t.find("DURATION="); if (p != string::npos) t.erase(p, t.find('\n', p) - p); m[f] = t; } return m; }
static string numbers(const string &t) { string o; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos) e = t.size(); string l = t.substr(p, e - p); if (l.find("seconds") == string::npos) o += l + ";"; p = e + 1; } return o; }
static string verdicts(const string &t) { string o; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos) e = t.size(); string l = t.substr(p, e - p); p = e + 1; for (const char *k : {"planar.", "homeomorphic to"}) if (l.find(k) != string::npos && l.find("he graph") != string::npos) { o += l.substr(l.find("he graph")) + ";"; break; } } return o; }
static void run(Ctx &c) {
    Rng &r = c.rng; SG s = r.chance(1, 2) ? genPlanar(r, r.range(1, 16)) : genAny(r, 12); s.simplify(); if (s.n < 1) s = SG(r.range(1, 3)); string dir = cliDir(c); int kind = r.below(4), base; string t = cliText(c, s, kind, base); bool damaged = r.chance(1, 5); if (damaged) tgDamage(r, t); 
    string I = "in.txt"; writeFile(dir + "/in.txt", t); string O = "out.txt", O2 = "out2.txt"; int cmd = r.below(8); if (cmd == 1) { SG x = s; string g; int k = r.range(1, 5); for (int i = 0; i < k; i++) g += g6encode(x) + "\n"; t = g; if (damaged) tgDamage(r, t); writeFile(dir + "/in.txt", t); }
    if (r.chance(1, 25)) { // a graph of a huge or strange size, without much of a graph
        damaged = true; static const long big[] = {46341, 46340, 32769, 60000, 65536, 99999, 100000, 100001, 258047, 1000000, 16777216, 1073741824, 2147483647, 2147483648, 4294967297, 0, -1, -2147483648}; long n0 = r.chance(1, 2) ? big[r.below(18)] : r.range(40, 100000); static const char *tail[] = {"", "\n", "A\n", "0: 1 0\n", "1: 2 0\n", "??\n"};
        switch (cmd == 1 ? 0 : r.below(4)) { case 0: t = r.chance(1, 2) ? ">>graph6<<~" : "~"; for (int k = 12; k >= 0; k -= 6) t += (char)(63 + ((n0 >> k) & 63)); break; case 1: t = strf("N=%ld\n", n0); break; case 2: t = strf("%ld\n", n0); break; default: t = strf("LEDA.GRAPH\nvoid\nvoid\n%ld\n", n0); } t += tail[r.below(6)]; writeFile(dir + "/in.txt", t); c.count("strange_sizes"); }
    int trouble = r.below(8); if (trouble == 0) I = badPath(r); else if (trouble == 1) O = badPath(r); else if (trouble == 2) O2 = badPath(r); else if (trouble == 3) { O = "/dev/full"; } else if (trouble == 4) O2 = "/dev/full";
    char al = ALGO_LETTERS[r.below(A_COUNT)]; string A = string("-") + al; vector<string> a; CliOpt o; string ses; int n = r.chance(1, 4) ? r.range(1, 4) : r.range(5, 40); bool writesO = false, writesO2 = false; // what success would have to produce
    switch (cmd) {
    case 0: a = {"-s", A, I, O}; if (r.chance(2, 3)) a.push_back(O2); break;
    case 1: a = {"-t", A, I, O}; writesO = true; break;
    case 2: a = {"-x", string("-") + "gam"[r.below(3)], I, O}; writesO = true; break;
    case 3: a = {"-r", A, strf("%d", r.range(1, 5)), strf("%d", n)}; break;
    case 4: a = {r.chance(1, 2) ? "-rm" : "-rn", strf("%d", n), O}; writesO = true; if (r.chance(2, 3)) { a.push_back(O2); writesO2 = true; } if (r.chance(1, 2)) o.input = "y\n"; break;
    case 5: a = {I, O}; if (r.chance(1, 2)) { a.push_back("-n"); a.push_back(O2); } break;
    case 6: { // menu session
        // a session is kept in step with its prompts where it makes random graphs: an unanswered prompt stands for hundreds of millions of them
        bool rnd = r.chance(1, 2); if (rnd) { if (I != "in.txt" && I != "missing") I = r.chance(1, 2) ? "." : "nowhere/file"; if (O.size() > 20) O = "nowhere/o"; } ses = "r\ns\n";
        for (int k = r.range(1, 4); k > 0; k--) { switch (r.below(rnd ? 6 : 4)) {
            case 0: ses += strf("x\n%s\n%s\n%s%c\ny\n", I.c_str(), r.chance(1, 2) ? "" : O.c_str(), r.chance(1, 8) ? "z\n" : "", "gamGAM"[r.below(6)]); break; case 1: ses += strf("t\n%s\n%s\n%s%c\ny\n", I.c_str(), r.chance(1, 2) ? "" : O.c_str(), r.chance(1, 8) ? "y\n" : "", "pdo234PDO"[r.below(9)]); break;
            case 2: ses += strf("r\ns\n%c\n%s\ny\n", al, I.empty() ? "in" : I.c_str()); break; case 4: ses += strf("r\n%c\n%c\n%d\n%c\ny\nr\ns\n", "mn"[r.below(2)], al, n, "ynq"[r.below(3)]); break; case 5: ses += strf("r\nr\n%c\n%c\n%c\n%c\n%c\n%d\n%d\ny\nr\ns\n", "yn"[r.below(2)], "yn"[r.below(2)], "yn"[r.below(2)], "yn"[r.below(2)], al, r.range(1, 12), n); break; default: ses += strf("%c\ny\n", "hzH9!"[r.below(5)]); break; } }
        if (r.chance(2, 3)) ses += "q\n"; else if (r.chance(1, 2) && !rnd) ses.resize(4 + r.below((int)ses.size() - 4) + 1); for (const char *d : {"random", "embedded", "obstructed", "adjlist", "error"}) if (r.chance(1, 2)) mkdir((dir + "/" + d).c_str(), 0700); o.input = ses; break; }
    default: { static const char *w[] = {"-s", "-t", "-x", "-r", "-rm", "-rn", "-h", "-i", "-info", "-help", "-menu", "-q", "-p", "-", "", "--", "-z", "in.txt", "out.txt", "5", "-1", "3", "-n", "-d", "-2", "-g", "-a", "%s", "-tp"}; for (int k = r.range(1, 6); k > 0; k--) a.push_back(w[r.below(29)]); bool rnd = a[0] == "-r"; if (rnd) { a = {"-r", "-p"}; if (r.chance(1, 2)) a.push_back("3"); } if (a[0] == "-rm" || a[0] == "-rn") { if (a.size() > 2 && (atoi(a[1].c_str()) < 1 || a[1] == "-q")) a.resize(2); } break; } }
    bool quiet = cmd != 5 && cmd < 6 && r.chance(1, 2); if (quiet) a.insert(a.begin() + 1, "-q"); string hist = shown(a) + (o.input.empty() ? "" : " typing " + hexOf(o.input, 800)) + " in.txt: " + hexOf(t, 1500); c.note(hist); c.sample(hist.substr(0, 300));
    o.clock = 1000000000L + r.below(100000000); bool randomMenu = cmd == 6 && (ses.find("r\nm") != string::npos || ses.find("r\nn") != string::npos || ses.find("r\nr") != string::npos);
    CliRes R = cli(c, dir, a, o); if (!judgeRun(c, R, hist, "")) return; if (cmd < 6) { string w = missing(dir, cmd, al, a, quiet, O, O2, writesO, writesO2, R.code); if (!w.empty()) { c.fail("unwritten-output-unreported", strf("exit status %d, ", R.code) + w + ": " + hist); return; } }
    if (cmd == 5 && R.code == 0 && !damaged && I == "in.txt") { bool t1 = truthOf(s, A_P) == 1; struct stat st; const string &w = t1 ? O : O2; if (t1 || a.size() > 2) { if (w.empty() || stat((w[0] == '/' ? w : dir + "/" + w).c_str(), &st) != 0 || !S_ISREG(st.st_mode) || st.st_size == 0) { c.fail("unwritten-output-unreported", "exit status 0, nothing in '" + w.substr(0, 40) + "': " + hist); return; } c.count("legacy_outputs_seen"); } }
    if (r.chance(1, 4)) { // the same run where the use of uninitialised values is noticed
        map<string, string> first = outputs(dir); for (auto &f : filesIn(dir)) if (f != "in.txt") unlink((dir + "/" + f).c_str()); writeFile(dir + "/in.txt", t); CliOpt m = o; m.msan = true; CliRes Q = cli(c, dir, a, m); if (!judgeRun(c, Q, "[uninitialised values tracked] " + hist, "")) return; if (Q.code != R.code) { c.fail("status-differs", strf("exit status %d, then %d from other fresh memory: ", R.code, Q.code) + hist); return; } if (outputs(dir) != first && cmd != 6) { c.fail("output-differs", "another output from other fresh memory: " + hist); return; } c.count("runs_with_tracked_values"); }
    c.distinct(mix64(hashStr(hist), R.code)); c.count(strf("command_%d", cmd).c_str()); if (R.requests <= 0 || randomMenu || !r.chance(2, 3)) return;
    map<string, string> clean = outputs(dir); for (int k = r.range(1, 3); k > 0; k--) {
        for (auto &f : filesIn(dir)) if (f != "in.txt") unlink((dir + "/" + f).c_str()); writeFile(dir + "/in.txt", t); o.failAt = r.range(1, (int)std::min<long>(R.requests, 1000000)); o.failForever = r.chance(1, 2); string h = strf("memory request %ld of %ld refused%s: ", o.failAt, R.requests, o.failForever ? " and all later ones" : "") + hist; c.note(h); CliRes Q = cli(c, dir, a, o); c.count("runs_with_refused_memory"); if (!judgeRun(c, Q, h, "-when-refused")) return;
        if (cmd < 6 && (Q.code == 0 || Q.code == 1)) { if (Q.code != R.code) { c.fail("wrong-status-when-refused", strf("exit status %d instead of %d or an error: ", Q.code, R.code) + h); return; } map<string, string> got = outputs(dir); if (got != clean) { string w; for (auto &x : clean) if (!got.count(x.first)) w = x.first + " was not written"; else if (got[x.first] != x.second) w = x.first + " differs: " + x.second.substr(0, 300) + " / " + got[x.first].substr(0, 300); for (auto &x : got) if (!clean.count(x.first)) w = x.first + " was written"; c.fail("wrong-output-when-refused", w + ": " + h); return; } if (cmd == 3 && !quiet && numbers(Q.out) != numbers(R.out)) { c.fail("wrong-output-when-refused", "console: " + numbers(R.out) + " / " + numbers(Q.out) + h); return; } c.count("refusals_without_effect"); } else if (cmd < 6) { c.count("refusals_reported"); string v = verdicts(Q.out), w = verdicts(R.out); if (v != w && !v.empty()) { c.fail("wrong-verdict-when-refused", v + " / " + w + ": " + h); return; }
            if (cmd == 1) { map<string, string> got = outputs(dir); for (auto &x : got) if (x.second.find(" SUCCESS") != string::npos && clean[x.first] != x.second) { c.fail("error-counted-as-success", x.first + " says " + x.second.substr(0, 200) + " though the run failed, and " + clean[x.first].substr(0, 200) + " without the refusal: " + h); return; } } } else c.count("refusals_reported"); c.distinct(mix64(hashStr(h), Q.code)); }
}
const Prop PROP = {"U06", 12000, 150000, 60, "one command line or menu session with bad names, damaged input, outputs on a full or missing device, or a refused memory request", run};
