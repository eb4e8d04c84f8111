#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
#include <unistd.h>
// Menu sessions: what each choice leaves behind is compared with what the corresponding command line leaves behind
static const char *ANAME[] = {"PlanarEmbed", "OuterplanarEmbed", "DrawPlanar", "K23Search", "K33Search", "K4Search"};
static string steady(string t) { size_t p = 0; while ((p = t.find("DURATION=\"", p)) != string::npos) { p += 10; size_t e = t.find('"', p); if (e == string::npos) break; t.erase(p, e - p); } return t; }
static vector<string> telling(const string &out) { static const char *key[] = {"The graph ", "Num Embedded=", "Num Graphs", "Minor ", "Of the generated", "Created random graph with"}; vector<string> v; size_t p = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == string::npos) e = out.size(); string l = out.substr(p, e - p); for (auto k : key) { size_t q = l.find(k); if (q != string::npos) { l = l.substr(q); size_t i = l.find(" edges in "); if (i != string::npos) l.resize(i); v.push_back(l); break; } } p = e + 1; } return v; }
static void run(Ctx &c) {
    Rng &r = c.rng; string dir = cliDir(c), A = dir + "/a", B = dir + "/b"; for (auto &d : {A, B}) mkdir(d.c_str(), 0700); long clock = 1 + r.below(2000000000); vector<string> hist, said; string ses, console; auto both = [&](const string &n, const string &t) { writeFile(A + "/" + n, t); writeFile(B + "/" + n, t); };
    struct In { string name, typed; int kind; }; vector<In> ins; for (int i = r.range(1, 4); i > 0; i--) { In x; SG s = r.chance(1, 2) ? genPlanar(r, r.range(1, 25)) : genAny(r, 14); s.simplify(); if (s.n < 1) s = SG(1); int base; x.kind = r.below(4); string t = cliText(c, s, x.kind, base); if (r.chance(1, 8)) t.resize(r.below((int)t.size())); bool plain = r.chance(1, 3); x.typed = strf("in%d", i) + (plain ? "" : x.kind == T_G6 ? ".g6" : r.chance(1, 4) ? ".a.b" : ".txt"); if (!plain && r.chance(1, 20)) x.typed = string(r.range(60, 90), 'w') + x.typed; if (r.chance(1, 8)) x.typed = (r.chance(1, 2) ? "./" : ".") + x.typed; x.name = x.typed.find('.') == string::npos ? x.typed + ".txt" : x.typed; both(x.name, t); ins.push_back(x); hist.push_back(x.name + ": " + hexOf(t, 600)); }
    { In x; x.typed = x.name = "absent.txt"; x.kind = 0; ins.push_back(x); } char mode = 'r'; vector<pair<vector<string>, CliOpt>> cmds; vector<string> echoed; bool q = r.chance(2, 3); int n = r.range(1, 7), outNo = 0; CliOpt o; o.clock = clock; auto later = [&](const vector<string> &a, const string &input = "") { CliOpt k = o; k.input = input; cmds.push_back({a, k}); };
    for (int i = 0; i < n; i++) { int what = r.below(10); In &x = ins[r.below((int)ins.size())]; int al = r.below(A_COUNT); char L = ALGO_LETTERS[al]; if (r.chance(1, 6)) L = toupper(L); string key = r.chance(1, 2) ? "y\n" : "9\n", O = strf("o%d.out", outNo++);
        if (what < 3) { if (mode != 's') { ses += r.chance(1, 2) ? "r\ns\n" : r.chance(1, 2) ? "R\nS\n" : "r\n?\n"; mode = 's'; } ses += strf("%c\n%s\n", L, x.typed.c_str()) + key; string prim = x.name + "." + ANAME[al] + ".out.txt"; vector<string> a = {"-s", string("-") + ALGO_LETTERS[al], x.name, prim}; if (al <= A_D) a.push_back(""); later(a); }
        else if (what < 5) { char f = "gam"[r.below(3)]; ses += r.chance(1, 2) ? "x\n" : "X\n"; bool con = r.chance(1, 3); ses += x.name + "\n" + (con ? "" : O) + "\n" + (r.chance(1, 6) ? "q\nz\n" : "") + string(1, r.chance(1, 4) ? toupper(f) : f) + "\n" + key; later({"-x", string("-") + f, x.name, con ? "console.txt" : O}); if (con) echoed.push_back("x"); else echoed.push_back(""); while (echoed.size() < cmds.size()) echoed.insert(echoed.end() - 1, ""); }
        else if (what < 7) { ses += r.chance(1, 2) ? "t\n" : "T\n"; bool con = r.chance(1, 3); ses += x.name + "\n" + (con ? "" : O) + "\n" + (r.chance(1, 6) ? "x\n5\n" : "") + string(1, L) + "\n" + key; later({"-t", string("-") + ALGO_LETTERS[al], x.name, con ? "console.txt" : O}); while (echoed.size() + 1 < cmds.size()) echoed.push_back(""); echoed.push_back(con ? "t" : ""); }
        else if (what == 7) { ses += "r\nr\nn\nn\nn\nn\n"; mode = 'r'; int k = r.range(1, 40), m = r.range(1, 20); ses += strf("%c\n%d\n%d\n", L, k, m) + key; later({"-r", string("-") + ALGO_LETTERS[al], strf("%d", k), strf("%d", m)}); }
        else if (what == 8) { bool rn = r.chance(1, 2); ses += rn ? "r\nn\n" : "r\nm\n"; mode = 'm'; int m = r.range(1, 30); bool sv = r.chance(1, 2); ses += strf("%c\n%d\n%c\n", r.chance(1, 2) ? 'p' : 'P', m, sv ? 'y' : 'n') + key; later({rn ? "-rn" : "-rm", strf("%d", m), "unused.txt"}, sv ? "y\n" : "n\n"); }
        else { ses += r.chance(1, 2) ? "h\n" : string(1, "!7wz?"[r.below(5)]) + "\n"; ses += key; } while (echoed.size() < cmds.size()) echoed.push_back(""); }
    if (q) ses += r.chance(1, 2) ? "q\n" : "Q\n"; else if (r.chance(1, 3)) { ses += r.chance(1, 2) ? "x\n" : "t\nabsent.txt\n"; } string h = "menu " + hexOf(ses, 1500) + strf(" at %ld;", clock); for (auto &x : hist) h += " " + x; c.note(h); c.sample(h.substr(0, 250));
    o.input = ses; CliRes R = cli(c, A, {}, o); if (R.abnormal) { c.fail(R.key, R.why + ": " + h + "\n" + R.err.substr(0, 1500)); return; } if (R.code != 0) { c.fail("exit-status", strf("%d: ", R.code) + h); return; }
    vector<string> want; string cons; for (size_t i = 0; i < cmds.size(); i++) { CliRes Q = cli(c, B, cmds[i].first, cmds[i].second); if (Q.abnormal) { c.fail(Q.key, Q.why + ": " + shown(cmds[i].first) + " " + h + "\n" + Q.err.substr(0, 1500)); return; } for (auto &l : telling(Q.out)) want.push_back(l); unlink((B + "/unused.txt").c_str()); bool ok; string t = readFile(B + "/console.txt", &ok); if (ok) { unlink((B + "/console.txt").c_str()); if (Q.code == 0 && steady(R.out).find("Output:\n" + steady(t) + "\n") == string::npos) { c.fail("console-output", "not shown: " + hexOf(t) + ": " + h + "\n" + R.out.substr(0, 600)); return; } if (Q.code == 0) c.count("console_outputs_compared"); } c.count(strf("actions_%s", cmds[i].first[0].c_str()).c_str()); if (Q.code == 255) c.count("failing_actions"); }
    vector<string> got = telling(R.out); if (got != want) { string w; for (size_t i = 0; i < std::max(got.size(), want.size()); i++) if (i >= got.size() || i >= want.size() || got[i] != want[i]) { w = (i < want.size() ? want[i] : "nothing") + " / " + (i < got.size() ? got[i] : "nothing"); break; } c.fail("reports-differ", "command line / menu: " + w + ": " + h); return; }
    set<string> fa = filesIn(A), fb = filesIn(B); if (fa != fb) { string w; for (auto &f : fa) if (!fb.count(f)) w += " menu wrote " + f; for (auto &f : fb) if (!fa.count(f)) w += " command line wrote " + f; c.fail("files-differ", w + ": " + h); return; } for (auto &f : fa) { string x = readFile(A + "/" + f), y = readFile(B + "/" + f); if (steady(x) != steady(y)) { c.fail("output-differs", f + ": " + h + "\nmenu: " + x.substr(0, 500) + "\ncommand line: " + y.substr(0, 500)); return; } c.count("files_compared"); } c.count("reports_compared", (ll)want.size()); c.distinct(mix64(hashStr(ses), (ull)clock)); c.count(q ? "sessions_quit" : "sessions_ended_by_end_of_input");
}
const Prop PROP = {"U05", 2500, 60000, 60, "one menu session of several choices with a known clock, compared with the corresponding command lines run in another directory", run};
