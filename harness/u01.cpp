#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
static const char *ANAME[] = {"PlanarEmbed", "OuterplanarEmbed", "DrawPlanar", "K23Search", "K33Search", "K4Search"};
// the form of the 1.x versions: INPUT OUTPUT [-n OBSTRUCTION], planarity only, status 0 for both verdicts
static void legacy(Ctx &c) {
    Rng &r = c.rng; SG s = r.chance(1, 2) ? genPlanar(r, r.range(1, 40)) : genAny(r, r.chance(1, 6) ? 60 : 14); s.simplify(); if (s.n < 1) s = SG(r.range(1, 4)); string dir = cliDir(c); int kind = r.below(4), base; string t = cliText(c, s, kind, base), I = cliFileName(r, ".txt"), O = cliFileName(r, ".out"), O2 = cliFileName(r, ".n"); SG in = s;
    if (I[0] == '-') I = "i" + I; if (O == I) O += "2"; while (O2 == I || O2 == O) O2 += "3"; bool n = r.chance(2, 3), bad = r.chance(1, 12); int no = bad ? 0 : r.chance(1, 10) ? r.range(1, 4) : 0; if (no == 1) O = "nowhere/o"; if (no == 2) O2 = "nowhere/n"; if (no == 3) O = "/dev/full"; if (no == 4) O2 = "/dev/full";
    if (bad) { if (r.chance(1, 2)) t.assign(r.range(0, 20), '#'); else I = "nowhere/i"; } if (I[0] != 'n' || I != "nowhere/i") writeFile(dir + "/" + I, t); vector<string> a = {I, O}; if (n) { a.push_back("-n"); a.push_back(O2); } else if (r.chance(1, 4)) { a.push_back(r.chance(1, 2) ? "-x" : "-n"); }
    string hist = shown(a) + " on input: " + hexOf(t, 3000); c.note(hist); c.sample(hist.substr(0, 300)); set<string> before = filesIn(dir); CliRes R = cli(c, dir, a); if (R.abnormal) { c.fail(R.key, R.why + ": " + hist + "\n" + R.err.substr(0, 1500)); return; }
    set<string> now = filesIn(dir), allowed = before; bool pl = truthOf(in, A_P) == 1; string w = pl ? O : n ? O2 : "", text, e; bool ok; if (bad) { if (R.code == 0 || R.code == 1) c.fail("unreadable-accepted", hist); else if (now != before) c.fail("file-of-failed-run", hist); c.count("legacy_unreadable"); return; }
    if (no && w == (no % 2 ? O : O2)) { if (R.code == 0 || R.code == 1) c.fail("unwritten-output-unreported", strf("exit status %d: ", R.code) + hist); c.count("legacy_outputs_not_writable"); return; }
    if (R.code != 0) { c.fail("exit-status", strf("exit status %d: ", R.code) + hist); return; } if (!w.empty()) { allowed.insert(w); text = readFile(dir + "/" + w, &ok); if (!ok) { c.fail("primary-missing", w + ": " + hist); return; } e = resultTextError(text, in, A_P, pl ? OK : NONEMBEDDABLE, base); if (!e.empty()) { c.fail("primary-output", e + ": " + hist + "\noutput: " + text.substr(0, 1500)); return; } c.count(pl ? "legacy_embeddings_judged" : "legacy_obstructions_judged"); c.distinct(mix64(in.hash(), hashStr(text))); }
    if (now != allowed) { c.fail("unpromised-file", hist); return; } if (readFile(dir + "/" + I) != t) c.fail("input-changed", hist);
}
static void run(Ctx &c) {
    if (c.idx % 12 == 5) { legacy(c); return; }
    Rng &r = c.rng; string nm; SG s = c.idx % 61 == 7 ? genPlanar(r, r.range(100, 400)) : r.chance(1, 4) ? genPlanar(r, r.range(1, 30)) : r.chance(1, 5) ? genOuterplanar(r, r.range(1, 25)) : genAny(r, r.chance(1, 6) ? 60 : 14, &nm); s.simplify(); if (s.n < 1) s = SG(r.range(1, 4)); if (r.chance(1, 4)) s.n += r.below(3);
    string dir = cliDir(c); int kind = r.below(4), base; int algo = r.below(A_COUNT); string t = cliText(c, s, kind, base); SG in = s; string ext[] = {".txt", ".adj", ".leda", ".g6"}; string I = cliFileName(r, ext[kind]), O = cliFileName(r, ".out"), O2; if (I == O) O = I + ".o";
    int o2 = r.below(4); /* 0 none 1 name 2 empty 3 none */ if (o2 == 1) { O2 = cliFileName(r, ".second"); if (O2 == O || O2 == I) O2 = "second" + O2.substr(0, 100); } if (r.chance(1, 25)) O = I; bool longO = r.chance(1, 25); if (longO) O = string(r.range(129, 240), 'L');
    bool sub = r.chance(1, 8); if (sub) { mkdir((dir + "/sub").c_str(), 0700); if (!longO && O != I) O = "sub/" + O; if (O.size() > 128 && !longO) O = "sub/o"; if (r.chance(1, 2)) { bool same = O == I; I = "sub/" + I; if (same) O = I; if (I == O && !same) O += "2"; } } if (I.size() > 128 || (O.size() > 128 && !longO)) return;
    // inputs that cannot be read
    int bad = r.chance(1, 7) ? r.range(1, 6) : 0; if (bad == 6) { string x = t; if (kind == T_G6) { size_t e = x.find_first_of("\r\n", x.compare(0, 10, ">>graph6<<") ? 0 : 10); x = x.substr(0, e); if (s.n >= 2) x.pop_back(); else x = ""; } else if (kind == T_LEDA) { if (s.e.empty()) bad = 2; x.resize(x.rfind('\n', x.size() - 2) + 1); } else if (kind == T_MATRIX) { if (s.n < 2) bad = 2; else x.resize(x.find_last_of("01")); } else { x.resize(x.find_last_of("0123456789")); if (base == 0) x.resize(x.find_last_of("-")); } t = x; }
    if (bad == 4) I = string(r.range(129, 200), 'i'); if (bad == 2) t = ""; if (bad == 3) mkdir((dir + "/" + I).c_str(), 0700); else if (bad != 1) writeFile(dir + "/" + I, t); if (bad == 5) t.assign(r.range(1, 30), "#?x\n"[r.below(4)]), writeFile(dir + "/" + I, t);
    if (bad == 3 && O == I) return;
    // outputs that cannot be written
    bool noDir = !bad && !longO && O != I && r.chance(1, 20); if (noDir) O = "nowhere/out"; bool noDir2 = !bad && !noDir && o2 == 1 && r.chance(1, 15); if (noDir2) O2 = "nowhere/second"; bool con = !bad && !longO && !noDir && O != I && o2 != 2 && r.chance(1, 15); if (con) O = "stdout";
    bool quiet = r.chance(1, 2) || con; int wrong = r.chance(1, 30) ? r.range(1, 3) : 0; string alg = wrong == 1 ? "-z" : wrong == 2 ? (r.chance(1, 2) ? "" : string(1, ALGO_LETTERS[algo])) : string("-") + ALGO_LETTERS[algo];
    vector<string> a = {"-s"}; if (quiet) a.push_back("-q"); a.push_back(alg); a.push_back(I); a.push_back(O); if (o2 == 1 || o2 == 2) a.push_back(o2 == 1 ? O2 : ""); if (wrong == 3) a.resize(r.range(1, quiet ? 4 : 3));
    string hist = shown(a) + " on " + (bad ? "unreadable " : "") + "input: " + hexOf(t, 3000); c.note(hist); c.sample(hist.substr(0, 300)); set<string> before = filesIn(dir);
    CliRes R = cli(c, dir, a); if (R.abnormal) { c.fail(R.key, R.why + ": " + hist + "\n" + R.err.substr(0, 1500)); return; }
    set<string> now = filesIn(dir); auto extra = [&](const set<string> &allowed) { for (auto &f : now) if (!before.count(f) && !allowed.count(f)) return f; return string(); }; string x;
    if (bad || wrong) { if (R.code == 0 || R.code == 1) c.fail(bad ? "unreadable-accepted" : "bad-arguments-accepted", strf("exit status %d: ", R.code) + hist); else if (!(x = extra({})).empty()) c.fail("file-of-failed-run", x + ": " + hist); c.count(bad ? strf("unreadable_kind_%d", bad).c_str() : "bad_arguments"); return; }
    int truth = truthOf(in, algo), verdict = truth == 1 ? OK : NONEMBEDDABLE; bool search = algo >= A_23; c.count(strf("%s_%s", algoName(algo), truth ? "ok" : "nonembeddable").c_str());
    string prim = longO ? I + "." + ANAME[algo] + ".out.txt" : O; bool primary = search ? verdict == NONEMBEDDABLE : verdict == OK; string sec; bool secondary = false;
    if (o2 == 1 || o2 == 2) { if ((algo == A_P || algo == A_O) && verdict == NONEMBEDDABLE) { secondary = true; sec = o2 == 2 ? prim : O2; } else if (algo == A_D && verdict == OK) { secondary = true; sec = o2 == 2 ? prim + ".render.txt" : O2; } }
    bool mustFail = (primary && noDir) || (secondary && (noDir2 || (noDir && o2 == 2)));
    if (mustFail) { if (R.code == 0 || R.code == 1) c.fail("unwritten-output-unreported", strf("exit status %d: ", R.code) + hist); c.count("outputs_not_writable"); return; }
    if (R.code != (verdict == OK ? 0 : 1)) { c.fail("exit-status", strf("exit status %d, but the graph is %s: ", R.code, verdict == OK ? "embeddable / nothing is to be found" : "not embeddable / has the pattern") + hist + "\n" + R.err.substr(0, 500)); return; }
    Drawing d; bool con1 = prim == "stdout"; string text; bool ok = true; set<string> allowed; auto top = [](const string &p) { return p.substr(0, p.find('/')); };
    if (primary) { if (!con1) allowed.insert(top(prim)); text = con1 ? R.out : readFile(dir + "/" + prim, &ok); if (!ok) { c.fail("primary-missing", prim + ": " + hist); return; } string e = resultTextError(text, in, algo, verdict, base, &d); if (!e.empty()) { c.fail("primary-output", e + ": " + hist + "\noutput: " + text.substr(0, 1500)); return; } c.count("primary_outputs_judged"); c.distinct(mix64(in.hash(), hashStr(text) + algo)); }
    else if (!secondary || sec != prim) { if (O == I ? readFile(dir + "/" + I) != t : readFile(dir + "/" + prim, &ok) != "" || ok) { c.fail("unpromised-primary", hist); return; } if (con1 && !R.out.empty()) { c.fail("unpromised-primary", R.out + hist); return; } }
    if (secondary) { if (sec != "stdout") allowed.insert(top(sec)); text = sec == "stdout" ? R.out : readFile(dir + "/" + sec, &ok); if (!ok) { c.fail("secondary-missing", sec + ": " + hist); return; } string e = algo == A_D ? renderError(in, d, text, base) : resultTextError(text, in, algo, verdict, base); if (!e.empty()) { c.fail("secondary-output", e + ": " + hist + "\noutput: " + text.substr(0, 1500)); return; } c.count("secondary_outputs_judged"); c.distinct(mix64(in.hash(), hashStr(text))); }
    else if (o2 == 1 && now.count(top(O2)) && !before.count(top(O2)) && !allowed.count(top(O2))) { c.fail("unpromised-secondary", hist); return; }
    if (!(x = extra(allowed)).empty()) { c.fail("unpromised-file", x + ": " + hist); return; } if (O != I && readFile(dir + "/" + I) != t) { c.fail("input-changed", hist); return; }
}
const Prop PROP = {"U01", 9000, 160000, 60, "one run of the program on one graph: all algorithms, four input formats, file-name and output-file combinations, unreadable inputs and unwritable outputs", run};
