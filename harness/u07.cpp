#include "clirun.hpp"
#include "textgen.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
// The self test over sample directories that agree with the program, and over ones with a difference somewhere
static const char *SPEC[][2] = {{"p", "maxPlanar5.txt"}, {"d", "maxPlanar5.txt"}, {"d", "drawExample.txt"}, {"p", "Petersen.txt"}, {"o", "Petersen.txt"}, {"2", "Petersen.txt"}, {"3", "Petersen.txt"}, {"4", "Petersen.txt"}, {"p", "maxPlanar5.0-based.txt"}, {"d", "maxPlanar5.0-based.txt"}, {"d", "drawExample.0-based.txt"}, {"p", "Petersen.0-based.txt"}, {"o", "Petersen.0-based.txt"}, {"2", "Petersen.0-based.txt"}, {"3", "Petersen.0-based.txt"}, {"4", "Petersen.0-based.txt"}};
static const char *TRAN[][3] = {{"a", "nauty_example.g6", ".0-based.AdjList.out.txt"}, {"a", "N5-all.g6", ".0-based.AdjList.out.txt"}, {"a", "K10.g6", ".0-based.AdjList.out.txt"}, {"m", "nauty_example.g6", ".0-based.AdjMat.out.txt"}, {"m", "N5-all.g6", ".0-based.AdjMat.out.txt"}, {"m", "K10.g6", ".0-based.AdjMat.out.txt"}, {"g", "nauty_example.g6.0-based.AdjList.out.txt", ".0-based.G6.out.g6"}, {"g", "K10.g6.0-based.AdjList.out.txt", ".0-based.G6.out.g6"}};
static const char *alg(char c) { switch (c) { case 'p': return ".PlanarEmbed.out.txt"; case 'd': return ".DrawPlanar.out.txt"; case 'o': return ".OuterplanarEmbed.out.txt"; case '2': return ".K23Search.out.txt"; case '3': return ".K33Search.out.txt"; default: return ".K4Search.out.txt"; } }
static string noCR(const string &s) { string o; for (char ch : s) if (ch != '\r') o += ch; return o; }
static void run(Ctx &c) {
    Rng &r = c.rng; string dir = cliDir(c), repo = getenv("VF_SAMPLES") ? getenv("VF_SAMPLES") : "", why; int place = r.below(4); string sd = place == 0 ? "samples" : place == 1 ? "my samples" : place == 2 ? "samples" : "deep/d"; mkdir((dir + "/deep").c_str(), 0700); mkdir((dir + "/" + sd).c_str(), 0700); string S = dir + "/" + sd, hist; bool own = r.chance(2, 3), ok; set<string> outs; map<string, string> F;
    if (!own) { DIR *p = opendir(repo.c_str()); if (!p) { c.fail("no-samples", repo); return; } while (dirent *e = readdir(p)) { string n = e->d_name; if (n[0] == '.') continue; string t = readFile(repo + "/" + n, &ok); if (ok) F[n] = t; } closedir(p); hist = "the repository's samples"; }
    else { hist = "new samples:"; SG mp = genPlanar(r, r.range(1, 25)), dr = genPlanar(r, r.range(1, 20)), pe, ga = genAny(r, 15), gb = genAny(r, 9), gc = genAny(r, 30); while (true) { pe = r.chance(1, 2) ? genRandom(r, r.range(6, 16), r.range(14, 50)) : genNearPlanar(r, r.range(7, 25), r.range(1, 4)); pe.simplify(); if (truthOf(pe, A_P) != 1 && truthOf(pe, A_33) != 1 && truthOf(pe, A_23) != 1 && truthOf(pe, A_4) != 1) break; } for (SG *x : {&mp, &dr, &ga, &gb, &gc}) { x->simplify(); if (x->n < 1) *x = SG(2); }
        F["maxPlanar5.txt"] = tgList(r, mp, 1); F["maxPlanar5.0-based.txt"] = tgList(r, mp, 0); F["drawExample.txt"] = tgList(r, dr, 1); F["drawExample.0-based.txt"] = tgList(r, dr, 0); F["Petersen.txt"] = tgList(r, pe, 1); F["Petersen.0-based.txt"] = tgList(r, pe, 0); F["nauty_example.g6"] = g6encode(ga) + "\n"; F["N5-all.g6"] = ">>graph6<<" + g6encode(gb) + "\n" + g6encode(SG(gb.n)) + "\n"; F["K10.g6"] = g6encode(gc); for (auto &x : F) { writeFile(S + "/" + x.first, x.second); hist += " " + hexOf(x.second, 200); }
        for (auto &x : SPEC) { string I = x[1], O = I + alg(x[0][0]); CliRes Q = cli(c, S, {"-s", "-q", string("-") + x[0], I, O, ""}); if (Q.abnormal || (Q.code != 0 && Q.code != 1)) { c.fail(Q.abnormal ? Q.key : "exemplar", Q.why + strf("exit status %d making ", Q.code) + O + ": " + hist); return; } } for (auto &x : TRAN) { string I = x[1], O = I + x[2]; CliRes Q = cli(c, S, {"-x", "-q", string("-") + x[0], I, O}); if (Q.abnormal || Q.code != 0) { c.fail(Q.abnormal ? Q.key : "exemplar", strf("exit status %d making ", Q.code) + O + ": " + hist); return; } }
        for (auto &f : filesIn(S)) F[f] = readFile(S + "/" + f); c.count("sample_directories_made"); }
    for (auto &x : SPEC) { string O = string(x[1]) + alg(x[0][0]); outs.insert(O); if (x[0][0] == 'd') outs.insert(O + ".render.txt"); } for (auto &x : TRAN) outs.insert(string(x[1]) + x[2]); for (auto &f : outs) if (!F.count(f)) { c.fail("exemplar", f + " was not made: " + hist); return; } for (auto &x : F) if (!own) writeFile(S + "/" + x.first, x.second); vector<string> ex(outs.begin(), outs.end());
    for (int k = own ? 3 : 5; k > 0; k--) { string f = ex[r.below((int)ex.size())], t = F[f], was = t, what; int kind = k == (own ? 3 : 5) ? 0 : r.range(1, 10); bool gone = false; bool list = f.find(".g6.0-based.AdjList.out.txt") != string::npos && f.find("N5") == string::npos; // such a file is also the input of a transformation
        size_t p = r.below((int)t.size()); switch (kind) { case 0: what = "nothing altered"; break; case 1: t[p] = t[p] == '1' ? '2' : '1'; what = "a character altered"; break; case 2: t.erase(p, 1); what = "a character lost"; break; case 3: t.insert(p, 1, " 0\n:"[r.below(4)]); what = "a character added"; break; case 4: t.resize(p); what = "cut"; break; case 5: { string o; for (char ch : t) { if (ch == '\n') o += '\r'; o += ch; } t = o; what = "other line ends"; break; } case 6: gone = true; what = "missing"; break; case 7: t += "\n"; what = "line added at the end"; break; case 8: t.resize(t.size() - 1); what = "last character lost"; break; case 9: t += string(1, '\0'); what = "null character added"; break; default: t = F[ex[r.below((int)ex.size())]]; what = "replaced by another exemplar"; }
        bool same = !gone && noCR(t) == noCR(was); if (list && !same) { t = was; gone = false; same = true; what = "nothing altered"; } if (gone) unlink((S + "/" + f).c_str()); else writeFile(S + "/" + f, t); string cwd = dir; vector<string> a = {"-test"}; if (r.chance(1, 2)) a.push_back("-q"); if (sd == "samples" && r.chance(1, 2)) { if (r.chance(1, 2)) cwd = dir + "/deep"; if (r.chance(1, 3)) a.push_back("samples"); } else a.push_back(r.chance(1, 2) ? sd : S);
        string h = shown(a) + ", " + f + ": " + what + " (" + hexOf(t, 600) + "), " + hist; c.note(h); c.sample(h.substr(0, 250)); CliRes R = cli(c, cwd, a); if (R.abnormal) { c.fail(R.key, R.why + ": " + h + "\n" + R.err.substr(0, 1500)); return; } if (R.code != (same ? 0 : 255)) { c.fail(same ? "agreeing-samples-fail" : "difference-unnoticed", strf("exit status %d: ", R.code) + h + "\n" + R.err.substr(0, 300)); return; } if (R.blocks > 0 || R.files > 0) { c.fail("leak", strf("%ld blocks, %ld files: ", R.blocks, R.files) + h); return; }
        if (a.size() > 1 && a[1] == "-q" ? !(R.out + R.err).empty() : R.out.find(same ? "Tests of all specific graphs succeeded." : "One or more specific graph tests FAILED.") == string::npos) { c.fail("message", h + "\n" + R.out.substr(0, 300)); return; }
        c.count(same ? "agreeing_directories" : "differing_directories"); c.distinct(mix64(hashStr(f + what), hashStr(t))); writeFile(S + "/" + f, was); set<string> fs = filesIn(S); if (fs.size() != F.size()) { c.fail("unpromised-file", h); return; } for (auto &x : F) if (readFile(S + "/" + x.first) != x.second) { c.fail("sample-changed", x.first + ": " + h); return; } }
    if (r.chance(1, 4)) { static const char *in[] = {"Petersen.txt", "Petersen.0-based.txt", "maxPlanar5.txt", "drawExample.0-based.txt", "nauty_example.g6", "K10.g6", "N5-all.g6"}; string f = in[r.below(7)], was = F[f], t; int n = 0; bool g6 = f.find(".g6") != string::npos; if (g6) { SG x(r.range(2, 9)); x.add(1, 2); t = g6encode(x) + "\n"; if (was.find(g6encode(x)) != string::npos) t = g6encode(SG(x.n)) + "\n"; } else { n = atoi(was.c_str() + 2); bool z = f.find("0-based") != string::npos; SG x(n); if (f[0] != 'P') { x = Kn(n < 5 ? 5 : n); } t = tgList(r, x, z ? 0 : 1); if (t == was) t = tgList(r, SG(n), z ? 0 : 1); }
        if (r.chance(1, 6)) t = ""; writeFile(S + "/" + f, t); string h = "planarity -test, input " + f + " replaced by " + hexOf(t) + ", " + hist; c.note(h); CliRes R = cli(c, dir, {"-test", sd == "samples" ? S : sd}); if (R.abnormal) c.fail(R.key, R.why + ": " + h + "\n" + R.err.substr(0, 1500)); else if (R.code != 255) c.fail("difference-unnoticed", strf("exit status %d: ", R.code) + h); else if (R.blocks > 0 || R.files > 0) c.fail("leak", strf("%ld blocks, %ld files: ", R.blocks, R.files) + h); writeFile(S + "/" + f, was); c.count("inputs_replaced"); }
    if (r.chance(1, 10)) { CliRes R = cli(c, dir, {"-test", "no such directory"}); if (R.abnormal || R.code != 0 || R.out.find("WARNING: Unable to change to samples directory") == string::npos) c.fail("missing-directory", strf("exit status %d", R.code)); c.count("missing_directories"); }
}
const Prop PROP = {"U07", 600, 15000, 60, "one sample directory (the repository's, or one made with new graphs) given to the self test unaltered and with one exemplar altered in one of ten ways", run};
