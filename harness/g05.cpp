#include "common.hpp"
static bool isSearch(int a) { return a == A_23 || a == A_33 || a == A_4; }
// What the caller sees of one run: verdict, resulting lists, drawing, result check, text.
static string runOne(Ctx &c, graphP g, graphP orig, int algo, bool check, int *verdict) {
    int v = gp_Embed(g, embedFlagsOf(algo)); *verdict = v; string o = strf("%s verdict %d flags %d\n", algoName(algo), v, g->embedFlags);
    bool undefinedLeft = (v == OK && isSearch(algo)) || (v == NONEMBEDDABLE && algo == A_D); if (undefinedLeft || (v != OK && v != NONEMBEDDABLE)) return o;
    if (check) { int t = gp_TestEmbedResultIntegrity(g, orig, v); o += strf("integrity %d\n", t); c.count("integrity_checks"); if (t != v) o += "REFUSED\n"; }
    o += dumpGraph(g, true); if (gp_SortVertices(g) != OK) o += "sort failed\n"; o += dumpGraph(g, true);
    if (algo == A_D && v == OK) { Drawing d; string why; if (!getDrawing(g, d, why)) o += why; else { for (int k = 1; k <= g->N; k++) o += strf(" %d,%d,%d", d.vpos[k], d.vs[k], d.ve[k]); for (auto &x : d.e) o += strf(" %d-%d:%d,%d,%d", x.first.first, x.first.second, x.second[0], x.second[1], x.second[2]); } char *p = 0; if (gp_DrawPlanar_RenderToString(g, &p) != OK) o += "render failed"; else o += p; vf_free(p); }
    return o;
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, r.chance(1, 12) ? 60 : 20, &nm); in.simplify(); if (in.n < 1) return; string hist = nm + " " + in.str() + ":"; int m = (int)in.e.size();
    vector<int> lk; for (int i = 0; i < m; i++) lk.push_back(r.below(4));
    GraphHolder g(gp_New()); if (!g.g) return; set<int> have;
    auto shuffleFeatures = [&](int most) -> bool { int k = r.below(most + 1); while (k--) { int a = r.range(A_D, A_4); if (r.chance(3, 5)) { hist += strf(" +%s", algoName(a)); c.note(hist); if (attachFor(g, a) != OK) { c.fail("attach-failed", hist); return false; } have.insert(a); c.count("attached"); } else { bool had = have.count(a); hist += strf(" -%s", algoName(a)); c.note(hist); if (detachFor(g, a) != OK && had) { c.fail("detach-failed", hist); return false; } have.erase(a); c.count("detached"); }
            for (int b = A_D; b <= A_4; b++) if (hasFeature(g, b) != !!have.count(b)) { c.fail("wrong-features", strf("%s is %sattached | ", algoName(b), have.count(b) ? "not " : "") + hist); return false; } } return true; };
    int cap = std::max(m, 3 * in.n) + 2; if (gp_EnsureArcCapacity(g, 2 * cap) != OK) { c.fail("ensure", hist); return; }
    if (!shuffleFeatures(5)) return; hist += " init"; c.note(hist); if (gp_InitGraph(g, in.n) != OK) { c.fail("init-failed", hist); return; } if (!shuffleFeatures(4)) return;
    int rounds = r.range(1, 4); bool dupd = false;
    for (int k = 0; k < rounds; k++) {
        int part = r.chance(1, 3) ? r.below(m + 1) : m; auto add = [&](graphP x, int from, int to) { for (int i = from; i < to; i++) if (gp_AddEdge(x, in.e[i].first, lk[i] & 1, in.e[i].second, lk[i] >> 1) != OK) return false; return true; };
        if (!add(g, 0, part)) { c.fail("add-failed", hist); return; } if (part < m && !shuffleFeatures(3)) return; if (!add(g, part, m)) { c.fail("add-failed", hist); return; }
        if (!shuffleFeatures(3)) return; hist += " filled";
        vector<int> can = {A_P, A_O}; for (int a : have) { can.push_back(a); can.push_back(a); } int algo = can[r.below((int)can.size())]; bool check = r.chance(1, 2); hist += strf(" %s", algoName(algo)); c.note(hist);
        GraphHolder orig(gp_New()), ref(gp_New()); for (graphP x : {orig.g, ref.g}) if (!x || gp_EnsureArcCapacity(x, 2 * cap) != OK || gp_InitGraph(x, in.n) != OK || !add(x, 0, m)) { c.fail("build", hist); return; }
        if (attachFor(ref, algo) != OK) { c.fail("build", hist); return; }
        GraphHolder orig2; if (check && r.chance(1, 3)) { orig2.g = gp_DupGraph(g); if (!orig2.g) { c.fail("dup-failed", hist); return; } }
        int v1, v2; string a = runOne(c, g, orig2.g ? orig2.g : orig.g, algo, check, &v1), b = runOne(c, ref, orig, algo, check, &v2); c.count("runs_compared");
        if (a != b) { c.fail("answers-differ", firstDiff(a, b) + strf(" (with %zu features attached) | ", have.size()) + hist); return; }
        if (check && a.find("REFUSED") != string::npos) { c.fail("integrity-refused", a.substr(0, 80) + " | " + hist); return; }
        if (in.n <= 10 && k == 0) { int t = truthOf(in, algo); if ((v1 == OK) != (t == 1)) { c.fail("wrong-verdict", a.substr(0, 80) + " | " + hist); return; } }
        bool undefinedLeft = (v1 == OK && isSearch(algo)) || (v1 == NONEMBEDDABLE && algo == A_D);
        if (!undefinedLeft) { // detaching and attaching leaves the result alone; the text has a drawing section exactly when the drawing feature is attached
            string was = dumpGraph(g, true); if (!shuffleFeatures(3)) return; if (dumpGraph(g, true) != was) { c.fail("result-changed", firstDiff(was, dumpGraph(g, true)) + " | " + hist); return; }
            char *t = 0; c.note(hist + " write"); if (gp_WriteToString(g, &t, WRITE_ADJLIST) != OK || !t) { vf_free(t); c.fail("write-failed", hist); return; } string s = t; vf_free(t); bool sec = s.find("<DrawPlanar>") != string::npos; if (sec != !!have.count(A_D)) { c.fail("wrong-text", hist + "\n" + s); return; }
            detachFor(ref, A_D); t = 0; if (gp_WriteToString(ref, &t, WRITE_ADJLIST) != OK || !t) { vf_free(t); c.fail("write-failed", hist); return; } string u = t; vf_free(t); if (s.substr(0, s.find("<DrawPlanar>")) != u) { c.fail("wrong-text", hist + "\n" + s + "---\n" + u); return; } c.count("texts_compared");
        } else if (!shuffleFeatures(2)) return;
        hist += " reinit"; c.note(hist); gp_ReinitializeGraph(g);
        if (r.chance(1, 5) && !dupd) { graphP d = gp_DupGraph(g); if (!d) { c.fail("dup-failed", hist); return; } gp_Free(&g.g); g.g = d; hist += " dup"; dupd = true; }
        if (!shuffleFeatures(3)) return;
    }
    c.distinct(hashStr(hist)); c.sample(hist);
}
const Prop PROP = {"G05", 60000, 600000, 20, "distinct histories of attaching, detaching, filling, running and reinitialising; every run compared with a graph that has only the needed feature", run};
