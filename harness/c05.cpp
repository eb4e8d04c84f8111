#include "common.hpp"
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG g; int k = (int)(c.idx % 32);
    int known = -1; bool large = c.idx % 1021 == 1020;
    if (large) g = genLarge(r, A_33, 300, r.chance(1, 8) ? (c.thorough ? 40000 : 20000) : 3000, known, &nm);
    else if (k == 0) { nm = "big K33-free"; g = genGlued(r, r.range(40, c.thorough ? 250 : 100), 1); }
    else if (k <= 4) { nm = "K33-free"; g = genGlued(r, r.range(6, 40), 1); }
    else if (k <= 7) { nm = "K33-free+"; g = genGlued(r, r.range(6, 30), 1); int ex = r.range(1, 2); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); if (r.chance(1, 3)) g = subdivide(g, r, r.below(6)); }
    else if (k == 8) { nm = "K5 expanded"; g = Kn(5); int t = r.range(1, 3); for (int i = 0; i < t; i++) g = glue(r, g, r.chance(1, 3) ? Kab(3, 3) : r.chance(1, 2) ? Kn(5) : genPlanar(r, r.range(4, 10)), 2, r.below(2)); if (r.chance(1, 2)) g = subdivide(g, r, r.below(5)); }
    else if (k <= 10) { nm = "near planar"; g = genNearPlanar(r, r.range(6, 30), 1); }
    else if (k >= 24) { nm = "dense expanded"; SG b = k < 29 ? Kn(6) : k == 29 ? Kn(7) : k == 30 ? genRandom(r, 6, r.range(11, 14)) : genRandom(r, 7, r.range(13, 18)); g = genExpanded(r, b, b.n + r.range(3, k == 24 ? 16 : 8), 1); if (k == 28) { int a = r.range(1, g.n), b2 = r.range(1, g.n); if (a != b2) g.add(a, b2); } g.simplify(); }
    else if (k >= 16) { nm = "expanded"; SG b = k < 19 ? Kab(3, 3) : k == 19 ? genNamed(r, r.range(6, 10)) : k == 20 ? genNearPlanar(r, r.range(6, 9), 1) : k == 21 ? Kn(r.range(5, 6)) : k == 22 ? Kn(5) : genPlanarTri(r, r.range(4, 9)); g = genExpanded(r, b, b.n + r.range(1, k % 2 ? 15 : 40), 1); }
    else g = genAny(r, k < 14 ? 20 : 50, &nm);
    if (!large) g = permuted(g, r);
    c.note(nm + " " + g.str());
    int truth = large ? known : truthOf(g, A_33); RunInfo res = runAlgo(c, g, A_33, truth);
    c.count(truth ? "free_inputs" : "containing_inputs"); if (truth && !large && !oraclePlanar(g)) c.count("nonplanar_but_free"); if (g.e.size() >= 8) c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!res.err.empty()) c.fail(res.verdict == OK ? "missed" : res.verdict == NONEMBEDDABLE ? (truth ? "false-find" : "wrong-subgraph") : "error-result", res.err);
}
const Prop PROP = {"C05", 120000, 600000, 20, "distinct inputs with at least 8 edges decided against the 3-connected-component oracle, finds verified as one K3,3 subdivision", run};
