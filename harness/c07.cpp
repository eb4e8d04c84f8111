#include "common.hpp"
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG g; int k = (int)(c.idx % 16);
    int known = -1; bool large = c.idx % 251 == 250;
    if (large) g = genLarge(r, A_D, 300, r.chance(1, 8) ? (c.thorough ? 12000 : 6000) : 3000, known, &nm);
    else if (k == 0) { nm = "big planar"; int n = r.range(90, c.thorough ? 600 : 160); g = r.chance(1, 2) ? genPlanarTri(r, n) : genPlanar(r, n); }
    else if (k == 1) { nm = "sparse labels"; int n = r.range(100, 130); g = r.chance(1, 2) ? genTree(r, n) : genOuterplanar(r, n); }
    else if (k <= 4) { nm = "planar"; int n = r.range(4, 40); g = r.chance(1, 2) ? genPlanarTri(r, n) : genPlanar(r, n); }
    else if (k <= 7) { nm = "glued planar"; for (int t = 0; t < 10; t++) { g = genGlued(r, r.range(5, 40), 3); if (oraclePlanar(g)) break; } }
    else if (k == 8) { nm = "outerplanar"; g = genOuterplanar(r, r.range(3, 40)); }
    else if (k == 9) { nm = "planar with isolated parts"; g = genPlanar(r, r.range(3, 20)); g = glue(r, g, genPlanar(r, r.range(3, 20)), 0, 0); g.n += r.below(3); }
    else g = genAny(r, k < 14 ? 24 : 50, &nm);
    if (!large) g = permuted(g, r);
    c.note(nm + " " + g.str());
    int truth = large ? known : k <= 1 ? 1 : oraclePlanar(g); RunInfo res = runAlgo(c, g, A_D, truth, true);
    c.count(truth ? "planar_inputs" : "nonplanar_inputs"); if (truth && g.e.size() >= 4) c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!res.err.empty()) c.fail(res.verdict == OK ? (truth ? "wrong-drawing" : "accepted") : res.verdict == NONEMBEDDABLE ? "refused" : "error-result", res.err + (res.dump.empty() ? "" : "\n" + res.dump));
}
const Prop PROP = {"C07", 40000, 400000, 20, "distinct planar inputs with at least 4 edges whose drawing and rendered picture were verified", run};
