#include "common.hpp"
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG g; int k = (int)(c.idx % 16);
    int known = -1; bool large = c.idx % 251 == 250;
    if (large) g = genLarge(r, A_O, 300, r.chance(1, 8) ? (c.thorough ? 80000 : 40000) : 3000, known, &nm);
    else if (k == 0) { nm = "big outerplanar"; g = genOuterplanar(r, r.range(60, c.thorough ? 1500 : 300)); }
    else if (k <= 4) { nm = "outerplanar"; g = genOuterplanar(r, r.range(4, 40)); }
    else if (k <= 8) { nm = "outerplanar+"; g = genOuterplanar(r, r.range(5, 30)); int ex = r.range(1, 2); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); if (r.chance(1, 3)) g = subdivide(g, r, r.below(8)); }
    else if (k <= 10) { nm = "outerplanar glued"; g = genOuterplanar(r, r.range(3, 12)); int t = r.range(1, 4); for (int i = 0; i < t; i++) g = glue(r, g, r.chance(3, 4) ? genOuterplanar(r, r.range(3, 10)) : r.chance(1, 2) ? Kn(4) : Kab(2, 3), r.below(2), 0); }
    else g = genAny(r, k < 14 ? 20 : 50, &nm);
    if (!large) g = permuted(g, r);
    c.note(nm + " " + g.str());
    int truth = large ? known : k == 0 ? 1 : oracleOuterplanar(g); RunInfo res = runAlgo(c, g, A_O, truth);
    c.count(truth ? "outerplanar_inputs" : "other_inputs"); if (g.e.size() >= 4) c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!res.err.empty()) c.fail(res.verdict == OK ? (truth ? "wrong-embedding" : "accepted") : res.verdict == NONEMBEDDABLE ? (truth ? "refused" : "wrong-obstruction") : "error-result", res.err);
}
const Prop PROP = {"C03", 80000, 800000, 20, "distinct inputs with at least 4 edges, outerplanar embedding (common face per component) or K4/K2,3 witness verified", run};
