#include "common.hpp"
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG g; int k = (int)(c.idx % 16);
    int known = -1; bool large = c.idx % 251 == 250;
    if (large) g = genLarge(r, A_23, 300, r.chance(1, 8) ? (c.thorough ? 80000 : 40000) : 3000, known, &nm);
    else if (k == 0) { nm = "big K23-free"; g = genGlued(r, r.range(60, c.thorough ? 600 : 200), 2); }
    else if (k <= 3) { nm = "K23-free"; g = genGlued(r, r.range(4, 40), 2); }
    else if (k <= 7) { nm = "K23-free+"; g = genGlued(r, r.range(5, 30), 2); int ex = r.range(1, 2); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); }
    else if (k == 8) { nm = "subdivided K4"; g = subdivide(Kn(4), r, r.range(0, 6)); g = glue(r, g, genGlued(r, r.range(4, 12), 2), r.below(2), 0); }
    else if (k <= 10) { nm = "outerplanar+"; g = genOuterplanar(r, r.range(4, 25)); if (r.chance(1, 2)) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); }
    else g = genAny(r, k < 14 ? 20 : 50, &nm);
    if (!large) g = permuted(g, r);
    c.note(nm + " " + g.str());
    int truth = large ? known : truthOf(g, A_23); RunInfo res = runAlgo(c, g, A_23, truth);
    c.count(truth ? "free_inputs" : "containing_inputs"); if (g.e.size() >= 5) c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!res.err.empty()) c.fail(res.verdict == OK ? "missed" : res.verdict == NONEMBEDDABLE ? (truth ? "false-find" : "wrong-subgraph") : "error-result", res.err);
}
const Prop PROP = {"C04", 100000, 2000000, 20, "distinct inputs with at least 5 edges decided against the block oracle, finds verified as one K2,3 subdivision", run};
