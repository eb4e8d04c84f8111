#include "common.hpp"
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG g; int k = (int)(c.idx % 20);
    int known = -1; bool large = c.idx % 641 == 640;
    if (large) g = genLarge(r, A_4, 300, r.chance(1, 8) ? (c.thorough ? 80000 : 40000) : 3000, known, &nm);
    else if (k == 0) { nm = "big series-parallel"; g = genSeriesParallel(r, r.range(60, c.thorough ? 1500 : 300)); }
    else if (k <= 4) { nm = "series-parallel"; g = genSeriesParallel(r, r.range(4, 40)); if (r.chance(1, 3)) g = glue(r, g, genSeriesParallel(r, r.range(3, 12)), r.below(3), r.below(2)); }
    else if (k <= 8) { nm = "series-parallel+"; g = genSeriesParallel(r, r.range(4, 30)); int ex = r.range(1, 2); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); }
    else if (k <= 10) { nm = "outerplanar+"; g = genOuterplanar(r, r.range(4, 30)); int ex = r.range(0, 2); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); }
    else if (k >= 16) { nm = "expanded"; SG b = k == 16 ? Kn(4) : k == 17 ? genSeriesParallel(r, r.range(3, 8)) : k == 18 ? genNamed(r, r.range(4, 9)) : genPlanar(r, r.range(4, 9)); g = genExpanded(r, b, b.n + r.range(1, k % 2 ? 15 : 30), 4); }
    else g = genAny(r, k < 14 ? 20 : 50, &nm);
    if (!large) g = permuted(g, r);
    c.note(nm + " " + g.str());
    int truth = large ? known : truthOf(g, A_4); RunInfo res = runAlgo(c, g, A_4, truth);
    c.count(truth ? "free_inputs" : "containing_inputs"); if (g.e.size() >= 5) c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!res.err.empty()) c.fail(res.verdict == OK ? "missed" : res.verdict == NONEMBEDDABLE ? (truth ? "false-find" : "wrong-subgraph") : "error-result", res.err);
}
const Prop PROP = {"C06", 300000, 3000000, 20, "distinct inputs with at least 5 edges decided against the series-parallel oracle, finds verified as one K4 subdivision", run};
