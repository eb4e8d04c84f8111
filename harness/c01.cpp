#include "common.hpp"
static int known;   // what the construction guarantees, -1 when nothing
static SG pick(Ctx &c, string &nm) {
    Rng &r = c.rng; int k = (int)(c.idx % 16);
    known = -1;
    if (c.idx % 251 == 250) { SG g = genLarge(r, A_P, 300, r.chance(1, 8) ? (c.thorough ? 90000 : 40000) : 3000, known, &nm); return g; }
    if (k == 0) { known = 1; nm = "big planar"; int n = r.range(80, c.thorough ? 2000 : 300); return permuted(r.chance(1, 2) ? genPlanarTri(r, n) : genPlanar(r, n), r); }
    if (k == 1) { nm = "big glued planar"; return permuted(genGlued(r, r.range(40, 150), 3), r); }
    if (k <= 4) { nm = "planar"; int n = r.range(5, 40); return permuted(r.chance(1, 2) ? genPlanarTri(r, n) : genPlanar(r, n), r); }
    if (k <= 6) { nm = "near planar"; return permuted(genNearPlanar(r, r.range(6, 30), 1), r); }
    return genAny(r, k < 12 ? 24 : 60, &nm);
}
static void run(Ctx &c) {
    string nm; SG g = pick(c, nm); c.note(nm + " " + g.str());
    int truth = known >= 0 ? known : oraclePlanar(g);
    RunInfo r = runAlgo(c, g, A_P, truth);
    c.count(truth ? "planar_inputs" : "nonplanar_inputs");
    if (r.verdict == NONEMBEDDABLE && truth == 0) r.err.clear();   // the obstruction itself is property C02
    if (truth && g.e.size() >= 6) c.distinct(g.hash());
    if (!r.err.empty()) c.fail(truth ? (r.verdict == OK ? "wrong-embedding" : "planar-refused") : "nonplanar-accepted", r.err);
    c.sample(nm + " " + g.str());
}
const Prop PROP = {"C01", 60000, 600000, 20, "distinct planar inputs with at least 6 edges whose embedding (same edges, genus 0) was verified", run};
