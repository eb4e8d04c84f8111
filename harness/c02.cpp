#include "common.hpp"
static SG pick(Ctx &c, string &nm) {
    Rng &r = c.rng; int k = (int)(c.idx % 16);
    if (c.idx % 251 == 250) for (int t = 0; t < 30; t++) { int truth; SG g = genLarge(r, A_P, 300, r.chance(1, 8) ? (c.thorough ? 90000 : 40000) : 3000, truth, &nm); if (!truth) return g; }
    for (int t = 0; t < 30; t++) {
        SG g;
        switch (k) {
        case 0: nm = "big near planar"; g = genNearPlanar(r, r.range(60, c.thorough ? 1000 : 200), r.range(1, 3)); break;
        case 1: case 2: { nm = "subdivided kuratowski + planar"; g = subdivide(r.chance(1, 2) ? Kn(5) : Kab(3, 3), r, r.range(0, 20)); g = glue(r, g, genPlanar(r, r.range(3, 20)), r.range(0, 2), r.below(2)); break; }
        case 3: nm = "glued"; g = genGlued(r, r.range(6, 50), 0); break;
        case 4: nm = "random cubic"; { Rng q(r.next()); g = genRandom(r, r.range(8, 20), r.range(14, 30)); } break;
        case 5: nm = "dense"; { int n = r.range(5, 14); g = genRandom(r, n, r.range(n * 2, n * (n - 1) / 2)); } break;
        case 6: case 7: case 8: case 9: nm = "near planar"; g = genNearPlanar(r, r.range(6, 30), r.range(1, 2)); if (r.chance(1, 3)) g = subdivide(g, r, r.below(10)); break;
        case 10: case 11: nm = "sparse near planar"; { g = genPlanarTri(r, r.range(8, 40)); r.shuffle(g.e); g.e.resize(g.e.size() * r.range(50, 90) / 100); int ex = r.range(1, 4); for (int i = 0; i < ex; i++) { int a = r.range(1, g.n), b = r.range(1, g.n); if (a != b) g.add(a, b); } g.simplify(); } break;
        default: g = genAny(r, k < 14 ? 24 : 60, &nm);
        }
        g = permuted(g, r);
        if (!oraclePlanar(g)) return g;
    }
    nm = "K5"; return permuted(subdivide(Kn(5), r, r.below(10)), r);
}
static void run(Ctx &c) {
    string nm; SG g = pick(c, nm); c.note(nm + " " + g.str());
    RunInfo r = runAlgo(c, g, A_P, 0);
    c.distinct(g.hash()); c.sample(nm + " " + g.str());
    if (!r.err.empty()) c.fail(r.verdict == NONEMBEDDABLE ? "wrong-obstruction" : r.verdict == OK ? "nonplanar-accepted" : "error-result", r.err);
}
const Prop PROP = {"C02", 60000, 600000, 20, "distinct nonplanar inputs whose isolated subgraph was verified to be exactly one K5/K3,3 subdivision of input edges", run};
