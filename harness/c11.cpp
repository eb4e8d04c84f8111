#include "common.hpp"
static string outcome(graphP g, int algo, int verdict) {
    string s = strf("verdict %d flags %d\n", verdict, g->embedFlags); bool search = algo == A_23 || algo == A_33 || algo == A_4;
    if (verdict == OK && search) return s;
    if (verdict == NONEMBEDDABLE && algo == A_D) return s;
    s += dumpGraph(g, true); char *t = 0;
    if (gp_WriteToString(g, &t, WRITE_ADJLIST) != OK) s += "write failed"; else s += t; vf_free(t); t = 0;
    if (algo == A_D && verdict == OK) { if (gp_DrawPlanar_RenderToString(g, &t) != OK) s += "render failed"; else s += t; vf_free(t); }
    if (gp_SortVertices(g) != OK) s += "sort failed"; else s += dumpGraph(g, true);
    return s;
}
static bool fill(graphP g, const SG &in, const vector<int> &links) { for (size_t i = 0; i < in.e.size(); i++) if (gp_AddEdge(g, in.e[i].first, links[i] & 1, in.e[i].second, links[i] >> 1) != OK) return false; return true; }
static void dirty(Ctx &c, graphP g, const SG &use, int how) {
    Rng &r = c.rng;
    for (auto &x : use.e) gp_AddEdge(g, x.first, r.below(2), x.second, r.below(2));
    switch (how) {
    case 0: case 1: case 2: { vector<int> av; for (int a : {A_P, A_O}) av.push_back(a); for (int a : {A_D, A_23, A_33, A_4}) { bool ok = attachFor(g, a) == OK; if (ok) av.push_back(a); if (r.chance(1, 2)) break; } gp_Embed(g, embedFlagsOf(av[r.below((int)av.size())])); break; }
    case 3: gp_CreateDFSTree(g); if (r.chance(1, 2)) gp_SortVertices(g); if (r.chance(1, 2)) gp_LowpointAndLeastAncestor(g); break;
    case 4: for (int k = 0; k < 3; k++) { auto L = arcLists(g); vector<int> all; for (auto &l : L) all.insert(all.end(), l.begin(), l.end()); if (all.empty()) break; gp_DeleteEdge(g, all[r.below((int)all.size())], r.below(2)); } break;
    case 5: { auto L = arcLists(g); for (auto &l : L) for (int e : l) if (!(e & 1) && r.chance(1, 5)) { gp_HideEdge(g, e); } break; }
    case 6: { auto L = arcLists(g); vector<int> all; for (auto &l : L) all.insert(all.end(), l.begin(), l.end()); if (!all.empty()) gp_ContractEdge(g, all[r.below((int)all.size())]); if (r.chance(1, 2)) gp_HideVertex(g, r.range(1, g->N)); break; }
    case 7: g->internalFlags |= FLAGS_ZEROBASEDIO; for (auto &l : arcLists(g)) for (int e : l) if (r.chance(1, 3)) gp_SetDirection(g, e, EDGEFLAG_DIRECTION_INONLY); break;
    case 8: for (int v = 1; v <= g->N; v++) if (r.chance(1, 3)) { auto A = arcLists(g)[v]; if (A.size() > 1) gp_HideEdge(g, A[0]); } break;
    default: gp_EnsureArcCapacity(g, 8 * g->N + 2); gp_Embed(g, EMBEDFLAGS_PLANAR); break;
    }
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, r.chance(1, 10) ? 70 : 20, &nm); int algo = (int)(c.idx % A_COUNT); c.note(string(algoName(algo)) + " " + nm + " " + in.str());
    vector<int> links; for (size_t i = 0; i < in.e.size(); i++) links.push_back(r.below(4));
    string res[2];
    for (int k = 0; k < 2; k++) {   // two fresh runs over memory with different left-over content
        vf_fill = k == 0 ? 0x00 : r.chance(1, 2) ? 0xFF : 0x55; GraphHolder g(newSized(in.n, (int)in.e.size()));
        if (!g.g || attachFor(g, algo) != OK || !fill(g, in, links)) { vf_fill = -1; c.fail("build", "building the graph failed"); return; }
        int v = gp_Embed(g, embedFlagsOf(algo)); res[k] = outcome(g, algo, v); vf_fill = -1; c.count("fresh_runs");
    }
    if (res[0] != res[1]) { c.fail("not-repeatable", "two runs of the same input differ:\n" + res[0].substr(0, 1000) + "\n---\n" + res[1].substr(0, 1000)); return; }
    // a used and reinitialised object
    vf_fill = r.chance(1, 2) ? 0x33 : -1; GraphHolder g(newSized(in.n, std::max((int)in.e.size(), in.n * 2))); vf_fill = -1; if (!g.g) { c.fail("build", "no graph"); return; }
    bool attachEarly = r.chance(1, 2); if (attachEarly) attachFor(g, algo);
    int uses = r.range(1, 3); string hist;
    for (int k = 0; k < uses; k++) {
        SG use(in.n); { SG t = genAny(r, std::max(2, in.n)); for (auto &x : t.e) if (x.first <= in.n && x.second <= in.n) use.add(x.first, x.second); if (r.chance(1, 4)) use = in; }
        int how = r.below(10); hist += strf(" use%d", how); dirty(c, g, use, how); gp_ReinitializeGraph(g); c.count("reinitialisations");
    }
    c.note(string(algoName(algo)) + " " + nm + " " + in.str() + " after" + hist);
    if (g->M != 0) { c.fail("reinit-leaves-edges", strf("%d edges after reinitialising", g->M)); return; }
    for (int v = 1; v <= in.n; v++) if (gp_IsArc(gp_GetFirstArc(g, v)) || gp_IsArc(gp_GetLastArc(g, v)) || gp_GetVertexDegree(g, v) != 0) { c.fail("reinit-leaves-edges", strf("vertex %d has edges after reinitialising", v)); return; }
    { if (r.chance(1, 2)) { gp_DetachDrawPlanar(g); gp_DetachK23Search(g); gp_DetachK33Search(g); gp_DetachK4Search(g); hist += " all features removed"; } else if (algo != A_D) { gp_DetachDrawPlanar(g); } }  // an attached drawing feature adds its own section to the written text
    if (attachFor(g, algo) != OK || !fill(g, in, links)) { c.fail("reuse-refill", "refilling the reinitialised graph failed"); return; }
    int v = gp_Embed(g, embedFlagsOf(algo)); string q = outcome(g, algo, v); c.count("reused_runs");
    if (q != res[0]) { size_t i = 0; while (i < q.size() && i < res[0].size() && q[i] == res[0][i]) i++; c.fail("reused-differs", strf("reused graph gives a different result than a new one (after%s), first difference at %zu:\n", hist.c_str(), i) + res[0].substr(i > 60 ? i - 60 : 0, 300) + "\n---\n" + q.substr(i > 60 ? i - 60 : 0, 300)); }
    c.distinct(mix64(in.hash(), (uint64_t)algo)); c.sample(strf("%s reused after%s: ", algoName(algo), hist.c_str()) + in.str());
}
const Prop PROP = {"C11", 80000, 800000, 20, "distinct (input, algorithm) pairs run twice on fresh objects over differently filled memory and once on a reinitialised used object, full outcomes compared", run};
