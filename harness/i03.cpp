#include "textgen.hpp"
extern "C" {
#include "io/g6-read-iterator.h"
}
extern "C" int gp_LeastAncestor(graphP);
static void useIt(Ctx &c, graphP g, const string &hist) { // the graph read, put through everything
    Rng &r = c.rng; string w = structureError(g); if (!w.empty()) { c.fail("broken-graph", w + "; " + hist); return; } c.count("graphs_accepted");
    if (g->N > 300 || g->M > 2000) return; bool simple; SG s = sgOf(g); { SG t = s; t.simplify(); simple = t.e.size() == s.e.size(); } c.count(simple ? "simple_graphs_accepted" : "multigraphs_accepted");
    for (int k = 0; k < (c.thorough ? 6 : 3); k++) { GraphHolder h(gp_DupGraph(g)); if (!h.g) { c.fail("dup", "duplicating the graph read failed; " + hist); return; } int op = r.below(9);
        if (op < A_COUNT) { if (op >= A_D && !hasFeature(h, op) && attachFor(h, op) != OK) { c.fail("attach", hist); return; } GraphHolder o(gp_DupGraph(h)); int v = gp_Embed(h, embedFlagsOf(op)); c.count("algorithms_run"); if (v != OK && v != NONEMBEDDABLE && simple) c.fail("error-result", strf("%s returned %d on the graph read; ", algoName(op), v) + hist);
            if (simple && (v == OK || v == NONEMBEDDABLE)) { int t = gp_TestEmbedResultIntegrity(h, o, v); if (t != v) c.fail("integrity", strf("%s: %d was judged %d; ", algoName(op), v, t) + hist); } else if (v == OK || v == NONEMBEDDABLE) gp_TestEmbedResultIntegrity(h, o, v);
            if (simple && s.n <= 60 && (v == OK || (op != A_D && v == NONEMBEDDABLE))) { gp_SortVertices(h); w = judge(h, s, op, v, truthOf(s, op)); c.count("runs_judged"); if (!w.empty()) c.fail("wrong-result", w + "; " + hist); } }
        else if (op == 6) { gp_CreateDFSTree(h); gp_SortVertices(h); gp_LowpointAndLeastAncestor(h); gp_LeastAncestor(h); gp_SortVertices(h); }
        else if (op == 7) { char *o = NULL; int m = r.below(3); if (gp_WriteToString(h, &o, m == 0 ? WRITE_ADJLIST : m == 1 ? WRITE_ADJMATRIX : WRITE_G6) == OK) { if (!o) c.fail("write", "no text; " + hist); vf_free(o); } gp_Write(h, (char *)(c.scratch + "/i03o.txt").c_str(), r.range(1, 4)); }
        else { vector<int> A; for (auto &l : arcLists(h)) A.insert(A.end(), l.begin(), l.end()); for (int q = 0; q < 3 && !A.empty(); q++) { int e = A[r.below((int)A.size())]; if (gp_EdgeInUse(h.g, e)) gp_DeleteEdge(h, e, 0); } if (h->N > 1) gp_DynamicAddEdge(h, 1, 0, 2, 0); gp_ReinitializeGraph(h); w = structureError(h); if (!w.empty()) c.fail("broken-graph", w + " after clearing; " + hist); } }
}
static void run(Ctx &c) {
    Rng &r = c.rng; vf_forget_all(); size_t lim = vf_max_request; vf_max_request = r.chance(1, 40) ? (size_t)200 << 20 : (size_t)4 << 20; vf_fill = r.chance(1, 2) ? r.below(256) : -1;
    SG s = genAny(r, r.chance(1, 10) ? 70 : 9); s.simplify(); if (s.n < 1) s = SG(1); int kind = r.below(T_KINDS); string t; bool valid = false;
    if (r.chance(1, 25)) { int n = r.below(60); for (int i = 0; i < n; i++) t += r.chance(1, 3) ? (char)r.below(256) : "0123456789 \n-:N=?~"[r.below(18)]; if (r.chance(1, 3)) t = "N=" + t; }
    else { t = tgText(c, kind, s); if (r.chance(1, 12)) valid = true; else { int k = r.chance(1, 2) ? 1 : r.range(2, 8); for (int i = 0; i < k; i++) tgDamage(r, t); }
        if (!valid && r.chance(1, 25)) { SG s2 = genAny(r, 8); s2.simplify(); if (s2.n > 0) t += tgText(c, r.below(T_KINDS), s2); } }
    int how = r.below(kind == T_G6 ? 4 : 2); string hist = strf("%s kind %d way %d, %d bytes: ", valid ? "valid" : "damaged", kind, how, (int)t.size()) + hexOf(t, 1500) + " \"" + t.substr(0, 300) + "\""; c.note(hist); c.sample(t.substr(0, 200));
    long files0 = vf_open_files(), blocks0 = vf_live_blocks(); string p = c.scratch + "/i03.txt"; vf_reset();
    { GraphHolder g(gp_New()); if (!g.g) { c.fail("new", "gp_New failed"); return; } string state = ""; if (r.chance(1, 3)) { int a = r.chance(1, 2) ? A_D : r.range(A_D, A_4); attachFor(g, a); state += strf(" +%s", algoName(a)); } if (r.chance(1, 20)) { gp_InitGraph(g, s.n); state += " sized"; } if (r.chance(1, 20)) gp_EnsureArcCapacity(g, 2 * r.range(1, 60)); c.note(hist + state);
        int rc = NOTOK, graphs = 0;
        if (how == 0) { writeFile(p, t); rc = gp_Read(g, (char *)p.c_str()); } else if (how == 1) { rc = gp_ReadFromString(g, vfDup(t)); }
        else { G6ReadIterator *it = NULL; if (allocateG6ReadIterator(&it, g) == OK) { string pc = p; if (how == 2) { writeFile(p, t); rc = beginG6ReadIterationFromG6FilePath(it, &pc[0]); } else { char *d = vfDup(t); rc = beginG6ReadIterationFromG6String(it, d); if (t.empty() || d[0] == 0) { if (vf_is_live(d)) vf_free(d); } }
            while (rc == OK) { rc = readGraphUsingG6ReadIterator(it); graphP q = 0; getPointerToGraphReadIn(it, &q); if (rc != OK || !q) break; graphs++; if (graphs <= 2 || r.chance(1, 4)) useIt(c, g, hist + state); if (c.fails) break; } if (r.chance(1, 2)) endG6ReadIteration(it); freeG6ReadIterator(&it); if (vf_live_blocks() < 0) return; } }
        c.count(rc == OK ? "texts_accepted" : rc == NONEMBEDDABLE ? "texts_too_many_edges" : "texts_refused");
        if (rc != OK && rc != NOTOK && rc != NONEMBEDDABLE) c.fail("odd-result", strf("result %d; ", rc) + hist + state);
        if (how < 2 && rc == OK) useIt(c, g, hist + state);
        if (rc != OK && g->N > 0 && r.chance(1, 2)) { gp_ReinitializeGraph(g); string w = structureError(g); if (!w.empty()) c.fail("refused-then-broken", w + "; " + hist + state); c.count("refused_then_cleared"); }
        c.distinct(mix64(hashStr(t), how)); }
    if (vf_live_blocks() != blocks0) c.fail("leak", strf("%ld blocks remain; ", vf_live_blocks() - blocks0) + hist); if (vf_open_files() != files0) c.fail("file-left-open", hist);
    vf_fill = -1; vf_max_request = lim;
}
const Prop PROP = {"I03", 200000, 1500000, 20, "distinct texts (valid, damaged, random) given to the readers through files, strings and iterators under sanitizers; every accepted graph is checked and put through algorithms, edits and writers; blocks and files are counted", run};
