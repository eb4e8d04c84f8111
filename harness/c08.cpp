#include "common.hpp"
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
extern int DRAWPLANAR_ID;
}
static void relink(graphP g, int v, const vector<int> &a) {   // rebuilds the neighbour list of v in this order
    int prev = NIL; gp_SetFirstArc(g, v, NIL); gp_SetLastArc(g, v, NIL);
    for (int e : a) { gp_SetPrevArc(g, e, prev); gp_SetNextArc(g, e, NIL); if (prev == NIL) gp_SetFirstArc(g, v, e); else gp_SetNextArc(g, prev, e); prev = e; }
    gp_SetLastArc(g, v, prev);
}
static vector<int> edgesIn(graphP g) { vector<int> r; auto L = arcLists(g); for (auto &l : L) for (int e : l) if (!(e & 1)) r.push_back(e); return r; }
static bool accepted(const string &k, int a) { return a == A_P ? k == "K5" || k == "K33" : a == A_O ? k == "K4" || k == "K23" : a == A_23 ? k == "K23" : a == A_33 ? k == "K33" : k == "K4"; }
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in; int algo = (int)(c.idx % A_COUNT);
    in = r.chance(1, 8) ? genAny(r, 60, &nm) : genAny(r, 16, &nm);
    if (r.chance(1, 4)) { // favour small witnesses where a changed edge nearly makes another one
        in = algo == A_P || algo == A_33 ? (r.chance(1, 2) ? Kn(5) : Kab(3, 3)) : r.chance(1, 2) ? Kn(4) : Kab(2, 3); in = subdivide(in, r, r.below(5)); if (r.chance(1, 2)) in = glue(r, in, genPlanar(r, r.range(3, 6)), r.below(3), r.below(2)); nm = "witness"; in = permuted(in, r); }
    if (r.chance(1, 4)) { // more pieces, so that a result can gain a part of its own: separate cycles, small cliques, pendant structures
        int times = r.range(1, 2); for (int q = 0; q < times && in.n < 70; q++) { SG x; int k = r.below(4); if (k == 0) x = subdivide(Kn(3), r, r.below(4)); else if (k == 1) x = genPlanar(r, r.range(3, 7)); else if (k == 2) x = subdivide(r.chance(1, 2) ? Kn(4) : Kab(2, 3), r, r.below(3)); else x = algo == A_P || algo == A_33 ? (r.chance(1, 2) ? Kn(5) : Kab(3, 3)) : Kn(4);
            in = glue(r, in, x, r.chance(3, 4) ? 0 : 1, 0); } nm += "+pieces"; in = permuted(in, r); }
    c.note(string(algoName(algo)) + " " + nm + " " + in.str());
    BuildOpt o; o.linkMode = 2; o.rng = &r;
    GraphHolder g(buildGraph(in, o)), orig(buildGraph(r.chance(1, 2) ? permuted(in, r, 0).n ? in : in : in, o));
    if (!g.g || !orig.g) { c.fail("build", "building the graph failed"); return; }
    vector<int> ext; for (int a : {A_D, A_23, A_33, A_4}) if (a == algo || r.chance(1, 6)) ext.push_back(a); r.shuffle(ext);
    bool others = false; for (int a : ext) { if (attachFor(g, a) != OK) { c.fail("attach", "attaching a feature failed"); return; } if (a != algo) others = true; }
    int verdict = gp_Embed(g, embedFlagsOf(algo));
    if (verdict != OK && verdict != NONEMBEDDABLE) { c.fail("error-result", strf("gp_Embed returned %d", verdict)); return; }
    bool search = algo == A_23 || algo == A_33 || algo == A_4;
    bool cert = !(verdict == OK && search) && !(verdict == NONEMBEDDABLE && algo == A_D);
    bool sorted = false;
    if (cert && r.chance(1, 2)) { gp_SortVertices(g); sorted = true; }
    string before = cert ? dumpGraph(g) : "", ob = dumpGraph(orig);
    for (int k = 0; k < 2; k++) { int t = gp_TestEmbedResultIntegrity(g, orig, verdict); c.count("right_results_checked");
        if (t != verdict) { c.fail(others ? "right-result-refused-with-other-features" : "right-result-refused", strf("%s: verdict %d was judged %d (check %d)", algoName(algo), verdict, t, k)); return; } }
    if (cert && dumpGraph(g) != before) c.fail("check-changed-result", "the check changed the result graph");
    if (dumpGraph(orig) != ob) c.fail("check-changed-original", "the check changed the original graph");
    if (!cert) return;
    c.distinct(mix64(in.hash(), (uint64_t)algo)); c.sample(strf("%s verdict %d, then damaged results; ", algoName(algo), verdict) + in.str());
    if (!sorted) { if (gp_SortVertices(g) != OK) { c.fail("sort", "restoring the vertex order failed"); return; } }
    auto expectRefused = [&](graphP h, graphP og, int claim, const char *what, const string &why) {
        int t = gp_TestEmbedResultIntegrity(h, og, claim); c.count("wrong_results_checked"); c.count(what);
        if (t == OK || t == NONEMBEDDABLE) c.fail(string("wrong-result-confirmed:") + what, strf("%s, claimed %d, judged %d: ", algoName(algo), claim, t) + why);
    };
    set<Edge> es = in.eset();
    auto randomPair = [&](int &u, int &v) { if (in.n < 2) return false; u = r.range(1, in.n); do v = r.range(1, in.n); while (v == u); return true; };
    int reps = c.thorough ? 12 : 5;
    for (int k = 0; k < reps && c.fails == 0; k++) {
        GraphHolder h(gp_DupGraph(g)); if (!h.g) { c.fail("dup", "duplicating the result failed"); return; }
        vector<int> E = edgesIn(h); int kind = r.below(8);
        if (verdict == OK) {
            if (kind <= 1) { // another rotation
                vector<int> vs; for (int v = 1; v <= in.n; v++) if (gp_GetVertexDegree(h, v) >= 3) vs.push_back(v); if (vs.empty()) continue;
                int times = r.range(1, 2); for (int q = 0; q < times; q++) { int v = vs[r.below((int)vs.size())]; auto L = arcLists(h)[v]; if (r.chance(1, 2)) { int a = r.below((int)L.size()), b = r.below((int)L.size()); std::swap(L[a], L[b]); } else { int a = r.below((int)L.size()), e = L[a]; L.erase(L.begin() + a); L.insert(L.begin() + r.below((int)L.size() + 1), e); } relink(h, v, L); }
                string w = embeddingError(h, algo == A_O); if (!w.empty()) expectRefused(h, orig, OK, "changed_rotation", w);
            } else if (kind == 2) { if (E.empty()) continue; int e = E[r.below((int)E.size())]; gp_DeleteEdge(h, e, 0); expectRefused(h, orig, OK, "missing_edge", "an edge was deleted"); }
            else if (kind == 3) { int u, v; if (E.empty() || !randomPair(u, v) || es.count(Edge(std::min(u, v), std::max(u, v)))) continue; int e = E[r.below((int)E.size())]; gp_DeleteEdge(h, e, 0); gp_AddEdge(h, u, r.below(2), v, r.below(2)); expectRefused(h, orig, OK, "foreign_edge", strf("foreign edge %d-%d", u, v)); }
            else if (kind == 4) { if (E.empty() || algo == A_D) continue; int e = E[r.below((int)E.size())]; int u = gp_GetNeighbor(h, e ^ 1), v = gp_GetNeighbor(h, e); // a parallel copy next to the edge: still genus 0
                if (gp_InsertEdge(h, u, e ^ 1 ? (gp_GetNeighbor(h, gp_GetTwinArc(h, e)) == u ? e : e ^ 1) : NIL, 0, v, gp_GetNeighbor(h, gp_GetTwinArc(h, e)) == u ? e ^ 1 : e, 1) != OK) continue; expectRefused(h, orig, OK, "extra_parallel_edge", strf("edge %d-%d is there twice", u, v)); }
            else if (kind == 5 && algo == A_D && !in.e.empty()) {
                DrawPlanarContext *x = 0; gp_FindExtension(h, DRAWPLANAR_ID, (void **)&x); int n = in.n, m = (int)in.e.size(); int d = r.chance(2, 3) ? (r.chance(1, 2) ? 1 : -1) : r.range(-2, std::max(n, m)); bool both = true;
                switch (r.below(6)) { case 0: x->VI[r.range(1, n)].pos += d; break; case 1: x->VI[r.range(1, n)].start += d; break; case 2: x->VI[r.range(1, n)].end += d; break;
                    default: { int e = E[r.below((int)E.size())]; both = r.chance(4, 5); int f = r.below(3); for (int q = 0; q < (both ? 2 : 1); q++) { DrawPlanar_EdgeRec &R = x->E[e ^ q]; (f == 0 ? R.pos : f == 1 ? R.start : R.end) += d; } } }
                if (r.chance(1, 3)) { int a = r.range(1, n), b = r.range(1, n); std::swap(x->VI[a].pos, x->VI[b].pos); }
                Drawing dd; string w; if (getDrawing(h, dd, w)) w = drawingError(in, dd); if (!w.empty()) expectRefused(h, orig, OK, "damaged_drawing", w);
            } else if (kind == 5 && algo == A_D && in.n >= 2) { DrawPlanarContext *x = 0; gp_FindExtension(h, DRAWPLANAR_ID, (void **)&x); int v = r.range(1, in.n); x->VI[v].pos = r.chance(1, 2) ? x->VI[v % in.n + 1].pos : r.chance(1, 2) ? -1 - r.below(3) : in.n + r.below(3); expectRefused(h, orig, OK, "damaged_drawing", "edgeless drawing with a bad row"); }
            else if (kind == 6 && algo != A_D) expectRefused(h, orig, NONEMBEDDABLE, "wrong_verdict", "an embedding was claimed to be an obstruction");
            else if (kind == 7) { SG o2 = in; int u, v; if (r.chance(1, 2) && !o2.e.empty()) { o2.e.erase(o2.e.begin() + r.below((int)o2.e.size())); } else if (randomPair(u, v) && !es.count(Edge(std::min(u, v), std::max(u, v)))) o2.add(u, v); else continue;
                GraphHolder q(buildGraph(o2)); expectRefused(h, q, OK, "other_original", "judged against " + o2.str()); }
        } else {
            if (kind == 7 && (algo == A_P || algo == A_O)) { expectRefused(h, orig, OK, "wrong_verdict", "an obstruction was claimed to be an embedding"); continue; }
            int del = r.below(3), add = r.below(3); if (del + add == 0) del = 1;
            if (r.chance(1, 2)) { // a part of the input that the result left out: a cycle, a path or a star in vertices the result does not use
                vector<char> used(in.n + 1, 0); for (int v = 1; v <= in.n; v++) used[v] = gp_GetFirstArc(h, v) != NIL;
                vector<vector<int>> ad(in.n + 1); vector<Edge> freeE; int touch = r.below(3); // 0: parts wholly apart, 1: touching at most at an end, 2: anything
                for (auto &e : in.e) { int t = used[e.first] + used[e.second]; if (t <= (touch == 0 ? 0 : touch)) { ad[e.first].push_back(e.second); ad[e.second].push_back(e.first); freeE.push_back(e); } }
                if (!freeE.empty()) { int shape = r.below(3), added = 0; auto put = [&](int u, int v) { if (!gp_IsNeighbor(h, u, v)) { gp_AddEdge(h, u, r.below(2), v, r.below(2)); added++; } };
                    Edge s0 = freeE[r.below((int)freeE.size())];
                    if (shape == 0) { // a shortest cycle through this edge
                        vector<int> par(in.n + 1, 0), qu(1, s0.first); par[s0.first] = s0.first; for (size_t i = 0; i < qu.size(); i++) for (int w : ad[qu[i]]) { if (par[w] || (qu[i] == s0.first && w == s0.second)) continue; par[w] = qu[i]; qu.push_back(w); }
                        if (par[s0.second]) { for (int w = s0.second; w != s0.first; w = par[w]) put(w, par[w]); put(s0.first, s0.second); c.count("cycle_added"); } }
                    else if (shape == 1) put(s0.first, s0.second);
                    else for (auto &e : freeE) put(e.first, e.second);
                    if (added) { c.count("left_out_part_added"); if (r.chance(3, 4)) del = add = 0; } } }
            for (int q = 0; q < del; q++) { E = edgesIn(h); if (!E.empty()) gp_DeleteEdge(h, E[r.below((int)E.size())], 0); }
            for (int q = 0; q < add; q++) { int u, v; if (r.chance(2, 3) && !in.e.empty()) { Edge x = in.e[r.below((int)in.e.size())]; u = x.first; v = x.second; } else if (!randomPair(u, v)) continue; if (!gp_IsNeighbor(h, u, v)) gp_AddEdge(h, u, r.below(2), v, r.below(2)); }
            if (del + add && r.chance(1, 4)) { // reroute one end of an edge
                E = edgesIn(h); if (E.empty()) continue; int e = E[r.below((int)E.size())]; int u = gp_GetNeighbor(h, e), v = gp_GetNeighbor(h, e ^ 1), w = r.range(1, in.n); if (w != u && w != v && !gp_IsNeighbor(h, u, w)) { gp_DeleteEdge(h, e, 0); gp_AddEdge(h, u, 0, w, 0); } }
            SG got = sgOf(h); string why = subsetEdges(got, in), k2; if (why.empty()) { k2 = homeomorphKind(got, &why); if (accepted(k2, algo)) { c.count("still_right_skipped"); continue; } if (why.empty()) why = k2; }
            expectRefused(h, orig, NONEMBEDDABLE, "damaged_obstruction", why + " " + got.str());
        }
    }
}
const Prop PROP = {"C08", 120000, 1200000, 20, "distinct (input, algorithm) pairs whose certified result was first confirmed and then damaged in several ways, each damaged result judged by an independent oracle to be wrong", run};
