#include "common.hpp"
#include <unistd.h>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
}
static const char *HDR = ">>graph6<<";
static SG ofOrder(Rng &r, int n) { // a graph of exactly this order
    SG s(n); ll all = (ll)n * (n - 1) / 2; int k = r.below(8); if (n > 200 && k < 6) k = 6;
    if (k == 0) { for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) s.add(i, j); } else if (k == 1) { }
    else if (k == 2) { for (int j = 1; j < n; j++) s.add(j, n); } else if (k == 3) { if (n > 1) s.add(n - 1, n); }
    else if (k == 4) { s = genPlanar(r, n); if (s.n != n) s = SG(n); } else if (k == 5) { int p = r.range(1, 9); for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) if (r.chance(p, 10)) s.add(i, j); }
    else { set<Edge> e; int m = (int)std::min<ll>(all, r.range(0, 3 * n)); for (int q = 0; q < m; q++) { int a = r.range(1, n), b = r.chance(1, 5) ? n - r.below(std::min(n, 3)) : r.range(1, n); if (a != b) e.insert(Edge(std::min(a, b), std::max(a, b))); } if (n > 1 && r.chance(1, 2)) { e.insert(Edge(1, 2)); e.insert(Edge(n - 1, n)); e.insert(Edge(1, n)); } for (auto &x : e) s.add(x.first, x.second); }
    r.shuffle(s.e); for (auto &x : s.e) if (r.chance(1, 2)) std::swap(x.first, x.second); return s;
}
static int orderOf(Ctx &c) { Rng &r = c.rng; int k = r.below(20); return k < 8 ? r.range(1, 12) : k < 12 ? r.range(13, 61) : k < 15 ? r.range(60, 70) : k < 18 ? r.range(71, 200) : k == 18 ? r.range(1, 4) : r.chance(1, 6) ? (r.chance(1, 2) ? r.range(4090, 4100) : r.range(200, 4500)) : r.range(126, 140); }
static bool fill(graphP g, const SG &s, Rng &r, string &hist, bool extras) { // puts the graph in, sometimes leaving holes behind
    vector<Edge> junk; set<Edge> es; for (auto &x : s.e) es.insert(Edge(std::min(x.first, x.second), std::max(x.first, x.second)));
    if (extras && s.n > 2 && r.chance(1, 3)) for (int k = r.range(1, 5); k > 0; k--) { int a = r.range(1, s.n), b = r.range(1, s.n); if (a != b && es.insert(Edge(std::min(a, b), std::max(a, b))).second) junk.push_back(Edge(a, b)); }
    if (!junk.empty()) hist += strf(" %d edges deleted", (int)junk.size());
    size_t j = 0; for (auto &x : s.e) { if (j < junk.size() && r.chance(1, 3)) { if (gp_DynamicAddEdge(g, junk[j].first, 0, junk[j].second, 0) != OK) return false; j++; } if (gp_DynamicAddEdge(g, x.first, r.below(2), x.second, r.below(2)) != OK) return false; }
    for (; j < junk.size(); j++) if (gp_DynamicAddEdge(g, junk[j].first, 0, junk[j].second, 0) != OK) return false;
    for (auto &x : junk) { int e = gp_GetNeighborEdgeRecord(g, x.first, x.second); if (!gp_IsArc(e)) return false; gp_DeleteEdge(g, e, 0); } return true;
}
static string checkRead(graphP g, const SG &s) { // the graph read, against the one meant
    if (g->N != s.n || g->M != (int)s.e.size()) return strf("%d vertices and %d edges instead of %d and %d", g->N, g->M, s.n, (int)s.e.size());
    string w = structureError(g); if (!w.empty()) return w; w = sameEdges(s, sgOf(g)); if (!w.empty()) return w;
    for (auto &l : arcLists(g)) for (int e : l) if (gp_GetDirection(g, e)) return "an edge has a direction"; if (!(g->internalFlags & FLAGS_ZEROBASEDIO)) return "the zero-based numbering of the format was not noted"; return "";
}
static string shortOf(const string &t) { return t.size() > 300 ? t.substr(0, 200) + strf("...(%d)", (int)t.size()) : t; }
static graphP sized(int n, ll m) { graphP g = gp_New(); if (!g) return 0; if (m > 3LL * n && gp_EnsureArcCapacity(g, (int)(2 * m)) != OK) { gp_Free(&g); return 0; } if (gp_InitGraph(g, n) != OK) { gp_Free(&g); return 0; } return g; }
static void single(Ctx &c) {
    Rng &r = c.rng; int n = orderOf(c); SG s = ofOrder(r, n); string hist = n > 100 ? strf("n=%d m=%d", n, (int)s.e.size()) : s.str(); bool ok; string p = c.scratch + "/i02.g6";
    GraphHolder g(sized(n, (ll)s.e.size() + 5)); if (!g.g || !fill(g, s, r, hist, true)) { c.fail("build", "building failed: " + hist); return; }
    if (r.chance(1, 4)) g->internalFlags |= FLAGS_ZEROBASEDIO; if (n <= 100 && r.chance(1, 4)) { attachFor(g, r.range(A_D, A_4)); hist += " +feature"; } if (n <= 60 && r.chance(1, 4)) { int rc = gp_Embed(g, EMBEDFLAGS_PLANAR); gp_SortVertices(g); hist += strf(" embed=%d", rc); if (rc == NONEMBEDDABLE) s = sgOf(g); }
    c.note(hist); string want = g6encode(s), st = n <= 200 ? stateOf(g) : "";
    string t[2]; for (int h = 0; h < 2; h++) { if (h) { char *o = NULL; if (gp_WriteToString(g, &o, WRITE_G6) != OK || !o) { c.fail("write", "writing to a string failed: " + hist); return; } t[h] = o; vf_free(o); } else { unlink(p.c_str()); if (gp_Write(g, (char *)p.c_str(), WRITE_G6) != OK) { c.fail("write", "writing to a file failed: " + hist); return; } t[h] = readFile(p, &ok); }
        string b = t[h]; if (b.compare(0, 10, HDR) == 0) b = b.substr(10); while (!b.empty() && (b.back() == '\n')) b.pop_back(); if (b != want) { size_t k = 0; while (k < b.size() && k < want.size() && b[k] == want[k]) k++; c.fail("wrong-bytes", strf("way %d, differs at byte %d: ", h, (int)k) + hist + " got " + shortOf(b) + " expected " + shortOf(want)); return; } c.count("texts_written"); }
    if (t[0] != t[1]) { c.fail("file-string-differ", hist); return; } if (!st.empty() && stateOf(g) != st) { c.fail("write-changed-graph", hist); return; }
    string in = (r.chance(1, 2) ? HDR : "") + want; int nl = r.below(3); in += nl == 0 ? "" : nl == 1 ? "\n" : "\r\n"; if (r.chance(1, 3)) in = t[0];
    for (int h = 0; h < 2; h++) { GraphHolder b(gp_New()); bool same = r.chance(1, 4); if (same) { gp_InitGraph(b, n); if (n > 1 && r.chance(1, 2)) gp_AddEdge(b, 1, 0, n, 0); } int rc; if (h) rc = gp_ReadFromString(b, vfDup(in)); else { writeFile(p, in); rc = gp_Read(b, (char *)p.c_str()); }
        if (rc != OK) { c.fail("read", strf("reading failed with %d (way %d, ending %d): ", rc, h, nl) + hist + " text " + shortOf(in)); return; } string w = checkRead(b, s); if (!w.empty()) { c.fail("misread", w + ": " + hist + " text " + shortOf(in)); return; } c.count("texts_read");
        if (h == 0 && r.chance(1, 3)) { char *o = NULL; if (gp_WriteToString(b, &o, WRITE_G6) != OK || !o || t[1] != o) c.fail("second-text", hist); vf_free(o); } }
    c.distinct(mix64(hashStr(want), 1)); c.maxi("largest_order", n); c.sample(hist + " " + shortOf(want));
}
static void stream(Ctx &c) {
    Rng &r = c.rng; int n = r.chance(1, 8) ? r.range(60, 70) : r.chance(1, 20) ? r.range(71, 300) : r.range(1, 20), k = r.range(1, n > 60 ? 6 : 30); vector<SG> gs; string hist = strf("%d graphs of order %d", k, n), body; for (int i = 0; i < k; i++) { gs.push_back(ofOrder(r, n)); }
    c.note(hist); string p = c.scratch + "/i02s.g6"; bool ok; string want; for (int i = 0; i < k; i++) want += (i ? "\n" : "") + g6encode(gs[i]);
    string t[2]; for (int h = 0; h < 2; h++) { GraphHolder g(sized(n, (ll)n * (n - 1) / 2)); G6WriteIterator *it = NULL; char *o = NULL; if (!g.g || allocateG6WriteIterator(&it, g) != OK) { c.fail("iterator", "allocating a write iterator failed: " + hist); return; }
        unlink(p.c_str()); string pc = p; int rc; if (h) rc = beginG6WriteIterationToG6String(it, &o); else if (r.chance(1, 2)) rc = beginG6WriteIterationToG6FilePath(it, &pc[0]); else rc = beginG6WriteIterationToG6FilePointer(it, vf_fopen(p.c_str(), "w")); bool bad = rc != OK;
        int order = 0, num = 0; graphP gg = 0; for (int i = 0; i < k && !bad; i++) { if (i) gp_ReinitializeGraph(g); bad = !fill(g, gs[i], r, hist, true) || writeGraphUsingG6WriteIterator(it) != OK || getNumGraphsWritten(it, &num) != OK || num != i + 1; } bad = bad || getOrderOfGraphToWrite(it, &order) != OK || order != n || getPointerToGraphToWrite(it, &gg) != OK || gg != g.g;
        if (!bad && h) { char *s = sf_takeTheStr(it->g6Output); t[h] = s ? s : ""; vf_free(s); } if (endG6WriteIteration(it) != OK) bad = true; if (freeG6WriteIterator(&it) != OK) bad = true; if (!h) t[h] = readFile(p, &ok); if (bad) { c.fail("stream-write", strf("writing a stream failed (way %d): ", h) + hist); return; }
        string b = t[h]; if (b.compare(0, 10, HDR) == 0) b = b.substr(10); while (!b.empty() && b.back() == '\n') b.pop_back(); if (b != want) { c.fail("stream-bytes", strf("way %d: ", h) + hist + " got " + shortOf(b) + " expected " + shortOf(want)); return; } c.count("streams_written"); }
    if (t[0] != t[1]) { c.fail("stream-file-string-differ", hist); return; }
    string nl = r.chance(1, 4) ? "\r\n" : "\n", in = r.chance(1, 2) ? HDR : ""; for (int i = 0; i < k; i++) { in += g6encode(gs[i]); if (i + 1 < k || r.chance(1, 2)) in += nl; } if (r.chance(1, 3)) in = t[0];
    for (int h = 0; h < 2; h++) { GraphHolder g(gp_New()); if (r.chance(1, 3)) gp_InitGraph(g, n); G6ReadIterator *it = NULL; if (allocateG6ReadIterator(&it, g) != OK) { c.fail("iterator", "allocating a read iterator failed"); return; } string pc = p; writeFile(p, in);
        int rc = h ? beginG6ReadIterationFromG6String(it, vfDup(in)) : r.chance(1, 2) ? beginG6ReadIterationFromG6FilePath(it, &pc[0]) : beginG6ReadIterationFromG6FilePointer(it, vf_fopen(p.c_str(), "r")); string why; int i = 0, num = -1, order = 0; if (rc != OK) why = "the stream was not begun";
        while (why.empty()) { graphP gg = 0; if (readGraphUsingG6ReadIterator(it) != OK) { why = strf("graph %d was not read", i + 1); break; } if (getPointerToGraphReadIn(it, &gg) != OK) { why = "no graph pointer"; break; } if (!gg) break; if (gg != g.g) { why = "another graph was returned"; break; } i++; if (i > k) { why = "more graphs than written"; break; }
            why = checkRead(g, gs[i - 1]); if (!why.empty()) { why = strf("graph %d: ", i) + why; break; } if (getNumGraphsRead(it, &num) != OK || num != i || getOrderOfGraphToRead(it, &order) != OK || order != n) why = strf("graph %d counted as %d, order %d", i, num, order); c.count("stream_graphs_read"); }
        if (why.empty() && i != k) why = strf("%d graphs read instead of %d", i, k); if (why.empty() && (getNumGraphsRead(it, &num) != OK || num != k)) why = strf("%d graphs counted instead of %d", num, k);
        if (r.chance(1, 2)) endG6ReadIteration(it); freeG6ReadIterator(&it); if (!why.empty()) { c.fail("stream-misread", why + strf(" (way %d): ", h) + hist + " text " + shortOf(in)); return; } c.count("streams_read"); }
    c.distinct(mix64(hashStr(want), 2)); c.sample(hist);
}
static void huge(Ctx &c, int n, bool readToo) { // orders whose matrix has more bits than an int can count; and the first order the format support ends at
    Rng &r = c.rng; string hist = strf("n=%d", n); c.note(hist); SG s(n); set<Edge> e; for (int k = 0; k < 4000; k++) { int a = r.range(1, n), b = r.chance(1, 2) ? n - r.below(50) : r.range(1, n); if (a != b) e.insert(Edge(std::min(a, b), std::max(a, b))); } e.insert(Edge(n - 1, n)); e.insert(Edge(1, n)); e.insert(Edge(1, 2)); for (auto &x : e) s.add(x.first, x.second);
    string p = c.scratch + "/i02huge.g6", want; c.count("huge_graphs"); c.maxi("largest_order", n);
    { GraphHolder g(sized(n, (ll)s.e.size())); if (!g.g || !fill(g, s, r, hist, false)) { c.fail("build", hist); return; } int rc = gp_Write(g, (char *)p.c_str(), WRITE_G6); if (n > 100000) { if (rc == OK) c.fail("unsupported-order-written", hist); unlink(p.c_str()); return; } if (rc != OK) { c.fail("write", hist); unlink(p.c_str()); return; } }
    want = g6encode(s); { bool ok; string t = readFile(p, &ok); size_t o = t.compare(0, 10, HDR) == 0 ? 10 : 0; while (!t.empty() && t.back() == '\n') t.pop_back(); if (t.size() - o != want.size() || memcmp(t.data() + o, want.data(), want.size())) { c.fail("wrong-bytes", strf("%zu bytes instead of %zu or other bytes: ", t.size() - o, want.size()) + hist); unlink(p.c_str()); return; } }
    if (readToo) { writeFile(p, want); want.clear(); want.shrink_to_fit(); GraphHolder b(gp_New()); int rc = gp_Read(b, (char *)p.c_str()); if (rc != OK) c.fail("read", hist); else { string w = checkRead(b, s); if (!w.empty()) c.fail("misread", w + ": " + hist); } }
    unlink(p.c_str()); c.distinct(mix64(n, 3));
}
static void run(Ctx &c) {
    if (c.idx == 5) return huge(c, c.rng.range(46342, 46500), true); if (c.idx == 6) return huge(c, c.thorough ? 100000 : c.rng.range(65537, 66000), false); if (c.idx == 7) return huge(c, c.rng.range(100001, 100100), false); if (c.idx == 8) return huge(c, c.rng.range(8000, 20000), true);
    if (c.thorough && c.idx == 9) return huge(c, c.rng.range(65537, 70000), true);
    if (c.idx % 3 == 0) stream(c); else single(c);
}
const Prop PROP = {"I02", 12000, 120000, 300, "distinct graphs and streams written and compared byte for byte with an independent encoder of the format, then read from texts with and without header and line end, through files, strings and iterators", run};
