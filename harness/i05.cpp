#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
static string outOf(graphP g, int mode, int how, const string &dir, bool &ok) {   // how: 0 file, 1 string, 2 stdout, 3 stderr
    ok = false; string p = dir + "/i05out.txt";
    if (how == 1) { char *s = NULL; if (gp_WriteToString(g, &s, mode) != OK || !s) { vf_free(s); return ""; } string t = s; vf_free(s); ok = true; return t; }
    unlink(p.c_str()); if (how == 0) { if (gp_Write(g, (char *)p.c_str(), mode) != OK) return ""; return readFile(p, &ok); }
    int F = how == 2 ? 1 : 2; fflush(how == 2 ? stdout : stderr); int save = dup(F), fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, F); close(fd); int rc = gp_Write(g, (char *)(how == 2 ? "stdout" : "stderr"), mode); fflush(how == 2 ? stdout : stderr); dup2(save, F); close(save); if (rc != OK) return ""; return readFile(p, &ok);
}
static string diffDrawing(const Drawing &a, const Drawing &b) {
    for (size_t v = 1; v < a.vpos.size(); v++) if (a.vpos[v] != b.vpos[v] || a.vs[v] != b.vs[v] || a.ve[v] != b.ve[v]) return strf("vertex %d at row %d, columns %d to %d, came back at row %d, columns %d to %d", (int)v, a.vpos[v], a.vs[v], a.ve[v], b.vpos[v], b.vs[v], b.ve[v]);
    if (a.e.size() != b.e.size()) return "number of edges";
    for (auto &x : a.e) { auto it = b.e.find(x.first); if (it == b.e.end()) return strf("edge %d-%d is gone", x.first.first, x.first.second); if (it->second != x.second) return strf("edge %d-%d in column %d, rows %d to %d, came back in column %d, rows %d to %d", x.first.first, x.first.second, x.second[0], x.second[1], x.second[2], it->second[0], it->second[1], it->second[2]); }
    return "";
}
static string pictureOf(graphP g, bool &ok) { char *s = NULL; ok = gp_DrawPlanar_RenderToString(g, &s) == OK && s; string t = s ? s : ""; vf_free(s); return t; }
// the text without its drawing section, which must be last; "" if there is none
static string sectionOf(const string &t, string &rest) { size_t a = t.find("<DrawPlanar>\n"); rest = a == string::npos ? t : t.substr(0, a); return a == string::npos ? "" : t.substr(a); }
// one thing wrong in a drawing section of a graph with n vertices and m edges; says what
static string spoil(Rng &r, string &t, int n, int m) {
    size_t a = t.find("<DrawPlanar>\n") + 13; vector<string> L; { string l; for (size_t i = a; i < t.size(); i++) if (t[i] == '\n') { L.push_back(l); l.clear(); } else l += t[i]; if (!l.empty()) L.push_back(l); } string head = t.substr(0, a), what;
    if ((int)L.size() != n + m + 1 && (int)L.size() != n + 2 * m + 1) return ""; int i = r.below((int)L.size() - 1); bool vertex = i < n; int maxPos = vertex ? n - 1 : std::max(m, 1) - 1, maxEnd = vertex ? std::max(m, 1) - 1 : n - 1; ll q[4]; if (sscanf(L[i].c_str(), "%lld: %lld %lld %lld", q, q + 1, q + 2, q + 3) != 4) return "";
    static const ll over[] = {0, 0, 1, 1000, 2147483647LL, 2147483648LL, 4294967296LL, 9223372036854775807LL}; ll by = over[r.below(8)];
    switch (r.below(10)) {
    case 0: case 1: q[1] = by > maxPos ? by : maxPos + 1 + by; what = "position"; break;
    case 2: case 3: q[3] = by > maxEnd ? by : maxEnd + 1 + by; what = "end"; break;
    case 4: q[2] = q[3] + 1 + by % 1000; what = "start after end"; break;
    case 5: q[r.range(1, 3)] = -1 - by % 5000000000LL; what = "negative"; break;
    case 6: L.erase(L.begin() + i); L[i] = i == (int)L.size() - 1 ? L[i] : L[i]; what = "line missing"; i = -1; break;
    case 7: { size_t s = L[i].rfind(' '); L[i] = r.chance(1, 2) ? L[i].substr(0, s) : L[i] + " 0"; what = "count of numbers"; i = -1; break; }
    case 8: if (vertex) { q[0] += n > 1 && i == 0 ? 5 : 1; if (n == 1) q[0] = 2; what = "label"; break; } L[i] = "x" + L[i]; i = -1; what = "letter"; break;
    default: { what = "cut short"; int keep = r.below((int)L.size()); L.resize(keep); i = -1; } }
    if (i >= 0) L[i] = strf("%lld: %lld %lld %lld", q[0], q[1], q[2], q[3]); t = head; for (auto &l : L) t += l + "\n"; return what;
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in; int k = (int)(c.idx % 8); int big = c.idx % 97 == 5;
    if (big) { nm = "large planar"; in = genPlanar(r, r.range(100, c.thorough ? 1500 : 500)); } else if (k < 4) { nm = "planar"; in = genPlanar(r, r.range(1, 24)); } else if (k == 4) { nm = "triangulation"; in = genPlanarTri(r, r.range(3, 20)); } else if (k == 5) { nm = "parts"; in = glue(r, genPlanar(r, r.range(1, 10)), genPlanar(r, r.range(1, 10)), 0, 0); in.n += r.below(3); } else in = genAny(r, 20, &nm);
    in.simplify(); if (in.n < 1) return; in = permuted(in, r);
    // extra edges that are deleted again leave holes among the edge records (drawing a graph with holes is refused)
    bool drawn = !r.chance(1, 6); vector<Edge> extra; if (!drawn && r.chance(1, 2)) { set<Edge> have = in.eset(); for (int t = r.range(1, 5); t > 0; t--) { int a = r.range(1, in.n), b = r.range(1, in.n); Edge e(std::min(a, b), std::max(a, b)); if (a != b && !have.count(e)) { have.insert(e); extra.push_back(e); } } }
    SG all = in; for (auto &e : extra) all.e.insert(all.e.begin() + r.below((int)all.e.size() + 1), e);
    BuildOpt o; o.linkMode = 2; o.rng = &r; o.capacityEdges = std::max<int>((int)all.e.size(), 1) + r.below(5); GraphHolder g(buildGraph(all, o)); if (!g.g) { c.fail("build", "building the graph failed"); return; }
    string hist = nm + " " + in.str(); c.note(hist);
    for (auto &e : extra) { int a = gp_GetNeighborEdgeRecord(g, e.first, e.second); if (!gp_IsArc(a)) { c.fail("build", hist); return; } gp_DeleteEdge(g, a, 0); } if (!extra.empty()) hist += strf(" after deleting %d further edges", (int)extra.size());
    bool zero = r.chance(1, 2); if (zero) { g->internalFlags |= FLAGS_ZEROBASEDIO; hist += " zero-based"; }
    set<int> feats; vector<int> fs = {A_D}; if (!drawn && r.chance(1, 2)) fs.clear(); for (int a : {A_23, A_33, A_4}) if (r.chance(1, drawn ? 6 : 3)) fs.push_back(a); r.shuffle(fs); for (int a : fs) { if (attachFor(g, a) != OK) { c.fail("attach", hist); return; } feats.insert(a); hist += strf(" +%s", algoName(a)); }
    bool sorted = true, hasDrawing = false; Drawing d; string why;
    if (drawn) { int rc = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); if (rc == NONEMBEDDABLE) { c.count("nonplanar_inputs"); return; } if (rc != OK) { c.fail("embed-result", strf("%d ", rc) + hist); return; } hasDrawing = true; if (r.chance(1, 6)) { sorted = false; hist += " in search order"; } else if (gp_SortVertices(g) != OK) { c.fail("embed-sort", hist); return; } if (!getDrawing(g, d, why)) { c.fail("embed", why + hist); return; } }
    else if (r.chance(1, 2)) { int a = r.chance(1, 2) ? A_P : A_O; int rc = gp_Embed(g, embedFlagsOf(a)); if (rc != OK && rc != NONEMBEDDABLE) { c.fail("embed", hist); return; } gp_SortVertices(g); hist += strf(" %s", algoName(a)); }
    c.note(hist); c.sample(hist); string st = stateOf(g); SG held = sgOf(g); bool drawSection = feats.count(A_D);
    bool ok, pok = false; string pic = hasDrawing ? pictureOf(g, pok) : ""; if (hasDrawing && !pok) { c.fail("render", hist); return; }
    string plain[5], full[5]; int modes[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6, WRITE_DEBUGINFO};
    GraphHolder bare(gp_DupGraph(g)); if (!bare.g) { c.fail("dup", hist); return; } for (int a : feats) if (detachFor(bare, a) != OK) { c.fail("detach", hist); return; }
    for (int mode : modes) {
        if (mode == WRITE_ADJMATRIX && in.n > 600) continue; string t[4]; int hows = mode == WRITE_DEBUGINFO ? 1 : r.chance(1, 12) ? 4 : 2;
        for (int h = 0; h < hows; h++) { t[h] = outOf(g, mode, h, c.scratch, ok); if (!ok) { c.fail(strf("write-mode-%d", mode), strf("writing failed in way %d: ", h) + hist); return; } c.count("texts_written"); if (mode == WRITE_G6 && h) { string x = t[h], y = t[0]; while (!x.empty() && x.back() == '\n') x.pop_back(); while (!y.empty() && y.back() == '\n') y.pop_back(); t[h] = x; if (h == 1) t[0] = y; } if (t[h] != t[0]) { c.fail(strf("ways-differ-mode-%d", mode), hist + " file: " + t[0] + strf(" way %d: ", h) + t[h]); return; } }
        if (stateOf(g) != st) { c.fail("write-changed-graph", hist + firstDiff(st, stateOf(g))); return; }
        full[mode == WRITE_ADJLIST ? 0 : mode == WRITE_ADJMATRIX ? 1 : mode == WRITE_G6 ? 2 : 3] = t[0];
        // the features change nothing about the text of the graph itself
        string rest, sec = sectionOf(t[0], rest), b = outOf(bare, mode, hows > 1 && mode != WRITE_G6 ? 1 : 0, c.scratch, ok); while (mode == WRITE_G6 && !b.empty() && b.back() == '\n') b.pop_back(); while (mode == WRITE_G6 && !rest.empty() && rest.back() == '\n') rest.pop_back();
        if (!ok || (mode != WRITE_DEBUGINFO && b != rest)) { c.fail(strf("text-differs-mode-%d", mode), hist + " with features: " + rest + " without: " + b); return; }
        if (mode != WRITE_DEBUGINFO) { bool want = drawSection && mode != WRITE_G6; if (sec.empty() == want) { c.fail("section", strf("mode %d: ", mode) + (want ? "no drawing section: " : "unexpected drawing section: ") + hist); return; } }
    }
    if (drawn) c.distinct(mix64(in.hash(), hashStr(full[0])));
    if (!extra.empty()) c.count("written_with_record_holes"); if (!drawSection) { c.count("feature_writes_without_drawing"); return; }
    if (hasDrawing) { // the written numbers themselves, by an independent parser
        SG pg; vector<vector<int>> lists, rawE; int base; Drawing pd; if (!parseAdjListWithDrawing(full[0], pg, lists, base, &pd, &rawE, why)) { c.fail("section-format", why + ": " + hist + " text: " + full[0]); return; }
        for (int v = 1; v <= in.n; v++) if (pd.vpos[v] != d.vpos[v] || pd.vs[v] != d.vs[v] || pd.ve[v] != d.ve[v]) { c.fail("section-numbers", strf("vertex %d: ", v) + hist + " text: " + full[0]); return; }
        vector<vector<int>> want; for (auto &x : d.e) { want.push_back(x.second); want.push_back(x.second); } vector<vector<int>> got; for (auto &x : rawE) got.push_back(vector<int>(x.end() - 3, x.end())); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) { c.fail("section-numbers", "edges: " + hist + " text: " + full[0]); return; }
        c.count("sections_parsed");
    }
    for (int f = 0; f < 2; f++) { // read back, with the drawing feature and without
        if (full[f].empty()) continue; string text = full[f]; int how = r.below(2); bool with = !r.chance(1, 5); GraphHolder b(gp_New()); int m = (int)in.e.size(); int cap = 2 * std::max(m, 1) + 2 * r.below(9);
        vector<int> bf; if (with) bf.push_back(A_D); for (int a : {A_23, A_33, A_4}) if (r.chance(1, 6)) bf.push_back(a); r.shuffle(bf);
        if (gp_EnsureArcCapacity(b, cap) != OK) { c.fail("read-setup", hist); return; }
        for (int a : bf) if (attachFor(b, a) != OK) { c.fail("read-setup", hist); return; }
        string h2 = strf("%s read as a %s%s: ", f ? "matrix" : "list", how ? "string" : "file", with ? "" : " without the drawing feature") + hist;
        string p = c.scratch + "/i05in.txt"; int rc; if (how) rc = gp_ReadFromString(b, vfDup(text)); else { writeFile(p, text); rc = gp_Read(b, (char *)p.c_str()); }
        if (rc != OK) { if (hasDrawing || !with) { c.fail("read-back", strf("result %d, ", rc) + h2 + " text: " + text); return; } c.count("undrawn_section_refused"); continue; }
        string w = structureError(b); if (!w.empty()) { c.fail("read-structure", w + " " + h2); return; } w = sameEdges(held, sgOf(b)); if (!w.empty()) { c.fail("read-graph", w + " " + h2); return; }
        if (!with || !hasDrawing) { c.count("sections_skipped"); continue; }
        Drawing e; if (!getDrawing(b, e, why)) { c.fail("read-drawing", why + " " + h2 + " text: " + text); return; } w = diffDrawing(d, e); if (!w.empty()) { c.fail("read-drawing", w + " " + h2 + " text: " + text); return; } c.count("drawings_read_back"); if (b->N >= 100) c.count("large_drawings_read_back"); if (zero) c.count("zero_based"); if (!sorted) c.count("in_search_order");
        if (r.chance(1, 2)) { string bad = text, what = spoil(r, bad, in.n, m); if (!what.empty() && bad != text) { GraphHolder x(gp_New()); if (gp_EnsureArcCapacity(x, cap) != OK || attachFor(x, A_D) != OK) { c.fail("read-setup", hist); return; } if (r.chance(1, 2)) rc = gp_ReadFromString(x, vfDup(bad)); else { writeFile(p, bad); rc = gp_Read(x, (char *)p.c_str()); } if (rc != NOTOK) { c.fail("spoiled-section-accepted", what + strf(", result %d, ", rc) + h2 + " text: " + bad); return; } c.count("spoiled_sections_refused"); } }
        if (f == 0) { if (in.n <= 200) { string q = pictureOf(b, pok); // a list text keeps the numbering base, so the pictures and the second text agree
                if (!pok || (sorted && q != pic)) { c.fail("picture-differs", h2 + "\n" + pic + "\n" + q); return; } c.count("pictures_compared"); }
            string again = outOf(b, WRITE_ADJLIST, r.below(2), c.scratch, ok), ra, rb, sa = sectionOf(again, ra), sb = sectionOf(text, rb); if (!ok || ra != rb) { c.fail("second-text", h2 + " first: " + text + " second: " + again); return; }
            SG pg; vector<vector<int>> L, rawE; int base; Drawing pd; if (!parseAdjListWithDrawing(again, pg, L, base, &pd, &rawE, why)) { c.fail("second-text", why + h2 + " second: " + again); return; } vector<vector<int>> want, got; for (auto &x : d.e) { want.push_back(x.second); want.push_back(x.second); } for (auto &x : rawE) got.push_back(vector<int>(x.end() - 3, x.end())); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got || pd.vpos != d.vpos || pd.vs != d.vs || pd.ve != d.ve) { c.fail("second-text", h2 + " first: " + text + " second: " + again); return; }
            GraphHolder cp(r.chance(1, 3) ? gp_DupGraph(b) : NULL); if (cp.g) { Drawing e2; if (!getDrawing(cp, e2, why) || !diffDrawing(d, e2).empty()) { c.fail("copied-drawing", h2); return; } c.count("copies_of_read_drawings"); } }
    }
}
const Prop PROP = {"I05", 20000, 200000, 20, "distinct drawn graphs written in every mode, to files, strings and standard streams, the written section parsed independently, read back and its positions, picture and second text compared", run};
