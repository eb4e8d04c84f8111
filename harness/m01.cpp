#include "common.hpp"
#include "textgen.hpp"
#include <unistd.h>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "io/strbuf.h"
#include "io/strOrFile.h"
#include "lowLevelUtils/listcoll.h"
int gp_LowpointAndLeastAncestor(graphP);
}
// One session of library calls. It is executed once undisturbed, then again with each of its memory requests refused:
// only that one, and that one with all later ones. A session stops at the first call that reports failure.
struct Step { string name; int rc; uint64_t digest; };
struct World {
    Ctx &c; Rng r; vector<Step> done; const vector<Step> *ref = 0; bool stop = false; string bad, badKey;
    vector<graphP> gs; vector<char *> strs; G6ReadIterator *ri = 0; G6WriteIterator *wi = 0; char *wiStr = 0; vector<stackP> sps; vector<strBufP> sbs; vector<listCollectionP> lcs; strOrFileP sf = 0;
    World(Ctx &c_, uint64_t seed) : c(c_), r(seed) {}
    void wrong(const string &k, const string &d) { if (bad.empty()) { badKey = k; bad = d; } stop = true; }
    // keep: graph that the call must leave as it is when it fails; look: graph whose state is part of the result
    bool step(const string &name, std::function<int()> f, graphP keep = 0, std::function<string()> result = nullptr, bool edgesOnly = false) {
        if (stop) return false; string before, es; if (keep) { if (edgesOnly) es = edges(keep); else before = stateOf(keep, false); }
        long f0 = vf_failed; int rc = f(); bool injected = vf_failed > f0; size_t at = done.size(); Step s = {name, rc, 0};
        if (ref && (at >= ref->size() || (*ref)[at].name != name)) { wrong("session-diverged", name); return false; }
        if (rc == NOTOK) { stop = true; if (ref && !injected && (*ref)[at].rc != NOTOK) wrong("failed-without-cause", name);
            if (injected && keep) { if (edgesOnly) { string w = structureError(keep); if (!w.empty()) wrong("corrupted-by-failure", name + ": " + w); else if (edges(keep) != es) wrong("corrupted-by-failure", name + ": edges " + firstDiff(es, edges(keep))); } else if (stateOf(keep, false) != before) wrong("corrupted-by-failure", name + ": " + firstDiff(before, stateOf(keep, false))); c.count("objects_compared_after_failure"); }
            done.push_back(s); return false; }
        if (result) s.digest = hashStr(result());
        if (ref) { if ((*ref)[at].rc != rc) { wrong("wrong-result-after-refusal", strf("%s returned %d instead of %d", name.c_str(), rc, (*ref)[at].rc)); return false; } if ((*ref)[at].digest != s.digest) { wrong("refusal-not-reported", name + strf(" reported success (%d) although memory was refused, and its result differs from an undisturbed one", rc)); return false; } if (injected) c.count("refusals_without_effect"); }
        done.push_back(s); return true;
    }
    static string edges(graphP g) { string s; auto e = sgOf(g).eset(); for (auto &x : e) s += strf("%d-%d\n", x.first, x.second); return s; }
    graphP add(graphP g) { if (g) gs.push_back(g); return g; }
    void clean() {
        if (r.s & 1) std::reverse(gs.begin(), gs.end()); if (ri) freeG6ReadIterator(&ri); if (wi) freeG6WriteIterator(&wi); if (wiStr) vf_free(wiStr); wiStr = 0; for (auto &g : gs) gp_Free(&g); for (auto p : strs) vf_free(p); for (auto &p : sps) sp_Free(&p); for (auto &p : sbs) sb_Free(&p); for (auto &p : lcs) LCFree(&p); if (sf) sf_Free(&sf);
        for (auto g : gs) if (g) wrong("not-freed", "gp_Free left its pointer set"); gs.clear(); strs.clear();
    }
};
static string stRes(graphP g) { return stateOf(g, false); }
static graphP build(World &w, const SG &in, set<int> &feats) {
    Rng &r = w.r; graphP g = 0; if (!w.step("gp_New", [&] { g = w.add(gp_New()); return g ? OK : NOTOK; })) return 0;
    int m = (int)in.e.size(); bool want = r.chance(1, 2), before = r.chance(1, 2), ensureFirst = r.chance(1, 2); vector<int> fs; if (want) { for (int a : {A_D, A_23, A_33, A_4}) if (r.chance(2, 5)) fs.push_back(a); r.shuffle(fs); }
    int cap = 2 * std::max(1, m) + 2 * r.below(4); auto ensure = [&] { return w.step("gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(g, cap); }); };
    auto attach = [&] { for (int a : fs) { if (!w.step(string("attach ") + algoName(a), [&] { return attachFor(g, a); })) return false; feats.insert(a); } return true; };
    if (ensureFirst && !ensure()) return 0; if (!ensureFirst && before && m > 3 * in.n) { if (!ensure()) return 0; } if (before && !attach()) return 0;
    if (!w.step("gp_InitGraph", [&] { return gp_InitGraph(g, in.n); }, 0, [&] { return stRes(g); })) return 0;
    if (!ensureFirst && (!before || fs.empty()) && m > 3 * in.n && !ensure()) return 0;
    if (!before && !attach()) return 0;
    for (auto &e : in.e) { int k = r.below(4); bool dyn = r.chance(1, 4); if (!w.step(dyn ? "gp_DynamicAddEdge" : "gp_AddEdge", [&] { return dyn ? gp_DynamicAddEdge(g, e.first, k & 1, e.second, k >> 1) : gp_AddEdge(g, e.first, k & 1, e.second, k >> 1); }, 0)) return 0; }
    return g;
}
// false: the graph may only be freed from here on
static bool ops(World &w, graphP g, const SG &in, set<int> &feats, int how) {
    Rng &r = w.r; string p = w.c.scratch + "/m01.txt"; bool canGrow = !feats.count(A_D) && !feats.count(A_33) && !feats.count(A_4);
    switch (how) {
    case 0: { graphP h = 0; w.step("gp_DupGraph", [&] { h = w.add(gp_DupGraph(g)); return h ? OK : NOTOK; }, g, [&] { return stRes(h); }); break; }
    case 1: { graphP h = 0; bool featured = r.chance(1, 2), capFirst = r.chance(1, 2); if (!w.step("gp_New", [&] { h = w.add(gp_New()); return h ? OK : NOTOK; })) break; if (capFirst && !w.step("gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(h, gp_GetArcCapacity(g)); })) break; if (featured && !w.step("attach to copy", [&] { return attachFor(h, r.range(A_D, A_4)); })) break; if (!w.step("gp_InitGraph copy", [&] { return gp_InitGraph(h, g->N); })) break;
        w.step("gp_CopyGraph", [&] { return gp_CopyGraph(h, g); }, g, [&] { return stRes(h); }); break; }
    case 2: w.step("gp_CreateDFSTree", [&] { return gp_CreateDFSTree(g); }, g, [&] { return stRes(g); }, true); w.step("gp_SortVertices", [&] { return gp_SortVertices(g); }, 0, [&] { return stRes(g); }); if (r.chance(1, 2)) w.step("gp_LowpointAndLeastAncestor", [&] { return gp_LowpointAndLeastAncestor(g); }, 0, [&] { return stRes(g); }); break;
    case 3: if (canGrow) { for (int k = r.range(1, 40); k > 0; k--) { int u = r.range(1, g->N), v = r.range(1, g->N); if (u == v || gp_IsNeighbor(g, u, v)) continue; int l = r.below(4); if (!w.step("gp_DynamicAddEdge", [&] { return gp_DynamicAddEdge(g, u, l & 1, v, l >> 1); }, g, nullptr, true)) break; } w.step("look", [&] { return OK; }, 0, [&] { return stRes(g); }); } break;
    case 4: if (canGrow) w.step("gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(g, gp_GetArcCapacity(g) + 2 * r.range(1, 30)); }, g, [&] { return stRes(g); }, true); break;
    case 5: { int a = r.range(A_D, A_4); if (feats.count(a)) { w.step(string("detach ") + algoName(a), [&] { return detachFor(g, a); }, g, [&] { return stRes(g); }, true); feats.erase(a); } else if (w.step(string("attach ") + algoName(a), [&] { return attachFor(g, a); }, g, [&] { return stRes(g); }, true)) feats.insert(a); break; }
    case 6: { // changing the graph: holes, hidden items, contraction, identification
        bool del = r.chance(1, 3); for (int k = r.range(1, 5); k > 0 && !w.stop; k--) { vector<int> E; for (auto &l : arcLists(g)) for (int e : l) E.push_back(e); if (E.empty()) break; int e = E[r.below((int)E.size())], v = r.range(1, g->N), u = r.range(1, g->N);
            switch (del ? 0 : r.range(1, 3)) { case 0: w.step("gp_DeleteEdge", [&] { gp_DeleteEdge(g, e, 0); return OK; }, 0, [&] { return stRes(g); }); break;
            case 1: w.step("gp_HideVertex", [&] { return gp_HideVertex(g, v); }, 0, [&] { return stRes(g); }); break;
            case 2: w.step("gp_ContractEdge", [&] { return gp_ContractEdge(g, e); }, 0, [&] { return stRes(g); }); break;
            case 3: if (u != v && gp_IsArc(gp_GetFirstArc(g, u)) && gp_IsArc(gp_GetFirstArc(g, v))) w.step("gp_IdentifyVertices", [&] { return gp_IdentifyVertices(g, u, v, NIL); }, 0, [&] { return stRes(g); }); break; } }
        w.step("gp_RestoreVertices", [&] { return gp_RestoreVertices(g); }, 0, [&] { return stRes(g); }); break; }
    case 7: case 8: { // run an algorithm, check, render, write
        int a = r.below(A_COUNT); if (a >= A_D && !feats.count(a)) { if (!w.step(string("attach ") + algoName(a), [&] { return attachFor(g, a); }, g, nullptr, true)) break; feats.insert(a); }
        graphP h = 0; if (!w.step("gp_DupGraph", [&] { h = w.add(gp_DupGraph(g)); return h ? OK : NOTOK; }, g)) break;
        int v = NOTOK; bool search = a == A_23 || a == A_33 || a == A_4; if (!w.step(string("gp_Embed ") + algoName(a), [&] { return v = gp_Embed(g, embedFlagsOf(a)); }, 0, [&] { return (v == OK && search) || (v == NONEMBEDDABLE && a == A_D) ? string() : stRes(g); })) break;
        if (search && v == OK) return false; if (a == A_D && v == NONEMBEDDABLE) return false;
        if (r.chance(2, 3)) w.step("gp_TestEmbedResultIntegrity", [&] { return gp_TestEmbedResultIntegrity(g, h, v); }, g); if (r.chance(2, 3)) w.step("gp_SortVertices", [&] { return gp_SortVertices(g); }, 0, [&] { return stRes(g); });
        if (a == A_D && v == OK) { char *s = 0; if (r.chance(1, 2)) { w.step("gp_DrawPlanar_RenderToString", [&] { int rc = gp_DrawPlanar_RenderToString(g, &s); if (rc == OK) w.strs.push_back(s); else if (s) w.wrong("string-after-failure", "gp_DrawPlanar_RenderToString"); return rc; }, g, [&] { return string(s); }); } else w.step("gp_DrawPlanar_RenderToFile", [&] { unlink(p.c_str()); return gp_DrawPlanar_RenderToFile(g, (char *)p.c_str()); }, g, [&] { return readFile(p); }); }
        break; }
    case 9: case 10: { int mode = r.range(1, 4); bool str = r.chance(1, 2) && mode != WRITE_DEBUGINFO; string nm = strf("mode %d", mode); if (str) { char *s = 0; w.step("gp_WriteToString " + nm, [&] { int rc = gp_WriteToString(g, &s, mode); if (rc == OK) w.strs.push_back(s); else if (s) w.wrong("string-after-failure", "gp_WriteToString"); return rc; }, g, [&] { return string(s); }); } else w.step("gp_Write " + nm, [&] { unlink(p.c_str()); return gp_Write(g, (char *)p.c_str(), mode); }, g, [&] { return readFile(p); }); break; }
    case 11: case 12: { // reading
        SG s = in; int kind = r.below(T_KINDS); long fa = vf_fail_at; int ff = vf_fail_forever; vf_fail_at = 0; vf_fail_forever = 0; long ac = vf_alloc_count; Ctx &cc = w.c; Rng keep = cc.rng; cc.rng = r; string t = tgText(cc, kind, s); r = cc.rng; cc.rng = keep; vf_alloc_count = ac; vf_fail_at = fa; vf_fail_forever = ff;
        graphP h = 0; if (!w.step("gp_New", [&] { h = w.add(gp_New()); return h ? OK : NOTOK; })) break; if (r.chance(1, 2)) { if (!w.step("gp_EnsureArcCapacity", [&] { return gp_EnsureArcCapacity(h, 2 * std::max(1, (int)in.e.size())); })) break; int a = kind == T_DRAW && r.chance(2, 3) ? A_D : r.range(kind == T_DRAW ? A_D : A_23, A_4); if (!w.step(string("attach ") + algoName(a), [&] { return attachFor(h, a); })) break; }
        if (kind == T_G6 && r.chance(1, 3)) if (!w.step("gp_InitGraph", [&] { return gp_InitGraph(h, in.n); })) break;
        bool str = r.chance(1, 2) && kind != T_LEDA; bool stdinp = !str && r.chance(1, 8); writeFile(p, t);
        w.step(str ? "gp_ReadFromString" : "gp_Read", [&] { if (str) { long fa = vf_fail_at; int ff = vf_fail_forever; long ac = vf_alloc_count; vf_fail_at = 0; char *x = vfDup(t); vf_alloc_count = ac; vf_fail_at = fa; vf_fail_forever = ff; return gp_ReadFromString(h, x); } (void)stdinp; return gp_Read(h, (char *)p.c_str()); }, 0, [&] { return stRes(h); }); break; }
    case 13: { // graph6 streams
        bool str = r.chance(1, 2); if (!w.step("allocateG6WriteIterator", [&] { return allocateG6WriteIterator(&w.wi, g); }, g)) break; if (!w.step("begin writing", [&] { unlink(p.c_str()); return str ? beginG6WriteIterationToG6String(w.wi, &w.wiStr) : beginG6WriteIterationToG6FilePath(w.wi, (char *)p.c_str()); }, g)) break;
        for (int k = r.range(1, 4); k > 0; k--) if (!w.step("write one", [&] { return writeGraphUsingG6WriteIterator(w.wi); }, g)) return true; if (!w.step("end writing", [&] { return endG6WriteIteration(w.wi); })) break; if (!w.step("free writer", [&] { return freeG6WriteIterator(&w.wi); }, g, [&] { return str ? string(w.wiStr ? w.wiStr : "") : readFile(p); })) break; break; }
    case 14: { SG s = in; int k = 1; string t = g6encode(s); for (int i = r.below(4); i > 0; i--, k++) { SG x(s.n); for (auto &e : s.e) if (r.chance(1, 2)) x.e.push_back(e); t += "\n" + g6encode(x); } if (r.chance(1, 2)) t = ">>graph6<<" + t; writeFile(p, t); bool str = r.chance(1, 2), sized = r.chance(1, 2);
        graphP h = 0; if (!w.step("gp_New", [&] { h = w.add(gp_New()); return h ? OK : NOTOK; })) break; if (sized && !w.step("gp_InitGraph", [&] { return gp_InitGraph(h, in.n); })) break; if (!w.step("allocateG6ReadIterator", [&] { return allocateG6ReadIterator(&w.ri, h); })) break;
        if (!w.step("begin reading", [&] { if (!str) return beginG6ReadIterationFromG6FilePath(w.ri, (char *)p.c_str()); long fa = vf_fail_at; int ff = vf_fail_forever; long ac = vf_alloc_count; vf_fail_at = 0; char *x = vfDup(t); vf_alloc_count = ac; vf_fail_at = fa; vf_fail_forever = ff; return beginG6ReadIterationFromG6String(w.ri, x); })) break;
        for (int i = 0; i < k; i++) if (!w.step("read one", [&] { return readGraphUsingG6ReadIterator(w.ri); }, 0, [&] { return stRes(h); })) return true; w.step("end reading", [&] { return endG6ReadIteration(w.ri); }); w.step("free reader", [&] { return freeG6ReadIterator(&w.ri); }); break; }
    case 15: { graphP h = 0; int N = r.range(2, 12); if (!w.step("gp_New", [&] { h = w.add(gp_New()); return h ? OK : NOTOK; })) break; if (!w.step("gp_InitGraph", [&] { return gp_InitGraph(h, N); })) break; int mode = r.below(2), m = r.range(N - 1, std::min(3 * N - 6 > 0 ? 3 * N : N - 1, N * (N - 1) / 2)); unsigned sd = (unsigned)r.next(); w.step("gp_CreateRandomGraph", [&] { srand(sd); return mode ? gp_CreateRandomGraph(h) : gp_CreateRandomGraphEx(h, m); }, 0, [&] { return stRes(h); }); break; }
    case 16: { gp_ReinitializeGraph(g); w.step("gp_ReinitializeGraph", [&] { return OK; }, 0, [&] { return stRes(g); }); break; }
    default: { // containers
        stackP s = 0, t = 0; if (!w.step("sp_New", [&] { s = sp_New(r.range(1, 20)); if (s) w.sps.push_back(s); return s ? OK : NOTOK; })) break; for (int k = r.below(sp_GetCapacity(s) + 1); k > 0; k--) s->S[s->size++] = r.below(1000); auto show = [](stackP x) { string o; for (int i = 0; i < x->size; i++) o += strf(" %d", x->S[i]); return o; };
        if (!w.step("sp_Duplicate", [&] { t = sp_Duplicate(s); if (t) w.sps.push_back(t); return t ? OK : NOTOK; }, 0, [&] { return show(t) + show(s); })) break; stackP u = 0; if (!w.step("sp_New", [&] { u = sp_New(r.range(1, 5)); if (u) w.sps.push_back(u); return u ? OK : NOTOK; })) break; string was = show(s); bool ok = w.step("sp_Copy", [&] { return sp_Copy(u, s); }, 0, [&] { return show(u); }); if (show(s) != was) w.wrong("corrupted-by-failure", "sp_Copy changed its source"); if (!ok) break;
        strBufP b = 0, d = 0; if (!w.step("sb_New", [&] { b = sb_New(r.below(30)); if (b) w.sbs.push_back(b); return b ? OK : NOTOK; })) break; string model; for (int k = r.range(1, 20); k > 0; k--) { string x(r.below(40), (char)('a' + k)); string prev = model; bool ch = r.chance(1, 2); if (ch) x = "q"; bool fine = w.step(ch ? "sb_ConcatChar" : "sb_ConcatString", [&] { return ch ? sb_ConcatChar(b, 'q') : sb_ConcatString(b, (char *)x.c_str()); }); if (fine) model += x; string now = sb_GetFullString(b) ? string(sb_GetFullString(b)) : ""; if (now != model && !(model.empty() && now.empty())) { w.wrong(fine ? "refusal-not-reported" : "corrupted-by-failure", "string buffer holds '" + now + "' instead of '" + model + "'"); return true; } if (!fine) return true; }
        if (!w.step("sb_Duplicate", [&] { d = sb_Duplicate(b); if (d) w.sbs.push_back(d); return d ? OK : NOTOK; }, 0, [&] { return string(sb_GetFullString(d) ? sb_GetFullString(d) : ""); })) break; strBufP e = 0; if (!w.step("sb_New", [&] { e = sb_New(1); if (e) w.sbs.push_back(e); return e ? OK : NOTOK; })) break; if (!w.step("sb_Copy", [&] { return sb_Copy(e, b); }, 0, [&] { return string(sb_GetFullString(e) ? sb_GetFullString(e) : ""); })) break;
        listCollectionP l = 0; if (!w.step("LCNew", [&] { l = LCNew(r.range(1, 20)); if (l) w.lcs.push_back(l); return l ? OK : NOTOK; })) break;
        char *x = 0; w.step("sf_New", [&] { long fa = vf_fail_at; int ff = vf_fail_forever; long ac = vf_alloc_count; vf_fail_at = 0; x = vfDup("abc"); vf_alloc_count = ac; vf_fail_at = fa; vf_fail_forever = ff; if (w.sf) sf_Free(&w.sf); w.sf = sf_New(NULL, x); if (!w.sf) vf_free(x); return w.sf ? OK : NOTOK; });
        break; }
    }
    return true;
}
static bool changes(int o) { return o == 2 || o == 6 || o == 7 || o == 8; }
static void session(World &w, const SG &in, int lead) {
    set<int> feats; graphP g = build(w, in, feats); if (!g) return; if (!ops(w, g, in, feats, lead)) return; bool changed = changes(lead);
    for (int k = w.r.below(3); k > 0 && !w.stop; k--) { int o = w.r.below(18); if (changed && (changes(o) || o == 3)) continue; if (changes(o)) changed = true; if (!ops(w, g, in, feats, o)) return; }
}
static void run(Ctx &c) {
    Rng &r = c.rng; string nm; SG in = genAny(r, r.chance(1, 8) ? 16 : 9, &nm); in.simplify(); if (in.n < 1) in = SG(2); uint64_t seed = r.next(); int lead = (int)(c.idx % 18); string hist = nm + " " + in.str() + strf(": session %llx led by %d", (ull)seed, lead); c.note(hist);
    long live0 = vf_live_blocks(), files0 = vf_open_files(); vf_fill = r.chance(1, 2) ? 0xC3 : -1;
    vf_reset(); World w0(c, seed); session(w0, in, lead); long K = vf_alloc_count; string names; for (auto &s : w0.done) if (names.empty() || names.size() < 1500) names += " " + s.name; w0.clean();
    if (!w0.bad.empty()) { c.fail(w0.badKey, "undisturbed: " + w0.bad + "; " + hist + names); vf_reset(); return; }
    if (vf_live_blocks() != live0) { c.fail("leak-undisturbed", strf("%ld blocks left; ", vf_live_blocks() - live0) + hist + names); vf_forget_all(); vf_reset(); return; }
    c.count("sessions"); c.count("memory_requests", K); c.sample(hist + names); if (w0.stop) c.count("sessions_stopped_early");
    vector<long> pts; long most = c.thorough ? 400 : 60; for (long i = 1; i <= K; i++) pts.push_back(i); if (K > most) { r.shuffle(pts); pts.resize(most); }
    for (long at : pts) for (int forever = 0; forever < 2; forever++) {
        vf_reset(); vf_fail_at = at; vf_fail_forever = forever; c.note(hist + names + strf("; request %ld of %ld refused%s", at, K, forever ? " and all later ones" : ""));
        World w(c, seed); w.ref = &w0.done; session(w, in, lead); long hit = vf_failed; string last = w.done.empty() ? "" : w.done.back().name; vf_fail_at = 0; vf_fail_forever = 0; w.clean(); string where = last + strf(" with request %ld of %ld refused%s; ", at, K, forever ? " and all later ones" : "") + hist + names;
        if (hit) { c.count("refusals"); c.count(("failed in: " + last).c_str()); c.distinct(mix64(mix64(seed, at), forever)); }
        if (!w.bad.empty()) { c.fail(w.badKey, w.bad + "; " + where); vf_reset(); vf_forget_all(); return; }
        if (vf_live_blocks() != live0) { c.fail("leak", strf("%ld blocks left after freeing everything; ", vf_live_blocks() - live0) + where); vf_forget_all(); vf_reset(); return; }
        if (vf_open_files() != files0) { c.fail("file-left-open", where); vf_forget_all(); vf_reset(); return; }
    }
    vf_reset(); vf_fill = -1;
}
const Prop PROP = {"M01", 6000, 200000, 60, "distinct refusals of a memory request (one, or one and all later) inside a generated session of library calls; each checked for a reported failure or an unchanged result, objects kept intact, and no crash, leak or open file after freeing", run};
