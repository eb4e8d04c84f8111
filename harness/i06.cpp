#include "textgen.hpp"
#include <unistd.h>
#include <stdio_ext.h>
#include <fcntl.h>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
}
// Files that stop transferring bytes at a chosen offset, once or from then on, or fail when closed. A write that returns OK
// has left the complete text in the file; a read that returns OK has delivered the complete graph; nothing fails without cause.
static vector<long> offsets(Rng &r, long L) { vector<long> o; if (L <= 24) for (long i = 0; i < L; i++) o.push_back(i); else { set<long> s = {0, L - 1}; for (long q : {1L, L / 2, 4095L, 4096L, 4097L, 8191L, 8192L}) if (q < L && r.chance(1, 2)) s.insert(q); for (int i = 0; i < 5; i++) s.insert(r.below((int)L)); o.assign(s.begin(), s.end()); } return o; }
struct Fault { Fault(long lim, int once, int close) { vf_io_faults = 0; vf_io_limit = lim; vf_io_once = once; vf_io_close = close; } ~Fault() { vf_io_limit = -1; vf_io_once = vf_io_close = 0; } };
static bool settled(Ctx &c, long live, const string &what) { if (vf_open_files()) { c.fail("file-left-open", what); vf_forget_all(); return false; } if (live >= 0 && vf_live_blocks() != live) { c.fail("leak", strf("%ld blocks left: ", vf_live_blocks() - live) + what); vf_forget_all(); return false; } return true; }
static void writes(Ctx &c, const string &kind, const string &hist, const std::function<int(const string &)> &w, const std::function<string()> &state) {
    Rng &r = c.rng; string p = c.scratch + "/i06.out"; bool ok; unlink(p.c_str()); string st = state(); if (w(p) != OK) { c.fail("undisturbed-" + kind, hist); return; } string full = readFile(p, &ok); if (state() != st) { c.fail("write-changed-graph", kind + " " + hist); return; }
    long live = vf_live_blocks(); c.distinct(hashStr(full)); c.maxi("longest_text", (ll)full.size());
    for (int close = 0; close < 2; close++) { vector<long> at = close ? vector<long>(1, -1) : offsets(r, (long)full.size()); if (!close) at.push_back((long)full.size());
        for (long o : at) { int once = r.chance(1, 3); string what = kind + (close ? " with a failing close: " : strf(" refused %s at byte %ld of %ld: ", once ? "once" : "for good", o, (long)full.size())) + hist; c.note(what); unlink(p.c_str()); int rc; { Fault f(o, once, close); rc = w(p); } string got = readFile(p, &ok);
            if (!settled(c, live, what)) return; if (state() != st) { c.fail("failed-write-changed-graph", what); return; }
            if (!vf_io_faults && (rc != OK || got != full)) { c.fail("failed-without-cause-" + kind, strf("%d ", rc) + what); return; }
            if (close ? rc == OK : (rc == OK && got != full)) { c.fail("lost-write-" + kind, strf("returned OK with %ld of %ld bytes in the file; ", (long)got.size(), (long)full.size()) + what); return; } if (rc != OK && rc != NOTOK) { c.fail("write-result-" + kind, strf("%d ", rc) + what); return; }
            if (vf_io_faults) c.count(rc == OK ? "write_faults_recovered" : "write_faults_reported"); else c.count("writes_up_to_the_limit"); } }
}
static void writing(Ctx &c, int k) {
    Rng &r = c.rng; bool draw = k == 1 || r.chance(1, 4); SG s = draw ? genPlanar(r, r.range(1, r.chance(1, 10) ? 60 : 14)) : r.chance(1, 12) ? genRandom(r, r.range(60, 300), r.range(50, 1500)) : genAny(r, 16); s.simplify(); if (s.n < 1) s = SG(2); string hist = s.n > 60 ? strf("n=%d m=%d", s.n, (int)s.e.size()) : s.str();
    BuildOpt o; o.linkMode = 2; o.rng = &r; o.capacityEdges = std::max<int>(1, (int)s.e.size()); GraphHolder g(buildGraph(s, o)); if (!g.g) { c.fail("build", hist); return; } if (r.chance(1, 2)) g->internalFlags |= FLAGS_ZEROBASEDIO;
    if (draw) { if (attachFor(g, A_D) != OK || gp_Embed(g, EMBEDFLAGS_DRAWPLANAR) != OK || gp_SortVertices(g) != OK) { c.fail("embed", hist); return; } hist += " drawn"; }
    auto st = [&]() { return s.n > 60 ? string() : stateOf(g); };
    if (k == 1) writes(c, "picture", hist, [&](const string &p) { return gp_DrawPlanar_RenderToFile(g, (char *)p.c_str()); }, st);
    else { static const int modes[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6, WRITE_DEBUGINFO}; static const char *nm[] = {"list", "matrix", "graph6", "debug"}; int q = r.below(4); writes(c, nm[q], hist, [&](const string &p) { return gp_Write(g, (char *)p.c_str(), modes[q]); }, st);
        // a standard stream on a full device
        if (r.chance(1, 4)) { int F = r.range(1, 2); FILE *S = F == 1 ? stdout : stderr; fflush(S); int save = dup(F), fd = open("/dev/full", O_WRONLY); dup2(fd, F); close(fd); int rc = gp_Write(g, (char *)(F == 1 ? "stdout" : "stderr"), modes[q]); dup2(save, F); close(save); __fpurge(S); clearerr(S); if (rc != NOTOK) { c.fail(strf("lost-write-%s-to-%s", nm[q], F == 1 ? "stdout" : "stderr"), strf("%d ", rc) + hist); return; } c.count("full_standard_streams_reported"); } }
}
static void streamOut(Ctx &c) {
    Rng &r = c.rng; int n = r.chance(1, 6) ? r.range(60, 200) : r.range(1, 14), k = r.range(1, n > 60 ? 4 : 40); vector<SG> gs; for (int i = 0; i < k; i++) { ll all = (ll)n * (n - 1) / 2; gs.push_back(genRandom(r, n, (int)std::min<ll>(all, r.range(0, 3 * n)))); gs.back().simplify(); } bool ptr = r.chance(1, 2);
    writes(c, "graph6 stream", strf("%d graphs of order %d%s", k, n, ptr ? " through a file pointer" : ""), [&](const string &p) {
        GraphHolder g(newSized(n, 3 * n + 2)); G6WriteIterator *it = 0; int rc = allocateG6WriteIterator(&it, g); string pc = p; if (rc != OK) return rc; rc = ptr ? beginG6WriteIterationToG6FilePointer(it, vf_fopen(p.c_str(), "w")) : beginG6WriteIterationToG6FilePath(it, &pc[0]);
        for (int i = 0; i < k && rc == OK; i++) { if (i) gp_ReinitializeGraph(g); for (auto &e : gs[i].e) if (gp_DynamicAddEdge(g, e.first, 0, e.second, 0) != OK) rc = NOTOK; if (rc == OK) rc = writeGraphUsingG6WriteIterator(it); }
        int e = endG6WriteIteration(it), f = freeG6WriteIterator(&it); return rc != OK ? rc : e != OK ? e : f; }, []() { return string(); });
}
static void reading(Ctx &c) {
    Rng &r = c.rng; SG s = r.chance(1, 15) ? genRandom(r, r.range(60, 300), r.range(50, 1500)) : genAny(r, 20); s.simplify(); if (s.n < 1) s = SG(2); int kind = r.below(T_KINDS); string t = tgText(c, kind, s), hist = kind == T_LEDA ? "leda" : kind == T_G6 ? "graph6" : kind == T_MATRIX ? "matrix" : "list"; hist += " text " + t.substr(0, 300); string p = c.scratch + "/i06.in"; writeFile(p, t); bool feat = r.chance(1, 2);
    auto rd = [&](graphP g) { if (feat && attachFor(g, A_D) != OK) return -5; return gp_Read(g, (char *)p.c_str()); }; string want; { GraphHolder g(gp_New()); if (gp_EnsureArcCapacity(g, 2 * (int)std::max<size_t>(1, s.e.size())) != OK) return; if (rd(g) != OK) { c.fail("undisturbed-read", hist); return; } want = stateOf(g); } c.distinct(hashStr(t)); long live = vf_live_blocks();
    vector<long> at = offsets(r, (long)t.size()); at.push_back((long)t.size() + 1); for (long o : at) { int once = r.chance(1, 3); string what = strf("refused %s at byte %ld of %ld: ", once ? "once" : "for good", o, (long)t.size()) + hist; c.note(what); string got; int rc; { GraphHolder g(gp_New()); if (gp_EnsureArcCapacity(g, 2 * (int)std::max<size_t>(1, s.e.size())) != OK) return; { Fault f(o, once, 0); rc = rd(g); } if (rc == OK) got = stateOf(g); } if (!settled(c, live, what)) return;
        if (!vf_io_faults && rc != OK) { c.fail("read-failed-without-cause", what); return; } if (rc == OK && got != want) { c.fail("partial-read", "returned OK with another graph than the file holds; " + what + firstDiff(want, got)); return; } if (rc != OK && rc != NOTOK) { c.fail("read-result", strf("%d ", rc) + what); return; } c.count(!vf_io_faults ? "reads_before_the_limit" : rc == OK ? "read_faults_after_the_graph" : "read_faults_reported"); }
}
static void streamIn(Ctx &c) {
    Rng &r = c.rng; int n = r.chance(1, 6) ? r.range(60, 200) : r.range(1, 14), k = r.range(1, n > 60 ? 4 : 30); string t; if (r.chance(1, 2)) t = ">>graph6<<"; vector<SG> gs; bool nl = r.chance(1, 2); for (int i = 0; i < k; i++) { ll all = (ll)n * (n - 1) / 2; gs.push_back(genRandom(r, n, (int)std::min<ll>(all, r.range(0, 3 * n)))); gs.back().simplify(); t += g6encode(gs.back()); if (i + 1 < k || nl) t += "\n"; }
    string p = c.scratch + "/i06.in", hist = strf("%d graphs of order %d", k, n); writeFile(p, t); c.distinct(hashStr(t)); long live = vf_live_blocks(); bool ptr = r.chance(1, 2);
    vector<long> at = offsets(r, (long)t.size()); at.push_back((long)t.size() + 1); if (k > 1) { size_t q = t.rfind('\n', t.size() - 2); if (q != string::npos) at.push_back((long)q + 1); }
    for (long o : at) { int once = r.chance(1, 3); string what = strf("refused %s at byte %ld of %ld: ", once ? "once" : "for good", o, (long)t.size()) + hist; c.note(what); int rc = OK, got = 0; bool ended = false, wrong = false; { GraphHolder g(gp_New()); G6ReadIterator *it = 0; if (allocateG6ReadIterator(&it, g) != OK) return; string pc = p;
            { Fault f(o, once, 0); rc = ptr ? beginG6ReadIterationFromG6FilePointer(it, vf_fopen(p.c_str(), "r")) : beginG6ReadIterationFromG6FilePath(it, &pc[0]); while (rc == OK && !ended) { rc = readGraphUsingG6ReadIterator(it); graphP gg = 0; if (rc == OK && getPointerToGraphReadIn(it, &gg) != OK) rc = NOTOK; if (rc == OK) { if (!gg) ended = true; else { if (got >= k || !sameEdges(gs[got], sgOf(g)).empty()) { wrong = true; break; } got++; } } } }
            if (endG6ReadIteration(it) != OK && rc == OK) rc = NOTOK; freeG6ReadIterator(&it); } if (!settled(c, live, what)) return;
        if (wrong) { c.fail("stream-wrong-graph", strf("graph %d; ", got + 1) + what); return; } if (ended && got != k) { c.fail("stream-ended-early", strf("the stream was said to end after %d graphs; ", got) + what); return; } if (!vf_io_faults && (rc != OK || !ended)) { c.fail("stream-failed-without-cause", what); return; } c.count(!vf_io_faults ? "streams_before_the_limit" : ended ? "stream_faults_after_the_end" : "stream_faults_reported"); }
}
static void run(Ctx &c) { int k = (int)(c.idx % 8); if (k <= 2) writing(c, k); else if (k == 3) streamOut(c); else if (k <= 5) reading(c); else if (k == 6) streamIn(c); else writing(c, 0); }
const Prop PROP = {"I06", 18000, 180000, 20, "distinct texts written or read through files that refuse bytes from every or a sampled offset (once or for good) or fail on closing, judged by the bytes in the file and the graph delivered", run};
