#include "textgen.hpp"
extern "C" { extern const int *vs_ops; extern int vs_nops; extern const char *vs_text[8]; extern int vs_textLen[8], vs_textKind[8], vs_textOrder[8], vs_textEdges[8]; extern int vs_ntexts; extern char vs_scratch[512]; extern uint64_t vs_digest; extern long vs_calls; extern char vs_error[2000]; extern int vs_counts[64]; extern int vs_msan, vs_maxM; extern char vs_trace[6000]; void vs_run(void); }
static void run(Ctx &c) {
    Rng &r = c.rng; vector<int> ops; vector<string> texts; vs_ntexts = 0; snprintf(vs_scratch, sizeof vs_scratch, "%s", c.scratch.c_str()); int big = c.idx % 211 == 7;
    for (int k = 0; k < 4; k++) { SG s = genAny(r, big ? 120 : 12); s.simplify(); if (s.n < 1) s = SG(3); if (k == 3) { // a stream
            string t = r.chance(1, 2) ? ">>graph6<<" : ""; t += g6encode(s); for (int i = r.below(4); i > 0; i--) { SG x(s.n); for (auto &e : s.e) if (r.chance(1, 2)) x.e.push_back(e); t += "\n" + g6encode(x); } if (r.chance(1, 2)) t += "\n"; texts.push_back(t); }
        else texts.push_back(k == 0 ? tgList(r, s, r.below(2)) : k == 1 ? tgMatrix(r, s) : tgLeda(r, s)); vs_textKind[k] = k; vs_textOrder[k] = s.n; vs_textEdges[k] = (int)s.e.size(); }
    for (size_t k = 0; k < texts.size(); k++) { vs_text[k] = texts[k].c_str(); vs_textLen[k] = (int)texts[k].size(); } vs_ntexts = (int)texts.size();
    int n = r.chance(1, 10) ? r.range(400, 3000) : r.range(60, 400); auto op = [&](int o, int i, int j, int a, int b) { ops.push_back(o); ops.push_back(i); ops.push_back(j); ops.push_back(a); ops.push_back(b); };
    // a way to a filled graph first, then anything
    for (int i = 0; i < 4; i++) { op(0, i, 0, 0, 0); if (r.chance(1, 3)) op(2, i, 0, (int)r.next(), 0); if (r.chance(1, 3)) op(3, i, 0, r.below(4), 0); if (r.chance(1, 3)) op(3, i, 0, r.below(4), 0); if (r.chance(1, 4)) { op(25, i, 0, (int)(r.next() & 0xffffff), (int)(r.next() & 0xffffff)); continue; } int nn = big ? r.range(50, 400) : r.range(2, 14); op(5, i, 0, nn - 1, big ? 40 : 1 + r.below(30)); op(7, i, 0, 0, big ? r.range(100, 1199) : r.below(42)); for (int k = 0; k < 60; k++) ops.push_back((int)(r.next() & 0x7fffffff)); }
    while ((int)ops.size() < n) ops.push_back((int)(r.next() & 0x7fffffff));
    vs_ops = ops.data(); vs_nops = (int)ops.size(); long live = vf_live_blocks(), files = vf_open_files(); uint64_t d[2] = {0, 0}; string in = strf("script of %d numbers, texts:", n); for (auto &t : texts) in += " " + t.substr(0, 120);
    for (int k = 0; k < (vs_msan ? 1 : 2); k++) {
        vf_fill = vs_msan ? -1 : k ? 0x5B : 0xFF; c.note(in + vs_trace); vs_run(); vf_fill = -1; string hist = string(vs_trace) + " | " + in; c.note(hist); d[k] = vs_digest;
        if (vs_error[0]) { c.fail("call-failed", string(vs_error) + ": " + hist); vf_forget_all(); return; }
        if (vf_live_blocks() != live) { c.fail("leak", strf("%ld blocks are still held: ", vf_live_blocks() - live) + hist); vf_forget_all(); return; }
        if (vf_open_files() != files) { c.fail("file-left-open", hist); vf_forget_all(); return; }
        if (k == 0) { c.count("calls", vs_calls); c.count(vs_msan ? "histories_with_tracked_values" : "histories_with_checked_addresses"); c.maxi("most_edges", vs_maxM); static const char *al[] = {"planar_runs", "outerplanar_runs", "drawing_runs", "K23_runs", "K33_runs", "K4_runs"}; for (int i = 0; i < 6; i++) if (vs_counts[40 + i]) c.count(al[i], vs_counts[40 + i]); static const char *ot[] = {"results_checked", "renderings", "texts_read", "streams_written", "streams_read", "random_graphs", "drawings_reread"}; for (int i = 0; i < 7; i++) if (vs_counts[50 + i]) c.count(ot[i], vs_counts[50 + i]); c.sample(hist); c.distinct(mix64(vs_digest, hashStr(vs_trace))); } }
    if (!vs_msan && d[0] != d[1]) c.fail("garbage-used", "the same history gave different results when fresh memory held other bytes: " + string(vs_trace) + " | " + in); else if (!vs_msan) c.count("histories_repeated_with_other_garbage");
}
const Prop PROP = {"M02", 40000, 1500000, 60, "distinct histories of valid calls on up to four graphs from creation to release, run with checked addresses twice over different garbage and, separately, with every value tracked for being initialised; nothing held at the end", run};
