#include "common.hpp"
#include <unistd.h>
extern "C" {
#include "lowLevelUtils/stack.h"
#include "lowLevelUtils/listcoll.h"
#include "io/strbuf.h"
#include "io/strOrFile.h"
}
static string hist;
static void say(Ctx &c, const string &s) { if (hist.size() < 2500) hist += " " + s; c.note(hist); }
static bool bad(Ctx &c, const string &k, const string &d) { c.fail(k, d + ":" + hist); return false; }
// ---- stack -----------------------------------------------------------------------------------------
struct St { stackP s; vector<int> m; };
static bool stSame(Ctx &c, St &x) { if (sp_GetCurrentSize(x.s) != (int)x.m.size()) return bad(c, "stack-size", strf("size %d instead of %d", sp_GetCurrentSize(x.s), (int)x.m.size())); if ((bool)(sp_IsEmpty(x.s)) != x.m.empty() || (bool)(sp_NonEmpty(x.s)) == x.m.empty()) return bad(c, "stack-empty", "emptiness"); for (size_t i = 0; i < x.m.size(); i++) if (sp_Get(x.s, (int)i) != x.m[i]) return bad(c, "stack-content", strf("item %d is %d instead of %d", (int)i, sp_Get(x.s, (int)i), x.m[i])); if (sp_Top(x.s) != (x.m.empty() ? NIL : x.m.back())) return bad(c, "stack-top", "top"); if (sp_GetCapacity(x.s) < (int)x.m.size()) return bad(c, "stack-capacity", "capacity below size"); return true; }
static bool stacks(Ctx &c) {
    Rng &r = c.rng; vector<St> S; auto make = [&] { St x; int cap = r.chance(1, 8) ? r.range(100, 2000) : r.range(1, 12); say(c, strf("new%d", cap)); x.s = sp_New(cap); if (x.s && sp_GetCapacity(x.s) != cap) bad(c, "stack-capacity", "capacity of a new stack"); S.push_back(x); return x.s != 0; }; if (!make()) return bad(c, "stack-new", "sp_New");
    bool ok = true; for (int k = r.range(20, 200); k > 0 && ok; k--) { int i = r.below((int)S.size()), j = r.below((int)S.size()); St &x = S[i]; int a = (int)r.next(), b = (int)r.next(), cap = sp_GetCapacity(x.s), n = (int)x.m.size(); int p = 0, q = 0;
        switch (r.below(14)) {
        case 0: case 1: case 2: if (n < cap) { say(c, strf("push%d", i)); sp_Push(x.s, a); x.m.push_back(a); } break;
        case 3: if (n + 1 < cap) { say(c, strf("push2.%d", i)); sp_Push2(x.s, a, b); x.m.push_back(a); x.m.push_back(b); } break;
        case 4: if (n) { say(c, strf("pop%d", i)); sp_Pop(x.s, p); if (p != x.m.back()) ok = bad(c, "stack-pop", strf("popped %d instead of %d", p, x.m.back())); x.m.pop_back(); } break;
        case 5: if (n > 1) { say(c, strf("pop2.%d", i)); sp_Pop2(x.s, p, q); if (q != x.m[n - 1] || p != x.m[n - 2]) ok = bad(c, "stack-pop", "pop of two"); x.m.resize(n - 2); } break;
        case 6: if (n) { say(c, strf("drop%d", i)); sp_Pop_Discard(x.s); x.m.pop_back(); } break;
        case 7: if (n > 1) { if (a & 1) { say(c, strf("drop2.%d", i)); sp_Pop2_Discard(x.s); } else { say(c, strf("dropget%d", i)); sp_Pop2_Discard1(x.s, p); if (p != x.m[n - 2]) ok = bad(c, "stack-pop", "pop of the second"); } x.m.resize(n - 2); } break;
        case 8: if (n) { int at = r.below(n); say(c, strf("set%d[%d]", i, at)); sp_Set(x.s, at, b); x.m[at] = b; } break;
        case 9: { int to = r.chance(1, 4) ? cap + r.range(1, 5) : r.below(n + 1); say(c, strf("resize%d=%d", i, to)); int rc = sp_SetCurrentSize(x.s, to); if (rc != (to > cap ? NOTOK : OK)) ok = bad(c, "stack-resize", "result"); if (to <= cap) x.m.resize(to); break; }
        case 10: if (r.chance(1, 4)) { say(c, strf("clear%d", i)); sp_ClearStack(x.s); x.m.clear(); } break;
        case 11: if (i != j) { say(c, strf("copy%d<%d", i, j)); if (sp_Copy(x.s, S[j].s) != OK) ok = bad(c, "stack-copy", "copy refused"); x.m = S[j].m; } break;
        case 12: if (i != j) { say(c, strf("copycontent%d<%d", i, j)); int rc = sp_CopyContent(x.s, S[j].s); bool fits = cap >= (int)S[j].m.size(); if (rc != (fits ? OK : NOTOK)) ok = bad(c, "stack-copy", "result of copying content"); if (fits) x.m = S[j].m; } break;
        default: if (S.size() < 5) { if (r.chance(1, 2)) { if (!make()) ok = bad(c, "stack-new", "sp_New"); } else { say(c, strf("dup%d", i)); St y; y.s = sp_Duplicate(x.s); y.m = x.m; if (!y.s) ok = bad(c, "stack-dup", "sp_Duplicate"); else { if (sp_GetCapacity(y.s) < cap) ok = bad(c, "stack-dup", "capacity"); S.push_back(y); } } } else { say(c, strf("free%d", i)); sp_Free(&x.s); if (x.s) ok = bad(c, "stack-free", "pointer"); S.erase(S.begin() + i); } }
        for (St &y : S) if (ok) ok = stSame(c, y); c.count("stack_operations"); }
    for (St &y : S) sp_Free(&y.s); sp_Free(NULL); return ok;
}
// ---- list collection --------------------------------------------------------------------------------
struct Lc { listCollectionP l; int n; vector<vector<int>> m; };   // m: the lists, head first
static bool lcSame(Ctx &c, Lc &x) {
    for (auto &L : x.m) { if (L.empty()) continue; int h = L[0], at = h; vector<int> f, b; for (int k = 0; k <= x.n && at != NIL; k++) { f.push_back(at); at = LCGetNext(x.l, h, at); } if (f != L) { string s; for (int v : f) s += strf(" %d", v); return bad(c, "list-order", strf("the list headed by %d reads%s", h, s.c_str())); }
        at = LCGetPrev(x.l, h, NIL); for (int k = 0; k <= x.n && at != NIL; k++) { b.push_back(at); at = LCGetPrev(x.l, h, at); } std::reverse(b.begin(), b.end()); if (b != L) { string s; for (int v : b) s += strf(" %d", v); return bad(c, "list-backwards", strf("the list headed by %d reads backwards%s", h, s.c_str())); }
        if (L.size() == 1 && !(LCGetNext(x.l, h, h) == NIL)) return bad(c, "list-end", "the last item is followed by something"); if (L.size() > 1 && LCGetNext(x.l, h, h) != L[1]) return bad(c, "list-end", "second item"); }
    return true;
}
static bool lists(Ctx &c) {
    Rng &r = c.rng; int n = r.chance(1, 6) ? r.range(50, 300) : r.range(3, 16); say(c, strf("LCNew%d", n)); Lc A = {LCNew(n), n, {}}, B = {LCNew(n), n, {}}; if (!A.l || !B.l) return bad(c, "list-new", "LCNew"); bool ok = true; auto freeNodes = [&](Lc &x) { set<int> u; for (auto &L : x.m) u.insert(L.begin(), L.end()); vector<int> f; for (int v = 1; v < n; v++) if (!u.count(v)) f.push_back(v); return f; };
    for (int k = r.range(20, 150); k > 0 && ok; k--) { Lc &x = A; auto f = freeNodes(x); int node = f.empty() ? NIL : f[r.below((int)f.size())]; int li = x.m.empty() ? -1 : r.below((int)x.m.size());
        switch (r.below(9)) {
        case 0: case 1: if (node != NIL && (li < 0 || r.chance(1, 4))) { say(c, strf("start %d", node)); int h = r.chance(1, 2) ? LCAppend(x.l, NIL, node) : LCPrepend(x.l, NIL, node); if (h != node) ok = bad(c, "list-head", "head of a new list"); x.m.push_back({node}); } break;
        case 2: if (node != NIL && li >= 0) { auto &L = x.m[li]; say(c, strf("append %d to %d", node, L[0])); int h = LCAppend(x.l, L[0], node); if (h != L[0]) ok = bad(c, "list-head", "head after appending"); L.push_back(node); } break;
        case 3: if (node != NIL && li >= 0) { auto &L = x.m[li]; say(c, strf("prepend %d to %d", node, L[0])); int h = LCPrepend(x.l, L[0], node); if (h != node) ok = bad(c, "list-head", "head after prepending"); L.insert(L.begin(), node); } break;
        case 4: if (node != NIL && li >= 0) { auto &L = x.m[li]; int at = r.below((int)L.size()); say(c, strf("%d after %d", node, L[at])); LCInsertAfter(x.l, L[at], node); L.insert(L.begin() + at + 1, node); } break;
        case 5: if (node != NIL && li >= 0) { auto &L = x.m[li]; int at = r.below((int)L.size()); say(c, strf("%d before %d", node, L[at])); LCInsertBefore(x.l, L[at], node); if (at == 0) L.push_back(node); else L.insert(L.begin() + at, node); } break; // before the head is the end of the cycle
        case 6: case 7: if (li >= 0) { auto &L = x.m[li]; int at = r.below((int)L.size()); say(c, strf("delete %d from %d", L[at], L[0])); int h = LCDelete(x.l, L[0], L[at]); L.erase(L.begin() + at); if (h != (L.empty() ? NIL : L[0])) ok = bad(c, "list-head", strf("head after deleting is %d", h)); if (L.empty()) x.m.erase(x.m.begin() + li); } break;
        default: if (r.chance(1, 6)) { say(c, "reset"); LCReset(x.l); x.m.clear(); } else if (r.chance(1, 3)) { say(c, "copy"); LCCopy(B.l, A.l); B.m = A.m; ok = lcSame(c, B); } else { std::swap(A, B); say(c, "other"); } }
        if (ok) ok = lcSame(c, A) && lcSame(c, B); c.count("list_operations"); }
    LCFree(&A.l); LCFree(&B.l); if (A.l || B.l) ok = bad(c, "list-free", "pointer"); return ok;
}
// ---- string buffer ----------------------------------------------------------------------------------
struct Sb { strBufP s; string m; int rp = 0; };
static bool sbSame(Ctx &c, Sb &x) { string g = sb_GetFullString(x.s) ? sb_GetFullString(x.s) : "(null)"; if (g != x.m) return bad(c, "buffer-content", "holds '" + g.substr(0, 300) + "' instead of '" + x.m.substr(0, 300) + "'"); if (sb_GetSize(x.s) != (int)x.m.size()) return bad(c, "buffer-size", strf("size %d instead of %d", sb_GetSize(x.s), (int)x.m.size())); if (sb_GetCapacity(x.s) < (int)x.m.size()) return bad(c, "buffer-capacity", "capacity below size"); if (sb_GetReadPos(x.s) != x.rp) return bad(c, "buffer-position", strf("position %d instead of %d", sb_GetReadPos(x.s), x.rp)); string rs = sb_GetReadString(x.s); if (rs != x.m.substr(x.rp)) return bad(c, "buffer-position", "rest to read"); return true; }
static bool buffers(Ctx &c) {
    Rng &r = c.rng; vector<Sb> S; auto make = [&] { Sb x; int cap = r.chance(1, 4) ? 0 : r.below(60); say(c, strf("sb_New%d", cap)); x.s = sb_New(cap); if (x.s) S.push_back(x); return x.s != 0; }; if (!make()) return bad(c, "buffer-new", "sb_New"); bool ok = true;
    static const char *words[] = {"12", "-7", " ", "\n", "\t \r\n", "-", "--3", "a1", "0: 3 4 -1\n", "N=5", "\xff\x80", "", "longer piece of text without end ", ">>graph6<<"};
    for (int k = r.range(10, 120); k > 0 && ok; k--) { int i = r.below((int)S.size()), j = r.below((int)S.size()); Sb &x = S[i];
        switch (r.below(12)) {
        case 0: case 1: case 2: { string w = words[r.below(14)]; if (r.chance(1, 6)) w = string(r.range(1, 500), (char)r.range('a', 'z')); say(c, strf("cat%d '", i) + w.substr(0, 20) + "'"); if (sb_ConcatString(x.s, (char *)w.c_str()) != OK) ok = bad(c, "buffer-concat", "refused"); x.m += w; break; }
        case 3: { char ch = r.chance(1, 12) ? 0 : (char)r.range(1, 255); say(c, strf("char%d %d", i, ch)); if (sb_ConcatChar(x.s, ch) != OK) ok = bad(c, "buffer-concat", "refused"); if (ch) x.m += ch; break; }
        case 4: if (sb_ConcatString(x.s, NULL) != OK) ok = bad(c, "buffer-concat", "no string"); break;
        case 5: { say(c, strf("skipspace%d", i)); sb_ReadSkipWhitespace(x.s); while (x.rp < (int)x.m.size() && strchr(" \t\n\r\v\f", x.m[x.rp])) x.rp++; break; }
        case 6: { say(c, strf("skipint%d", i)); sb_ReadSkipInteger(x.s); if (x.rp < (int)x.m.size() && x.m[x.rp] == '-') x.rp++; while (x.rp < (int)x.m.size() && isdigit((unsigned char)x.m[x.rp])) x.rp++; break; }
        case 7: if (x.rp < (int)x.m.size()) { say(c, strf("skipchar%d", i)); sb_ReadSkipChar(x.s); x.rp++; } else { int p = r.below((int)x.m.size() + 1); sb_SetReadPos(x.s, p); x.rp = p; } break;
        case 8: if (r.chance(1, 4)) { say(c, strf("clear%d", i)); sb_ClearBuf(x.s); x.m.clear(); x.rp = 0; } break;
        case 9: if (i != j) { say(c, strf("copy%d<%d", i, j)); if (sb_Copy(x.s, S[j].s) != OK) ok = bad(c, "buffer-copy", "refused"); x.m = S[j].m; x.rp = 0; } break;
        case 10: { say(c, strf("take%d", i)); char *t = sb_TakeString(x.s); if (!t || x.m != t) ok = bad(c, "buffer-take", "string"); vf_free(t); x.m.clear(); x.rp = 0; break; }
        default: if (S.size() < 4) { if (r.chance(1, 2)) make(); else { say(c, strf("dup%d", i)); Sb y; y.s = sb_Duplicate(x.s); y.m = x.m; if (!y.s) ok = bad(c, "buffer-dup", "refused"); else S.push_back(y); } } else { sb_Free(&x.s); if (x.s) ok = bad(c, "buffer-free", "pointer"); S.erase(S.begin() + i); if (S.empty()) make(); } }
        for (Sb &y : S) if (ok) ok = sbSame(c, y); c.count("buffer_operations"); }
    for (Sb &y : S) sb_Free(&y.s); return ok;
}
// ---- string or file -----------------------------------------------------------------------------------
static bool streams(Ctx &c) {
    Rng &r = c.rng; string t; bool cr = r.chance(1, 4); for (int k = r.below(40); k > 0; k--) { switch (r.below(7)) { case 0: t += "\n"; break; case 1: t += cr ? "\r" : "\n"; break; case 2: t += cr ? "\r\n" : " "; break; case 3: t += (char)r.range(1, 255); break; default: t += string(r.below(12), (char)r.range('a', 'z')); } } if (!cr) t.erase(std::remove(t.begin(), t.end(), '\r'), t.end()); if (r.chance(1, 30)) t = string(r.range(1000, 20000), 'x');
    string p = c.scratch + "/l01.txt"; writeFile(p, t); say(c, strf("stream of %d bytes ", (int)t.size()) + hexOf(t, 400)); FILE *f = vf_fopen(p.c_str(), "r"); if (!f) return bad(c, "setup", "file"); char *own = vfDup(t); if (sf_New(NULL, NULL) != NULL || sf_New(f, own) != NULL) return bad(c, "stream-new", "a container of nothing or of both was made");
    strOrFileP a = sf_New(f, NULL), b = sf_New(NULL, own); if (!a || !b) return bad(c, "stream-new", "sf_New"); bool ok = true; int at = 0, fresh = 0; size_t len = t.size(); string m = t; // m: what is still expected, changed by pushing characters back
    for (int k = r.range(5, 120); k > 0 && ok; k--) { switch (r.below(6)) {
        case 0: case 1: case 2: { int x = sf_getc(a), y = sf_getc(b), want = at < (int)len ? (unsigned char)m[at] : EOF; if (x != want || y != want) ok = bad(c, "stream-getc", strf("at %d the file gives %d and the string %d instead of %d", at, x, y, want)); if (want != EOF) { at++; fresh = 1; } break; }
        case 3: if (fresh && at > 0) { int ch = r.chance(1, 2) ? (unsigned char)m[at - 1] : r.range(32, 255); say(c, strf("unget %d", ch)); int x = sf_ungetc(ch, a), y = sf_ungetc(ch, b); if (x != ch || y != ch) ok = bad(c, "stream-ungetc", strf("results %d and %d for %d", x, y, ch)); m[--at] = (char)ch; fresh = 0; } break;
        case 4: { if (sf_ungetc(EOF, a) != EOF || sf_ungetc(EOF, b) != EOF) ok = bad(c, "stream-ungetc", "EOF was pushed back"); break; }
        default: { int cnt = r.chance(1, 4) ? r.range(0, 4) : r.range(5, 300); if (cnt == 0) { char z[16] = "QQQQQQQ"; if (sf_fgets(z + 4, 0, b) != NULL || memcmp(z, "QQQQQQQ", 8)) ok = bad(c, "stream-gets", "no room, and yet something was stored"); break; } vector<char> u(cnt + 8, 'Q'), v(cnt + 8, 'Q'); say(c, strf("gets%d", cnt)); if (cr) { // lines end differently in a string, so only its characters are compared
                char *y = sf_fgets(v.data(), cnt, b); if (!y && at < (int)len && cnt > 1) ok = bad(c, "stream-gets", "nothing read"); string s = y ? y : ""; if (m.compare(at, s.size(), s) != 0 || (int)s.size() >= cnt) ok = bad(c, "stream-gets", "read '" + s + "'"); for (size_t q = 0; q < s.size() && ok; q++) { int x = sf_getc(a); if (x != (unsigned char)s[q]) ok = bad(c, "stream-gets", "the file differs"); } at += (int)s.size(); fresh = !s.empty(); break; }
            char *x = sf_fgets(u.data(), cnt, a), *y = sf_fgets(v.data(), cnt, b); if (cnt == 1) { break; } if ((x == NULL) != (at >= (int)len) || (y == NULL) != (at >= (int)len)) { ok = bad(c, "stream-gets", strf("at %d of %d: file %s, string %s", at, (int)len, x ? "read" : "ended", y ? "read" : "ended")); break; } if (!x) break; if ((x != u.data()) || (y != v.data())) ok = bad(c, "stream-gets", "pointer"); string want = m.substr(at, cnt - 1); size_t nl = want.find('\n'); if (nl != string::npos) want.resize(nl + 1); if (want != x || want != y) ok = bad(c, "stream-gets", "file '" + string(x) + "' string '" + y + "' instead of '" + want + "'"); if (u[cnt] != 'Q' || v[cnt] != 'Q') ok = bad(c, "stream-gets", "wrote past the given length"); at += (int)want.size(); fresh = 1; break; } }
        c.count("stream_operations"); }
    if (ok && sf_closeFile(a) != OK) ok = bad(c, "stream-close", "file"); if (ok && sf_closeFile(b) != OK) ok = bad(c, "stream-close", "string"); sf_Free(&a); sf_Free(&b); if (a || b) ok = bad(c, "stream-free", "pointer"); if (!ok) return false;
    // writing
    string q = c.scratch + "/l01out.txt", out; unlink(q.c_str()); string init = r.chance(1, 2) ? "" : "start "; a = sf_New(vf_fopen(q.c_str(), "w"), NULL); b = sf_New(NULL, vfDup(init)); if (!a || !b) return bad(c, "stream-new", "sf_New"); if (!init.empty() && sf_fputs((char *)init.c_str(), a) < 0) ok = bad(c, "stream-puts", "file");
    for (int k = r.below(20); k > 0; k--) { string w = r.chance(1, 8) ? "" : string(r.below(60), (char)r.range(33, 126)) + (r.chance(1, 2) ? "\n" : ""); if (sf_fputs((char *)w.c_str(), a) < 0 || sf_fputs((char *)w.c_str(), b) < 0) ok = bad(c, "stream-puts", "refused"); out += w; c.count("stream_operations"); }
    if (sf_closeFile(a) != OK) ok = bad(c, "stream-close", "output file"); char *s = sf_takeTheStr(b); if (!s || init + out != s) ok = bad(c, "stream-puts", "string holds '" + string(s ? s : "") + "' instead of '" + init + out + "'"); if (sf_takeTheStr(a) != NULL) ok = bad(c, "stream-take", "a string from a file"); vf_free(s); if (readFile(q) != init + out) ok = bad(c, "stream-puts", "file holds '" + readFile(q) + "' instead of '" + init + out + "'"); sf_Free(&a); sf_Free(&b); return ok;
}
static void run(Ctx &c) {
    hist.clear(); long live = vf_live_blocks(), files = vf_open_files(); vf_fill = c.rng.chance(1, 2) ? 0xEE : -1; bool ok; switch (c.idx % 4) { case 0: ok = stacks(c); break; case 1: ok = lists(c); break; case 2: ok = buffers(c); break; default: ok = streams(c); } vf_fill = -1;
    c.distinct(hashStr(hist)); c.sample(hist); if (!ok) { vf_forget_all(); return; } if (vf_live_blocks() != live) { c.fail("leak", hist); vf_forget_all(); } else if (vf_open_files() != files) { c.fail("file-left-open", hist); vf_forget_all(); }
}
const Prop PROP = {"L01", 120000, 1200000, 20, "distinct operation sequences on stacks, list collections, string buffers and string-or-file streams, the content compared with a model after every operation", run};
