// Texts in every format the readers know, valid ones and damaged ones (shared by the reader monitors)
#pragma once
#include "common.hpp"
enum { T_LIST, T_MATRIX, T_LEDA, T_G6, T_DRAW, T_KINDS };
static inline string tgList(Rng &r, const SG &s, int base) { vector<vector<int>> L(s.n + 1); for (auto &e : s.e) { L[e.first].push_back(e.second); L[e.second].push_back(e.first); } string t = strf("N=%d\n", s.n); for (int i = 1; i <= s.n; i++) { t += strf("%d:", i - 1 + base); for (int w : L[i]) t += strf(" %d", w - 1 + base); t += strf(" %d\n", base - 1); } return t; }
static inline string tgMatrix(Rng &r, const SG &s) { set<Edge> es; for (auto &e : s.e) es.insert(Edge(std::min(e.first, e.second), std::max(e.first, e.second))); string t = strf("%d\n", s.n); for (int i = 1; i <= s.n; i++) { t += string(i, ' '); for (int j = i + 1; j <= s.n; j++) t += es.count(Edge(i, j)) ? '1' : '0'; t += '\n'; } return t; }
static inline string tgLeda(Rng &r, const SG &s) { string t = strf("LEDA.GRAPH\nstring\nint\n%d\n", s.n); for (int i = 1; i <= s.n; i++) t += "|{}|\n"; t += strf("%d\n", (int)s.e.size()); for (auto &e : s.e) t += strf("%d %d 0 |{}|\n", e.first, e.second); return t; }
static inline string tgDrawn(Ctx &c, const SG &s, int base) { // adjacency lists with a drawing section, as the library writes them; "" when not planar
    GraphHolder g(buildGraph(s)); if (!g.g || attachFor(g, A_D) != OK) return ""; if (gp_Embed(g, embedFlagsOf(A_D)) != OK) return ""; gp_SortVertices(g); if (base == 0) g->internalFlags |= FLAGS_ZEROBASEDIO; char *o = NULL; if (gp_WriteToString(g, &o, WRITE_ADJLIST) != OK || !o) return ""; string t = o; vf_free(o); return t; }
static inline string tgText(Ctx &c, int kind, SG &s, int *graphs = 0) {
    Rng &r = c.rng; int base = r.below(2); if (graphs) *graphs = 1;
    switch (kind) { case T_LIST: return tgList(r, s, base); case T_MATRIX: return tgMatrix(r, s); case T_LEDA: return tgLeda(r, s);
    case T_DRAW: { string t = tgDrawn(c, s, base); if (!t.empty()) return t; return tgList(r, s, base); }
    default: { string t = r.chance(1, 2) ? ">>graph6<<" : ""; int k = r.chance(1, 2) ? 1 : r.range(2, 6); for (int i = 0; i < k; i++) { SG x = s; if (i) { x.e.clear(); for (auto &e : s.e) if (r.chance(1, 2)) x.e.push_back(e); } t += g6encode(x); if (i + 1 < k || r.chance(1, 2)) t += r.chance(1, 6) ? "\r\n" : "\n"; } if (graphs) *graphs = k; return t; } }
}
static inline void tgDamage(Rng &r, string &t) {
    static const char *nums[] = {"-1", "0", "1", "2147483647", "-2147483648", "99999999999999999999", "4294967296", "65536", "1000000", "-7", "3", "2", "100000", "178956970", ""};
    static const char *bits[] = {"\n", "\r\n", "\r", " ", ":", "N=", "-", "+", "0x", "\t", "~", "~~", "?", "&", ";", ">>graph6<<", "<DrawPlanar>", "</DrawPlanar>", "LEDA.GRAPH\n", "e", ".", "e5", "\xff", "\x80"};
    int k = r.below(14); size_t n = t.size(); size_t p = n ? (size_t)r.below((int)n) : 0;
    switch (k) {
    case 0: if (n) t[p] = (char)r.below(256); break; case 1: if (n) t[p] ^= (char)(1 << r.below(8)); break; case 2: if (n) t.erase(p, 1); break; case 3: t.insert(p, 1, (char)r.below(256)); break;
    case 4: t.resize(p); break; case 5: t.insert(p, bits[r.below(24)]); break;
    case 6: if (n) { size_t l = r.range(1, 12); string x = t.substr(p, l); t.insert(r.below((int)n), x); } break; case 7: if (n) t.erase(p, r.range(1, 12)); break;
    case 8: case 9: case 10: { vector<pair<size_t, size_t>> ns; for (size_t i = 0; i < n;) if (isdigit((unsigned char)t[i])) { size_t j = i; while (j < n && isdigit((unsigned char)t[j])) j++; ns.push_back({i, j - i}); i = j; } else i++; if (ns.empty()) break; auto &x = ns[r.chance(1, 4) ? 0 : r.below((int)ns.size())]; string v = r.chance(1, 3) ? nums[r.below(15)] : r.chance(1, 2) ? strf("%d", atoi(t.substr(x.first, x.second).c_str()) + r.range(-2, 2)) : t.substr(ns[r.below((int)ns.size())].first, 3); t.replace(x.first, x.second, v); break; }
    case 11: { vector<size_t> ls(1, 0); for (size_t i = 0; i < n; i++) if (t[i] == '\n') ls.push_back(i + 1); if (ls.size() < 3) break; int a = r.below((int)ls.size() - 1), b = r.below((int)ls.size() - 1); string la = t.substr(ls[a], ls[a + 1] - ls[a]); int what = r.below(3); if (what == 0) t.erase(ls[a], la.size()); else if (what == 1) t.insert(ls[b], la); else { string lb = t.substr(ls[b], ls[b + 1] - ls[b]); if (a < b) { t.replace(ls[b], lb.size(), la); t.replace(ls[a], la.size(), lb); } } break; }
    case 12: t += bits[r.below(24)]; break; default: if (n) t[p] = "0123456789 \n-:N=?~@A_"[r.below(21)]; break; }
}
