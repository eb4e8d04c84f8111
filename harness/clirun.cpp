#include "clirun.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
extern char **environ;
static void wipe(const string &d) { DIR *p = opendir(d.c_str()); if (!p) return; while (dirent *e = readdir(p)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); }
string cliDir(Ctx &c) { string d = c.scratch + "/w"; mkdir(d.c_str(), 0700); wipe(d); return d; }
set<string> filesIn(const string &d) { set<string> s; DIR *p = opendir(d.c_str()); if (!p) return s; while (dirent *e = readdir(p)) { string n = e->d_name; if (n != "." && n != "..") s.insert(n); } closedir(p); return s; }
string shown(const vector<string> &a) { string s = "planarity"; for (auto &x : a) s += " '" + x + "'"; return s; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
CliRes cli(Ctx &c, const string &dir, const vector<string> &args, const CliOpt &o) {
    static bool once = false; if (!once) { once = true; struct rlimit l = {(rlim_t)256 << 20, (rlim_t)256 << 20}; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_DFL); }
    CliRes R; const char *exe = getenv(o.msan ? "VF_PLANARITY_MSAN" : "VF_PLANARITY"); if (!exe) { fprintf(stderr, "no VF_PLANARITY\n"); abort(); }
    string fo = c.scratch + "/cli.out", fe = c.scratch + "/cli.err", fl = c.scratch + "/cli.led", fi = c.scratch + "/cli.in"; unlink(fl.c_str()); bool in = !o.input.empty(); if (in) writeFile(fi, o.input);
    vector<string> env; for (char **e = environ; *e; e++) env.push_back(*e); env.push_back("VF_LEDGER=" + fl); if (o.failAt) { env.push_back(strf("VF_FAIL_AT=%ld", o.failAt)); if (o.failForever) env.push_back("VF_FAIL_FOREVER=1"); } env.push_back(strf("VF_CLOCK=%ld", o.clock ? o.clock : 1000000000L + (long)(c.idx * 7 + c.rng.below(1000000))));
    vector<char *> av, ev; string a0 = "planarity"; av.push_back(&a0[0]); vector<string> as = args; for (auto &x : as) av.push_back(&x[0]); av.push_back(0); for (auto &x : env) ev.push_back(&x[0]); ev.push_back(0);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, in ? fi.c_str() : "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
    pid_t pid; int rc = posix_spawn(&pid, exe, &fa, 0, av.data(), ev.data()); posix_spawn_file_actions_destroy(&fa); if (rc) { fprintf(stderr, "cannot start %s: %s\n", exe, strerror(rc)); abort(); }
    struct rlimit cl = {(rlim_t)o.cpu, (rlim_t)o.cpu + 2}; prlimit(pid, RLIMIT_CPU, &cl, 0);
    double t0 = now(); int st = 0; bool killed = false; useconds_t w = 300; while (true) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; if (now() - t0 > 180) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; } usleep(w); if (w < 20000) w += w / 4; }
    R.out = readFile(fo); R.err = readFile(fe); c.count("program_runs");
    if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXFSZ))) { R.abnormal = true; R.key = "does-not-end"; R.why = "the program does not come to an end"; }
    else if (WIFSIGNALED(st)) { R.abnormal = true; R.key = "crash"; R.why = strf("killed by signal %d", WTERMSIG(st)); }
    else { R.code = WEXITSTATUS(st); if (R.code == 97) { R.abnormal = true; R.key = "sanitizer"; } else if (R.err.find("runtime error:") != string::npos || R.err.find("AddressSanitizer") != string::npos || R.err.find("MemorySanitizer") != string::npos) { R.abnormal = true; R.key = "sanitizer"; } }
    if (R.key == "sanitizer" || R.key == "crash") { string loc; size_t p = R.err.find("SUMMARY:"); if (p == string::npos) p = R.err.find("runtime error:"); if (p != string::npos) { size_t a = R.err.rfind('\n', p); a = a == string::npos ? 0 : a + 1; loc = R.err.substr(a, R.err.find('\n', p) - a); } R.why += " " + loc; size_t f = 0; string where; while ((f = R.err.find("    #", f)) != string::npos) { size_t e = R.err.find('\n', f); string l = R.err.substr(f, e - f); f = e == string::npos ? R.err.size() : e; size_t q = l.find(" in "); if (q != string::npos && (l.find("/c/graphLib/") != string::npos || l.find("/c/planarityApp/") != string::npos)) { where = l.substr(q + 4, l.find(' ', q + 4) - q - 4); break; } } if (!where.empty()) { R.key += ":" + where; R.why += " in " + where; } }
    FILE *f = fopen(fl.c_str(), "r"); if (f) { unsigned long by; if (fscanf(f, "blocks %ld bytes %lu files %ld requests %ld refused %ld", &R.blocks, &by, &R.files, &R.requests, &R.refused) != 5) R.blocks = -1; fclose(f); }
    c.count(strf("exit_status_%s", R.abnormal ? "abnormal" : strf("%d", R.code).c_str()).c_str());
    return R;
}
#include "textgen.hpp"
const char ALGO_LETTERS[] = "pod234";
string cliText(Ctx &c, SG &s, int kind, int &base) {
    Rng &r = c.rng; base = 1; switch (kind) { case T_LIST: base = r.below(2); return tgList(r, s, base); case T_MATRIX: return tgMatrix(r, s); case T_LEDA: return tgLeda(r, s);
    default: base = 0; return tgText(c, T_G6, s); }
}
string cliFileName(Rng &r, const string &ext) {
    static const char *st[] = {"g", "Graph-1", "a b", "x%sy", "100%d", "-p", "é", "in.put", "q'uote", "N=3", "deep.name.with.dots", "$HOME", "*", "n%n"}; string s = r.chance(1, 2) ? strf("f%d", r.below(1000)) : st[r.below(14)]; if (r.chance(1, 12)) s += string(r.range(60, 110), 'z'); if (!ext.empty() && r.chance(4, 5)) s += ext; return s;
}
string rotationError(const vector<vector<int>> &L, bool outer) {
    int n = (int)L.size() - 1; SG s(n); map<pair<int, int>, int> pos; for (int v = 1; v <= n; v++) for (size_t i = 0; i < L[v].size(); i++) { pos[{v, L[v][i]}] = (int)i; if (v < L[v][i]) s.add(v, L[v][i]); }
    vector<int> comp = componentsOf(s); int nc = 0; for (int v = 1; v <= n; v++) nc = std::max(nc, comp[v] + 1); vector<ll> nv(nc, 0), ne(nc, 0), nf(nc, 0), big(nc, 0); for (int v = 1; v <= n; v++) nv[comp[v]]++; for (auto &x : s.e) ne[comp[x.first]]++;
    set<pair<int, int>> seen; for (int v = 1; v <= n; v++) for (int w0 : L[v]) { if (seen.count({v, w0})) continue; int a = v, b = w0; set<int> on; do { seen.insert({a, b}); on.insert(a); auto it = pos.find({b, a}); if (it == pos.end()) return strf("%d-%d has no twin", a, b); int nx = L[b][(it->second + 1) % L[b].size()]; a = b; b = nx; } while (!seen.count({a, b})); if (a != v || b != w0) return "face traversal does not close"; nf[comp[v]]++; big[comp[v]] = std::max<ll>(big[comp[v]], (ll)on.size()); }
    for (int k = 0; k < nc; k++) { if (!ne[k]) continue; if (nv[k] - ne[k] + nf[k] != 2) return strf("component with %lld vertices, %lld edges has %lld faces: not a planar rotation", nv[k], ne[k], nf[k]); if (outer && big[k] != nv[k]) return strf("no face holds all %lld vertices of a component", nv[k]); }
    return "";
}
string patternError(const SG &got, const SG &in, int a) {
    string e = subsetEdges(got, in); if (!e.empty()) return "not part of the input: " + e; string why, k = homeomorphKind(got, &why);
    bool ok = a == A_P || a == A_D ? k == "K5" || k == "K33" : a == A_O ? k == "K4" || k == "K23" : a == A_23 ? k == "K23" : a == A_33 ? k == "K33" : k == "K4"; return ok ? "" : strf("not the required subgraph: %s (%s)", k.empty() ? "none" : k.c_str(), why.c_str());
}
string resultTextError(const string &text, const SG &in, int a, int verdict, int base, Drawing *d) {
    SG got; vector<vector<int>> L; int b; string why; vector<vector<int>> raw; bool sec = text.find("<DrawPlanar>") != string::npos; if (sec != (a == A_D)) return sec ? "unexpected drawing section" : "no drawing section"; Drawing tmp; if (!parseAdjListWithDrawing(text, got, L, b, sec ? &tmp : 0, &raw, why)) return "unreadable: " + why;
    if (got.n != in.n) return strf("%d vertices instead of %d", got.n, in.n); if (b != base) return strf("numbering starts at %d instead of %d", b, base); for (int v = 1; v <= got.n; v++) { set<int> q(L[v].begin(), L[v].end()); if (q.size() != L[v].size() || q.count(v)) return strf("vertex %d lists a neighbour twice or itself", v); }
    if (verdict == NONEMBEDDABLE) return patternError(got, in, a); string e = sameEdges(in, got); if (!e.empty()) return "not the input graph: " + e; if (a == A_P || a == A_D || a == A_O) { e = rotationError(L, a == A_O); if (!e.empty()) return e; }
    if (a == A_D && d) { GraphHolder g(gp_New()); if (!g.g || gp_EnsureArcCapacity(g, 2 * std::max<int>(1, (int)in.e.size())) != OK || attachFor(g, A_D) != OK || gp_ReadFromString(g, vfDup(text)) != OK) return "the drawing cannot be read back"; if (!getDrawing(g, *d, why)) return why; e = drawingError(in, *d); if (!e.empty()) return e; }
    return "";
}
