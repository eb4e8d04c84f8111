// Worker main: runs the cases of one property and reports what the monitor saw.
#include "common.hpp"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

string strf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); char *p = 0; int n = vasprintf(&p, fmt, ap); va_end(ap);
    if (n < 0) return ""; string s(p, (size_t)n); free(p); return s;
}
uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL ^ b); r.next(); return r.next() ^ b; }
uint64_t hashStr(const string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

static FILE *out; static map<string, ll> counters, maxima; static std::unordered_set<uint64_t> seen; static vector<string> samples;
static ll fails_total; static string curNote;
static struct Prog { volatile ll idx; volatile ll state; char note[4000]; } *prog; // state 1 = inside a case, 2 = cpu limit hit

static string js(const string &s) {
    string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; } return o + "\"";
}
void Ctx::fail(const string &key, const string &detail) {
    fails++; fails_total++;
    if (fails > 3) return;
    fprintf(out, "{\"t\":\"fail\",\"case\":%lld,\"key\":%s,\"detail\":%s,\"note\":%s}\n", idx, js(key).c_str(), js(detail.substr(0, 3000)).c_str(), js(curNote.substr(0, 6000)).c_str());
    fflush(out);
}
void Ctx::count(const char *name, ll n) { counters[name] += n; }
void Ctx::maxi(const char *name, ll n) { ll &m = maxima[name]; if (n > m) m = n; }
void Ctx::distinct(uint64_t h) { seen.insert(h); }
void Ctx::sample(const string &s) { if (samples.size() < 3) samples.push_back(s.substr(0, 400)); }
void Ctx::note(const string &s) { curNote = s; strncpy(prog->note, s.c_str(), sizeof(prog->note) - 1); }

static void onCpu(int) { prog->state = 2; _exit(98); }
static void arm(double s) {
    struct itimerval t; t.it_interval.tv_sec = 0; t.it_interval.tv_usec = 0; t.it_value.tv_sec = (time_t)s; t.it_value.tv_usec = (suseconds_t)((s - (time_t)s) * 1e6);
    setitimer(ITIMER_PROF, &t, 0);
}
int main(int argc, char **argv) {
    ll from = 0, to = 1, stride = 1; ull seed = 1; const char *progf = 0, *outf = 0, *scratch = "/tmp"; bool thorough = false; double cpuScale = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--from") from = atoll(v); else if (a == "--to") to = atoll(v); else if (a == "--stride") stride = atoll(v);
        else if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--progress") progf = v; else if (a == "--out") outf = v;
        else if (a == "--scratch") scratch = v; else if (a == "--thorough") thorough = atoi(v); else if (a == "--cpuscale") cpuScale = atof(v);
        else if (a == "--info") { printf("{\"quick\":%lld,\"thorough\":%lld,\"rule\":%s,\"id\":%s}\n", PROP.quickCases, PROP.thoroughCases, js(PROP.rule).c_str(), js(PROP.id).c_str()); return 0; }
    }
    out = outf ? fopen(outf, "a") : stdout; if (!out) return 3;
    if (progf) {
        int fd = open(progf, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, sizeof(Prog)) != 0) return 3;
        prog = (Prog *)mmap(0, sizeof(Prog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (prog == MAP_FAILED) return 3;
    } else prog = (Prog *)calloc(1, sizeof(Prog));
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCpu; sigaction(SIGPROF, &sa, 0);
    setQuietModeSetting(TRUE);
    vf_max_request = (size_t)1 << 30;
    for (ll i = from; i < to; i += stride) {
        Ctx c; c.idx = i; c.thorough = thorough; c.scratch = scratch;
        c.rng = Rng(mix64(mix64(seed, hashStr(PROP.id)), (uint64_t)i + 1));
        curNote.clear(); prog->note[0] = 0; prog->idx = i; prog->state = 1;
        arm(PROP.cpuLimit * cpuScale);
        PROP.run(c);
        arm(0);
        prog->state = 0; counters["cases"]++;
    }
    fprintf(out, "{\"t\":\"sum\",\"counters\":{"); bool first = true;
    for (auto &k : counters) { fprintf(out, "%s%s:%lld", first ? "" : ",", js(k.first).c_str(), k.second); first = false; }
    fprintf(out, "},\"maxima\":{"); first = true;
    for (auto &k : maxima) { fprintf(out, "%s%s:%lld", first ? "" : ",", js(k.first).c_str(), k.second); first = false; }
    fprintf(out, "},\"distinct\":["); first = true;
    for (auto h : seen) { fprintf(out, "%s\"%llx\"", first ? "" : ",", (ull)h); first = false; }
    fprintf(out, "],\"samples\":["); first = true;
    for (auto &s : samples) { fprintf(out, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
    fprintf(out, "]}\n"); fflush(out);
    _exit(0);   // leak accounting is done by the monitors, not at exit
}
