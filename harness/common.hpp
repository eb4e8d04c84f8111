// Shared by all monitors: case context, random source, graphs, generators, oracles, library adapters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#define VF_NO_REDEFINE
#include "vfhook.h"
// the library's extension record is only valid C; the monitors need no more than its pointer type
#define GRAPH_EXTENSIONS_PRIVATE_H
struct graphExtension; typedef struct graphExtension *graphExtensionP;
extern "C" {
#include "graphLib.h"
#include "extensionSystem/graphExtensions.h"
}
#undef MIN
#undef MAX
#undef MIN3
#undef MAX3

using std::string; using std::vector; using std::pair; using std::set; using std::map;
typedef long long ll; typedef unsigned long long ull;

string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }       // inclusive
    bool chance(int num, int den) { return below(den) < num; }
    template <class T> void shuffle(vector<T> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[below(i + 1)]); }
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hashStr(const string &);

// ---- case context --------------------------------------------------------------------------
struct Ctx {
    Rng rng; ll idx; bool thorough; string scratch;   // scratch: private directory for this worker
    int fails = 0;
    // report the property broken in this case; key identifies the kind of failure
    void fail(const string &key, const string &detail);
    void count(const char *name, ll n = 1);           // what the monitor observed
    void maxi(const char *name, ll n);
    void distinct(uint64_t h);                        // a distinct non-trivial case
    void sample(const string &s);
    void note(const string &s);                       // attached to a later fail/crash of this case
};
struct Prop {
    const char *id; ll quickCases, thoroughCases; double cpuLimit; const char *rule;
    void (*run)(Ctx &);
};
extern const Prop PROP;

// ---- simple graphs, vertices 1..n ------------------------------------------------------------
typedef pair<int, int> Edge;
struct SG {
    int n = 0; vector<Edge> e;
    SG(int n_ = 0) : n(n_) {}
    void add(int u, int v) { e.push_back(Edge(u, v)); }
    vector<vector<int>> adj() const;
    vector<vector<pair<int, int>>> adjE() const;      // (neighbour, edge index)
    set<Edge> eset() const;
    bool has(int u, int v) const;                     // linear
    void simplify();                                  // drop loops and duplicates
    string str() const;                               // "n; u-v u-v ..."
    uint64_t hash() const;
};
SG permuted(const SG &, Rng &, vector<int> *perm = 0); // relabel vertices and shuffle edges & ends

// ---- generators -----------------------------------------------------------------------------
SG genPlanarTri(Rng &, int n);            // maximal planar
SG genPlanar(Rng &, int n);               // random planar of varying density
SG genOuterplanar(Rng &, int n);
SG genSeriesParallel(Rng &, int n);       // K4-free
SG genTree(Rng &, int n);
SG genRandom(Rng &, int n, int m);
SG genNamed(Rng &, int size, string *name = 0);       // member of a classical family near 'size'
SG subdivide(const SG &, Rng &, int extra);
SG glue(Rng &, const SG &a, const SG &b, int k, int dropEdge); // k-sum: 0 = disjoint, 1 = cut vertex, 2 = pair
SG genGlued(Rng &, int target, int flavour);          // k-sums of K5,K33,K4,planar,...
SG genExpanded(Rng &, const SG &base, int target, int flavour); // edges of a base replaced by pieces
SG genAny(Rng &, int maxN, string *name = 0);         // mixture used by most monitors
SG genNearPlanar(Rng &, int n, int extra);
SG genLarge(Rng &, int algo, int lo, int hi, int &truth, string *name = 0); // hundreds to tens of thousands of vertices, answer known by construction (algo as in enum Algo)
SG Kn(int n); SG Kab(int a, int b); SG cycleG(int n); SG pathG(int n); SG gridG(int a, int b); SG wheelG(int n);

// ---- oracles (independent of the library) ----------------------------------------------------
bool oraclePlanar(const SG &);            // Demoucron-Malgrange-Pertuiset per block
bool oracleOuterplanar(const SG &);
bool oracleHasK4(const SG &);
bool oracleHasK23(const SG &);
bool oracleHasK33(const SG &);
vector<vector<int>> blocksOf(const SG &); // edge index lists
vector<int> componentsOf(const SG &);     // 1..n -> component id
// kind of homeomorph the edge set forms exactly: "K5","K33","K4","K23" or "" (why in *why)
string homeomorphKind(const SG &, string *why = 0);

// ---- library adapters -------------------------------------------------------------------------
enum Algo { A_P, A_O, A_D, A_23, A_33, A_4, A_COUNT };
int embedFlagsOf(int algo);
const char *algoName(int algo);
int attachFor(graphP, int algo);
int detachFor(graphP, int algo);
bool hasFeature(graphP, int algo);
struct BuildOpt { int linkMode = 0; Rng *rng = 0; int capacityEdges = 0; bool ensureAfter = false; };
graphP buildGraph(const SG &, const BuildOpt &o = BuildOpt());  // NULL on failure
graphP newSized(int n, int capacityEdges);
// Reads the graph through its adjacency lists; checks their structural invariants. "" when fine.
string structureError(graphP);
// neighbour lists (arc ids) of vertices 1..n
vector<vector<int>> arcLists(graphP);
SG sgOf(graphP);                           // edges by edge index (skipping holes)
string sameEdges(const SG &want, const SG &got);  // "" if equal as sets
string subsetEdges(const SG &sub, const SG &of);
string embeddingError(graphP, bool outer); // genus check of the rotation system
string dumpGraph(graphP, bool withFlags = false);  // neighbour lists in order + indices
char *vfDup(const string &);               // allocate a string the library may take over
struct GraphHolder { graphP g; GraphHolder(graphP p = 0) : g(p) {} ~GraphHolder() { if (g) gp_Free(&g); } operator graphP() { return g; } graphP operator->() { return g; } };
// complete judgement of a run of algorithm `algo` on `in` whose result is now in g (vertices already in
// the numbering of `in`); verdict is the return value of gp_Embed. truth: 1 embeddable/none, 0 not, -1 unknown
string judge(graphP g, const SG &in, int algo, int verdict, int truth);
int truthOf(const SG &, int algo);         // 1 = embeddable / pattern absent
struct Drawing { vector<int> vpos, vs, ve; map<Edge, vector<int>> e; };
string drawingError(const SG &, const Drawing &);
string renderError(const SG &, const Drawing &, const string &pic, int base);
bool parseAdjListWithDrawing(const string &text, SG &out, vector<vector<int>> &lists, int &base, Drawing *d, vector<vector<int>> *rawE, string &why);
string g6encode(const SG &);               // without newline
bool g6decode(const string &line, SG &out);

// ---- one complete algorithm run, judged (embedcase.cpp) ----------------------------------------
enum { RP_VERDICT = 1, RP_EMBEDDING = 2, RP_OBSTRUCTION = 4, RP_ALL = 7 };
struct RunInfo { int verdict = -9; string err; string dump; };
// Builds `in` with a random insertion style, runs `algo`, restores the caller's numbering and judges the result.
RunInfo runAlgo(Ctx &c, const SG &in, int algo, int truth, bool wantDrawing = false);
bool getDrawing(graphP g, Drawing &d, string &why);   // positions now held by the drawing feature
// Everything a caller can see of a graph: sizes, flags, lists with record names, classes and directions, numbering,
// DFS values, the stack of hidden items, attached features and drawing positions. caps: with the arc capacity
string stateOf(graphP, bool caps = true);
string firstDiff(const string &a, const string &b);
string hexOf(const string &s, size_t max = 400);
string readFile(const string &path, bool *ok = 0);
bool writeFile(const string &path, const string &data);
