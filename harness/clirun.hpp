// Runs the sanitized planarity program in a scratch directory and reports how it ended
#pragma once
#include "common.hpp"
struct CliRes { int code = -1; bool abnormal = false; string why, key; string out, err; long blocks = -1, files = -1, requests = -1, refused = -1; };
struct CliOpt { string input; bool tty = false; long failAt = 0; bool failForever = false; long clock = 0; double cpu = 20; bool msan = false; /* the variant that tracks uninitialised values */ };
string cliDir(Ctx &);                       // a fresh, empty directory for this case (returned path; the program's cwd)
CliRes cli(Ctx &, const string &dir, const vector<string> &args, const CliOpt &o = CliOpt());
string shown(const vector<string> &args);
set<string> filesIn(const string &dir);
// the graph inputs: text of `s` in a random format; base of the numbering it gives (0/1)
string cliText(Ctx &, SG &s, int kind, int &base);
string cliFileName(Rng &, const string &ext);
string rotationError(const vector<vector<int>> &lists, bool outer);
// Judges a primary result text (adjacency lists) of `algo` on `in`; verdict OK / NONEMBEDDABLE. For drawings: *d is filled
string resultTextError(const string &text, const SG &in, int algo, int verdict, int base, Drawing *d = 0);
string patternError(const SG &got, const SG &in, int algo);
extern const char ALGO_LETTERS[];           // in the order of enum Algo
