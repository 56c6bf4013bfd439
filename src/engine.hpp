// Runs one program (reference syntax tree + real expression built from FastAD nodes) on one
// input, and compares everything observable with the reference model.
#pragma once
#include "dyn.hpp"
#include "ref.hpp"
#include <functional>

namespace eng {
using ref::Node; using ref::Arena; using dyn::Any;

enum Cat : unsigned { VALUE = 1, GRAD = 2, LEAF = 4, ADJ = 8, CACHE = 16, STATE = 32, ALL = 63 };

struct VarDecl { ref::Shape s; int r, c; int size() const { return r * c; } };
constexpr int RZ = 16;                           // redzone, in doubles, on both sides of every buffer
inline double canary(int i) { uint64_t u = 0x7ff4dead00000000ull + (uint64_t)i; double d; std::memcpy(&d, &u, 8); return d; }   // signalling NaN payload
inline bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }

struct Buf {                                     // n doubles between two redzones
    std::vector<double> b; int n = 0;
    int sh = 0;                                  // shifts the alignment
    void alloc(int n_, int shift = 0) { n = n_; sh = shift; b.assign(n + 2 * RZ + 1, 0); arm(); }
    void arm() { for (int i = 0; i < RZ; ++i) { b[sh + i] = canary(i); b[sh + RZ + n + i] = canary(1000 + i); } }
    double* p() { return b.data() + sh + RZ; }
    const double* p() const { return b.data() + sh + RZ; }
    bool intact() const { for (int i = 0; i < RZ; ++i) if (!same(b[sh + i], canary(i)) || !same(b[sh + RZ + n + i], canary(1000 + i))) return false; return true; }
    void fill(double x) { for (int i = 0; i < n; ++i) p()[i] = x; }
};

struct Store {
    std::vector<VarDecl> decl;
    std::vector<Buf> val, adj;
    explicit Store(std::vector<VarDecl> d) : decl(std::move(d)) {
        for (auto& x : decl) { val.emplace_back(); val.back().alloc(x.size()); adj.emplace_back(); adj.back().alloc(x.size()); }
    }
    std::vector<double*> alias;                  // variables whose values live in another store
    double* v(int i) { return !alias.empty() && alias[i] ? alias[i] : val[i].p(); }
    double* a(int i) { return adj[i].p(); }
    dyn::VS S(int i, int off = 0) { return dyn::VS(v(i) + off, a(i) + off); }
    dyn::VV V(int i) { return dyn::VV(v(i), a(i), decl[i].r); }
    dyn::VV V(int i, int off, int n) { return dyn::VV(v(i) + off, a(i) + off, n); }
    dyn::VM M(int i) { return dyn::VM(v(i), a(i), decl[i].r, decl[i].c); }
};
using Vals = std::vector<std::vector<double>>;

struct Ids { int next = 0; std::vector<const Node*> node; };     // ids for the visit log
Any build(const Node* n, Store& st, Ids* ids = nullptr);

struct Report {                                  // process-wide result of a shard
    unsigned long long programs = 0, states = 0, transitions = 0, traces = 0, skipped = 0, nodes = 0;
    int fails = 0, max_fails = 8;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, unsigned long long>> extra;
    void fail(const char* cat, const std::string& prog, const std::string& msg);
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    void count(const std::string& k, unsigned long long n = 1) { for (auto& e : extra) if (e.first == k) { e.second += n; return; } extra.push_back({k, n}); }
    void finish();                               // prints the shard report, exits
    bool full() const { return fails >= max_fails; }
};
extern Report rep;
extern std::string current;                      // what is running, for the crash handler
extern std::string (*current_fn)();              // the same, computed when needed
void crash_handlers();
struct Shard { int i = 0, n = 1; int tier = 0; unsigned long long c = 0; bool mine() { return (int)((c++ * 0x9E3779B97F4A7C15ull >> 32) % n) == i; } };
Shard shard_args(int argc, char** argv);

struct Opts {
    unsigned cats = ALL;
    double garbage = 3.25, garbage2 = -7.5;      // initial contents of value / adjoint caches
    const Vals* a0 = nullptr;                    // initial adjoints (plain leaves only)
    bool rerun = false;                          // run twice, expecting the same
    bool use_autodiff = false;                   // through ad::autodiff
    bool intseed = false;
    bool scales = false;                         // repeat with the seed scaled by very small and large factors: adjoints are linear in it
};
std::string show(const Vals& v);
std::string show(const std::vector<double>& v);

struct Runner {
    ref::Model model;
    ref::Result res;
    Buf cv, ca;
    // real outcome of the last run
    std::vector<double> value; Vals after_fwd, after_bwd, adj, adj_fwd;
    std::vector<double> cache_val, cache_adj;
    // returns false if outside the domain (nothing run)
    bool run(const Node* prog, Any& e, Store& st, const Vals& vals, const std::vector<double>& seed, const Opts& o = Opts(), const std::string* name = nullptr);
    void exec(Any& e, Store& st, const Vals& vals, const std::vector<double>& seed, const Opts& o, const ref::Result* r, const std::string& name);
    bool bind(Any& e, const Opts& o, const std::string& name);
};
std::vector<double> mkseed(const Node* n, int kind);             // 0: ones, 1: distinct signed, 2: zeros
void feval(Any& e, std::vector<double>& out);
void beval(Any& e, const std::vector<double>& seed);
void autodiff(Any& e, const std::vector<double>& seed, std::vector<double>& out);
}
