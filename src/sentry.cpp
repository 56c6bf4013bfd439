// every public entry point (evaluate, evaluate_adj, autodiff on expressions, bound expressions, temporaries; default seeds and
// seeds of every Eigen type) on a cross-section of the typed programs
#include "static.hpp"
using namespace sp;
namespace sp { std::function<void(Entry&)> entry; }
// the reference tolerances are for double
static bool loosen(ref::Result& r) {
    if (sizeof(REAL) >= 8) return true;
    for (auto& q : r.vtol) q *= 1e7; for (auto& g : r.gtol) for (auto& q : g) q *= 1e7;
    for (double q : r.value) if (std::fabs(q) > 1e12) return false; for (auto& g : r.grad) for (double q : g) if (std::fabs(q) > 1e12) return false;
    return true;
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); ref::Model model;
    std::vector<std::pair<int,int>> sizes = {{1,1},{2,3},{3,2}}; if (sh.tier) { sizes.push_back({5,4}); sizes.push_back({9,17}); }
    for (auto& p : registry()) {
        if (!sh.mine() || rep.full()) continue;
        rep.programs++;
        for (auto [a, b] : sizes) for (int kind : {0, 1, 2}) {
            if (rep.full()) break;
            EStore st(decl(a, b)); KonstR k = konst(a, b, kind).to<REAL>(); Konst kr = k.to<double>(); Arena A; R rr(A, kr, a, b);
            std::string name = std::string(p.name) + " [a=" + std::to_string(a) + ",b=" + std::to_string(b) + "]";
            const Node* n = p.rf(rr); if (!n) continue;
            current = name; Vals in = values(a, b, kind); for (auto& v : in) for (auto& q : v) q = (double)(REAL)q;
            for (size_t i = 0; i < in.size(); ++i) { std::copy(in[i].begin(), in[i].end(), st.v(i)); std::fill_n(st.a((int)i), in[i].size(), REAL(0)); }
            Env e(st, k, a, b); entry = nullptr; Any x = p.mk(e); if (!entry) { rep.fail("BUILD", name, "no entry"); continue; }
            for (int s : {0, 1, 2}) {
                Entry t{st, in, name}; t.seed = mkseed(n, s == 2 ? 0 : s); if (s == 2) for (auto& q : t.seed) q = -3; t.same_seed = s != 1;
                auto r = model.run(n, in, t.seed); if (!r.value_defined) { rep.skipped++; continue; }
                if (!loosen(r)) { rep.skipped++; continue; }
                t.r = &r; t.want = r.value; t.vtol = r.vtol; rep.states++; rep.traces++; entry(t);
                if (rep.full()) break;
            }
        }
    }
    rep.finish();
}
