// operation histories over every statically typed program linked in
#include "static.hpp"
#include "hist.hpp"
using namespace sp;
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv);
    std::vector<std::pair<int,int>> sizes = {{2,3},{3,2}}; if (sh.tier) { sizes.push_back({1,1}); sizes.push_back({5,4}); }
    Hist h; h.len = sh.tier ? 5 : 4;
#ifdef NREG
    h.nreg = NREG; h.nseeds = 1; h.with_autodiff = false; h.len++;
#endif
    for (auto& p : registry()) {
        if (!sh.mine() || rep.full()) continue;
        rep.programs++;
        for (auto [a, b] : sizes) for (int kk : {0, 1}) {
            Store st(decl(a, b)); Konst k = konst(a, b, kk), kr = k; Arena A; R rr(A, kr, a, b);
            const Node* n = p.rf(rr); if (!n) continue;
            std::string name = std::string(p.name) + " [a=" + std::to_string(a) + ",b=" + std::to_string(b) + ",constants " + std::to_string(kk) + "]"; current = name;
            std::vector<Vals> in = {values(a, b, 0), values(a, b, 1), values(a, b, 3)};
            for (size_t i = 0; i < in[0].size(); ++i) { std::copy(in[0][i].begin(), in[0][i].end(), st.v(i)); st.adj[i].fill(0); }
            Env e(st, k, a, b); Any x = p.mk(e);
            h.explore(n, x, st, in, name);
#ifdef NEIGHBOURS
            if (rep.full()) break;
            for (int q : {0, 1}) { for (size_t i = 0; i < in[q].size(); ++i) std::copy(in[q][i].begin(), in[q][i].end(), st.v(i)); Any y = p.mk(e); h.neighbours(n, y, st, in[q], name); }
#endif
        }
    }
    rep.finish();
}
