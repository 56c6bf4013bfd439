// visits of the leaves of statically typed programs (nodes with constant operands, folded constants)
#include "static.hpp"
using namespace sp;
static void occ(const Node* n, bool exec, std::vector<std::pair<const Node*, bool>>& sels, size_t& ns, std::vector<int>& out) {
    using namespace ref;
    if (n->k == VAR) { if (exec) ++out[n->var]; return; }
    if (n->k == IF) {
        occ(n->kid[0], exec, sels, ns, out); bool t = false; if (exec && ns < sels.size() && sels[ns].first == n) t = sels[ns++].second;
        occ(n->kid[1], exec && t, sels, ns, out); occ(n->kid[2], exec && !t, sels, ns, out); return;
    }
    for (auto x : n->kid) occ(x, exec, sels, ns, out);
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); ref::Model model; Runner r; Opts o;
    for (auto& p : registry()) {
        if (!sh.mine() || rep.full()) continue;
        rep.programs++;
        for (auto [a, b] : std::vector<std::pair<int,int>>{{1,1},{2,3},{3,2}}) for (int kind = 0; kind < 5; ++kind) {
            Store st(decl(a, b)); Konst k = konst(a, b, kind), kr = k; Arena A; R rr(A, kr, a, b);
            std::string name = std::string(p.name) + " [a=" + std::to_string(a) + ",b=" + std::to_string(b) + "]"; current = name;
            const Node* n = p.rf(rr); if (!n) continue;
            Vals in = values(a, b, kind); for (size_t i = 0; i < in.size(); ++i) std::copy(in[i].begin(), in[i].end(), st.v(i));
            Env e(st, k, a, b); Any x = p.mk(e);
            std::vector<std::pair<const Node*, bool>> sels; ref::Tape<double> t; t.setup(in); t.on_if = [&](const Node* q, bool s) { sels.push_back({q, s}); }; t.ev(n);
            bool opt = ref::contains(n, ref::IF) && ref::contains(n, ref::CONST);   // with a constant condition the branch may be chosen when building
            auto seed = mkseed(n, 1);
            auto res = model.run(n, in, seed); if (!res.value_defined) { rep.skipped++; continue; }
            std::vector<int> want(10, 0); size_t ns = 0; occ(n, true, sels, ns, want); (void)opt;
            if (!r.bind(x, o, name)) continue;
            for (int round = 0; round < 2; ++round) {
                for (size_t i = 0; i < in.size(); ++i) { std::copy(in[i].begin(), in[i].end(), st.v(i)); st.adj[i].fill(0); }
                auto& ev = dyn::hooks.events; ev.clear(); dyn::hooks.log = true; std::vector<double> out; feval(x, out); size_t nf = ev.size(); if (res.defined) beval(x, seed); dyn::hooks.log = false;
                std::vector<int> f(10, 0), bw(10, 0); bool order = true;
                for (size_t q = 0; q < ev.size(); ++q) { if (ev[q].what == 'f') { ++f[ev[q].id - 1]; order = order && q < nf; } if (ev[q].what == 'b') { ++bw[ev[q].id - 1]; order = order && q >= nf; } }
                if (!order) { rep.fail("VISIT", name, "operands are evaluated again while differentiating"); break; }
                bool ok = true;
                for (int v = 0; v < 10 && ok; ++v) {
                    if (f[v] != want[v]) { rep.fail("VISIT", name + " at " + show(in), "x" + std::to_string(v) + " is evaluated " + std::to_string(f[v]) + " times, expected " + std::to_string(want[v])); ok = false; }
                    else if (bw[v] > want[v]) { rep.fail("VISIT", name + " at " + show(in), "x" + std::to_string(v) + " is differentiated " + std::to_string(bw[v]) + " times, expected at most " + std::to_string(want[v])); ok = false; }
                }
                if (!ok) break;
                rep.states++; rep.transitions += ev.size(); if (rep.programs % 211 == 1 && kind == 1 && !round) rep.sample(name + ": " + std::to_string(ev.size()) + " leaf visits");
            }
            rep.traces++;
        }
    }
    rep.finish();
}
