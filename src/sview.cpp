// Constants and the memory they come from, for every statically typed program linked in:
// programs without views: every source is destroyed after building; with views: every history of
// changing the viewed memory, evaluating and differentiating.
#include "static.hpp"
using namespace sp;
static std::vector<double> bits_of(const Konst& k) {
    std::vector<double> o; auto a = [&](auto& m) { o.insert(o.end(), m.data(), m.data() + m.size()); };
    a(k.va); a(k.vb); a(k.Mab); a(k.Mba); a(k.Maa); a(k.spd); a(k.bits); return o;
}
static void overwrite(Konst& k, const Konst& x) {        // in place: views keep pointing at live memory
    auto a = [&](auto& m, auto& s) { std::copy(s.data(), s.data() + s.size(), m.data()); };
    k.k0 = x.k0; k.k1 = x.k1; k.i0 = x.i0; a(k.va, x.va); a(k.vb, x.vb); a(k.Mab, x.Mab); a(k.Mba, x.Mba); a(k.Maa, x.Maa); a(k.spd, x.spd); a(k.via, x.via); a(k.bits, x.bits);
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); ref::Model model; Runner r; Opts o;
    std::vector<std::pair<int,int>> sizes = {{2,3},{3,2},{1,1}}; if (sh.tier) { sizes.push_back({5,4}); sizes.push_back({1,4}); sizes.push_back({4,1}); }
    int len = sh.tier ? 6 : 5;
    for (auto& p : registry()) {
        if (!sh.mine() || rep.full()) continue;
        bool view = std::string(p.name).find("constant_view") != std::string::npos;
#ifdef OWNED
        if (view) continue;
#endif
        bool seqs = false;
        rep.programs++;
        for (auto [a, b] : sizes) for (int kind = 0; kind < (view ? 2 : 3); ++kind) {
            Store st(decl(a, b)); auto k = std::make_unique<Konst>(konst(a, b, kind)); Arena A;
            std::vector<Konst> con; for (int c = 0; c < 3; ++c) con.push_back(c ? konst(a, b, (kind + 1 + c) % 5) : *k);
            std::string name = std::string(p.name) + " [a=" + std::to_string(a) + ",b=" + std::to_string(b) + ",constants " + std::to_string(kind) + "]"; current = name;
            std::vector<const Node*> prog; for (int c = 0; c < (view ? 3 : 1); ++c) { R rr(A, con[0], a, b, &con[c]); prog.push_back(p.rf(rr)); }
            if (!prog[0]) continue;
            seqs = ref::contains(prog[0], ref::EQ) || ref::contains(prog[0], ref::OPEQ);
            std::vector<Vals> in = {values(a, b, 0), values(a, b, 1)};
            auto set = [&](int i) { for (size_t q = 0; q < in[i].size(); ++q) { std::copy(in[i][q].begin(), in[i][q].end(), st.v(q)); st.adj[q].fill(0); } };
            set(0);
            Any x = [&] { Env e(st, *k, a, b); return p.mk(e); }();
            auto seed = mkseed(prog[0], 1);
            std::vector<std::vector<ref::Result>> res; for (auto n : prog) { res.push_back({}); for (auto& i : in) res.back().push_back(model.run(n, i, seed)); }
            if (!view) k.reset();
            if (!r.bind(x, o, name)) continue;
            int nc = (int)prog.size(), nops = (view ? nc : 0) + 3;      // contents | evaluate at input 0, 1 | differentiate
            std::vector<int> s(len, 0); bool dead = false; int base = nops - 3;
            while (!dead && !rep.full()) {
                int c = 0, cur = -1, fix = -1; bool diff = false; std::string trail; std::vector<double> out; std::vector<double> mem;
                if (view) { overwrite(*k, con[0]); mem = bits_of(*k); }
                auto fail = [&](const char* cat, const std::string& m) { rep.fail(cat, name + " after" + trail, m); dead = true; };
                for (int q = 0; q < len && !dead; ++q) {
                    if (s[q] < base) { if (s[q] == c || q + 1 == len) { fix = q; break; } c = s[q]; trail += " memory:=" + std::to_string(c); overwrite(*k, con[c]); mem = bits_of(*k); cur = -1; }
                    else if (s[q] < nops - 1) {
                        int i = s[q] - base; auto& e = res[c][i]; if (!e.value_defined) { fix = q; break; }
                        trail += " E" + std::to_string(i); set(i); feval(x, out); cur = i; diff = false; rep.transitions++;
                        if (out.size() != e.value.size()) fail("VALUE", "wrong size");
                        else for (size_t j = 0; j < out.size() && !dead; ++j) if (std::isnan(out[j]) || !(out[j] == e.value[j] || std::fabs(out[j] - e.value[j]) <= e.vtol[j])) fail("VALUE", "value[" + std::to_string(j) + "] = " + ref::num(out[j]) + ", expected " + ref::num(e.value[j]));
                    } else {
                        if (cur < 0 || diff || !res[c][cur].defined) { fix = q; break; }
                        trail += " D"; beval(x, seed); diff = true; rep.transitions++; auto& e = res[c][cur];
                        for (size_t v = 0; v < in[0].size() && !dead; ++v) for (size_t j = 0; j < in[0][v].size(); ++j) if (!(std::fabs(st.a(v)[j] - e.grad[v][j]) <= e.gtol[v][j])) { fail("GRAD", "adjoint of x" + std::to_string(v) + "[" + std::to_string(j) + "] = " + ref::num(st.a(v)[j]) + ", expected " + ref::num(e.grad[v][j])); break; }
                        if (seqs) cur = -1;
                    }
                    if (view && !dead) { auto now = bits_of(*k); if (std::memcmp(now.data(), mem.data(), 8 * mem.size())) fail("LEAF", "the viewed memory was written to"); }
                }
                if (dead) break;
                if (fix < 0) { rep.states++; rep.traces++; fix = len - 1; if (rep.states % 100003 == 7) rep.sample(name + ":" + trail); }
                int q = fix; for (int j = q + 1; j < len; ++j) s[j] = 0;
                while (q >= 0 && ++s[q] >= nops) s[q--] = 0;
                if (q < 0) break;
            }
        }
    }
    rep.finish();
}
