// P11: results of re-evaluation depend on current inputs only
#include "hist.hpp"
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;
static void explore(std::vector<VarDecl> decl, Shard& sh, int len1, int len2) {
    Space sp; sp.decl = decl; Store st(decl);
    for (size_t i = 0; i < decl.size(); ++i) sp.L0.push_back(sp.v(i));
    bool got[3] = {0, 0, 0};
    for (auto& x : decl) if (!got[x.s]) { got[x.s] = true; sp.L0.push_back(sp.konst(x.s, x.r, x.c, 2)); }
    auto in = inputs(decl); in.push_back(inputs_zero(decl));
    Hist h;
    NodeV L1; auto keep = [&](const Node* n) { if (n) L1.push_back(n); };
    const NodeV& L0 = sp.L0;
    for (auto x : L0) if (x->k != CONST) { apply1(sp, x, keep); apply_pdf(sp, x, L0, keep); }
    for (auto x : L0) for (auto y : L0) if (x->k != CONST || y->k != CONST) apply2(sp, x, y, keep);
    size_t plain = L1.size();
    for (size_t i = 0; i < plain; ++i) if (L1[i]->k == BIN && L1[i]->op >= LT && L1[i]->s == S) for (auto x : L0) for (auto y : L0) if (x->k != CONST) apply_if(sp, L1[i], x, y, keep);
    auto go = [&](const Node* n, int len) {
        if (!n || rep.full() || !sh.mine()) return;
        rep.programs++; Any e = build(n, st); h.len = len;
        h.explore(n, e, st, in, str(n));
        if (!rep.full()) { Any f = build(n, st); h.neighbours(n, f, st, in[0], str(n)); }
    };
    for (auto n : L1) go(n, len1);
    auto tmp = [&](const Node* n) { go(n, len2); };
    auto scoped = [&](auto f) { size_t m = sp.mark(); f(); sp.drop(m); };
    size_t q = 0;
    for (auto x : L1) {
        if (++q % 3 && x->k != PDF && x->k != IF && x->k != PROD && x->k != DET && x->k != LOGDET) continue;
        scoped([&] { apply1(sp, x, tmp, true); apply_pdf(sp, x, {L0[0]}, tmp); });
        scoped([&] { for (auto y : {L0[0]}) { apply2(sp, x, y, tmp, true); apply2(sp, y, x, tmp, true); } });
        scoped([&] { apply_if(sp, sp.b.bin(LT, L0[0], sp.b.cst(0.1)), x, x, tmp); });
        if (rep.full()) return;
    }
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier > 0;
    explore({{S,1,1},{S,1,1},{V,2,1},{V,2,1},{M,2,2},{M,2,2}}, sh, t ? 7 : 6, t ? 5 : 4);
    explore({{S,1,1},{V,3,1},{M,3,3},{M,3,2}}, sh, t ? 6 : 5, t ? 5 : 4);
    rep.finish();
}
