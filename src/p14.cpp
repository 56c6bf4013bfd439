// P14: no side effects beyond adding adjoints, which is additive in the adjoints and linear in the seed
#include "hist.hpp"
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;
struct P14 {
    Space sp; Store st; Shard& sh; std::vector<Vals> in; Runner r; unsigned long long k = 0; std::vector<Vals> a0;
    P14(std::vector<VarDecl> d, Shard& s) : st(d), sh(s), in(inputs(d)) {
        sp.decl = d; in.push_back(inputs_zero(d));
        for (int q = 0; q < 2; ++q) { Vals a; int i = 0; for (auto& x : d) { std::vector<double> v; for (int j = 0; j < x.size(); ++j, ++i) v.push_back(q ? (i % 2 ? -3e4 : 1e4) * (1 + i % 5) : 0.25 * (i % 9) - 1.125); a.push_back(v); } a0.push_back(a); }
    }
    void go(const Node* n) {
        if (!n || rep.full()) return;
        ++k; if (!sh.mine()) return;
        std::string name = str(n); current = name; rep.programs++;
        Any e = build(n, st); if (!e) { rep.fail("BUILD", name, "cannot be built"); return; }
        Opts o; o.cats = VALUE | GRAD | LEAF | ADJ | STATE;
        bool seq = contains(n, EQ) || contains(n, OPEQ);
        for (size_t i = 0; i < in.size(); ++i) {
            // two seeds, their combination and zero: every contribution is compared with the model, which is linear
            auto s1 = mkseed(n, 1), s2 = mkseed(n, 0), s3 = s1, s0 = mkseed(n, 2), s4 = s1; for (size_t q = 0; q < s1.size(); ++q) { s3[q] = 2 * s1[q] - 3 * s2[q]; s4[q] = q == (k % s4.size()) ? -2 : 0; }
            std::vector<std::vector<double>> seeds = {s1, s3, s0}; if (s1.size() > 1) seeds.push_back(s4);
            for (size_t q = 0; q < seeds.size(); ++q) {
                o.a0 = &a0[(q + i) % 2];
                if (!r.run(n, e, st, in[i], seeds[q], o, &name)) break;
                if (rep.full()) return;
                if (!r.res.defined) break;
                // zero seed: existing adjoints stay as they are, bit for bit
                if (q == 2 && !seq) for (size_t v = 0; v < st.decl.size(); ++v) for (int j = 0; j < st.decl[v].size(); ++j) if (st.a(v)[j] != (*o.a0)[v][j]) { rep.fail("ADJ", name + " at " + show(in[i]), "a zero seed changes the adjoint of x" + std::to_string(v) + "[" + std::to_string(j) + "] from " + num((*o.a0)[v][j]) + " to " + num(st.a(v)[j])); return; }
                // differentiating again adds the same again
                if (q == 0 && !seq && !contains(n, PRODIT)) {
                    Vals first = r.adj; beval(e, seeds[q]); rep.transitions++;
                    for (size_t v = 0; v < st.decl.size(); ++v) for (int j = 0; j < st.decl[v].size(); ++j) { double c = r.res.grad[v][j], want = first[v][j] + c; if (!(std::fabs(st.a(v)[j] - want) <= 2 * r.res.gtol[v][j] + 1e-15 * std::fabs(want) + 1e-11)) { rep.fail("GRAD", name + " at " + show(in[i]), "differentiating a second time: adjoint of x" + std::to_string(v) + "[" + std::to_string(j) + "] = " + num(st.a(v)[j]) + ", expected " + num(want)); return; } }
                    for (size_t v = 0; v < st.decl.size(); ++v) for (int j = 0; j < st.decl[v].size(); ++j) if (!same(st.v(v)[j], in[i][v][j])) { rep.fail("LEAF", name + " at " + show(in[i]), "differentiating twice changed the value of x" + std::to_string(v)); return; }
                }
            }
            // very small and very large seeds
            if (i == 0 && (k < 8000 || k % 8 == 0)) { o.a0 = nullptr; o.scales = true; r.run(n, e, st, in[i], s1, o, &name); o.scales = false; if (rep.full()) return; }
            if (rep.programs % 20011 == 1 && i == 0) rep.sample(name + " seed " + show(seeds[0]) + " on adjoints " + show(a0[0]) + " -> " + show(r.adj));
        }
    }
    void seqs() {
        auto& b = sp.b; NodeV L0; for (size_t i = 0; i < sp.decl.size(); ++i) L0.push_back(sp.v(i));
        NodeV L1; auto keep = [&](const Node* n) { if (n) L1.push_back(n); };
        for (auto x : L0) { apply1(sp, x, keep, true); for (auto y : L0) apply2(sp, x, y, keep, true); apply_pdf(sp, x, {L0[0]}, keep); }
        for (auto x : L1) {
            size_t m = sp.mark(); NodeV as; for (auto t : L0) { if (t->s == x->s) if (auto e = b.eq(t, x)) as.push_back(e); for (int op = 0; op < 4; ++op) if (auto e = b.opeq(op, t, x)) as.push_back(e); }
            for (auto e : as) { auto w = sp.v(e->var); go(e); go(b.un(SIN, e)); go(b.glue(e, b.bin(MUL, w, w))); go(b.bin(MUL, L0[0], b.glue(e, b.un(TANH, w)))); go(b.ife(b.bin(LT, L0[0], b.cst(0.1)), b.un(EXP, e), b.un(SIN, e))); go(b.glue(e, L0[0])); go(b.iter(FOREACH, {e, b.bin(MUL, w, L0[0])})); }
            sp.drop(m); if (rep.full()) return;
        }
    }
};
static void run(std::vector<VarDecl> d, Shard& sh, bool wide, int depth, int thin) { P14 p(d, sh); each_program(p.sp, wide, depth, [&](const Node* n) { if (p.k < 8000 || n->k == IF || n->k == PDF || (n->k == BIN && n->op >= LT) || p.k % thin == 0) p.go(n); else ++p.k; }); }
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier; int th = t ? 1 : 3;
    run({{S,1,1},{S,1,1},{V,2,1},{V,2,1},{M,2,2},{M,2,2}}, sh, true, 2, th);
    run({{S,1,1},{V,3,1},{M,3,3},{M,1,3},{M,3,2}}, sh, false, 2, th); run({{S,1,1},{V,1,1},{M,1,1},{V,9,1},{M,4,5}}, sh, false, t ? 2 : 1, th);
    { P14 p({{S,1,1},{V,2,1},{M,2,2},{S,1,1},{V,2,1},{M,2,2}}, sh); p.seqs(); }
    rep.finish();
}
