// P04: the gradient of every composition is what the chain rule says.
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;

struct Run {
    Space& sp; Store st; std::vector<Vals> in; Runner r; Opts o; Shard& sh;
    Run(Space& s, Shard& h) : sp(s), st(s.decl), in(inputs(s.decl)), sh(h) { o.cats = VALUE | GRAD; }
    void go(const Node* n) {
        if (!n || rep.full() || !sh.mine()) return;
        current = str(n);
        rep.programs++;
        Any e = build(n, st);
        if (!e) { rep.fail("BUILD", str(n), "cannot be built"); return; }
        for (size_t i = 0; i < in.size(); ++i) if (o.scales = i == 1 && (rep.programs < 2000 || rep.programs % 16 == 0), r.run(n, e, st, in[i], mkseed(n, i == 0 && n->s == S ? 0 : 1), o)) {
            rep.nodes += r.model.L.fevals;
            if (rep.programs % 40009 == 1 && i == 0) rep.sample(str(n) + " at " + show(in[i]) + " -> " + show(r.value) + " adjoints " + show(r.adj));
        }
    }
};
static void explore(std::vector<VarDecl> decl, Shard& sh, bool wide, int depth) {
    Space sp; sp.decl = decl; Run R(sp, sh);
    each_program(sp, wide, depth, [&](const Node* n) { R.go(n); });
}
// a sub-result assigned in the left operand of a node and used in the right one: for every node with two or more operands
static void assigned(int n, Shard& sh) {
    Space sp; sp.decl = {{S,1,1},{V,n,1},{M,n,n},{S,1,1},{V,n,1},{M,n,n}}; Run R(sp, sh); auto& b = sp.b; auto v = [&](int i) { return sp.v(i); };
    auto go = [&](const Node* p) { if (!p) return; R.go(p); R.go(b.bin(MUL, p, v(0))); if (p->s != S) R.go(b.red(SUM, b.bin(MUL, p, p))); R.go(b.glue(b.un(SIN, v(0)), p)); };
    for (int t = 0; t < 3; ++t) {
        auto x = v(t), w = v(t + 3);
        for (auto f : {b.bin(MUL, x, x), b.un(SIN, x), b.bin(ADD, x, v(0)), t == 0 ? b.red(SUM, v(1)) : b.dot(v(2), x)}) {
            size_t m = sp.mark(); auto a = b.eq(w, f); if (!a) continue;
            NodeV lefts = {a, b.un(EXP, b.bin(MUL, a, b.cst(0.25))), b.bin(MUL, a, v(0)), b.bin(SUB, v(0), a), b.pw(0, a), b.bin(MUL, b.cst(0), a)}; if (t) { lefts.push_back(b.red(SUM, a)); if (t == 2) { lefts.push_back(b.trans(a)); lefts.push_back(b.dot(v(2), a)); } }
            NodeV rights = {w, b.un(SIN, w), b.bin(MUL, w, b.cst(2)), b.bin(MUL, w, w), b.red(SUM, w)}; if (t) { rights.push_back(b.dot(v(2), w)); rights.push_back(b.red(NORM, w)); }
            if (t == 2) { rights.push_back(b.dot(w, v(1))); rights.push_back(b.trans(w)); } else if (t == 0) { rights.push_back(b.bin(MUL, w, v(1))); rights.push_back(b.bin(ADD, v(2), w)); } else rights.push_back(b.dot(v(2), b.un(EXP, w)));
            for (auto l : lefts) for (auto r : rights) if (l && r) { apply2(sp, l, r, go); if (rep.full()) return; }
            auto pos = [&](const Node* e) { return b.bin(ADD, b.bin(MUL, e, e), b.cst(0.75)); };
            for (auto l : lefts) for (auto r : rights) if (l && r && l->s != M && r->s != M) for (int d : {NORMAL, CAUCHY}) {
                if (l->s == S) go(b.pdf(d, {v(0), l, b.bin(ADD, b.red(SUM, b.bin(MUL, r, r)), b.cst(1))}));
                go(b.pdf(d, {v(1), l, pos(r)})); if (l->s == S && r->s == V) continue; go(b.pdf(d, {l, r, b.cst(1.5)})); go(b.pdf(d, {l, v(0), pos(r)}));
            }
            sp.drop(m); if (rep.full()) return;
        }
    }
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv);
    bool t = sh.tier > 0;
    explore({{S,1,1},{S,1,1},{V,2,1},{V,2,1},{M,2,2},{M,2,2},{M,3,2}}, sh, true, t ? 3 : 2);
    explore({{S,1,1},{V,1,1},{M,1,1},{V,5,1},{M,3,3},{M,2,3}}, sh, false, 2);
    for (int n : {1, 2, 3}) assigned(n, sh);
    rep.finish();
}
