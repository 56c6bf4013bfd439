// P17: all interleavings of two evaluations + differentiations, suspended between any two visits
#include "inter.hpp"
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;
struct P17 {
    Space sp; Shard& sh; std::vector<Vals> in; Inter it; Runner r1, r2; Side X, Y;
    P17(std::vector<VarDecl> d, Shard& s) : sh(s), in(inputs(d)) { sp.decl = d; in.push_back(inputs_zero(d)); }
    static bool writes(const Node* n, int v) { if ((n->k == EQ || n->k == OPEQ) && n->var == v) return true; for (auto k : n->kid) if (writes(k, v)) return true; return false; }
    void pair(const Node* p, const Node* q, bool share, int i, int j, unsigned long long max) {
        if (rep.full()) return;
        if (share) j = i;
        Store a(sp.decl), b(sp.decl);
        auto s1 = mkseed(p, 1), s2 = mkseed(q, 1); for (auto& v : s2) v = v * 2 + 0.375;
        std::string name = "X = " + str(p) + " at " + show(in[i]) + " | Y = " + str(q) + " at " + show(in[j]) + (share ? " (same inputs)" : ""); current = name;
        if (share) { b.alias.assign(sp.decl.size(), nullptr); for (size_t k = 0; k < sp.decl.size(); ++k) if (!writes(p, (int)k) && !writes(q, (int)k)) b.alias[k] = a.v(k); }
        Any ea = build(p, a), eb = build(q, b); if (!ea || !eb) { rep.fail("BUILD", name, "cannot be built"); return; }
        Opts o; if (!r1.bind(ea, o, name) || !r2.bind(eb, o, name)) return;
        it.domain = [&] { auto x = r1.model.run(p, in[i], s1), y = r1.model.run(q, in[j], s2); return x.value_defined && y.value_defined && x.defined && y.defined; };
        rep.programs++;
        X.st = &a; X.e = &ea; X.seed = s1; X.in = in[i]; X.a0.clear(); Y.st = &b; Y.e = &eb; Y.seed = s2; Y.in = in[j]; Y.a0.clear();
        it.max_sched = max; it.explore(X, Y, name);
    }
    void self(const Node* n, unsigned long long max) { if (!n || !sh.mine()) return; pair(n, n, false, 0, 1, max); pair(n, n, true, 0, 0, max); if (contains(n, IF) || contains(n, PROD)) pair(n, n, false, 2, 1, max); }
};
static void run(std::vector<VarDecl> d, Shard& sh, int depth, int thin, unsigned long long m1, unsigned long long m2) {
    P17 p(d, sh); unsigned long long k = 0; size_t nl = 0; NodeV reps; std::vector<std::string> seen;
    each_program(p.sp, true, 1, [&](const Node* n) {
        if (!n) return;
        p.self(n, m1); ++nl;
        std::string key = std::to_string(n->k) + "." + (n->k == UN ? std::to_string(n->op == LOG || n->op == TAN) : n->k == POW ? "" : std::to_string(n->op)) + "." + std::to_string(n->kid.size()); for (auto x : n->kid) key += std::to_string(x->s) + (x->k == CONST ? "c" : "");
        if (n->k == PDF || n->k == IF) { key = std::to_string(n->k) + "." + std::to_string(n->op) + std::to_string(n->s); for (auto x : n->kid) key += std::to_string(x->s); }
        for (auto& s : seen) if (s == key) return;
        seen.push_back(key); reps.push_back(n);
    });
    // statements
    auto& b = p.sp.b; NodeV as, L0; for (size_t i = 0; i < d.size(); ++i) L0.push_back(p.sp.v(i));
    for (auto t : L0) for (auto x : L0) if (x->s == t->s && x != t) {
        NodeV es = {b.bin(MUL, x, x), b.un(EXP, x)};
        for (auto e : es) { NodeV st; if (auto q = b.eq(t, e)) { st.push_back(q); p.self(q, m1); reps.push_back(q); } for (int op = 0; op < 4; ++op) if (auto q = b.opeq(op, t, e)) { st.push_back(q); p.self(q, m1); if (e == es[0]) reps.push_back(q); }
            for (auto q : st) { p.self(b.glue(q, b.bin(MUL, t, t)), m1); p.self(b.glue(q, b.un(SIN, t)), m1); p.self(b.bin(MUL, L0[0], b.glue(q, b.un(TANH, t))), m1); p.self(b.ife(b.bin(LT, L0[0], b.cst(0.5)), b.glue(q, b.un(SIN, t)), b.un(EXP, t)), m1); } }
    }
    if (depth > 1) { P17 p2(d, sh); each_program(p2.sp, false, 2, [&](const Node* n) { if (k++ < nl || !n) return; if (k % thin && n->k != PDF) return; if (k % 7 && n->k == PDF && thin > 1) return; p2.self(n, m2); }); }
    rep.count("representatives_for_cross_pairs", sh.i == 0 ? reps.size() : 0);
    for (auto x : reps) for (auto y : reps) if (x != y && sh.mine()) { p.pair(x, y, false, 0, 1, m2); p.pair(x, y, true, 0, 0, m2); if (rep.full()) return; }
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier;
    run({{S,1,1},{S,1,1},{V,2,1},{V,2,1},{M,2,2},{M,2,2}}, sh, 2, t ? 1 : 4, t ? 200000 : 4000, t ? 2000 : 200);
    run({{S,1,1},{V,3,1},{M,3,3},{M,3,2}}, sh, 2, t ? 1 : 4, t ? 200000 : 4000, t ? 2000 : 200);
    rep.finish();
}
