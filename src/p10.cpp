// P10: working memory: exact size, nothing outside it, no dependence on its contents, re-binding
#include "hist.hpp"
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
struct P10 {
    Space sp; Store st; Shard& sh; std::vector<Vals> in; Runner r; Hist h; std::vector<VarDecl> decl; unsigned long long k = 0; int hl;
    P10(std::vector<VarDecl> d, Shard& s, int hlen) : st(d), sh(s), in(inputs(d)), decl(d), hl(hlen) { sp.decl = d; h.nreg = 2; h.nseeds = 1; h.with_autodiff = false; }
    void go(const Node* n) {
        if (!n || rep.full()) return;
        ++k; if (!sh.mine()) return;
        std::string name = str(n); current = name; rep.programs++;
        Any e = build(n, st);
        if (!e) { rep.fail("BUILD", name, "cannot be built"); return; }
        static const double G[][2] = {{3.25, -7.5}, {NaN, NaN}, {INF, -INF}, {-1e308, 1e308}, {0, 0}};
        Opts o; o.cats = CACHE | VALUE | GRAD; o.rerun = true;
        auto seed = mkseed(n, 1);
        for (size_t i = 0; i < in.size(); ++i) {
            std::vector<double> v; Vals a; bool first = true;
            for (auto& g : G) {
                o.garbage = g[0]; o.garbage2 = g[1];
                Opts q = o; if (!first) q.rerun = false;
                if (!r.run(n, e, st, in[i], seed, q, &name)) break;
                if (rep.full()) return;
                if (!first) {
                    bool same_ = v.size() == r.value.size() && !std::memcmp(v.data(), r.value.data(), 8 * v.size());
                    if (r.res.defined) for (size_t x = 0; x < a.size(); ++x) same_ = same_ && !std::memcmp(a[x].data(), r.adj[x].data(), 8 * a[x].size());
                    if (!same_) { rep.fail("CACHE", name + "  at " + show(in[i]), "result depends on what the working memory contained (" + num(g[0]) + "): " + show(r.value) + " " + show(r.adj) + " instead of " + show(v) + " " + show(a)); break; }
                }
                v = r.value; a = r.adj; first = false;
            }
        }
        if (hl && (k < 1500 || k % 5 == 0)) { h.len = hl; h.explore(n, e, st, {in[0], in[1]}, name); }
    }
};
static void run(std::vector<VarDecl> d, Shard& sh, bool wide, int depth, int hl) { P10 p(d, sh, hl); each_program(p.sp, wide, depth, [&](const Node* n) { if (depth < 2 || p.k < 20000 || n->k == IF || n->k == PDF || n->k == PROD || p.k % 3 == 0) p.go(n); else ++p.k; }); }
static void seqs(std::vector<VarDecl> d, Shard& sh, int hl) {     // nodes that bind to a variable's memory
    P10 p(d, sh, hl); Space& sp = p.sp; auto& b = sp.b;
    std::vector<VarDecl> dd = d; for (size_t i = 0; i < d.size(); ++i) sp.L0.push_back(sp.v(i));
    NodeV L1; auto keep = [&](const Node* n) { if (n) L1.push_back(n); };
    for (auto x : sp.L0) { apply1(sp, x, keep); for (auto y : sp.L0) apply2(sp, x, y, keep); apply_pdf(sp, x, {sp.L0[0]}, keep); }
    for (size_t i = 0, m = L1.size(); i < m; ++i) { auto x = L1[i]; for (auto y : sp.L0) if (y->s == x->s) keep(b.ife(b.bin(LT, sp.L0[0], b.cst(0.1)), x, y)); }
    for (auto x : L1) {
        if (x->k == GLUE && x->kid[1]->k == VAR) continue;
        size_t m = sp.mark();
        std::vector<const Node*> as; for (auto t : sp.L0) { if (t->s == x->s) if (auto e = b.eq(t, x)) as.push_back(e); for (int op = 0; op < 4; ++op) if (auto e = b.opeq(op, t, x)) as.push_back(e); }
        for (auto e : as) {
            p.go(e); p.go(b.un(SIN, e)); p.go(b.glue(e, b.bin(MUL, sp.v(e->var), sp.v(e->var)))); p.go(b.glue(sp.L0[0], e)); p.go(b.iter(FOREACH, {e, b.bin(MUL, sp.v(e->var), sp.L0[0])})); p.go(b.red(SUM, e)); p.go(b.bin(SUB, b.cst(2), e)); p.go(b.ife(b.bin(LT, sp.L0[0], b.cst(0.1)), b.un(EXP, e), b.un(SIN, e)));
            for (auto t : sp.L0) if (t->s == e->s && t->var != e->var) { if (e->k == OPEQ) p.go(b.glue(b.eq(t, e), b.bin(MUL, t, t))); p.go(b.opeq(2, t, e)); }
        }
        sp.drop(m);
        if (rep.full()) return;
    }
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier;
    run({{S,1,1},{V,2,1},{M,2,2},{M,3,2}}, sh, true, 2, t ? 6 : 5);
    run({{S,1,1},{V,1,1},{M,1,1},{M,1,3},{V,3,1},{M,3,3}}, sh, false, t ? 2 : 1, 5);
    run({{S,1,1},{V,5,1},{M,5,5},{M,5,4}}, sh, false, t ? 2 : 1, 4);
    run({{S,1,1},{V,17,1},{M,9,7}}, sh, false, 1, 4);
    seqs({{S,1,1},{V,2,1},{M,2,2},{S,1,1},{V,2,1},{M,2,2}}, sh, t ? 6 : 5); seqs({{S,1,1},{V,3,1},{M,3,3},{S,1,1},{V,3,1},{M,3,3}}, sh, 4);
    rep.finish();
}
