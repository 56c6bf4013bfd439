// P18: every sub-expression is evaluated exactly once per evaluation and differentiated at most once
#include "progs.hpp"
#include "inputs.hpp"
using namespace eng; using namespace ref;
struct P18 {
    Space sp; Store st; Shard& sh; std::vector<Vals> in; Runner r; unsigned long long k = 0;
    P18(std::vector<VarDecl> d, Shard& s) : st(d), sh(s), in(inputs(d)) { sp.decl = d; }
    // how often each node must be evaluated: pre-order is not needed, ids are given in post-order by build
    void expect(const Node* n, int times, const std::vector<char>& br, size_t& ib, int& id, std::vector<int>& out, std::vector<char>& optional) {
        if (n->k == IF) {
            int i0 = id; (void)i0;
            expect(n->kid[0], times, br, ib, id, out, optional);
            bool t = times ? sel(n) : false;
            expect(n->kid[1], times && t ? 1 : 0, br, ib, id, out, optional);
            expect(n->kid[2], times && !t ? 1 : 0, br, ib, id, out, optional);
        } else for (auto x : n->kid) { bool opt = n->k == PDF && n->op == WISHART && x == n->kid[2]; size_t at = out.size(); expect(x, times, br, ib, id, out, optional); if (opt) for (size_t q = at; q < out.size(); ++q) optional[q] = 1; }
        ++id; out.push_back(times); optional.push_back(0);
    }
    std::vector<std::pair<const Node*, bool>> sels; size_t nsel = 0;
    bool sel(const Node* n) { if (nsel < sels.size() && sels[nsel].first == n) return sels[nsel++].second; return false; }
    // which branch each if_else takes, in evaluation order, from the model
    struct Ev2 : Tape<double> {};
    void go(const Node* n, int rounds = 2) {
        if (!n || rep.full() || !sh.mine()) return;
        std::string name = str(n); current = name; rep.programs++;
        Ids ids; Any e = build(n, st, &ids); Opts o;
        if (!r.bind(e, o, name)) return;
        auto seed = mkseed(n, 1);
        for (size_t i = 0; i < in.size(); ++i) {
            Result res = r.model.run(n, in[i], seed); if (!res.value_defined) { rep.skipped++; continue; }
            sels = branches(n, in[i]); nsel = 0;
            std::vector<int> want; std::vector<char> opt; size_t ib = 0; int id = 0; expect(n, 1, {}, ib, id, want, opt);
            for (int round = 0; round < rounds; ++round) {
                for (size_t v = 0; v < in[i].size(); ++v) { std::copy(in[i][v].begin(), in[i][v].end(), st.v(v)); st.adj[v].fill(0); }
                dyn::hooks.events.clear(); dyn::hooks.log = true;
                std::vector<double> out; feval(e, out);
                size_t nf = dyn::hooks.events.size();
                if (res.defined) beval(e, seed);
                dyn::hooks.log = false; rep.states++; rep.transitions += dyn::hooks.events.size();
                std::vector<int> f(id, 0), bw(id, 0);
                auto& ev = dyn::hooks.events;
                std::string at = name + "  at " + show(in[i]);
                for (size_t q = 0; q < ev.size(); ++q) {
                    if (ev[q].what == 'f') { if (q >= nf) { rep.fail("VISIT", at, "differentiating evaluates " + str(ids.node[ev[q].id - 1]) + " again"); return; } ++f[ev[q].id - 1]; }
                    if (ev[q].what == 'b') { if (q < nf) { rep.fail("VISIT", at, "evaluating differentiates " + str(ids.node[ev[q].id - 1])); return; } ++bw[ev[q].id - 1]; }
                }
                for (int q = 0; q < id; ++q) {
                    auto x = ids.node[q];
                    if (f[q] != want[q] && !opt[q] && x->k != CONST) { rep.fail("VISIT", at, str(x) + " is evaluated " + std::to_string(f[q]) + " times, expected " + std::to_string(want[q])); return; }
                    if (bw[q] > want[q]) { rep.fail("VISIT", at, str(x) + " is differentiated " + std::to_string(bw[q]) + " times, expected at most " + std::to_string(want[q])); return; }
                }
            }
            if (rep.programs % 30011 == 1 && i == 0) rep.sample(name + ": " + std::to_string(dyn::hooks.events.size()) + " visit events over " + std::to_string(id) + " nodes");
        }
        rep.traces++;
    }
    std::vector<std::pair<const Node*, bool>> branches(const Node* n, const Vals& v) {
        // replay the model with a tape that records the decision of every if_else
        std::vector<std::pair<const Node*, bool>> o;
        Tape<double> t; t.setup(v); t.on_if = [&](const Node* q, bool b) { o.push_back({q, b}); };
        t.ev(n); return o;
    }
    const Node* sel_node(int kind, const Node* x, const Node* y) {
        auto& b = sp.b;
        switch (kind) { case 0: return b.un(SIN, x); case 1: return b.bin(MUL, x, y); case 2: return b.bin(SUB, y, x); case 3: return b.glue(x, b.bin(MUL, x, b.cst(0.5))); case 4: return b.iter(SUMIT, {x, y, x}); case 5: return b.iter(PRODIT, {x, y});
            case 6: return b.ife(b.bin(LT, sp.v(0), b.cst(0.1)), x, y); case 7: return b.pw(3, x); case 8: return b.iter(FOREACH, {y, b.un(TANH, x)}); case 9: if (x->s == M) return nullptr; return x->s == V ? b.dot(sp.v((int)sp.decl.size() > 3 ? 4 : 2), x) : b.pdf(NORMAL, {x, y, b.cst(1.5)}); case 10: return x->s == S ? b.red(SUM, b.bin(MUL, x, sp.v((int)sp.decl.size() > 3 ? 2 : 1))) : b.bin(DIV, x, b.red(NORM, x)); case 11: return b.bin(MUL, b.bin(LT, x, y), x); }
        return nullptr;
    }
    // deep nesting: every pair of node kinds alternating, to depth top
    void deep(int top) {
        for (int s = 0; s < 2; ++s) for (int a = 0; a < 12; ++a) for (int c = 0; c < 12; ++c) {
            if (rep.full()) return;
            size_t m = sp.mark(); auto y = sp.v(s); const Node* x = sp.b.bin(MUL, y, sp.b.cst(0.5)); int lim = 0;
            for (int d = 0; d < top; ++d) { int k = d % 2 ? c : a; const Node* z = sel_node(k, x, y); if (!z || z->s != y->s) break; if (nodes(z) > 3000) break; x = z; ++lim; }
            if (lim >= 2) go(x, 1);
            sp.drop(m);
        }
    }
    void statements() {
        auto& b = sp.b; int n = (int)sp.decl.size();
        for (int t = 0; t < n; ++t) for (int i = 0; i < n; ++i) for (int k = 0; k < 12; ++k) for (int j = 0; j < n; ++j) {
            size_t m = sp.mark(); auto w = sp.v(t); auto y = sp.v(j); auto x = sel_node(k, sp.v(i), sp.v(j)->s == sp.v(i)->s ? y : sp.v(i));
            if (x && i != t && j != t) {
                if (auto e = b.eq(w, x)) { go(e); go(b.glue(e, b.bin(MUL, w, w))); go(b.bin(MUL, e, w)); go(b.glue(e, b.ife(b.bin(LT, sp.v(0), b.cst(0.1)), w, b.un(SIN, w)))); go(b.iter(FOREACH, {e, b.un(SIN, w), b.bin(MUL, w, w)})); }
                for (int op = 0; op < 4; ++op) if (auto e = b.opeq(op, w, x)) { go(e); go(b.glue(e, b.bin(MUL, w, w))); go(b.un(SIN, e)); go(b.glue(b.glue(e, b.opeq(2, w, y)), w)); }
            }
            sp.drop(m);
        }
    }
    void ranges(int top) {       // wide ranges
        auto& b = sp.b;
        for (int s = 0; s < 3; ++s) for (int len = 1; len <= top; ++len) { size_t m = sp.mark(); NodeV xs; for (int i = 0; i < len; ++i) xs.push_back(i % 2 ? b.un(SIN, sp.v(s)) : b.bin(MUL, sp.v(s), sp.v(s))); for (Kind k : {SUMIT, PRODIT, FOREACH}) { go(b.iter(k, xs)); go(b.un(SIN, b.iter(k, xs))); } sp.drop(m); }
    }
};
static void run(std::vector<VarDecl> d, Shard& sh, bool wide, int depth) { P18 p(d, sh); each_program(p.sp, wide, depth, [&](const Node* n) { p.go(n); }); }
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier;
    run({{S,1,1},{V,2,1},{M,2,2},{M,3,2}}, sh, true, t ? 3 : 2);
    run({{S,1,1},{V,3,1},{M,3,3}}, sh, false, 2); run({{S,1,1},{V,17,1},{M,9,9}}, sh, false, 1);
    { P18 p({{S,1,1},{V,2,1},{M,2,2}}, sh); p.deep(t ? 60 : 30); p.ranges(t ? 40 : 16); }
    { P18 p({{S,1,1},{S,1,1},{V,2,1},{V,2,1},{M,2,2},{M,2,2}}, sh); p.statements(); }
    rep.finish();
}
