// P06: in-place updates: every chain of updates up to a length, on whole variables, elements and ranges
#include "seqs.hpp"
using namespace eng;
struct P6 : Seqs {
    int maxlen = 3, hlen = 4; bool wide = true;
    P6(Shard& s, int n) : Seqs(s, n) {
        o.cats = VALUE | GRAD | LEAF | STATE; h.nseeds = 1;
        // magnitudes at which an update cannot be undone by the inverse operation
        Vals v = in[1], z = in[1];
        v[3] = {1e17}; for (auto& q : v[5]) q = 3e16; for (auto& q : v[7]) q = -5e15; in.push_back(v);
        z[0] = {0}; for (size_t i = 0; i < z[1].size(); i += 2) z[1][i] = 0; z[2][0] = 0; in.push_back(z);
    }
    std::vector<const Node*> rhs(int t, unsigned mask, int level) {      // what a target may be updated with
        NodeV o; auto add = [&](const Node* e, int l) { if (e && l >= level) o.push_back(e); };
        auto w = x[t];
        const Node* own = w->s == S ? w : b.red(SUM, w);
        add(b.bin(MUL, x[0], x[0]), 1); add(x[0], 2); add(b.cst(-1.5), 0); add(b.un(EXP, b.un(SIN, own)), 1); add(b.red(SUM, x[1]), 0); add(own, 0);
        add(w, 1);
        if (w->s == S) { add(b.bin(MUL, w, x[0]), 2); add(b.bin(MUL, w, w), 0); add(b.red(PROD, x[1]), 0); add(b.ife(b.bin(LT, x[0], b.cst(0.5)), w, x[0]), 0); add(b.pdf(NORMAL, {x[1], w, b.cst(0.5)}), 0); }
        if (w->s == V) { add(x[1], 2); add(b.un(SIN, x[1]), 0); add(b.bin(MUL, w, x[1]), 2); add(b.dot(x[2], w), 1); add(sp.konst(V, n, 1), 0); add(b.bin(MUL, w, w), 0); }
        if (w->s == M) { add(x[2], 1); add(b.bin(MUL, w, x[2]), 1); add(b.dot(x[2], w), 0); add(sp.konst(M, n, n), 0); add(b.trans(w), 0); add(b.bin(MUL, w, w), 0); }
        for (int q = 3; q < 8; ++q) if (q != t && (mask >> q & 1)) { add(x[q]->s == w->s ? x[q] : b.red(SUM, x[q]), 2); add(b.bin(MUL, b.red(SUM, x[q]), x[0]), 0); }
        return o;
    }
    NodeV uses(const Node* w, int level) {
        NodeV o; auto add = [&](const Node* e, int l) { if (e && l >= level) o.push_back(e); };
        add(w, 1); add(b.un(SIN, w), 0); add(b.bin(MUL, w, w), 2); add(b.red(SUM, w), 1); add(b.bin(MUL, b.red(SUM, w), x[0]), 0); add(b.bin(SUB, x[0], b.red(PROD, w)), 0); add(x[0], 0); add(b.bin(MUL, x[5], x[0]), 0);
        add(b.ife(b.bin(LT, x[0], b.cst(0.5)), b.bin(MUL, w, w), w), 0);
        if (w->s == V) { add(b.dot(x[2], w), 1); add(b.pdf(NORMAL, {w, x[0], b.cst(0.5)}), 0); }
        if (w->s == S) { add(b.bin(MUL, w, x[1]), 0); add(b.pdf(NORMAL, {x[1], w, b.cst(0.5)}), 0); }
        if (w->s == M) { add(b.dot(w, x[1]), 0); add(b.trans(w), 0); }
        return o;
    }
    void rec(NodeV& stm, unsigned mask, int last, const std::vector<int>& targets) {
        if (rep.full()) return;
        int len = (int)stm.size();
        size_t m = sp.mark();
        if (len) {
            const Node* w = x[last];
            for (auto f : uses(w, len >= 3 ? 2 : len == 2 ? 1 : 0)) strings(stm, f, [&](const Node* p) {
                go(p);
                if (len <= (wide ? 2 : 1)) { size_t m2 = sp.mark(); inside(p, x[0], [&](const Node* z) { go(z); }); sp.drop(m2); }
                if (len == 1) hist(p, hlen);
            });
            auto e = stm.back(); NodeV head(stm.begin(), stm.end() - 1), vs; auto add = [&](const Node* z) { if (z) vs.push_back(z); };
            add(e); add(b.un(SIN, e)); add(b.bin(MUL, e, e)); add(b.red(SUM, e)); add(b.bin(MUL, e, x[0])); add(b.bin(SUB, x[0], e)); add(b.bin(MUL, e, x[1])); add(b.bin(MUL, b.un(EXP, b.un(SIN, e)), b.bin(ADD, w, b.cst(0)))); add(b.glue(e, b.bin(MUL, w, w))); add(b.bin(MUL, x[1], e)); add(b.bin(DIV, x[0], e));
            add(b.iter(SUMIT, {e, b.bin(MUL, w, w)})); add(b.iter(PRODIT, {b.un(SIN, w), e})); add(b.ife(b.bin(LT, x[0], b.cst(0.5)), e, b.bin(MUL, w, w))); add(b.ife(b.bin(LT, x[0], b.cst(0.5)), e, b.opeq((stm.back()->op + 1) % 4, w, x[0])));
            if (w->s == V) { add(b.dot(x[2], e)); add(b.red(NORM, e)); add(b.trans(e)); add(b.pdf(NORMAL, {e, x[0], b.cst(0.5)})); add(b.red(PROD, e)); }
            if (w->s == M) { add(b.dot(e, x[1])); add(b.det(DET, LU, e)); add(b.dot(x[2], e)); add(b.trans(e)); }
            if (w->s == S) add(b.pdf(NORMAL, {x[1], e, b.cst(0.5)}));
            for (int q = 3; q < 8; ++q) if (q != last && x[q]->s == w->s) { if (auto a = b.eq(x[q], e)) { add(b.glue(a, b.bin(MUL, x[q], x[q]))); add(b.glue(a, b.bin(MUL, x[q], w))); } add(b.glue(b.opeq(2, x[q], e), b.bin(MUL, x[q], w))); }
            // an update inside an expression that is not used, or has no derivative; the variable is used later
            if (len == 1) { NodeV zs = vs; for (auto z : {b.pw(0, e), b.bin(MUL, b.cst(0), e), b.pw(2, e), b.un(NEG, e), b.red(PROD, e)}) if (z) { add(z); zs.push_back(z); }
                for (auto z : zs) for (auto u : {b.un(SIN, w), b.bin(MUL, b.red(SUM, w), x[0])}) go(b.glue(z, u)); }
            for (auto z : vs) if (head.empty()) { go(z); hist(z, hlen); } else if (len <= 2 || z == vs[2] || z == vs[4]) strings(head, z, [&](const Node* p) { go(p); });
            if (len == 1) {    // a placeholder updated afterwards; an update of a placeholder's source
                for (int q = 3; q < 8; ++q) if (q != last && x[q]->s == w->s) {
                    auto a = b.eq(x[q], b.bin(MUL, w, x[0]));
                    if (a) for (auto f : {b.bin(MUL, x[q], w), b.red(SUM, x[q]), b.un(SIN, x[q])}) { strings({a, e}, f, [&](const Node* p) { go(p); }); strings({e, a}, f, [&](const Node* p) { go(p); }); strings({e, a, b.opeq(2, w, b.red(SUM, x[q]))}, f, [&](const Node* p) { go(p); }); }
                }
                auto pl = b.eq(w, w->s == S ? b.bin(MUL, x[0], x[0]) : w->s == V ? b.bin(MUL, x[1], x[0]) : b.bin(MUL, x[2], x[0]));
                for (auto f : uses(w, 0)) { strings({pl, e}, f, [&](const Node* p) { go(p); }); strings({pl, e, b.opeq(3, w, b.bin(ADD, b.bin(MUL, x[0], x[0]), b.cst(1)))}, f, [&](const Node* p) { go(p); }); }
            }
        }
        sp.drop(m);
        if (len >= maxlen) return;
        for (int t : targets) for (int op = 0; op < 4; ++op) {
            size_t m2 = sp.mark();
            for (auto e : rhs(t, mask, len == 0 ? (wide ? 0 : 1) : len == 1 ? (maxlen > 2 ? 1 : 0) : 2)) {
                if (auto u = b.opeq(op, x[t], e)) { stm.push_back(u); rec(stm, mask | 1u << t, t, targets); stm.pop_back(); }
            }
            sp.drop(m2);
        }
    }
    // elements and ranges of one vector, overlapping or not, for every pair of operations
    void elements() {
        auto el = [&](int v, int i) { return b.sub(v, i, S, 1); };
        for (int op = 0; op < 4; ++op) for (int op2 = 0; op2 < 4; ++op2) {
            if (rep.full()) return;
            size_t m = sp.mark();
            std::vector<NodeV> ss;
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ss.push_back({b.opeq(op, el(5, i), x[0]), b.opeq(op2, el(5, j), el(5, i))}); ss.push_back({b.opeq(op, el(5, i), el(5, j)), b.opeq(op2, x[5], x[1])}); ss.push_back({b.opeq(op, x[5], x[1]), b.opeq(op2, el(5, i), b.bin(MUL, el(5, j), x[0]))}); }
            for (int k = 1; k < n; ++k) {
                auto a = b.sub(5, 0, V, k), c = b.sub(5, k, V, n - k), a2 = b.sub(5, 0, V, n - 1), c2 = b.sub(5, 1, V, n - 1), p = b.sub(1, 0, V, k), q = b.sub(1, k, V, n - k), q2 = b.sub(1, 1, V, n - 1);
                ss.push_back({b.opeq(op, a, p), b.opeq(op2, c, q)}); ss.push_back({b.opeq(op, a2, x[0]), b.opeq(op2, c2, q2)}); ss.push_back({b.opeq(op, c2, q2), b.opeq(op2, a2, b.bin(MUL, a2, x[0]))}); ss.push_back({b.opeq(op, c, q), b.opeq(op2, x[5], b.red(SUM, a))});
            }
            NodeV rec; for (int i = 0; i < n; ++i) rec.push_back(b.opeq(i % 2 ? op : op2, el(5, i), i ? el(5, i - 1) : x[0])); ss.push_back(rec);
            NodeV acc; for (int i = 0; i < n; ++i) acc.push_back(b.opeq(i % 2 ? op : op2, x[3], b.bin(MUL, el(5, i), x[0]))); ss.push_back(acc);
            for (auto& s : ss) for (auto f : {x[5], b.red(SUM, b.bin(MUL, x[5], x[5])), b.bin(MUL, x[3], el(5, 0))}) strings(s, f, [&](const Node* p) { go(p); });
            sp.drop(m);
        }
    }
    // long chains on one variable
    void chains(int top, int t) {
        for (int len = 1; len <= top; ++len) for (int k = 0; k < 4; ++k) {
            size_t m = sp.mark(); NodeV s; auto w = x[t];
            for (int i = 0; i < len; ++i) s.push_back(b.opeq((i + k) % 4, w, i % 3 == 0 ? x[0] : i % 3 == 1 ? b.bin(ADD, b.bin(MUL, x[0], b.cst(0.5)), b.cst(1.25)) : b.bin(MUL, w, b.cst(0.75))));
            strings(s, b.bin(MUL, w, x[0]), [&](const Node* p) { go(p); }); strings(s, b.red(SUM, w), [&](const Node* p) { go(p); if (len <= 3) hist(p, 4); });
            sp.drop(m);
        }
    }
    // one infinite element in the seed of an update: the elements it reaches become infinite, the others do not notice
    void infinite() {
        const double inf = std::numeric_limits<double>::infinity();
        for (int t : {3, 5, 7}) for (int op = 0; op < 4; ++op) {
            size_t m = sp.mark(); auto w = x[t]; auto y = w->s == S ? x[0] : w->s == V ? x[1] : x[2];
            for (auto rhs : {y, b.bin(MUL, y, y), b.un(SIN, y), x[0]}) {
                auto e = b.opeq(op, w, rhs); if (!e) continue;
                for (auto p : {e, b.bin(MUL, e, b.cst(2)), b.glue(b.opeq(op ^ 1, w, b.cst(2)), b.opeq(op, w, rhs)), b.un(NEG, e)}) {
                    if (!p || !sh.mine() || rep.full()) continue;
                    rep.programs++; std::string name = ref::str(p); current = name; Any a = build(p, st);
                    for (size_t i = 0; i < p->size(); ++i) for (double sg : {1., -1.}) {
                        auto one = mkseed(p, 2), rest = mkseed(p, 1), s = rest; one[i] = sg; rest[i] = 0; s[i] = sg * inf;
                        auto ru = r.model.run(p, in[1], one), rz = r.model.run(p, in[1], rest); if (!ru.defined || !rz.defined) { rep.skipped++; continue; }
                        if (!r.bind(a, o, name)) return;
                        rep.states++; rep.traces++;
                        for (int pass = 0; pass < 2; ++pass) {
                            r.exec(a, st, in[1], s, o, &rz, name);
                            for (size_t k = 0; k < in[1].size(); ++k) for (size_t q = 0; q < in[1][k].size(); ++q) {
                                double g = ru.grad[k][q], got = r.adj[k][q];
                                bool ok = !ru.reach[k][q] ? std::fabs(got - rz.grad[k][q]) <= rz.gtol[k][q] : g == 0 || got == (g > 0 ? inf : -inf);
                                if (!ok) { rep.fail("GRAD", name + "  at " + show(in[1]) + " seed " + show(s), "adjoint of x" + std::to_string(k) + "[" + std::to_string(q) + "] = " + ref::num(got) + " although its derivative with respect to the element with the infinite seed is " + ref::num(g)); return; }
                            }
                        }
                    }
                }
            }
            sp.drop(m);
        }
    }
    void known() {
        strict() = true; o.rerun = false; if (sh.i) { strict() = false; return; }
        auto p = b.bin(MUL, x[1], b.glue(b.opeq(0, x[5], x[1]), x[5])); Any e = build(p, st); r.run(p, e, st, in[1], mkseed(p, 0), o);
        strict() = false;
    }
};
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier;
    { P6 p(sh, 2); p.known(); p.hlen = t ? 6 : 5; NodeV s; p.rec(s, 7, 0, {3}); }
    { P6 p(sh, 2); p.hlen = t ? 5 : 4; NodeV s; p.rec(s, 7, 0, {5}); }
    { P6 p(sh, 2); p.hlen = t ? 5 : 4; NodeV s; p.rec(s, 7, 0, {7}); }
    { P6 p(sh, 2); p.maxlen = t ? 3 : 2; p.wide = false; NodeV s; p.rec(s, 7, 0, {3, 5, 7}); }
    for (int n : {1, 2, 3}) { P6 p(sh, n); p.infinite(); }
    for (int n : {1, 3}) { P6 p(sh, n); p.maxlen = 2; p.wide = t; NodeV s; p.rec(s, 7, 0, {3, 5}); p.rec(s, 7, 0, {7}); p.elements(); }
    { P6 p(sh, 2); p.elements(); }
    for (int n : {2, 5, 8, 17}) { P6 p(sh, n); for (int v : {3, 5, 7}) p.chains(t ? 24 : 12, v); }
    if (t) { P6 p(sh, 2); p.maxlen = 4; p.wide = false; NodeV s; p.rec(s, 7, 0, {3}); p.rec(s, 7, 0, {5}); }
    rep.finish();
}
