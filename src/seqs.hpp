// Exhaustive enumeration of statement sequences over one set of inputs and targets (P05, P06).
#pragma once
#include "hist.hpp"
#include "progs.hpp"
#include "inputs.hpp"
namespace eng {
using namespace ref;
struct Seqs {
    // inputs x0 scalar, x1 vector, x2 matrix; targets x3,x4 scalar, x5,x6 vector, x7 matrix
    Space sp; Store st; B& b; Shard& sh; Runner r; Opts o; std::vector<Vals> in; Hist h;
    static std::vector<VarDecl> decls(int n) { return {{S,1,1},{V,n,1},{M,n,n},{S,1,1},{S,1,1},{V,n,1},{V,n,1},{M,n,n}}; }
    int n; const Node* x[8];
    Seqs(Shard& s, int n_) : st(decls(n_)), b(sp.b), sh(s), n(n_) {
        sp.decl = decls(n); for (int i = 0; i < 8; ++i) x[i] = sp.v(i);
        in = inputs(sp.decl); in.push_back(inputs_zero(sp.decl));
        o.rerun = true;
    }
    // expressions of shape s over the readable variables in mask; the ones marked core are used in longer sequences
    struct Ex { const Node* n; bool core; };
    NodeV readable(unsigned mask, int s) { NodeV o; for (int i = 0; i < 8; ++i) if ((mask >> i & 1) && x[i]->s == s) o.push_back(x[i]); return o; }
    static bool lastof(const Node* v, const NodeV& vs) { return v == vs.back(); }
    std::vector<Ex> exprs(unsigned mask, int shape) {
        std::vector<Ex> o; auto add = [&](const Node* e, bool core) { if (e) o.push_back({e, core}); };
        NodeV s = readable(mask, S), v = readable(mask, V), m = readable(mask, M);
        auto S0 = s[0];
        if (shape == S) {
            for (auto a : s) { add(b.un(SIN, a), lastof(a, s)); add(b.bin(MUL, a, a), a == s[0]); add(b.bin(SUB, b.cst(2.5), a), false); add(b.pw(-1, b.bin(ADD, a, b.cst(30))), false); for (auto c : s) if (a != c) add(b.bin(MUL, a, c), lastof(c, s)); }
            for (auto a : v) { add(b.red(SUM, a), lastof(a, v)); add(b.red(PROD, a), false); add(b.red(NORM, a), false); add(b.red(SUM, b.bin(MUL, a, S0)), false); add(b.pdf(NORMAL, {a, S0, b.cst(0.5)}), lastof(a, v)); }
            for (auto a : m) { add(b.det(DET, LU, a), lastof(a, m)); add(b.red(NORM, a), false); }
            add(b.ife(b.bin(LT, S0, b.cst(0.5)), b.bin(MUL, S0, s.back()), b.un(EXP, S0)), true);
            add(b.cst(1.75), false);
            add(b.iter(SUMIT, {b.un(EXP, S0), s.back()}), false);
        } else if (shape == V) {
            for (auto a : v) { add(b.un(EXP, a), lastof(a, v)); add(b.bin(MUL, a, a), a == v[0]); for (auto q : s) add(b.bin(MUL, q, a), lastof(q, s) && lastof(a, v)); for (auto c : v) if (a != c) { add(b.bin(MUL, a, c), lastof(c, v)); add(b.bin(SUB, a, c), false); } for (auto q : m) add(b.dot(q, a), lastof(q, m) && lastof(a, v)); }
            add(b.ife(b.bin(LT, S0, b.cst(0.5)), b.un(SIN, v[0]), v.back()), true);
            add(sp.konst(V, n, 1), false);
            add(b.iter(PRODIT, {v[0], v.back()}), false);
        } else {
            for (auto a : m) { add(b.bin(MUL, a, a), a == m[0]); add(b.dot(a, m[0]), lastof(a, m)); add(b.trans(a), false); for (auto q : s) add(b.bin(MUL, a, q), lastof(q, s)); }
            add(sp.konst(M, n, n), false);
        }
        return o;
    }
    NodeV finals(unsigned mask, const Node* w) {          // uses of everything readable, with stress on w
        NodeV o; auto add = [&](const Node* e) { if (e) o.push_back(e); };
        NodeV s = readable(mask, S), v = readable(mask, V);
        add(w); add(b.un(SIN, w)); add(b.bin(MUL, w, w)); add(b.red(SUM, w)); add(b.bin(MUL, b.red(SUM, w), s.back())); add(b.bin(SUB, b.un(EXP, w), b.bin(MUL, w, s[0])));
        add(b.bin(MUL, b.red(SUM, w), b.red(SUM, v.back()))); add(s[0]); add(b.ife(b.bin(LT, s[0], b.cst(0.5)), w, b.bin(MUL, w, w)));
        if (w->s == M) { add(b.dot(w, v.back())); add(b.det(DET, LU, w)); }
        if (w->s == V) { add(b.dot(x[2], w)); add(b.trans(w)); add(b.red(NORM, w)); }
        if (w->s == S) add(b.pdf(NORMAL, {v.back(), w, b.cst(0.5)}));
        const Node* t = nullptr;                          // everything at once
        for (auto q : s) { auto e = b.bin(MUL, q, q); t = t ? b.bin(ADD, t, e) : e; }
        for (auto q : v) t = b.bin(ADD, t, b.red(SUM, b.bin(MUL, q, q)));
        for (auto q : readable(mask, M)) t = b.bin(SUB, t, b.red(SUM, b.bin(MUL, q, s.back())));
        add(t);
        return o;
    }
    unsigned long long done = 0;
    void go(const Node* p) {
        if (!p || rep.full() || !sh.mine()) return;
        current = str(p); rep.programs++;
        Any e = build(p, st);
        if (!e) { rep.fail("BUILD", str(p), "cannot be built"); return; }
        bool ran = false;
        for (size_t i = 0; i < in.size(); ++i) ran = r.run(p, e, st, in[i], mkseed(p, i == 0 && p->s == S ? 0 : 1), o) || ran;
        if (ran && ++done % 20011 == 1) rep.sample(str(p) + " -> " + show(r.value) + " adjoints " + show(r.adj));
        if (!ran) rep.count("programs_outside_domain");
    }
    void hist(const Node* p, int len) {
        if (!p || rep.full() || !sh.mine()) return;
        rep.programs++; Any e = build(p, st); h.len = len; h.explore(p, e, st, in, str(p));
    }
    // the ways to string statements and a result together
    template <class F> void strings(const NodeV& s, const Node* f, F&& emit) {
        const Node* l = s[0]; for (size_t i = 1; i < s.size(); ++i) l = b.glue(l, s[i]);
        emit(b.glue(l, f));                                                         // ((s1, s2), s3), f
        const Node* rr = f; for (size_t i = s.size(); i-- > 0;) rr = b.glue(s[i], rr);
        if (s.size() > 1) emit(rr);                                                 // s1, (s2, (s3, f))
        if (auto fe = b.iter(FOREACH, NodeV(s.begin(), s.end()))) emit(b.glue(fe, f));
        if (f->s == s[0]->s) { NodeV q = s; q.push_back(f); if (f->k != VAR) if (auto fe = b.iter(FOREACH, q)) emit(fe); }
    }
    // the sequence p (ending in an expression) used inside something larger; y is not touched by p
    template <class F> void inside(const Node* p, const Node* y, F&& emit) {
        emit(b.un(SIN, p)); emit(b.bin(MUL, p, y)); emit(b.bin(SUB, y, p)); emit(b.bin(MUL, b.red(SUM, p), y)); emit(b.glue(y, b.bin(MUL, p, b.cst(2)))); emit(b.glue(b.un(EXP, y), p));
        emit(b.ife(b.bin(LT, x[0], b.cst(0.5)), p, b.bin(MUL, b.cst(0.5), p)));
        if (p->s == S) { emit(b.pdf(NORMAL, {x[1], p, b.cst(0.5)})); emit(b.iter(SUMIT, {p, b.bin(MUL, x[0], x[0])})); emit(b.iter(PRODIT, {b.un(SIN, x[0]), p})); }
        if (p->s == V) emit(b.dot(x[2], p));
    }
};
}
