// Exhaustive enumeration of expression trees, level by level.
#pragma once
#include "engine.hpp"
namespace eng {
using NodeV = std::vector<const Node*>;
struct Space {
    std::vector<VarDecl> decl;
    Arena A; ref::B b{A};
    NodeV L0;
    size_t mark() { return A.d.size(); }
    void drop(size_t m) { while (A.d.size() > m) A.d.pop_back(); }
    const Node* v(int i) { return b.var(i, decl[i].s, decl[i].r, decl[i].c); }
    const Node* konst(ref::Shape s, int r, int c, int k = 0) {
        static const double T[] = {0.75, -0.5, 1.25, 0.3, 2.0, -0.9, 0.6, 1.1, -1.4};
        std::vector<double> x; for (int i = 0; i < r * c; ++i) x.push_back(T[(i + k) % 9]);
        return s == ref::S ? b.cst(x[0]) : s == ref::V ? b.cstv(x) : b.cstm(r, c, x);
    }
};
// every one-operand node over x
template <class F> inline void apply1(Space& sp, const Node* x, F&& emit, bool reduced = false) {
    ref::B& b = sp.b;
    if (reduced) { for (int u : {ref::NEG, ref::SIN, ref::EXP, ref::LOG, ref::TANH}) emit(b.un(u, x)); for (int p : {-1, 2}) emit(b.pw(p, x)); }
    else { for (int u = 0; u < ref::N_UN; ++u) emit(b.un(u, x)); for (int p = -3; p <= 5; ++p) emit(b.pw(p, x)); }
    emit(b.red(ref::SUM, x)); emit(b.red(ref::PROD, x));
    if (x->s != ref::S) { emit(b.red(ref::NORM, x)); emit(b.trans(x)); }
    if (x->s == ref::M && x->r == x->c) for (int p = 0; p < (reduced ? 1 : 3); ++p) { emit(b.det(ref::DET, p, x)); emit(b.det(ref::LOGDET, p, x)); }
}
template <class F> inline void apply2(Space& sp, const Node* x, const Node* y, F&& emit, bool reduced = false) {
    ref::B& b = sp.b;
    auto e = [&](const Node* n) { if (n) emit(n); };
    if (x->s == ref::S || y->s == ref::S || (x->s == y->s && x->r == y->r && x->c == y->c)) {
        for (int o = 0; o <= ref::DIV; ++o) e(b.bin(o, x, y));
        if (!reduced) { e(b.bin(ref::LT, x, y)); e(b.bin(ref::GE, x, y)); }
    }
    if (x->s == ref::M && y->s != ref::S && x->c == y->r) e(b.dot(x, y));
    e(b.glue(x, y));
    if (x->s == y->s && x->r == y->r && x->c == y->c) { e(b.iter(ref::SUMIT, {x, y})); e(b.iter(ref::PRODIT, {x, y})); if (!reduced) e(b.iter(ref::FOREACH, {x, y})); }
}
// log densities with x in each slot, the other operands taken from others (leaves)
template <class F> inline void apply_pdf(Space& sp, const Node* x, const NodeV& others, F&& emit) {
    using namespace ref;
    B& b = sp.b;
    if (x->s == M) {
        if (x->r == x->c) {
            std::vector<double> I; for (int j = 0; j < x->r; ++j) for (int i = 0; i < x->r; ++i) I.push_back(i == j ? 1.5 : 0.25);
            const Node* C = b.cstm(x->r, x->r, I);
            emit(b.pdf(WISHART, {x, C, b.cst(x->r + 1.5)})); emit(b.pdf(WISHART, {C, x, b.cst(x->r + 0.5)}));
            for (auto o : others) if (o->s == V && o->r == x->r) { emit(b.pdf(NORMAL, {o, b.cst(0.25), x})); emit(b.pdf(NORMAL, {o, sp.konst(V, o->r, 1, 3), x})); }
        }
        return;
    }
    for (int w : {NORMAL, CAUCHY, UNIFORM}) for (int slot = 0; slot < 3; ++slot) for (auto o : others) {
        if (o->s == M || o->k == CONST || (x->s == V && o->s == V && o->r != x->r)) continue;
        if (slot == 0 && x->s == S && o->s != S) continue;       // scalar x takes scalar parameters
        if (slot != 0 && o->s == S && x->s != S) continue;
        double third = w == UNIFORM ? (slot == 2 ? -20 : 20) : slot == 2 ? 0.5 : 1.5;
        const Node* t = b.cst(third);
        const Node *a0, *a1, *a2;
        if (w == UNIFORM) {
            // x, min, max: shift the free operand away from the support's edge
            if (slot == 0) { a0 = x; a1 = b.bin(SUB, o, b.cst(30)); a2 = t; }
            else if (slot == 1) { a0 = o; a1 = b.bin(SUB, x, b.cst(30)); a2 = t; }
            else { a0 = o; a1 = t; a2 = b.bin(ADD, x, b.cst(30)); }
        } else if (slot == 0) { a0 = x; a1 = o; a2 = t; }
        else if (slot == 1) { a0 = o; a1 = x; a2 = t; }
        else { a0 = o; a1 = t; a2 = x; }
        emit(b.pdf(w, {a0, a1, a2}));
    }
    for (auto o : others) if (o->k != CONST) {                   // bernoulli: p = x
        if (x->s == S) emit(b.pdf(BERNOULLI, {b.cst(1), x}));
        else emit(b.pdf(BERNOULLI, {b.cstv([&] { std::vector<double> q; for (int i = 0; i < x->r; ++i) q.push_back(i % 2); return q; }()), x}));
        break;
    }
}
template <class F> inline void apply_if(Space& sp, const Node* c, const Node* x, const Node* y, F&& emit) { if (auto n = sp.b.ife(c, x, y)) emit(n); }
// every program up to depth (2: two operations, one alphabet reduced unless wide; 3: over a reduced alphabet)
template <class Go> inline void each_program(Space& sp, bool wide, int depth, Go&& R_go) {
    using namespace ref;
    auto& decl = sp.decl; auto full = [] { return rep.full(); };
    for (size_t i = 0; i < decl.size(); ++i) sp.L0.push_back(sp.v(i));
    bool got[3] = {0, 0, 0};
    for (auto& x : decl) if (!got[x.s]) { got[x.s] = true; sp.L0.push_back(sp.konst(x.s, x.r, x.c, 2)); }
    NodeV L1;
    auto keep = [&](const Node* n) { if (n) L1.push_back(n); };
    const NodeV& L0 = sp.L0;
    for (auto x : L0) if (x->k != CONST) { apply1(sp, x, keep); apply_pdf(sp, x, L0, keep); }
    for (auto x : L0) for (auto y : L0) if (x->k != CONST || y->k != CONST) apply2(sp, x, y, keep);
    size_t plain = L1.size();
    for (size_t i = 0; i < plain; ++i) if (L1[i]->k == BIN && L1[i]->op >= LT && L1[i]->s == S) {
        for (auto x : L0) for (auto y : L0) if (x->k != CONST) apply_if(sp, L1[i], x, y, keep);
    }
    for (auto n : L1) R_go(n);
    if (depth < 2) return;
    auto tmp = [&](const Node* n) { R_go(n); };
    auto scoped = [&](auto f) { size_t m = sp.mark(); f(); sp.drop(m); };
    // level 2: one operand from level 1
    for (auto x : L1) {
        scoped([&] { apply1(sp, x, tmp, !wide); });
        scoped([&] { apply_pdf(sp, x, L0, tmp); });
        for (auto y : L0) scoped([&] { apply2(sp, x, y, tmp); apply2(sp, y, x, tmp); });
        if (x->s == S) for (auto y : L0) if (y->k != CONST) scoped([&] { apply_if(sp, sp.b.bin(LT, x, sp.b.cst(0.5)), y, sp.b.un(SIN, y), tmp); });
        for (auto y : L0) scoped([&] { apply_if(sp, sp.b.bin(LT, L0[0], sp.b.cst(0.1)), x, y, tmp); apply_if(sp, sp.b.bin(LT, L0[0], sp.b.cst(0.1)), y, x, tmp); });
        if (full()) return;
    }
    // level 2: both operands from level 1 (one representative per kind, operand shapes and operands)
    NodeV rep1;
    for (size_t i = 0; i < L1.size(); ++i) {
        auto n = L1[i];
        if (n->k == UN && n->op != SIN && n->op != EXP && (wide ? n->op != TANH && n->op != LOG : true)) continue;
        if (n->k == POW && n->op != 2) continue;
        if (n->k == BIN && n->op != MUL && n->op != SUB && !(wide && n->op == DIV)) continue;
        if ((n->k == DET || n->k == LOGDET) && n->op != LU) continue;
        if (n->k == GLUE || n->k == FOREACH) continue;
        if (!wide && (n->k == PDF || n->k == IF) && i % 3) continue;
        rep1.push_back(n);
    }
    for (auto x : rep1) { for (auto y : rep1) scoped([&] { apply2(sp, x, y, tmp, true); }); if (full()) return; }
    if (depth < 3) return;
    // level 3 over one shape-reduced alphabet
    NodeV L2;
    NodeV small; for (auto n : rep1) if (n->k != PDF && n->k != IF) small.push_back(n);
    for (auto x : small) { apply1(sp, x, [&](const Node* n) { if (n) L2.push_back(n); }, true); for (auto y : L0) if (y->k != CONST) apply2(sp, x, y, [&](const Node* n) { if (n && n->k != GLUE) L2.push_back(n); }, true); }
    for (auto x : L2) {
        scoped([&] { apply1(sp, x, tmp, true); });
        for (auto y : L0) scoped([&] { apply2(sp, x, y, tmp, true); apply2(sp, y, x, tmp, true); });
        if (full()) return;
    }
    for (auto x : L2) { for (auto y : small) scoped([&] { apply2(sp, x, y, tmp, true); }); if (full()) return; }
}
}
