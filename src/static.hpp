// Expressions of fully static type, as a user would write them.  gen.py writes every program
// twice: as FastAD code and as a reference tree.
#pragma once
#include "engine.hpp"
#ifdef ENTRY
#include <functional>
#endif
namespace sp {
using namespace eng;
using dyn::VS; using dyn::VV; using dyn::VM;
// variables:   0,1 scalar | 2,3 vec(a) | 4 vec(b) | 5,6 mat(a,b) | 7 mat(b,a) | 8,9 mat(a,a)
inline std::vector<VarDecl> decl(int a, int b) {
    using namespace ref;
    return {{S,1,1},{S,1,1},{V,a,1},{V,a,1},{V,b,1},{M,a,b},{M,a,b},{M,b,a},{M,a,a},{M,a,a}};
}
template <class T> struct KonstT {
    using Vx = Eigen::Matrix<T, Eigen::Dynamic, 1>; using Mx = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
    T k0, k1; int i0; Vx va, vb; Mx Mab, Mba, Maa, spd; Eigen::VectorXi via; Vx bits;
    template <class U> KonstT<U> to() const { return {(U)k0, (U)k1, i0, va.template cast<U>(), vb.template cast<U>(), Mab.template cast<U>(), Mba.template cast<U>(), Maa.template cast<U>(), spd.template cast<U>(), via, bits.template cast<U>()}; }
};
#ifndef REAL
#define REAL double
#endif
using Konst = KonstT<double>; using KonstR = KonstT<REAL>; using VectorR = KonstR::Vx;
#ifdef PROBE      // leaves that count their visits, identified by variable + 1
using TS = dyn::DS; using TV = dyn::DV; using TM = dyn::DM;
template <class V> auto leafof(const V& v, int i) { dyn::Dyn<typename V::shape_t> d(v); d.id = i; return d; }
#else
#ifdef REALMODE
using TS = ad::VarView<REAL, ad::scl>; using TV = ad::VarView<REAL, ad::vec>; using TM = ad::VarView<REAL, ad::mat>;
#else
using TS = VS; using TV = VV; using TM = VM;
#endif
template <class V> const V& leafof(const V& v, int) { return v; }
#endif
#ifdef REALMODE   // variables of another value type
struct EStore {
    std::vector<VarDecl> decl; std::vector<std::vector<REAL>> val, adj;
    explicit EStore(std::vector<VarDecl> d) : decl(d) { for (auto& x : d) { val.emplace_back(x.size()); adj.emplace_back(x.size()); } }
    REAL* v(int i) { return val[i].data(); } REAL* a(int i) { return adj[i].data(); }
    TS S(int i) { return TS(v(i), a(i)); } TV V(int i) { return TV(v(i), a(i), decl[i].r); } TM M(int i) { return TM(v(i), a(i), decl[i].r, decl[i].c); }
};
struct EBuf {
    std::vector<REAL> b; int n = 0; void alloc(int k) { n = k; b.assign(k + 32, REAL(-77.5)); } REAL* p() { return b.data() + 16; }
    bool intact() const { for (int i = 0; i < 16; ++i) if (b[i] != REAL(-77.5) || b[16 + n + i] != REAL(-77.5)) return false; return true; }
};
#else
using EStore = Store; using EBuf = Buf;
#endif
struct Env {
    EStore& st; KonstR& k; int a, b;
    TS s0, s1; TV v0, v1, w0; TM M0, M1, N0, Q0, Q1;
    std::vector<TS> ss; std::vector<TV> vs; std::vector<TM> ms;      // for the iterator functions
    Env(EStore& t, KonstR& kk, int a_, int b_) : st(t), k(kk), a(a_), b(b_), s0(leafof(t.S(0), 1)), s1(leafof(t.S(1), 2)), v0(leafof(t.V(2), 3)), v1(leafof(t.V(3), 4)), w0(leafof(t.V(4), 5)), M0(leafof(t.M(5), 6)), M1(leafof(t.M(6), 7)), N0(leafof(t.M(7), 8)), Q0(leafof(t.M(8), 9)), Q1(leafof(t.M(9), 10)),
        ss{s0, s1}, vs{v0, v1}, ms{M0, M1} {}
};
struct R {
    ref::B b; const Konst& k; const Konst& kw; int na, nb;       // owned constants hold k, views show kw
    const Node *s0, *s1, *v0, *v1, *w0, *M0, *M1, *N0, *Q0, *Q1;
    R(Arena& A, const Konst& kk, int a, int bb, const Konst* now = nullptr) : b{A}, k(kk), kw(now ? *now : kk), na(a), nb(bb) {
        auto d = decl(a, bb); const Node** p[] = {&s0, &s1, &v0, &v1, &w0, &M0, &M1, &N0, &Q0, &Q1};
        for (int i = 0; i < 10; ++i) *p[i] = b.var(i, d[i].s, d[i].r, d[i].c);
    }
    const Node* c(double x) { return b.cst(x); }
    const Node* c(const Eigen::VectorXd& x) { return b.cstv(std::vector<double>(x.data(), x.data() + x.size())); }
    const Node* c(const Eigen::VectorXi& x) { std::vector<double> o; for (int i = 0; i < x.size(); ++i) o.push_back(x[i]); return b.cstv(o); }
    const Node* c(const Eigen::MatrixXd& x) { return b.cstm(x.rows(), x.cols(), std::vector<double>(x.data(), x.data() + x.size())); }
};
struct Prog { const char* name; Any (*mk)(Env&); const Node* (*rf)(R&); };
std::vector<Prog>& registry();
struct Reg { Reg(Prog p) { registry().push_back(p); } };
// runs the whole registry over sizes x values x seeds
struct Sweep { std::vector<std::pair<int,int>> sizes, large; int nvals = 4; Opts o; bool seeds3 = true; };
void run_registry(Shard& sh, const Sweep& sw);
Konst konst(int a, int b, int kind);
Vals values(int a, int b, int kind);
#ifdef ENTRY      // evaluate and differentiate through every public entry point instead
struct Entry {
    EStore& st; const Vals& in; const std::string& name;
    std::vector<double> want, vtol; const ref::Result* r = nullptr; std::vector<double> seed; bool same_seed = false;
    void set() { for (size_t i = 0; i < in.size(); ++i) { std::copy(in[i].begin(), in[i].end(), st.v(i)); std::fill_n(st.a((int)i), in[i].size(), REAL(0)); } rep.transitions++; }
    template <class T> void value(const T& x, const char* how) {
        const double* p; size_t n; double y;
        if constexpr (std::is_arithmetic_v<T>) { y = (double)x; p = &y; n = 1; auto bad = check(p, n); if (bad) fail("VALUE", how, "the value is " + ref::num(y) + ", expected " + ref::num(want[0])); }
        else { Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> a = x.template cast<double>(); p = a.data(); n = a.size(); if (check(p, n)) fail("VALUE", how, "the value is " + eng::show(std::vector<double>(p, p + n)) + ", expected " + eng::show(want)); }
    }
    bool check(const double* p, size_t n) { if (n != want.size()) return true; for (size_t i = 0; i < n; ++i) if (std::isnan(p[i]) || !(p[i] == want[i] || std::fabs(p[i] - want[i]) <= vtol[i])) return true; return false; }
    void grad(const char* how) {
        if (!r->defined) return;
        for (size_t k = 0; k < in.size(); ++k) for (size_t i = 0; i < in[k].size(); ++i) { double g = st.a((int)k)[i], w = r->grad[k][i]; if (std::isnan(g) || !(g == w || std::fabs(g - w) <= r->gtol[k][i])) return fail("GRAD", how, "adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "] = " + ref::num(g) + ", expected " + ref::num(w)); }
    }
    void fail(const char* cat, const char* how, const std::string& m) { rep.fail(cat, name + " at " + eng::show(in) + " seed " + eng::show(seed) + " through " + how, m); }
};
extern std::function<void(Entry&)> entry;
template <class E, class S> void entry_seed(Entry& t, const E& e, const S& s, const char* kind) {
    auto nm = [&](const char* how) { return std::string(how) + " with " + kind; };
    E raw(e); EBuf v, a; auto sz = raw.bind_cache_size(); v.alloc((int)sz(0)); a.alloc((int)sz(1)); raw.bind_cache({v.p(), a.p()});
    t.set(); t.value(ad::evaluate(raw), nm("evaluate(expression)").c_str()); if (t.r->defined) { ad::evaluate_adj(raw, s); t.grad(nm("evaluate_adj(expression)").c_str()); }
    if (!t.r->defined) return;
    t.set(); t.value(ad::autodiff(raw, s), nm("autodiff(expression)").c_str()); t.grad(nm("autodiff(expression)").c_str());
    auto b = ad::bind(e);
    t.set(); t.value(ad::evaluate(b), nm("evaluate(bound)").c_str()); ad::evaluate_adj(b, s); t.grad(nm("evaluate_adj(bound)").c_str());
    t.set(); t.value(ad::autodiff(b, s), nm("autodiff(bound)").c_str()); t.grad(nm("autodiff(bound)").c_str());
    t.set(); t.value(ad::autodiff(ad::bind(e), s), nm("autodiff(temporary)").c_str()); t.grad(nm("autodiff(temporary)").c_str());
    t.set(); t.value(ad::evaluate(b.get()), nm("evaluate(bound.get())").c_str()); ad::evaluate_adj(b.get(), s); t.grad(nm("evaluate_adj(bound.get())").c_str());
    if (!v.intact() || !a.intact()) t.fail("CACHE", kind, "wrote outside the working memory");
}
template <class E> void entries(Entry& t, const E& e) {
    t.set(); t.value(ad::evaluate(ad::bind(e)), "evaluate(temporary)");
    if constexpr (ad::util::is_scl_v<E>) {
        double s = t.seed[0]; entry_seed(t, e, s, "a number");
        if (s == (int)s) entry_seed(t, e, (int)s, "an int");
        if (s == 1 && t.r->defined) {
            E raw(e); EBuf v, a; auto sz = raw.bind_cache_size(); v.alloc((int)sz(0)); a.alloc((int)sz(1)); raw.bind_cache({v.p(), a.p()}); auto b = ad::bind(e);
            t.set(); (void)ad::evaluate(raw); ad::evaluate_adj(raw); t.grad("evaluate_adj(expression)");
            t.set(); t.value(ad::autodiff(raw), "autodiff(expression)"); t.grad("autodiff(expression)");
            t.set(); (void)ad::evaluate(b); ad::evaluate_adj(b); t.grad("evaluate_adj(bound)");
            t.set(); t.value(ad::autodiff(b), "autodiff(bound)"); t.grad("autodiff(bound)");
            t.set(); t.value(ad::autodiff(ad::bind(e)), "autodiff(temporary)"); t.grad("autodiff(temporary)");
        }
    } else {
        using A = std::conditional_t<ad::util::is_vec_v<E>, Eigen::Array<REAL, Eigen::Dynamic, 1>, Eigen::Array<REAL, Eigen::Dynamic, Eigen::Dynamic>>;
        A s((Eigen::Index)e.rows(), (Eigen::Index)e.cols()); std::copy(t.seed.begin(), t.seed.end(), s.data());
        const std::vector<REAL> sv(t.seed.begin(), t.seed.end()); const Eigen::Index R = s.rows(), C = s.cols();
        entry_seed(t, e, s, "an array");
        if (t.same_seed) entry_seed(t, e, A::Constant(R, C, (REAL)t.seed[0]), "a constant expression");
        A h = s * REAL(0.5); entry_seed(t, e, h * REAL(2), "a lazy expression");
        entry_seed(t, e, Eigen::Map<const A>(sv.data(), R, C), "a map");
        Eigen::Array<REAL, Eigen::Dynamic, Eigen::Dynamic> big(R + 3, C + 2); big.setConstant(1e5); big.block(2, 1, R, C) = s;
        if constexpr (ad::util::is_mat_v<E>) { entry_seed(t, e, big.block(2, 1, R, C), "a block"); Eigen::Array<REAL, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm = s; entry_seed(t, e, rm, "a row-major array"); }
        else { entry_seed(t, e, big.col(1).segment(2, R), "a segment"); VectorR m = s.matrix(); entry_seed(t, e, m.array(), "a vector as array"); }
    }
}
template <class E> inline Any wrap(const E& e) { entry = [e](Entry& t) { entries(t, e); };
#ifdef REALMODE
    return Any();
#else
    return dyn::any_root(e);
#endif
}
#else
template <class E> inline Any wrap(const E& e) { return dyn::any_root(e); }
#endif
}
