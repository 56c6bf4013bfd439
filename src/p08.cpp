// P08: linear algebra on every small matrix of an alphabet, every size, permutations and negative determinants.
#include "engine.hpp"
#include "progs.hpp"
#include "ldmat.hpp"
using namespace eng; using namespace ref;
struct P8 {
    Shard& sh; Runner r; Opts o;
    P8(Shard& s) : sh(s) { o.cats = VALUE | GRAD | LEAF; }
    template <class F> void all(const std::vector<double>& AL, int n, F f) {
        std::vector<int> ix(n, 0); std::vector<double> v(n);
        for (;;) { if (sh.mine() && !rep.full()) { for (int i = 0; i < n; ++i) v[i] = AL[ix[i]]; f(v); } int k = n - 1; while (k >= 0 && ++ix[k] == (int)AL.size()) ix[k--] = 0; if (k < 0) break; }
    }
    struct Bench { Arena A; B b{A}; std::vector<VarDecl> d; Store st; NodeV ps; std::vector<Any> es; std::vector<std::string> nm; Bench(std::vector<VarDecl> dd) : d(dd), st(dd) {}
        const Node* v(int i) { return b.var(i, d[i].s, d[i].r, d[i].c); }
        void add(const Node* n) { if (!n) return; ps.push_back(n); es.push_back(build(n, st)); nm.push_back(str(n)); } };
    void run(Bench& B_, const Vals& in) { for (size_t p = 0; p < B_.ps.size() && !rep.full(); ++p) for (int q = 0; q < 2; ++q) { o.scales = q == 0; r.run(B_.ps[p], B_.es[p], B_.st, in, mkseed(B_.ps[p], 1 - q), o, &B_.nm[p]); } }
    void dets(int n, const std::vector<double>& AL) {
        Bench b({{S,1,1},{M,n,n}}); auto s = b.v(0), x = b.v(1);
        for (Kind k : {DET, LOGDET}) for (int p = 0; p < 3; ++p) { b.add(b.b.det(k, p, x)); b.add(b.b.bin(MUL, b.b.det(k, p, x), s)); }
        for (Kind k : {DET, LOGDET}) { b.add(b.b.det(k, LU, b.b.bin(MUL, x, s))); b.add(b.b.bin(MUL, b.b.det(k, LU, x), x)); b.add(b.b.det(k, LU, b.b.trans(x))); b.add(b.b.det(k, LU, b.b.dot(x, x))); b.add(b.b.det(k, LLT, b.b.dot(b.b.trans(x), x))); b.add(b.b.det(k, LDLT, b.b.dot(x, b.b.trans(x)))); }
        if (sh.i == 0) rep.programs += b.ps.size();
        all(AL, n * n, [&](const std::vector<double>& v) { run(b, {{-1.25}, v}); });
    }
    void syms(int n, const std::vector<double>& AL) {
        Bench b({{S,1,1},{M,n,n}}); auto s = b.v(0), x = b.v(1);
        for (Kind k : {DET, LOGDET}) for (int p = 0; p < 3; ++p) { b.add(b.b.det(k, p, x)); b.add(b.b.bin(SUB, b.b.det(k, p, x), b.b.det(k, p, b.b.bin(MUL, x, s)))); }
        if (sh.i == 0) rep.programs += b.ps.size();
        all(AL, n * (n + 1) / 2, [&](const std::vector<double>& v) { std::vector<double> m(n * n); int q = 0; for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m[i * n + j] = m[j * n + i] = v[q++]; run(b, {{1.25}, m}); });
    }
    void perms(int n) {      // every signed, scaled permutation matrix
        Bench b({{S,1,1},{M,n,n}}); auto x = b.v(1);
        b.add(b.b.det(DET, LU, x)); b.add(b.b.det(LOGDET, LU, x)); b.add(b.b.det(DET, LU, b.b.dot(x, b.b.trans(x))));
        if (sh.i == 0) rep.programs += b.ps.size();
        std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
        do for (int sg = 0; sg < (1 << n); ++sg) { if (!sh.mine()) continue; for (int full = 0; full < 2; ++full) { std::vector<double> m(n * n, 0); if (full) for (int i = 0; i < n * n; ++i) m[i] = 0.05 * ((i * 7) % 5 - 2); for (int i = 0; i < n; ++i) m[p[i] * n + i] += (sg >> i & 1 ? -1 : 1) * (1 + 0.25 * i); run(b, {{1}, m}); } }
        while (std::next_permutation(p.begin(), p.end()));
    }
    static double g(int i) { static const double T[] = {0.75, -0.5, 1.25, 0.3, 2.0, -0.9, 0.6, 1.1, -1.4, 0.95, 0, 1.05, -2}; return T[(i * 5 + i / 13) % 13]; }
    void dots(int top) {
        for (int R = 1; R <= top; ++R) for (int I = 1; I <= top; ++I) for (int C = 0; C <= top; ++C) {
            if (!sh.mine() || rep.full()) continue;
            Bench b({{S,1,1},{M,R,I},{C ? M : V, I, C ? C : 1},{M,I,R}}); auto s = b.v(0), x = b.v(1), y = b.v(2), z = b.v(3); auto& B_ = b.b;
            auto d = B_.dot(x, y); std::vector<double> cx, cy; for (int i = 0; i < R * I; ++i) cx.push_back(g(i + 3)); for (int i = 0; i < y->size(); ++i) cy.push_back(g(i + 8));
            auto kx = B_.cstm(R, I, cx); auto ky = C ? B_.cstm(I, C, cy) : B_.cstv(cy);
            b.add(d); b.add(B_.dot(kx, y)); b.add(B_.dot(x, ky)); b.add(B_.dot(B_.bin(MUL, x, s), y)); b.add(B_.dot(x, B_.un(SIN, y))); b.add(B_.dot(B_.un(EXP, x), B_.bin(MUL, y, s))); b.add(B_.un(SIN, d)); b.add(B_.bin(MUL, d, s)); b.add(B_.red(SUM, d)); b.add(B_.red(NORM, d));
            b.add(B_.dot(B_.trans(z), y)); b.add(B_.dot(B_.dot(x, z), d)); b.add(B_.trans(d)); b.add(B_.bin(MUL, d, d)); b.add(B_.dot(B_.trans(d), d));
            if (R == I) { b.add(B_.dot(x, d)); b.add(B_.dot(x, x)); b.add(B_.dot(x, B_.trans(x))); }
            rep.programs += b.ps.size();
            for (int q = 0; q < 3; ++q) { Vals in; int k = q * 17; for (auto& w : b.d) { std::vector<double> v; for (int i = 0; i < w.size(); ++i) v.push_back(g(k++)); in.push_back(v); } run(b, in); }
        }
        // alphabets on 2x2 times 2 and 2x2
        for (int c = 1; c <= 2; ++c) { Bench b({{M,2,2},{c == 1 ? V : M,2,c}}); b.add(b.b.dot(b.v(0), b.v(1))); b.add(b.b.dot(b.v(0), b.b.dot(b.v(0), b.v(1)))); if (c == 2) { b.add(b.b.dot(b.v(1), b.v(0))); b.add(b.b.det(DET, LU, b.b.dot(b.v(0), b.v(1)))); }
            if (sh.i == 0) rep.programs += b.ps.size();
            all({-1, 0, 2, 0.5}, 4 + 2 * c, [&](const std::vector<double>& v) { run(b, {{v.begin(), v.begin() + 4}, {v.begin() + 4, v.end()}}); }); }
        // every permutation matrix as left and right factor
        for (int n = 2; n <= 4; ++n) { Bench b({{M,n,n},{M,n,n}}); b.add(b.b.dot(b.v(0), b.v(1))); b.add(b.b.dot(b.v(1), b.v(0))); b.add(b.b.dot(b.b.trans(b.v(0)), b.v(1)));
            std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
            do { if (!sh.mine()) continue; std::vector<double> m(n * n, 0), w; for (int i = 0; i < n; ++i) m[p[i] * n + i] = 1; for (int i = 0; i < n * n; ++i) w.push_back(g(i)); run(b, {m, w}); } while (std::next_permutation(p.begin(), p.end())); }
    }
    void transposes(int top) {
        for (int R = 1; R <= top; ++R) for (int C = 0; C <= top; ++C) {
            if (!sh.mine() || rep.full()) continue;
            Bench b({{S,1,1},{C ? M : V,R,C ? C : 1},{M,C ? C : 1,R}}); auto s = b.v(0), x = b.v(1), y = b.v(2); auto& B_ = b.b; auto t = B_.trans(x);
            std::vector<double> c; for (int i = 0; i < x->size(); ++i) c.push_back(g(i)); auto k = C ? B_.cstm(R, C, c) : B_.cstv(c);
            b.add(t); b.add(B_.bin(MUL, t, y)); b.add(B_.bin(SUB, y, t)); b.add(B_.bin(MUL, t, s)); b.add(B_.trans(t)); b.add(B_.trans(B_.un(SIN, x))); b.add(B_.un(EXP, t)); b.add(B_.red(SUM, B_.bin(MUL, t, y))); b.add(B_.bin(MUL, B_.trans(k), y)); b.add(B_.bin(MUL, B_.trans(B_.trans(t)), t)); b.add(B_.red(PROD, t));
            if (C == R) { b.add(B_.bin(MUL, t, x)); b.add(B_.bin(ADD, x, t)); b.add(B_.dot(t, x)); }
            rep.programs += b.ps.size();
            for (int q = 0; q < 2; ++q) { Vals in; int z = q * 11; for (auto& w : b.d) { std::vector<double> v; for (int i = 0; i < w.size(); ++i) v.push_back(g(z++)); in.push_back(v); } run(b, in); }
        }
    }
    void sizes(int top) {    // larger matrices
        for (int n = 1; n <= top; ++n) for (int q = 0; q < 6; ++q) {
            if (!sh.mine() || rep.full()) continue;
            Bench b({{S,1,1},{M,n,n}}); for (Kind k : {DET, LOGDET}) for (int p = 0; p < 3; ++p) { b.add(b.b.det(k, p, b.v(1))); b.add(b.b.bin(MUL, b.v(0), b.b.det(k, p, b.b.bin(MUL, b.v(1), b.v(0))))); }
            rep.programs += b.ps.size();
            std::vector<double> m(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[j * n + i] = q < 3 ? (i == j ? 1.5 + 0.25 * ((i + q) % 4) : 0.3 / (1 + std::abs(i - j) + q)) * (q == 2 ? -1 : 1) : 0.2 * g(i * n + j + q) + (i == (j + q) % n ? 1.5 - 3 * (i % 2) : 0);
            run(b, {{0.9}, m});
        }
    }
    // log_det of well-conditioned matrices whose determinant over- or underflows: 2^e times a sample, any size
    template <class V, template <class> class D> void scale1(int n, int kind, int e, const ldm::Inv& I, const std::vector<double>& m, const char* dn) {
        constexpr double eps = std::is_same_v<V, float> ? 2e-4 : 1e-11;
        double lo = std::is_same_v<V, float> ? -120 : -1000; if (e < lo || e > -lo) return;
        ldm::T want = I.logdet + n * e * ldm::LN2;
        for (int form = 0; form < 4 && !rep.full(); ++form) {       // variable; variable * scalar; expression of a view; with a seed
            auto name = [&] { return std::string("log_det<") + dn + ">" + (sizeof(V) == 4 ? " float" : "") + " form " + std::to_string(form) + ", " + std::to_string(n) + "x" + std::to_string(n) + " sample " + std::to_string(kind) + " times 2^" + std::to_string(e); };
            ad::Var<V, ad::mat> x(n, n); ad::Var<V> s, t; V seed = form == 3 ? -1.5 : 1; int ex = form == 1 ? 0 : e; s.get() = std::ldexp(V(1), e); t.get() = 2;
            for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) x.get()(i, j) = std::ldexp((V)m[j * n + i], ex);
            ad::VarView<V, ad::mat> w(x.data(), x.data_adj(), n, n);
            auto check = [&](auto&& expr, int rounds) {
                ++rep.states; rep.transitions += 2 * rounds; ++rep.traces;
                for (int rd = 0; rd < rounds; ++rd) {
                    x.reset_adj(); s.reset_adj(); auto be = ad::bind(expr); V got = ad::evaluate(be); (void)ad::autodiff(be, seed);
                    if (!(std::fabs(got - want) <= eps * (std::fabs(want) + n))) { rep.fail("VALUE", name(), "value " + ref::num(got) + ", expected " + ref::num(want)); return; }
                    ldm::T big = 0; for (auto q : I.inv) big = std::max(big, std::fabs(q));
                    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
                        ldm::T g = seed * std::ldexp(I.inv[i * n + j], -ex), tol = eps * n * std::ldexp(big, -ex) * 2;
                        if (!(std::fabs(x.get_adj()(i, j) - g) <= tol)) { rep.fail("GRAD", name(), "adjoint (" + std::to_string(i) + "," + std::to_string(j) + ") " + ref::num(x.get_adj()(i, j)) + ", expected " + ref::num(g)); return; }
                    }
                    if (form == 1 && std::fabs(n * seed / s.get() - s.get_adj()) > eps * n * 10 / s.get()) { rep.fail("GRAD", name(), "adjoint of the factor " + ref::num(s.get_adj()) + ", expected " + ref::num(n * seed / s.get())); return; }
                }
            };
            if (form == 0 || form == 3) check(ad::log_det<D>(x), 2);
            else if (form == 1) check(ad::log_det<D>(x * s), 1);
            else { check(ad::log_det<D>(-(-w)), 1);
                Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic> c = x.get(); V own = ad::log_det<D>(ad::constant(c)).feval(), vw = ad::log_det<D>(ad::constant_view(c.data(), n, n)).feval();
                if (!(std::fabs(own - want) <= eps * (std::fabs(want) + n))) rep.fail("VALUE", name(), "of an owned constant: " + ref::num(own) + ", expected " + ref::num(want));
                if (!(std::fabs(vw - want) <= eps * (std::fabs(want) + n))) rep.fail("VALUE", name(), "of a viewed constant: " + ref::num(vw) + ", expected " + ref::num(want)); }
        }
    }
    // det of larger matrices, as long as it is representable
    template <class V, template <class> class D> void scale2(int n, int kind, int e, const ldm::Inv& I, const std::vector<double>& m, const char* dn) {
        constexpr double eps = std::is_same_v<V, float> ? 2e-4 : 1e-11; double range = std::is_same_v<V, float> ? 30 : 250, lo = I.logdet + n * e * ldm::LN2, sc = e * ldm::LN2;
        if (std::fabs(lo) > range || std::fabs(lo - sc) > range || std::fabs(sc) > range) return;
        ldm::T d = I.sign * std::exp(I.logdet) * std::pow((ldm::T)2, (ldm::T)n * e);
        auto name = [&] { return std::string("det<") + dn + ">" + (sizeof(V) == 4 ? " float" : "") + ", " + std::to_string(n) + "x" + std::to_string(n) + " sample " + std::to_string(kind) + " times 2^" + std::to_string(e); };
        ad::Var<V, ad::mat> x(n, n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) x.get()(i, j) = std::ldexp((V)m[j * n + i], e);
        ldm::T big = 0; for (auto q : I.inv) big = std::max(big, std::fabs(q));
        auto be = ad::bind(ad::det<D>(-(-x))); ++rep.states; rep.transitions += 4; ++rep.traces;
        for (V seed : {V(1), V(-1.5)}) {
            x.reset_adj(); V got = ad::evaluate(be); (void)ad::autodiff(be, seed);
            if (!(std::fabs(got - d) <= eps * n * std::fabs(d))) { rep.fail("VALUE", name(), "value " + ref::num(got) + ", expected " + ref::num(d)); return; }
            for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
                ldm::T g = seed * d * std::ldexp(I.inv[i * n + j], -e), tol = eps * n * std::fabs(d) * std::ldexp(big, -e) * 2;
                if (!(std::fabs(x.get_adj()(i, j) - g) <= tol)) { rep.fail("GRAD", name(), "adjoint (" + std::to_string(i) + "," + std::to_string(j) + ") " + ref::num(x.get_adj()(i, j)) + ", expected " + ref::num(g)); return; }
            }
        }
    }
    void scales(int top) {
        for (int n : {1, 2, 3, 5, 8, 16, 24, 32, 40}) for (int kind = 0; kind < 6; ++kind) {
            if (n > top) continue;
            auto m = ldm::sample(n, kind); std::vector<ldm::T> L(m.begin(), m.end()); auto I = ldm::inverse(L, n);
            auto mf = m; for (auto& q : mf) q = (float)q; std::vector<ldm::T> Lf(mf.begin(), mf.end()); auto If = ldm::inverse(Lf, n);
            for (int e = -1000; e <= 1000; e += std::abs(e) > 120 || e == 120 ? 40 : std::abs(e) > 24 || e == 24 ? 12 : 2) {
                if (!sh.mine() || rep.full()) continue;
                scale2<double, ad::DetFullPivLU>(n, kind, e, I, m, "LU"); scale2<float, ad::DetFullPivLU>(n, kind, e, If, mf, "LU");
                if (kind < 4) { scale2<double, ad::DetLDLT>(n, kind, e, I, m, "LDLT"); scale2<float, ad::DetLDLT>(n, kind, e, If, mf, "LDLT"); }
                if (kind < 3) { scale2<double, ad::DetLLT>(n, kind, e, I, m, "LLT"); scale2<float, ad::DetLLT>(n, kind, e, If, mf, "LLT"); }
                scale1<double, ad::LogDetFullPivLU>(n, kind, e, I, m, "LU"); scale1<float, ad::LogDetFullPivLU>(n, kind, e, If, mf, "LU");
                if (kind < 4) { scale1<double, ad::LogDetLDLT>(n, kind, e, I, m, "LDLT"); scale1<float, ad::LogDetLDLT>(n, kind, e, If, mf, "LDLT"); }
                if (kind < 3) { scale1<double, ad::LogDetLLT>(n, kind, e, I, m, "LLT"); scale1<float, ad::LogDetLLT>(n, kind, e, If, mf, "LLT"); }
            }
        }
    }
};
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); P8 p(sh); bool t = sh.tier;
    p.dets(1, {-3, -1, -0.5, 0.25, 1, 2}); p.dets(2, {-2, -1, -0.5, 0, 1, 2, 3}); p.dets(3, t ? std::vector<double>{-2, -1, 0, 1, 2} : std::vector<double>{-1, 0, 2});
    p.syms(2, {-3, -1, -0.5, 0, 0.5, 1, 2, 4}); p.syms(3, {-2, -1, 0, 1, 2, 5}); p.syms(4, t ? std::vector<double>{-1, 0, 3} : std::vector<double>{0, 3});
    for (int n = 1; n <= (t ? 6 : 5); ++n) p.perms(n);
    p.dots(t ? 7 : 5); p.transposes(t ? 12 : 8); p.sizes(t ? 12 : 8); p.scales(t ? 40 : 32);
    rep.finish();
}
