// P09: log-densities for every combination of operand shapes and kinds, in and out of the support
#include "hist.hpp"
#include "ldmat.hpp"
using namespace eng; using namespace ref;
// operand kinds: 0 variable, 1 owned constant, 2 expression (negation of a variable), 3 viewed constant
template <class Sh> struct OpV;
template <> struct OpV<ad::scl> { static constexpr Shape s = S; };
template <> struct OpV<ad::vec> { static constexpr Shape s = V; };
template <> struct OpV<ad::mat> { static constexpr Shape s = M; };
template <class Sh, int K> auto operand(Store& st, int i, std::vector<double>& c, int n) {
    if constexpr (K == 0 || K == 2) {
        auto mk = [&] { if constexpr (std::is_same_v<Sh, ad::scl>) return st.S(i); else if constexpr (std::is_same_v<Sh, ad::vec>) return st.V(i); else return st.M(i); };
        if constexpr (K == 0) return mk(); else return -mk();
    } else if constexpr (K == 1) {
        if constexpr (std::is_same_v<Sh, ad::scl>) return ad::constant(c[0]);
        else if constexpr (std::is_same_v<Sh, ad::vec>) { Eigen::VectorXd q = Eigen::Map<Eigen::VectorXd>(c.data(), n); return ad::constant(q); }
        else { Eigen::MatrixXd q = Eigen::Map<Eigen::MatrixXd>(c.data(), n, n); return ad::constant(q); }
    } else {
        if constexpr (std::is_same_v<Sh, ad::scl>) return ad::constant(c[0]);
        else if constexpr (std::is_same_v<Sh, ad::vec>) return ad::constant_view(c.data(), n);
        else return ad::constant_view(c.data(), n, n);
    }
}
using Vec = std::vector<double>;
using Pt = std::array<Vec, 3>;             // values of the operands
struct P9 {
    Shard& sh; Runner r; Opts o; Arena A; B b{A}; Hist h; bool histories = true;
    explicit P9(Shard& s) : sh(s) { o.cats = VALUE | GRAD | LEAF | ADJ; h.nseeds = 2; h.with_autodiff = false; }
    const Node* node(int i, Shape s, int k, const Vec& v, int n) {
        if (k == 0 || k == 2) { auto x = b.var(i, s, s == S ? 1 : n, s == M ? n : 1); return k == 2 ? b.un(NEG, x) : x; }
        return s == S ? b.cst(v[0]) : s == V ? b.cstv(v) : b.cstm(n, n, v);
    }
    template <class Mk> void pts(Mk mk, int which, int n, std::array<Shape, 3> s, std::array<int, 3> k, int nop, const std::vector<Pt>& P) {
        if (rep.full()) return;
        std::vector<VarDecl> d; for (int i = 0; i < nop; ++i) d.push_back({s[i], s[i] == S ? 1 : n, s[i] == M ? n : 1});
        Store st(d); bool allc = true; for (int i = 0; i < nop; ++i) allc = allc && (k[i] == 1 || k[i] == 3);
        auto vals = [&](const Pt& p) { Vals v; for (int i = 0; i < nop; ++i) { v.push_back(p[i]); if (k[i] == 2) for (auto& q : v[i]) q = -q; } return v; };
        rep.programs++;
        Vals a0; for (auto& q : d) { Vec z; for (int i = 0; i < q.size(); ++i) z.push_back(0.25 * (i % 5) - 0.75); a0.push_back(z); }
        size_t c = 0;
        for (auto& p : P) {
            if (!sh.mine() || rep.full()) continue;
            A.clear(); Pt q = p; Vals v = vals(p);
            std::vector<const Node*> kids; for (int i = 0; i < nop; ++i) kids.push_back(node(i, s[i], k[i], p[i], n));
            auto nd = b.pdf(which, kids);
            for (int i = 0; i < nop; ++i) { std::copy(v[i].begin(), v[i].end(), st.v(i)); st.adj[i].fill(0); }
            std::string name = str(nd); current = name + " at " + show(v);
            Any e = mk(st, q, n);
            o.a0 = &a0;
            for (int sd = 0; sd < 2; ++sd) if (!r.run(nd, e, st, v, {sd ? -1.5 : 1}, o, &name)) break;
            if (rep.states % 997 == 1) rep.sample(name + " at " + show(v) + " -> " + show(r.value) + " adjoints " + show(r.adj));
            // the same expression object at three other points: those that agree on the constants
            if (histories && !allc && ++c % 3 == 0) {
                std::vector<Vals> in = {v};
                for (size_t j = (c * 7) % P.size(), t = 0; t < P.size() && in.size() < 3; ++t, j = (j + 1) % P.size()) {
                    Pt w = P[j]; for (int i = 0; i < nop; ++i) if (k[i] == 1 || k[i] == 3) w[i] = p[i];
                    Vals z = vals(w); bool dup = false; for (auto& x : in) dup = dup || x == z;
                    if (!dup) in.push_back(z);
                }
                h.len = 4; h.explore(nd, e, st, in, name);
            }
        }
    }
};
static Vec rep1(int n, double x) { return Vec(n, x); }
static Vec wave(int n, double a, double s) { Vec v; for (int i = 0; i < n; ++i) v.push_back(a + s * ((i * 5) % 7)); return v; }
// grids: all combinations for scalars; for vectors a base point and every operand changed at every position
static std::vector<Pt> grid(std::array<Shape, 3> s, int n, const std::array<Vec, 3>& al, const Pt& base, int nop) {
    std::vector<Pt> P;
    bool scalar = true; for (int i = 0; i < nop; ++i) scalar = scalar && (s[i] == S || n == 1);
    if (scalar) { for (double x : al[0]) for (double y : al[1]) for (double z : (nop > 2 ? al[2] : Vec{0})) P.push_back({Vec{x}, Vec{y}, Vec{z}}); return P; }
    Pt q; for (int i = 0; i < 3; ++i) { q[i] = base[i]; if (s[i] == S) q[i].resize(1); }
    P.push_back(q);
    for (int i = 0; i < nop; ++i) for (size_t j = 0; j < q[i].size(); ++j) for (double x : al[i]) { Pt w = q; w[i][j] = x; P.push_back(w); }
    // two operands at once, same and neighbouring position
    for (int i = 0; i < nop; ++i) for (int i2 = i + 1; i2 < nop; ++i2) for (size_t j = 0; j < q[i].size(); ++j) for (double x : al[i]) for (double y : al[i2]) { Pt w = q; w[i][j] = x; w[i2][std::min(j, q[i2].size() - 1)] = y; P.push_back(w); }
    return P;
}
template <int W, class SX, class SM, class SS, int KX, int KM, int KS> void three(P9& p, const std::vector<int>& sizes) {
    std::array<Shape, 3> s = {OpV<SX>::s, OpV<SM>::s, OpV<SS>::s}; std::array<int, 3> k = {KX, KM, KS};
    for (int n : sizes) {
        if (s[0] == S && n > 1) continue;
        std::array<Vec, 3> al; Pt base;
        if (W == NORMAL || W == CAUCHY) { al = {Vec{-2, 0, 0.5, 3, 40}, Vec{-1.5, 0, 0.5, 3}, Vec{-1, -0.0, 0, 1e-2, 0.5, 1, 4}}; base = {wave(n, -1, 0.4), wave(n, 0.3, -0.2), wave(n, 0.5, 0.25)}; }
        else { al = {Vec{-2, -1, 0, 0.5, 1, 2}, Vec{-3, -2, -1, 0, 1, 2}, Vec{-2, -1, 0, 1, 2, 3}}; base = {wave(n, -0.5, 0.1), wave(n, -2, 0.1), wave(n, 1, 0.3)}; }
        p.pts([](Store& st, Pt& q, int nn) {
            auto x = operand<SX, KX>(st, 0, q[0], nn); auto m = operand<SM, KM>(st, 1, q[1], nn); auto t = operand<SS, KS>(st, 2, q[2], nn);
            if constexpr (W == NORMAL) return dyn::any_root(ad::normal_adj_log_pdf(x, m, t));
            else if constexpr (W == CAUCHY) return dyn::any_root(ad::cauchy_adj_log_pdf(x, m, t));
            else return dyn::any_root(ad::uniform_adj_log_pdf(x, m, t));
        }, W, n, s, k, 3, grid(s, n, al, base, 3));
    }
}
template <int W, class SX, class SM, class SS, int KX, int KM> void kinds2(P9& p, const std::vector<int>& z) {
    three<W, SX, SM, SS, KX, KM, 0>(p, z); three<W, SX, SM, SS, KX, KM, 1>(p, z); three<W, SX, SM, SS, KX, KM, 2>(p, z);
    if constexpr (!std::is_same_v<SS, ad::scl>) three<W, SX, SM, SS, KX, KM, 3>(p, z);
}
template <int W, class SX, class SM, class SS> void kinds(P9& p, const std::vector<int>& z) {
    kinds2<W, SX, SM, SS, 0, 0>(p, z); kinds2<W, SX, SM, SS, 0, 1>(p, z); kinds2<W, SX, SM, SS, 0, 2>(p, z);
    kinds2<W, SX, SM, SS, 1, 0>(p, z); kinds2<W, SX, SM, SS, 1, 1>(p, z); kinds2<W, SX, SM, SS, 1, 2>(p, z);
    kinds2<W, SX, SM, SS, 2, 0>(p, z); kinds2<W, SX, SM, SS, 2, 1>(p, z); kinds2<W, SX, SM, SS, 2, 2>(p, z);
    if constexpr (!std::is_same_v<SX, ad::scl>) { kinds2<W, SX, SM, SS, 3, 0>(p, z); kinds2<W, SX, SM, SS, 3, 1>(p, z); }
}
using ad::scl; using ad::vec; using ad::mat;
template <int W, int H> void uni(P9& p, bool t) {
    std::vector<int> z = {1, 2, 3, 5}; if (t) for (int n : {4, 8, 9}) z.push_back(n);
    if constexpr (H == 0) { kinds<W, scl, scl, scl>(p, {1}); kinds<W, vec, scl, scl>(p, z); kinds<W, vec, scl, vec>(p, z); } else { kinds<W, vec, vec, scl>(p, z); kinds<W, vec, vec, vec>(p, z); }
}
// symmetric matrices: positive definite, indefinite, negative, near the boundary
static std::vector<Vec> mats(int n) {
    std::vector<Vec> o;
    if (n == 1) { for (double x : {-2., -0.1, 0.1, 0.5, 1., 3.}) o.push_back({x}); return o; }
    if (n == 2) { for (double a : {-1., 0.5, 1., 3.}) for (double c : {-2., 0.5, 2.}) for (double x : {-1.5, 0., 0.25, 1.}) o.push_back({a, x, x, c}); return o; }
    for (int k = 0; k < 12; ++k) { Vec m(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m[i * n + j] = m[j * n + i] = i == j ? 1 + 0.5 * ((i + k) % 3) : 0.3 - 0.1 * ((i * j + k) % 4); if (k % 4 == 1) m[0] = -m[0]; if (k % 4 == 2) m[n * n - 1] = -1; if (k % 4 == 3) m[1] = m[n] = 2.5; o.push_back(m); }
    return o;
}
template <class SX, class SM, int KX, int KM, int KS> void nm(P9& p, const std::vector<int>& z) {
    std::array<Shape, 3> s = {V, OpV<SM>::s, M}; std::array<int, 3> k = {KX, KM, KS};
    for (int n : z) {
        std::vector<Pt> P; int c = 0;
        for (auto& m : mats(n)) for (int q = 0; q < 2; ++q) { ++c; P.push_back({wave(n, -1 + q, 0.4), s[1] == S ? Vec{0.25 * (c % 4)} : wave(n, 0.3 * (c % 3), -0.2), m}); }
        p.pts([](Store& st, Pt& q, int nn) { return dyn::any_root(ad::normal_adj_log_pdf(operand<vec, KX>(st, 0, q[0], nn), operand<SM, KM>(st, 1, q[1], nn), operand<mat, KS>(st, 2, q[2], nn))); }, NORMAL, n, s, k, 3, P);
    }
}
template <class SM, int KX, int KM> void nm1(P9& p, const std::vector<int>& z) { nm<vec, SM, KX, KM, 0>(p, z); nm<vec, SM, KX, KM, 1>(p, z); nm<vec, SM, KX, KM, 2>(p, z); nm<vec, SM, KX, KM, 3>(p, z); }
template <class SM> void nm2(P9& p, const std::vector<int>& z) { nm1<SM, 0, 0>(p, z); nm1<SM, 0, 1>(p, z); nm1<SM, 0, 2>(p, z); nm1<SM, 1, 0>(p, z); nm1<SM, 1, 1>(p, z); nm1<SM, 1, 2>(p, z); nm1<SM, 2, 0>(p, z); nm1<SM, 2, 1>(p, z); nm1<SM, 2, 2>(p, z); nm1<SM, 3, 0>(p, z); nm1<SM, 3, 1>(p, z); }
template <class SX, class SP, int KX, int KP> void bern(P9& p, const std::vector<int>& z) {
    std::array<Shape, 3> s = {OpV<SX>::s, OpV<SP>::s, S}; std::array<int, 3> k = {KX, KP, 1};
    for (int n : z) {
        if (s[0] == S && n > 1) continue;
        Vec bits; for (int i = 0; i < n; ++i) bits.push_back(i % 3 != 1);
        std::array<Vec, 3> al = {Vec{0, 1, -0.0, 0.5, 2, -1, 1.0000001}, Vec{-0.5, 0, 1e-3, 0.3, 0.75, 1, 1.5}, Vec{}};
        auto P = grid(s, n, al, {bits, wave(n, 0.2, 0.1), Vec{0}}, 2);
        p.pts([](Store& st, Pt& q, int nn) { return dyn::any_root(ad::bernoulli_adj_log_pdf(operand<SX, KX>(st, 0, q[0], nn), operand<SP, KP>(st, 1, q[1], nn))); }, BERNOULLI, n, s, k, 2, P);
    }
}
template <class SX, class SP> void bern1(P9& p, const std::vector<int>& z) { bern<SX, SP, 0, 0>(p, z); bern<SX, SP, 0, 1>(p, z); bern<SX, SP, 0, 2>(p, z); bern<SX, SP, 1, 0>(p, z); bern<SX, SP, 1, 1>(p, z); bern<SX, SP, 1, 2>(p, z); bern<SX, SP, 2, 0>(p, z); bern<SX, SP, 2, 1>(p, z); bern<SX, SP, 2, 2>(p, z);
    if constexpr (std::is_same_v<SX, vec>) { bern<SX, SP, 3, 0>(p, z); bern<SX, SP, 3, 1>(p, z); bern<SX, SP, 3, 2>(p, z); } if constexpr (std::is_same_v<SP, vec>) { bern<SX, SP, 0, 3>(p, z); bern<SX, SP, 1, 3>(p, z); } }
template <int KX, int KV> void wish(P9& p, const std::vector<int>& z) {
    std::array<Shape, 3> s = {M, M, S}; std::array<int, 3> k = {KX, KV, 1};
    for (int n : z) {
        std::vector<Pt> P; auto ms = mats(n); size_t N = ms.size();
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; j += (n == 2 ? 5 : 1)) P.push_back({ms[i], ms[(i + j) % N], Vec{n - 1 + (double)((i + j) % 4 == 0 ? 0 : (i + j) % 4 == 1 ? 0.5 : (i + j) % 4 == 2 ? 3 : -0.25)}});
        p.pts([](Store& st, Pt& q, int nn) { return dyn::any_root(ad::wishart_adj_log_pdf(operand<mat, KX>(st, 0, q[0], nn), operand<mat, KV>(st, 1, q[1], nn), q[2][0])); }, WISHART, n, s, k, 3, P);
    }
}
template <int KX> void wish1(P9& p, const std::vector<int>& z) { wish<KX, 0>(p, z); wish<KX, 1>(p, z); wish<KX, 2>(p, z); wish<KX, 3>(p, z); }
#if defined(PART) && PART >= 10
// the densities at every scale of their operands and in both precisions, directly on variables, against closed forms in long double
using Real = long double;
template <class T> struct Sc {
    Shard& sh; bool t; double eps = std::is_same_v<T, float> ? 2e-4 : 1e-11;
    template <class X> static T& at(X& x, int i) { if constexpr (std::is_same_v<std::decay_t<decltype(x.get())>, T>) return x.get(); else return x.get().size() > 0 ? x.get()(i) : x.get()(0); }
    template <class Sh> static ad::Var<T, Sh> mk(int n) { if constexpr (std::is_same_v<Sh, scl>) return {}; else return ad::Var<T, Sh>(n); }
    template <class Sh> static T& val(ad::Var<T, Sh>& x, int i) { if constexpr (std::is_same_v<Sh, scl>) return x.get(); else return x.get()(i); }
    template <class Sh> static T adj(ad::Var<T, Sh>& x, int i) { if constexpr (std::is_same_v<Sh, scl>) return x.get_adj(); else return x.get_adj()(i); }
    std::string name(const char* d, int n, int e, const char* shp) { return std::string(d) + (sizeof(T) == 4 ? " float " : " ") + shp + ", length " + std::to_string(n) + ", scale 2^" + std::to_string(e); }
    static bool near(double got, Real want, Real tol) { return std::fabs(got - want) <= tol; }
    template <int K, class Sh> static auto opd(ad::Var<T, Sh>& x) {      // 0 variable, 1 owned constant, 2 viewed constant
        if constexpr (K == 0) return ad::VarView<T, Sh>(x);
        else if constexpr (K == 1 || std::is_same_v<Sh, scl>) return ad::constant(x.get());
        else return ad::constant_view(x.data(), x.size());
    }
    // K: two bits per operand, its kind; loc: distance of the operands from the origin, in units of their scale
    template <int W, class SX, class SM, class SS, int K> void elem(const char* shp, const std::vector<int>& sizes, int every) {
        const char* dn = W == NORMAL ? "normal" : W == CAUCHY ? "cauchy" : "uniform";
        int lim = sizeof(T) == 4 ? 24 : 300;
        for (int n : sizes) for (int e = -lim; e <= lim; e += lim / 12 * every) for (int loc : {0, sizeof(T) == 4 ? 1 << 7 : 1 << 10, sizeof(T) == 4 ? -(1 << 10) : -(1 << 26)}) {
            if (std::is_same_v<SX, scl> && n > 1) continue;
            if (!sh.mine() || rep.full()) continue;
            auto x = mk<SX>(n); auto m = mk<SM>(n); auto s = mk<SS>(n);
            for (int q = 0; q < 2; ++q) {
                for (int i = 0; i < n; ++i) { val(x, i) = std::ldexp(T((i * 5 + q) % 7 - 3) / 4 + loc, e); val(m, i) = std::ldexp((W == UNIFORM ? T(-1) - T((i + q) % 3) / 8 : T((i + q) % 3 - 1) / 2) + loc, e); val(s, i) = std::ldexp(T(1) + T((i * 3 + q) % 5) / 4 + (W == UNIFORM ? loc : 0), e); }
                auto be = ad::bind([&] { auto a = opd<(K & 3)>(x); auto b = opd<(K >> 2 & 3)>(m); auto c = opd<(K >> 4)>(s); if constexpr (W == NORMAL) return ad::normal_adj_log_pdf(a, b, c); else if constexpr (W == CAUCHY) return ad::cauchy_adj_log_pdf(a, b, c); else return ad::uniform_adj_log_pdf(a, b, c); }());
                Real v = 0, mag = n; std::vector<Real> dx(n, 0), dm(n, 0), ds(n, 0);
                for (int i = 0; i < n; ++i) {
                    Real a = val(x, i), b = val(m, i), c = val(s, i), d = a - b, z = d / c; auto add = [&](auto& w, auto& var, Real g) { w[std::is_same_v<std::decay_t<decltype(var.get())>, T> ? 0 : i] += g; };
                    Real term, gx, gm, gs;
                    if (W == NORMAL) { term = -0.5L * z * z - std::log(c); gx = -z / c; gm = z / c; gs = (z * z - 1) / c; }
                    else if (W == CAUCHY) { term = -std::log(c + d * z); gx = -2 * d / (c * c + d * d); gm = -gx; gs = -(1 - z * z) / (c + d * z); }
                    else { term = -std::log(c - b); gx = 0; gm = 1 / (c - b); gs = -gm; }
                    v += term; mag += std::fabs(term); add(dx, x, gx); add(dm, m, gm); add(ds, s, gs);
                }
                Real blur = 32 * std::numeric_limits<T>::epsilon() * std::abs(loc) * n;      // what a rounding of the operands far from the origin may do
                for (T seed : {T(1), T(-1.5)}) {
                    x.reset_adj(); m.reset_adj(); s.reset_adj(); T got = ad::evaluate(be); T got2 = ad::autodiff(be, seed); ++rep.states; rep.transitions += 3; ++rep.traces;
                    auto nm = [&] { return name(dn, n, e, shp) + ", at " + std::to_string(loc) + ", kinds " + std::to_string(K & 3) + std::to_string(K >> 2 & 3) + std::to_string(K >> 4); };
                    if (!near(got, v, eps * mag + blur) || !near(got2, v, eps * mag + blur)) { rep.fail("VALUE", nm(), "value " + ref::num(got) + " / " + ref::num(got2) + ", expected " + ref::num(v)); return; }
                    auto chk = [&](auto& var, std::vector<Real>& w, const char* wn, int kind) {
                        int k = std::is_same_v<std::decay_t<decltype(var.get())>, T> ? 1 : n;
                        for (int i = 0; i < k; ++i) { Real want = kind ? 0 : seed * w[i]; if (!near(adj(var, i), want, (eps * 4 * (k == 1 ? n : 1) + blur) * std::ldexp((Real)3, -e))) { rep.fail("GRAD", nm(), std::string("adjoint of ") + wn + "[" + std::to_string(i) + "] " + ref::num(adj(var, i)) + ", expected " + ref::num(want)); return; } }
                    };
                    chk(x, dx, "x", K & 3); chk(m, dm, "the second operand", K >> 2 & 3); chk(s, ds, "the third operand", K >> 4);
                }
            }
        }
    }
    template <int W, class SX, class SM, class SS> void kinds1(const char* shp) {
        elem<W, SX, SM, SS, 0>(shp, {1, 2, 7, 40, 200}, 1); std::vector<int> z = {1, 5, 40};
        if constexpr (sizeof(T) == 8 || (W == NORMAL && std::is_same_v<SX, vec>)) {
        elem<W, SX, SM, SS, 1>(shp, z, 4); elem<W, SX, SM, SS, 4>(shp, z, 4); elem<W, SX, SM, SS, 16>(shp, z, 4); elem<W, SX, SM, SS, 5>(shp, z, 4); elem<W, SX, SM, SS, 17>(shp, z, 4); elem<W, SX, SM, SS, 20>(shp, z, 4);
        elem<W, SX, SM, SS, 2>(shp, z, 4); elem<W, SX, SM, SS, 34>(shp, z, 4); elem<W, SX, SM, SS, 40>(shp, z, 4); }
    }
    template <int W> void shapes() { kinds1<W, scl, scl, scl>("scalar"); kinds1<W, vec, scl, scl>("vector, scalar, scalar"); kinds1<W, vec, vec, scl>("vector, vector, scalar"); kinds1<W, vec, scl, vec>("vector, scalar, vector"); kinds1<W, vec, vec, vec>("vectors"); }
    template <class SP> void bern(const char* shp) {
        for (int n : {1, 3, 40, 300, 2000}) for (int e = 0; e <= (sizeof(T) == 4 ? 20 : 44); e += 4) {
            if (!sh.mine() || rep.full()) continue;
            auto p = mk<SP>(n); Eigen::Matrix<T, Eigen::Dynamic, 1> bits(n); for (int i = 0; i < n; ++i) bits(i) = i % 3 != 1;
            ad::Var<T, vec> xv(n); xv.get() = bits;
            for (int i = 0; i < n; ++i) val(p, i) = std::ldexp(T(1 + i % 3) / 4, -e);
            Real v = 0, mag = n; std::vector<Real> dp(n, 0), mg(n, 0); bool sc = std::is_same_v<SP, scl>;
            for (int i = 0; i < n; ++i) { Real q = val(p, i), t = bits(i) == 1 ? std::log(q) : std::log1p(-q), g = bits(i) == 1 ? 1 / q : -1 / (1 - q); v += t; mag += std::fabs(t) + 1; dp[sc ? 0 : i] += g; mg[sc ? 0 : i] += std::fabs(g); }
            auto run = [&](auto expr) { auto be = ad::bind(expr);
                for (T seed : {T(1), T(-1.5)}) {
                    p.reset_adj(); T got = ad::evaluate(be); (void)ad::autodiff(be, seed); ++rep.states; rep.transitions += 3; ++rep.traces;
                    if (!near(got, v, eps * mag)) { rep.fail("VALUE", name("bernoulli", n, -e, shp), "value " + ref::num(got) + ", expected " + ref::num(v)); return; }
                    for (int i = 0; i < (sc ? 1 : n); ++i) if (!near(adj(p, i), seed * dp[i], 4 * eps * mg[i])) { rep.fail("GRAD", name("bernoulli", n, -e, shp), "adjoint of p[" + std::to_string(i) + "] " + ref::num(adj(p, i)) + ", expected " + ref::num(seed * dp[i])); return; }
                } };
            run(ad::bernoulli_adj_log_pdf(ad::constant(bits), p)); run(ad::bernoulli_adj_log_pdf(xv, p)); run(ad::bernoulli_adj_log_pdf(ad::constant_view(bits.data(), n), p));
        }
    }
    using Mx = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
    template <class SM, bool CS> void mvn(const char* shp) {
        int lim = sizeof(T) == 4 ? 40 : 400, st = sizeof(T) == 4 ? 8 : 40;
        for (int n : {1, 2, 3, 8, 16, 32}) for (int kind = 0; kind < 3; ++kind) for (int e = -lim; e <= lim; e += st) {
            if (!sh.mine() || rep.full()) continue;
            auto m0 = ldm::sample(n, kind); for (auto& q : m0) q = (T)q; auto I = ldm::inverse(std::vector<Real>(m0.begin(), m0.end()), n);
            ad::Var<T, vec> x(n); auto m = mk<SM>(n); ad::Var<T, mat> s(n, n); Mx c(n, n);
            for (int i = 0; i < n; ++i) { x.get()(i) = std::ldexp(T((i * 5) % 7 - 3) / 4, e / 2); val(m, i) = std::ldexp(T(i % 3 - 1) / 2, e / 2); for (int j = 0; j < n; ++j) c(i, j) = s.get()(i, j) = std::ldexp((T)m0[j * n + i], e); }
            std::vector<Real> z(n), w(n, 0); for (int i = 0; i < n; ++i) z[i] = std::ldexp((Real)x.get()(i) - (Real)val(m, i), -e / 2);
            Real qf = 0, zn = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) w[i] += I.inv[j * n + i] * z[j]; qf += w[i] * z[i]; zn += z[i] * z[i]; }
            Real v = -0.5L * qf - 0.5L * (I.logdet + (Real)n * e * ldm::LN2), mag = n + std::fabs(qf) + std::fabs(I.logdet) + std::fabs((Real)n * e);
            auto run = [&](auto expr) { auto be = ad::bind(expr);
                for (T seed : {T(1), T(-1.5)}) {
                    x.reset_adj(); m.reset_adj(); s.reset_adj(); T got = ad::evaluate(be); (void)ad::autodiff(be, seed); ++rep.states; rep.transitions += 3; ++rep.traces;
                    if (!near(got, v, eps * mag)) { rep.fail("VALUE", name("multivariate normal", n, e, shp), "value " + ref::num(got) + ", expected " + ref::num(v)); return; }
                    Real dm = 0; for (int i = 0; i < n; ++i) { Real g = -std::ldexp(w[i], -e / 2) * seed; dm -= g; if (!near(x.get_adj()(i), g, eps * (4 + zn) * n * std::ldexp((Real)1, -e / 2))) { rep.fail("GRAD", name("multivariate normal", n, e, shp), "adjoint of x[" + std::to_string(i) + "] " + ref::num(x.get_adj()(i)) + ", expected " + ref::num(g)); return; }
                        if (!std::is_same_v<SM, scl> && !near(adj(m, i), -g, eps * (4 + zn) * n * std::ldexp((Real)1, -e / 2))) { rep.fail("GRAD", name("multivariate normal", n, e, shp), "adjoint of the mean[" + std::to_string(i) + "] " + ref::num(adj(m, i)) + ", expected " + ref::num(-g)); return; } }
                    if (std::is_same_v<SM, scl> && !near(adj(m, 0), dm, eps * (4 + zn) * n * n * std::ldexp((Real)1, -e / 2))) { rep.fail("GRAD", name("multivariate normal", n, e, shp), "adjoint of the mean " + ref::num(adj(m, 0)) + ", expected " + ref::num(dm)); return; }
                    if (!CS) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { Real g = std::ldexp(0.5L * seed * (w[i] * w[j] - I.inv[j * n + i]), -e); if (!near(s.get_adj()(i, j), g, eps * (4 + zn) * n * std::ldexp((Real)1, -e))) { rep.fail("GRAD", name("multivariate normal", n, e, shp), "adjoint of sigma(" + std::to_string(i) + "," + std::to_string(j) + ") " + ref::num(s.get_adj()(i, j)) + ", expected " + ref::num(g)); return; } }
                } };
            if constexpr (CS) { run(ad::normal_adj_log_pdf(x, m, ad::constant(c))); run(ad::normal_adj_log_pdf(x, m, ad::constant_view(c.data(), n, n))); } else run(ad::normal_adj_log_pdf(x, m, s));
        }
    }
    template <int K> void wishart(const char* shp) {                   // K: bit 0: X constant, bit 1: V constant
        int lim = sizeof(T) == 4 ? 40 : 400, st = sizeof(T) == 4 ? 8 : 40;
        for (int n : {1, 2, 3, 8, 16, 32}) for (int kind = 0; kind < 3; ++kind) for (int e = -lim; e <= lim; e += st) {
            if (!sh.mine() || rep.full()) continue;
            auto a0 = ldm::sample(n, kind), b0 = ldm::sample(n, (kind + 1) % 3); for (auto& q : a0) q = (T)q; for (auto& q : b0) q = (T)q;
            auto A = ldm::inverse(std::vector<Real>(a0.begin(), a0.end()), n), B = ldm::inverse(std::vector<Real>(b0.begin(), b0.end()), n);
            ad::Var<T, mat> X(n, n), V(n, n); Mx cX, cV; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { X.get()(i, j) = std::ldexp((T)a0[j * n + i], e); V.get()(i, j) = std::ldexp((T)b0[j * n + i], e); } cX = X.get(); cV = V.get();
            T nu = n + 2.5; Real tr = 0; std::vector<Real> BAB(n * n, 0), BA(n * n, 0);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { for (int k = 0; k < n; ++k) BA[j * n + i] += B.inv[k * n + i] * (Real)a0[j * n + k]; if (i == j) tr += BA[j * n + i]; }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) BAB[j * n + i] += BA[k * n + i] * B.inv[j * n + k];
            Real es = (Real)n * e * ldm::LN2, h = 0.5L * ((Real)nu - n - 1), v = h * (A.logdet + es) - 0.5L * tr - 0.5L * nu * (B.logdet + es), mag = n * (n + 10) + std::fabs(tr) + (nu + n) * (std::fabs(A.logdet) + std::fabs(B.logdet) + std::fabs(es));
            auto run = [&](auto expr) { auto be = ad::bind(expr);
                for (T seed : {T(1), T(-1.5)}) {
                    X.reset_adj(); V.reset_adj(); T got = ad::evaluate(be); (void)ad::autodiff(be, seed); ++rep.states; rep.transitions += 3; ++rep.traces;
                    if (!near(got, v, eps * mag)) { rep.fail("VALUE", name("wishart", n, e, shp), "value " + ref::num(got) + ", expected " + ref::num(v)); return; }
                    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                        Real gx = std::ldexp(seed * (h * A.inv[j * n + i] - 0.5L * B.inv[j * n + i]), -e), gv = std::ldexp(seed * 0.5L * (BAB[j * n + i] - nu * B.inv[j * n + i]), -e), tol = eps * 40 * n * n * std::ldexp((Real)1, -e);
                        if (!(K & 1) && !near(X.get_adj()(i, j), gx, tol)) { rep.fail("GRAD", name("wishart", n, e, shp), "adjoint of X(" + std::to_string(i) + "," + std::to_string(j) + ") " + ref::num(X.get_adj()(i, j)) + ", expected " + ref::num(gx)); return; }
                        if (!(K & 2) && !near(V.get_adj()(i, j), gv, tol)) { rep.fail("GRAD", name("wishart", n, e, shp), "adjoint of V(" + std::to_string(i) + "," + std::to_string(j) + ") " + ref::num(V.get_adj()(i, j)) + ", expected " + ref::num(gv)); return; }
                    }
                } };
            if constexpr (K == 0) run(ad::wishart_adj_log_pdf(X, V, nu)); else if constexpr (K == 1) run(ad::wishart_adj_log_pdf(ad::constant(cX), V, nu)); else run(ad::wishart_adj_log_pdf(X, ad::constant(cV), nu));
        }
    }
};
template <class T> void scales(Shard& sh, bool t) {
    Sc<T> s{sh, t};
    s.template bern<scl>("scalar p"); s.template bern<vec>("vector p");
    s.template mvn<vec, false>("vector mean"); s.template mvn<scl, false>("scalar mean"); s.template mvn<vec, true>("constant sigma");
    s.template wishart<0>("both variable"); s.template wishart<1>("X constant"); s.template wishart<2>("V constant");
}
#endif
#define F9_(n) void part9_##n(P9& p, bool t)
#define F9(n) F9_(n)
#ifndef PART
F9(0); F9(1); F9(2); F9(3); F9(4); F9(5); F9(6); F9(7); F9(8); F9(9); F9(10); F9(11); F9(12); F9(13);
int main(int argc, char** argv) { Shard sh = shard_args(argc, argv); P9 p(sh); bool t = sh.tier; part9_0(p, t); part9_1(p, t); part9_2(p, t); part9_3(p, t); part9_4(p, t); part9_5(p, t); part9_6(p, t); part9_7(p, t); part9_8(p, t); part9_9(p, t); part9_10(p, t); part9_11(p, t); part9_12(p, t); part9_13(p, t); rep.finish(); }
#else
F9(PART) {
    (void)t; (void)p;
#if PART == 0
    uni<NORMAL, 0>(p, t);
#elif PART == 7
    uni<NORMAL, 1>(p, t);
#elif PART == 1
    uni<CAUCHY, 0>(p, t);
#elif PART == 8
    uni<CAUCHY, 1>(p, t);
#elif PART == 2
    uni<UNIFORM, 0>(p, t);
#elif PART == 9
    uni<UNIFORM, 1>(p, t);
#elif PART == 3
    std::vector<int> z = {1, 2, 3}; if (t) z.push_back(4); nm2<scl>(p, z);
#elif PART == 4
    std::vector<int> z = {1, 2, 3}; if (t) z.push_back(4); nm2<vec>(p, z);
#elif PART == 5
    std::vector<int> z = {1, 2, 3, 5, 8}; if (t) z.push_back(13); bern1<scl, scl>(p, {1}); bern1<vec, scl>(p, z); bern1<vec, vec>(p, z);
#elif PART == 10
    Sc<double> s{p.sh, t}; s.shapes<NORMAL>(); Sc<float> f{p.sh, t}; f.shapes<NORMAL>();
#elif PART == 11
    Sc<double> s{p.sh, t}; s.shapes<CAUCHY>(); Sc<float> f{p.sh, t}; f.shapes<CAUCHY>();
#elif PART == 12
    Sc<double> s{p.sh, t}; s.shapes<UNIFORM>(); Sc<float> f{p.sh, t}; f.shapes<UNIFORM>();
#elif PART == 13
    scales<double>(p.sh, t); scales<float>(p.sh, t);
#elif PART == 6
    std::vector<int> z = {1, 2, 3}; wish1<0>(p, z); wish1<1>(p, z); wish1<2>(p, z); wish1<3>(p, z);
#endif
}
#endif
