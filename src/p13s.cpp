// P13: constants taken from every kind of Eigen object (plain, fixed size, block, row, transposed, strided or row-major map,
// reference, cast, sum, product, reversed, diagonal, array), by ad::constant and as a bare operand.  Every sequence of
// operations on the source, on two constants made of it, and on an expression made of either.
#include "ops.hpp"
#include <optional>
using namespace eng;
using D = std::vector<double>;
using Vd = Eigen::VectorXd; using Md = Eigen::MatrixXd; using RM = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>; using RS = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
#define COMMA ,
enum Op { W0, W1, NEW, DEL, K1, K2, K12, X_MUL, X_SUB, X_IMPR, X_IMPL, X_DOT, X_DOTI, X_SUM, X_ONLY, X_PDF, X_EQ, EVX, INP, NOPS };
static const char* NAMES[] = {"source=contents 0", "source=contents 1", "source=a new object", "delete source", "K1=constant(source)", "K2=constant(source)", "K1=K2", "X=bind(x*K1)", "X=bind(K1-x*K2)", "X=bind(x*source)", "X=bind(source-x)", "X=bind(dot)", "X=bind(dot with source)", "X=bind(s*sum(x*K1))", "X=bind(x+(K1+K2))", "X=bind(normal(x,K1,s))", "X=bind((t=source,t*x))", "autodiff(X)", "set other inputs"};
// a source: storage plus the Eigen expression over it; set() writes d (column-major, R x C)
#define SRC(NAME, VEC, STORE, INIT, EXPR, WRITE) struct NAME { static const char* nm() { return #NAME; } static constexpr bool vec = VEC; int R, C; STORE; NAME(int r, int c) : R(r), C(c) { INIT; } \
    void set(const D& d) { for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) { double q = d[j * R + i]; WRITE; } } auto get() -> decltype(auto) { return EXPR; } };
SRC(Plain, true, Vd v, v.setZero(R), (v), v(i) = q)
SRC(Fixed, true, Eigen::Vector3d v, v.setZero(), (v), v(i) = q)
SRC(Column, true, Md m, m.setConstant(R, 3, -9), m.col(1), m(i, 1) = q)
SRC(RowT, true, Md m, m.setConstant(3, R, -9), m.row(1).transpose(), m(1, i) = q)
SRC(Segment, true, Vd v, v.setConstant(R + 3, -9), v.segment(2, R), v(2 + i) = q)
SRC(Strided, true, D b; Eigen::Map<Vd COMMA 0 COMMA Eigen::InnerStride<>> p{nullptr COMMA 0 COMMA Eigen::InnerStride<>(2)}, b.assign(2 * R + 1, -9); new (&p) Eigen::Map<Vd COMMA 0 COMMA Eigen::InnerStride<>>(b.data() COMMA R COMMA Eigen::InnerStride<>(2)), (p), b[2 * i] = q)
SRC(Mapped, true, D b, b.assign(R, 0), Eigen::Map<const Vd>(b.data() COMMA R), b[i] = q)
SRC(Sum, true, Vd v COMMA w, v.setZero(R); w.setConstant(R, 1.25), v + w, v(i) = q - 1.25)
SRC(Product, true, Md m; Vd w, m.setZero(R, R); w.setOnes(R), m * w, m(i, 0) = q)
SRC(Reversed, true, Vd v, v.setZero(R), v.reverse(), v(R - 1 - i) = q)
SRC(Diagonal, true, Md m, m.setConstant(R, R, -9), m.diagonal(), m(i, i) = q)
SRC(Cast, true, Eigen::VectorXf v, v.setZero(R), v.cast<double>(), v(i) = (float)q)
SRC(Array, true, Eigen::ArrayXd v, v.setZero(R), (v), v(i) = q)
SRC(PlainM, false, Md m, m.setZero(R, C), (m), m(i, j) = q)
SRC(RowMajor, false, RM m, m.setZero(R, C), (m), m(i, j) = q)
SRC(Block, false, Md m, m.setConstant(R + 2, C + 3, -9), m.block(1, 2, R, C), m(1 + i, 2 + j) = q)
SRC(BlockR, false, RM m, m.setConstant(R + 2, C + 3, -9), m.block(1, 2, R, C), m(1 + i, 2 + j) = q)
SRC(Transposed, false, Md m, m.setZero(C, R), m.transpose(), m(j, i) = q)
SRC(MapR, false, D b, b.assign(R * C, 0), Eigen::Map<const RM>(b.data() COMMA R COMMA C), b[i * C + j] = q)
SRC(MapS, false, D b, b.assign(4 * R * C + 8, -9), (Eigen::Map<Md COMMA 0 COMMA RS>(b.data(), R, C, RS(2 * R + 1, 2))), b[j * (2 * R + 1) + 2 * i] = q)
SRC(SumM, false, Md m COMMA w, m.setZero(R, C); w.setConstant(R, C, 1.25), m + w, m(i, j) = q - 1.25)
SRC(ProductM, false, Md m COMMA w, m.setZero(R, C); w.setIdentity(C, C), m * w, m(i, j) = q)
SRC(CastM, false, Eigen::MatrixXf m, m.setZero(R, C), m.cast<double>(), m(i, j) = (float)q)
SRC(ArrayM, false, Eigen::ArrayXXd m, m.setZero(R, C), (m), m(i, j) = q)
template <class S> struct World {
    static constexpr bool vec = S::vec, bare = ad::util::is_convertible_to_ad_v<std::decay_t<decltype(std::declval<S&>().get())>>;     // bare: usable as an operand without ad::constant
    using Sh = std::conditional_t<vec, ad::vec, ad::mat>; using K_t = ad::core::Constant<double, Sh>;
    static_assert(std::is_same_v<K_t, decltype(ad::constant(std::declval<S&>().get()))>);
    static std::string name(int o) { return NAMES[o]; } static int count() { return NOPS; }
    const int R, C, N; std::unique_ptr<S> src; std::optional<K_t> k1, k2; D ms, m1, m2, xk1, xk2; int xkind = -1, in = 0, made = 0;
    D xv, xa, tv, ta, av, aa, bv, ba; double sv = 1.5, sa = 0;      // x, t: like the constant; a: rows(R) x ..., b: multiplies a matrix constant
    struct Base { virtual ~Base() {} virtual D run(const D& seed) = 0; };
    template <class E> struct Ex : Base { E e; int n; Ex(const E& x, int n_) : e(x), n(n_) {} D run(const D& seed) override {
        using Q = typename std::decay_t<decltype(e)>::expr_t;
        if constexpr (std::is_same_v<typename Q::shape_t, ad::scl>) return D{ad::autodiff(e, seed[0])};
        else { using A = std::conditional_t<std::is_same_v<typename Q::shape_t, ad::vec>, Eigen::ArrayXd, Eigen::ArrayXXd>; A s(e.get().rows(), e.get().cols()); std::copy(seed.begin(), seed.begin() + s.size(), s.data()); const auto& v = ad::autodiff(e, s); return D(v.data(), v.data() + v.size()); } } };
    template <class E> std::unique_ptr<Base> wrap(const E& e) { auto b = ad::bind(e); return std::make_unique<Ex<decltype(b)>>(b, 0); }
    std::unique_ptr<Base> X;
    static auto var(double* v, double* a, int r, int c) { if constexpr (vec) return ad::VarView<double, ad::vec>(v, a, r); else return ad::VarView<double, ad::mat>(v, a, r, c); }
    auto x() { return var(xv.data(), xa.data(), R, C); } auto t() { return var(tv.data(), ta.data(), R, C); }
    auto A() { return ad::VarView<double, ad::mat>(av.data(), aa.data(), 2, R); } auto B() { return ad::VarView<double, ad::vec>(bv.data(), ba.data(), C); } auto s() { return ad::VarView<double>(&sv, &sa); }
    static D content(int k, int N) { D d; for (int i = 0; i < N; ++i) d.push_back(k == 0 ? i + 1 : k == 1 ? 0.5 - 2 * i : 10 + i * i); return d; }
    World(int r, int c) : R(r), C(c), N(r * c) { xa.resize(N); tv.resize(N); ta.resize(N); aa.resize(2 * R); ba.resize(C); fresh(); inputs(0); apply(K1); apply(K2); }
    void inputs(int k) { in = k; xv.clear(); av.clear(); bv.clear(); for (int i = 0; i < N; ++i) xv.push_back(k ? 2 - i : i + 0.5); for (int i = 0; i < 2 * R; ++i) av.push_back(k ? i : 1 - 0.5 * i); for (int i = 0; i < C; ++i) bv.push_back(k ? 3 - i : i - 0.25); sv = k ? 2 : 0.5; }
    void fresh() { src = std::make_unique<S>(R, C); ms = content(2, N); for (auto& q : ms) q += made; ++made; src->set(ms); }
    bool enabled(int o) { switch (o) { case W0: case W1: case DEL: case K1: case K2: case X_EQ: return !!src; case X_IMPR: case X_IMPL: case X_DOTI: return bare && src; case NEW: return !src; case EVX: return !!X; } return true; }
    std::string apply(int o) {
        switch (o) {
            case W0: case W1: ms = content(o - W0, N); src->set(ms); break; case NEW: fresh(); break; case DEL: src.reset(); break;
            case K1: k1.emplace(ad::constant(src->get())); m1 = ms; break; case K2: k2.emplace(ad::constant(src->get())); m2 = ms; break; case K12: *k1 = *k2; m1 = m2; break;
            case X_MUL: X = wrap(x() * *k1); break; case X_SUB: X = wrap(*k1 - x() * *k2); break; case X_IMPR: if constexpr (bare) X = wrap(x() * src->get()); break; case X_IMPL: if constexpr (bare) X = wrap(src->get() - x()); break;
            case X_DOT: if constexpr (vec) X = wrap(ad::dot(A(), *k1)); else X = wrap(ad::dot(*k1, B())); break;
            case X_DOTI: if constexpr (bare) { if constexpr (vec) X = wrap(ad::dot(A(), src->get())); else X = wrap(ad::dot(src->get(), B())); } break;
            case X_SUM: X = wrap(s() * ad::sum(x() * *k1)); break; case X_ONLY: X = wrap(x() + (*k1 + *k2)); break;
            case X_PDF: if constexpr (vec) X = wrap(ad::normal_adj_log_pdf(x(), *k1, s())); else X = wrap(ad::sum(ad::pow<2>(x() - *k1))); break;
            case X_EQ: X = wrap((t() = ad::constant(src->get()), t() * x())); break;
            case INP: inputs(1 - in); return "";
            case EVX: return evx();
        }
        if (o >= X_MUL && o <= X_EQ) { xkind = o; bool im = o == X_IMPR || o == X_IMPL || o == X_DOTI || o == X_EQ; xk1 = im ? ms : m1; xk2 = m2; }
        return "";
    }
    std::string evx() {
        D seed; for (int i = 0; i < N + 2; ++i) seed.push_back(i % 2 ? -1.5 : 2); xa.assign(N, 0); ta.assign(N, 0); aa.assign(2 * R, 0); ba.assign(C, 0); sa = 0; D keep = xv;
        D g = X->run(seed); const D &k = xk1, &l = xk2; D v, dx(N, 0), da(2 * R, 0), db(C, 0); double ds = 0;
        switch (xkind) {
            case X_MUL: case X_IMPR: case X_EQ: for (int i = 0; i < N; ++i) { v.push_back(xv[i] * k[i]); dx[i] = k[i] * seed[i]; } break;
            case X_SUB: for (int i = 0; i < N; ++i) { v.push_back(k[i] - xv[i] * l[i]); dx[i] = -l[i] * seed[i]; } break;
            case X_IMPL: for (int i = 0; i < N; ++i) { v.push_back(k[i] - xv[i]); dx[i] = -seed[i]; } break;
            case X_ONLY: for (int i = 0; i < N; ++i) { v.push_back(xv[i] + (k[i] + l[i])); dx[i] = seed[i]; } break;
            case X_DOT: case X_DOTI:
                if (vec) { v.assign(2, 0); for (int j = 0; j < R; ++j) for (int i = 0; i < 2; ++i) { v[i] += av[j * 2 + i] * k[j]; da[j * 2 + i] = seed[i] * k[j]; } }
                else { v.assign(R, 0); for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) { v[i] += k[j * R + i] * bv[j]; db[j] += k[j * R + i] * seed[i]; } } break;
            case X_SUM: { double t = 0; for (int i = 0; i < N; ++i) { t += xv[i] * k[i]; dx[i] = seed[0] * sv * k[i]; } v = {sv * t}; ds = seed[0] * t; break; }
            case X_PDF: { double t = 0; for (int i = 0; i < N; ++i) { double e = xv[i] - k[i]; t += e * e; dx[i] = vec ? -seed[0] * e / (sv * sv) : 2 * seed[0] * e; } v = {vec ? -0.5 * t / (sv * sv) - N * std::log(sv) : t}; if (vec) ds = seed[0] * (t / (sv * sv * sv) - N / sv); break; }
        }
        std::string e; if (!(e = cmpv(g, v, "value")).empty() || !(e = cmpv(xa, dx, "adjoint of x")).empty() || !(e = cmpv(aa, da, "adjoint of a")).empty() || !(e = cmpv(ba, db, "adjoint of b")).empty() || !(e = cmpv({sa}, {ds}, "adjoint of s")).empty()) return e;
        return xv == keep ? "" : "x changed";
    }
    static std::string cmpv(const D& g, const D& w, const char* what) { if (g.size() != w.size()) return std::string(what) + " has the wrong size"; for (size_t i = 0; i < g.size(); ++i) if (!(std::abs(g[i] - w[i]) <= 1e-12 * (1 + std::abs(w[i])))) return std::string(what) + "[" + std::to_string(i) + "] = " + ref::num(g[i]) + ", expected " + ref::num(w[i]); return ""; }
    std::string cmpk(const K_t& a, const D& d, const char* w) { if ((int)a.rows() != R || (int)a.cols() != C || (int)a.size() != N) return std::string(w) + " has the wrong size"; for (int i = 0; i < N; ++i) if (a.data()[i] != d[i] || a.get(i % R, i / R) != d[i] || a.feval().data()[i] != d[i]) return std::string(w) + "[" + std::to_string(i) + "] = " + ref::num(a.data()[i]) + ", expected " + ref::num(d[i]); return ""; }
    std::string check() {
        std::string e; if (!(e = cmpk(*k1, m1, "K1")).empty()) return e; if (!(e = cmpk(*k2, m2, "K2")).empty()) return e;
        if (src) { Eigen::Matrix<double, -1, -1> now = src->get(); for (int i = 0; i < N; ++i) if (now.data()[i] != ms[i]) return "the source was written to"; } return "";
    }
    std::string finish() { return X ? evx() : ""; }
};
template <class S> void go(Shard& sh, int len) {
    std::vector<std::pair<int, int>> z; if (S::vec) { z = {{3, 1}}; if (!std::is_same_v<S, Fixed>) { z.push_back({1, 1}); z.push_back({6, 1}); } } else z = {{2, 3}, {3, 3}, {1, 4}, {5, 1}};
    for (auto [r, c] : z) { int R = r, C = c; ops::explore<World<S>>(len, [&] { return std::make_unique<World<S>>(R, C); }, std::string(S::nm()) + " " + std::to_string(r) + "x" + std::to_string(c), sh); }
}
template <class... S> void all(Shard& sh, int len) { (go<S>(sh, len), ...); }
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv);
    all<Plain, Fixed, Column, RowT, Segment, Strided, Mapped, Sum, Product, Reversed, Diagonal, Cast, Array, PlainM, RowMajor, Block, BlockR, Transposed, MapR, MapS, SumM, ProductM, CastM, ArrayM>(sh, (sh.tier ? 5 : 4) - (DEPTHCUT));
    rep.finish();
}
