// P01: every elementwise function at every binary16 and every bfloat16 number, in every shape.
#include "engine.hpp"
using namespace eng; using ref::num;
typedef long double ld;
struct Fn { const char* name; ld (*f)(ld); ld (*d)(ld); bool (*dom)(ld); bool (*diff)(ld); double dabs; };
static bool all(ld) { return true; }
static ld sgm(ld x) { ld e = std::exp(-std::fabs(x)); return x >= 0 ? 1 / (1 + e) : e / (1 + e); }
static const Fn fns[] = {
    {"-", [](ld x) { return -x; }, [](ld) -> ld { return -1; }, all, all, 0},
    {"sin", [](ld x) { return std::sin(x); }, [](ld x) { return std::cos(x); }, all, all, 0},
    {"cos", [](ld x) { return std::cos(x); }, [](ld x) { return -std::sin(x); }, all, all, 0},
    {"tan", [](ld x) { return std::tan(x); }, [](ld x) { ld t = std::tan(x); return 1 + t * t; }, all, all, 0},
    {"asin", [](ld x) { return std::asin(x); }, [](ld x) { return 1 / std::sqrt((1 - x) * (1 + x)); }, [](ld x) { return std::fabs(x) <= 1; }, [](ld x) { return std::fabs(x) < 1; }, 0},
    {"acos", [](ld x) { return std::acos(x); }, [](ld x) { return -1 / std::sqrt((1 - x) * (1 + x)); }, [](ld x) { return std::fabs(x) <= 1; }, [](ld x) { return std::fabs(x) < 1; }, 0},
    {"atan", [](ld x) { return std::atan(x); }, [](ld x) { return 1 / (1 + x * x); }, all, all, 0},
    {"exp", [](ld x) { return std::exp(x); }, [](ld x) { return std::exp(x); }, all, all, 0},
    {"log", [](ld x) { return std::log(x); }, [](ld x) { return 1 / x; }, [](ld x) { return x > 0; }, all, 0},
    {"sqrt", [](ld x) { return std::sqrt(x); }, [](ld x) { return 1 / (2 * std::sqrt(x)); }, [](ld x) { return x >= 0; }, [](ld x) { return x > 0; }, 0},
    {"erf", [](ld x) { return std::erf(x); }, [](ld x) { return 1.12837916709551257389615890312154517L * std::exp(-x * x); }, all, all, 0},
    {"sigmoid", sgm, [](ld x) { ld e = std::exp(-std::fabs(x)); return e / ((1 + e) * (1 + e)); }, all, all, 4e-16},
    {"sinh", [](ld x) { return std::sinh(x); }, [](ld x) { return std::cosh(x); }, all, all, 0},
    {"cosh", [](ld x) { return std::cosh(x); }, [](ld x) { return std::sinh(x); }, all, all, 0},
    {"tanh", [](ld x) { return std::tanh(x); }, [](ld x) { ld e = std::cosh(x); return 1 / (e * e); }, all, all, 4e-16},
};
static ld ipow(ld x, int n) { ld r = 1; for (int i = 0; i < std::abs(n); ++i) r *= x; return n < 0 ? 1 / r : r; }

static std::vector<double> inputs;
static void make_inputs(bool wide) {
    for (int i = 0; i < 65536; ++i) {                 // binary16
        int s = i >> 15, e = (i >> 10) & 31, m = i & 1023;
        if (e == 31) continue;
        double v = e == 0 ? std::ldexp(m, -24) : std::ldexp(1024 + m, e - 25);
        inputs.push_back(s ? -v : v);
    }
    for (int i = 0; i < 65536; ++i) {                 // bfloat16
        uint32_t u = (uint32_t)i << 16; float f; std::memcpy(&f, &u, 4);
        if (std::isfinite(f) && (f == 0 || std::fabs(f) > 1e-37)) inputs.push_back(f);
    }
    // neighbourhoods of the points where formulas change or lose digits, at every distance 2^-j
    const double pi = 3.14159265358979323846;
    for (double c : {1., 0.5, 2., 4., pi / 4, pi / 2, pi, 3 * pi / 2, 2 * pi, 10 * pi, 0.69314718055994529, 20., 36.7, 88., 300.})
        for (int j = 1; j <= 51; ++j) for (int q : {-1, 1}) { double v = c + q * std::ldexp(c, -j); inputs.push_back(v); inputs.push_back(-v); }
    if (!wide) return;
    for (int e = -960; e <= 960; ++e) for (double m : {1., 1.0000000000000002, 1.25, 1.4142135623730951, 1.7320508075688772, 1.9999999999999998}) {      // every binade of double
        if (std::abs(e) < 30 || e % 4 == 0) { inputs.push_back(std::ldexp(m, e)); inputs.push_back(-std::ldexp(m, e)); }
    }
}
template <class T> struct Tol { static constexpr double rel = 2e-12, abs = 0; };
template <> struct Tol<float> { static constexpr double rel = 4e-5, abs = 4e-7; };

// f(i, x): the expression; checks all elements of one evaluation
struct Want { bool val, grad; ld f, d; double dabs, drel = 0; };
template <class T> static Want want(int k, int n, double x) {
    Want w; ld lim = std::is_same_v<T, float> ? 1e30 : 1e290, lo = std::is_same_v<T, float> ? 1e-30 : 1e-290;
    if (k >= 0) { w.val = fns[k].dom(x); w.grad = w.val && fns[k].diff(x); w.f = w.val ? fns[k].f(x) : 0; w.d = w.grad ? fns[k].d(x) : 0; w.dabs = fns[k].dabs; }
    else { w.val = n >= 0 || x != 0; w.grad = w.val; w.f = w.val ? ipow(x, n) : 0; w.d = n == 0 ? 0 : n == 1 ? 1 : w.val ? n * ipow(x, n - 1) : 0; w.dabs = 0;
        // intermediate powers must not overflow or vanish either
        ld b = x ? std::fabs(ipow(x, std::abs(n) + 1)) : 0; if (b && !(b < lim && b > lo)) w.val = w.grad = false; }
    if (!(std::fabs(w.f) < lim) || !(std::fabs(w.d) < lim)) { w.val = std::fabs(w.f) < lim && w.val; w.grad = false; }
    if (std::is_same_v<T, float> && k >= 0 && std::fabs(x) > 1e6) { w.val = w.grad = false; }      // argument reduction in float
    if (k >= 0 && (std::strcmp(fns[k].name, "exp") == 0 || k == 12 || k == 13) && std::fabs(x) > (std::is_same_v<T, float> ? 80 : 700)) { w.val = w.grad = false; }
    if ((k == 4 || k == 5) && w.grad) w.drel = 4 * (double)std::numeric_limits<T>::epsilon() / (double)((1 - x) * (1 + x));       // 1 - x^2 cancels
    return w;
}
template <class T, class Sh, class E> static void check(int k, int n, const std::string& what, E expr, T* v, T* a, const T* x, int r, int c, int seedkind) {
    int m = r * c;
    std::vector<T> cv(expr.bind_cache_size()(0), T(7.5)), ca(expr.bind_cache_size()(1), T(-3.25));
    expr.bind_cache({cv.data(), ca.data()});
    for (int i = 0; i < m; ++i) { v[i] = x[i]; a[i] = 0; }
    std::vector<double> seed(m); for (int i = 0; i < m; ++i) seed[i] = seedkind == 0 ? 1 : seedkind == 1 ? (i % 2 ? -0.75 : 1.5) + 0.25 * (i % 5) : -2.5;
    std::vector<T> out(m);
    if constexpr (std::is_same_v<Sh, ad::scl>) { out[0] = ad::evaluate(expr); ad::evaluate_adj(expr, T(seed[0])); }
    else {
        auto e = ad::evaluate(expr); if (e.size() != m || e.rows() != r) { rep.fail("SHAPE", what, "wrong shape"); return; }
        std::copy(e.data(), e.data() + m, out.begin());
        if constexpr (std::is_same_v<Sh, ad::vec>) { Eigen::Array<T, Eigen::Dynamic, 1> s(m); for (int i = 0; i < m; ++i) s[i] = seed[i]; ad::evaluate_adj(expr, s); }
        else { Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic> s(r, c); for (int i = 0; i < m; ++i) s.data()[i] = seed[i]; ad::evaluate_adj(expr, s); }
    }
    rep.transitions += 2; rep.traces++;
    for (int i = 0; i < m; ++i) {
        Want w = want<T>(k, n, x[i]);
        std::string at = what + " at x" + (m > 1 ? "[" + std::to_string(i) + "] of " + std::to_string(r) + "x" + std::to_string(c) : "") + " = " + num(x[i]) + ", seed " + num(seed[i]);
        if (!(v[i] == x[i]) ) { rep.fail("LEAF", at, "operand changed"); return; }
        if (!w.val) { rep.skipped++; continue; }
        rep.states++;
        double tol = Tol<T>::rel * (k < 0 ? 1 + std::abs(n) * 0.5 : 1);
        if (!(std::fabs(out[i] - (double)w.f) <= tol * std::fabs((double)w.f) + Tol<T>::abs + 1e-290)) { rep.fail("VALUE", at, "value " + num(out[i]) + ", expected " + num((double)w.f)); return; }
        double g = (double)w.d * seed[i];
        if (w.grad && !(std::fabs(a[i] - g) <= (tol + w.drel) * std::fabs(g) + (w.dabs * (std::is_same_v<T, float> ? 1e9 : 1) + Tol<T>::abs) * std::fabs(seed[i]) + 1e-290)) { rep.fail("GRAD", at, "adjoint " + num(a[i]) + ", expected " + num(g)); return; }
    }
}
// one function in one shape: all inputs, block by block, leaf and expression operands
template <class T, class F> static void sweep(int k, int n, const std::string& name, F f, Shard& sh) {
    using namespace ad;
    std::vector<T> x(inputs.begin(), inputs.end());
    std::vector<T> v(x.size()), a(x.size());
    bool dbl = std::is_same_v<T, double>;
    auto go = [&](auto E, auto Shp, const char* what, T* vv, T* aa, const T* xx, int r, int c, int sk) {
        if (rep.full()) return;
        check<T, decltype(Shp)>(k, n, name + what + (dbl ? "" : " <float>"), E, vv, aa, xx, r, c, sk);
    };
    if (sh.mine()) {
        rep.programs++; current = name + "(scalar)";
        VarView<T, scl> s(v.data(), a.data()); auto e = f(s); auto e2 = f(s * T(1));
        for (size_t i = 0; i < x.size() && !rep.full(); ++i) { go(e, scl(), "(scalar)", v.data(), a.data(), &x[i], 1, 1, (int)(i % 3)); if (dbl && i % 16 == 0) go(e2, scl(), "(scalar expression)", v.data(), a.data(), &x[i], 1, 1, 1); }
    }
    if (sh.mine()) {
        rep.programs++; current = name + "(vector)";
        int N = (int)x.size(); VarView<T, vec> s(v.data(), a.data(), N); go(f(s), vec(), "(vector)", v.data(), a.data(), x.data(), N, 1, 1); go(f(s * T(1)), vec(), "(vector expression)", v.data(), a.data(), x.data(), N, 1, 1);
        int st = 0;
        for (int m = 1; m <= 33; ++m) for (int rep_ = 0; rep_ < 4; ++rep_) {   // every length, unaligned starts
            int o = rep_; VarView<T, vec> w(v.data() + o, a.data() + o, m);
            go(f(w), vec(), "(short vector)", v.data() + o, a.data() + o, x.data() + (st = (st + 3571) % (N - 64)), m, 1, rep_ % 3);
        }
        for (int o = 1; o + 17 < N; o += 17) { VarView<T, vec> w(v.data(), a.data(), 17); go(f(w), vec(), "(vector 17)", v.data(), a.data(), x.data() + o, 17, 1, o % 3); }
    }
    if (sh.mine()) {
        rep.programs++; current = name + "(matrix)";
        int R = 251, C = (int)x.size() / 251; VarView<T, mat> s(v.data(), a.data(), R, C); go(f(s), mat(), "(matrix)", v.data(), a.data(), x.data(), R, C, 1); go(f(s * T(1)), mat(), "(matrix expression)", v.data(), a.data(), x.data(), R, C, 1);
        size_t st = 0;
        for (int r = 1; r <= 7; ++r) for (int c = 1; c <= 7; ++c) for (int q = 0; q < 3; ++q) { VarView<T, mat> w(v.data() + q, a.data() + q, r, c); go(f(w), mat(), "(small matrix)", v.data() + q, a.data() + q, x.data() + (st = (st + 7919) % (x.size() - 64)), r, c, q); }
    }
}
template <class T, int N, int M> static void pows(Shard& sh) {
    sweep<T>(-1, N, "pow<" + std::to_string(N) + ">", [](const auto& e) { return ad::pow<N>(e); }, sh);
    if constexpr (N < M) pows<T, N + 1, M>(sh);
}
template <class T, int H> static void functions(Shard& sh) {
    if constexpr (H == 0) {
    sweep<T>(0, 0, "-", [](const auto& e) { return -e; }, sh);
#define F(i, fn) sweep<T>(i, 0, #fn, [](const auto& e) { return ad::fn(e); }, sh);
    F(1, sin) F(2, cos) F(3, tan) F(4, asin) F(5, acos) F(6, atan) F(7, exp)
    } else {
    F(8, log) F(9, sqrt) F(10, erf) F(11, sigmoid) F(12, sinh) F(13, cosh) F(14, tanh)
    }
}
#if PART == 0
void part1(Shard&); void part2(Shard&); void part3(Shard&); void part4(Shard&); void part5(Shard&); void part6(Shard&); void part7(Shard&);
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv);
    part1(sh); part2(sh); part3(sh); part4(sh); part5(sh); part6(sh); part7(sh);
    rep.finish();
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(part, PART)(Shard& sh) {
    inputs.clear(); make_inputs(PART != 3 && PART != 4);
#if PART == 1
    functions<double, 0>(sh);
#elif PART == 2
    functions<double, 1>(sh);
#elif PART == 3
    functions<float, 0>(sh);
#elif PART == 4
    functions<float, 1>(sh);
#elif PART == 5
    pows<double, -6, -1>(sh);
#elif PART == 6
    pows<double, 0, 5>(sh);
#elif PART == 7
    pows<double, 6, 10>(sh); pows<double, 17, 17>(sh);
#endif
}
#endif
