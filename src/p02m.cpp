// P02: scalar operands of every pair of arithmetic value types, as variables, literals, constants and sub-expressions; and a
// scalar of the literal types next to vectors and matrices of every floating type.
#include "engine.hpp"
#include <cmath>
using namespace eng;
typedef long double ld;
template <class T> const char* tn();
#define TN(T) template <> inline const char* tn<T>() { return #T; }
TN(bool) TN(short) TN(int) TN(unsigned) TN(float) TN(double) TN(ld)
template <class T> double eps() { return sizeof(T) == 4 ? 2e-6 : 4e-15; }
static const double VALS[] = {1, 2, 3, 0, 5, 7, 100, 0.5, -1, -2, -3, 0.1, 1.0 / 3, 1000003, -16777217, 2147483647, 1e-3, -123.456};
template <class T> std::vector<T> vals() { std::vector<T> o; for (double d : VALS) { if (std::is_integral_v<T> && (d != std::floor(d) || (std::is_unsigned_v<T> && d < 0) || d > (double)std::numeric_limits<T>::max() || d < (double)std::numeric_limits<T>::lowest())) continue; T v = (T)d; if (std::find(o.begin(), o.end(), v) == o.end()) o.push_back(v); } return o; }
template <int OP, class A, class B> auto ap(const A& a, const B& b) { if constexpr (OP == 0) return a + b; else if constexpr (OP == 1) return a - b; else if constexpr (OP == 2) return a * b; else return a / b; }
static const char* ON[] = {"+", "-", "*", "/"};
static ld dl(int op, ld a, ld b) { (void)a; return op < 2 ? 1 : op == 2 ? b : 1 / b; }
static ld dr(int op, ld a, ld b) { return op == 0 ? 1 : op == 1 ? -1 : op == 2 ? a : -a / (b * b); }
static bool off(ld got, ld want, double tol) { return !(std::fabs(got - want) <= tol * std::fabs(want) + 1e-300L); }
struct Run {
    Shard& sh;
    // x is the variable of type T on the left (L) or right; the other operand is o
    template <int OP, class T, class U, bool L, class O> void one(T& x, T& a, U u, const O& o, const char* how, ad::VarView<U>* ov = nullptr, U* oa = nullptr) {
        using C = std::common_type_t<T, U>;
        ad::VarView<T> v(&x, &a);
        for (int inner = 0; inner < 2; ++inner) {          // the variable itself, or a sub-expression of it
            auto f = [&](auto e) {
                static_assert(std::is_same_v<typename decltype(e)::value_t, C>);
                auto b = ad::bind(e); ld lx = inner ? (ld)(x * x) : (ld)x, l = L ? lx : (ld)u, r = L ? (ld)u : lx; if (OP == 3 && r == 0) return;
                ld want = ap<OP, ld, ld>(l, r), mag = OP < 2 ? std::fabs(l) + std::fabs(r) : std::fabs(want); if (std::fabs(want) > 1e30L || std::fabs(lx) > 1e30L) return;
                double tol = std::max({eps<C>(), eps<T>()}); if (inner) tol *= 4;
                for (C seed : {C(1), C(-2.5), C(0)}) {
                    rep.states++; rep.traces++; rep.transitions += 2; a = 0; if (oa) *oa = 0; T keep = x;
                    auto name = [&] { return std::string(L ? (inner ? "(x*x) " : "x ") : std::string(how) + " ") + ON[OP] + (L ? std::string(" ") + how : inner ? " (x*x)" : " x") + " with x " + tn<T>() + " = " + ref::num((double)x) + ", " + tn<U>() + " = " + ref::num((double)u) + ", seed " + ref::num((double)seed); };
                    C got = ad::autodiff(b, seed);
                    if (std::fabs((ld)got - want) > tol * mag) { rep.fail("VALUE", name(), "the value is " + ref::num((double)got) + ", expected " + ref::num((double)want)); return; }
                    ld g = seed * (L ? dl(OP, l, r) : dr(OP, l, r)) * (inner ? 2 * (ld)x : 1), go = seed * (L ? dr(OP, l, r) : dl(OP, l, r));
                    if (std::fabs(g) > 1e30L || std::fabs(go) > 1e30L) continue;
                    if (off(a, g, tol * 8)) { rep.fail("GRAD", name(), "the adjoint of x is " + ref::num((double)a) + ", expected " + ref::num((double)g)); return; }
                    if (oa && off(*oa, go, std::max(tol, eps<U>()) * 8)) { rep.fail("GRAD", name(), "the adjoint of y is " + ref::num((double)*oa) + ", expected " + ref::num((double)go)); return; }
                    if (x != keep) { rep.fail("STATE", name(), "x changed"); return; }
                }
            };
            if constexpr (std::is_same_v<T, C>) { if (inner) { auto s = v * v; if constexpr (L) f(ap<OP>(s, o)); else f(ap<OP>(o, s)); continue; } }      // memory is of the common type
            if (!inner) { if constexpr (L) f(ap<OP>(v, o)); else f(ap<OP>(o, v)); }
        }
    }
    template <int OP, class T, class U> void pair() {
        rep.programs++;
        for (T xv : vals<T>()) for (U u : vals<U>()) {
            if (!sh.mine() || rep.full()) continue;
            current = std::string(tn<T>()) + " " + ON[OP] + " " + tn<U>() + " at " + ref::num((double)xv) + ", " + ref::num((double)u);
            T x = xv, a = 0;
            one<OP, T, U, true>(x, a, u, u, "literal"); one<OP, T, U, false>(x, a, u, u, "literal");
            one<OP, T, U, true>(x, a, u, ad::constant(u), "constant(u)"); one<OP, T, U, false>(x, a, u, ad::constant(u), "constant(u)");
            if constexpr (std::is_floating_point_v<U>) { U y = u, ya = 0; ad::VarView<U> v(&y, &ya); one<OP, T, U, true>(x, a, u, v, "y", &v, &ya); }
        }
    }
    template <class T> void first() { each<T, bool>(); each<T, short>(); each<T, int>(); each<T, unsigned>(); each<T, float>(); each<T, double>(); each<T, ld>(); }
    template <class T, class U> void each() { pair<0, T, U>(); pair<1, T, U>(); pair<2, T, U>(); pair<3, T, U>(); }
    // a scalar of an integer type and a vector or matrix
    template <int OP, class T, class U, class Sh> void wide() {
        rep.programs++;
        constexpr bool V = std::is_same_v<Sh, ad::vec>; using Arr = std::conditional_t<V, Eigen::Array<T, Eigen::Dynamic, 1>, Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic>>;
        for (U u : vals<U>()) for (int n : {0, 1, 2, 5, 9}) for (int m : {1, 3}) {
            if ((V && m > 1) || !sh.mine() || rep.full()) continue;
            int N = n * m; std::vector<T> x(N + 1), a(N + 1), k(N + 1); auto all = vals<T>(); for (int i = 0; i < N; ++i) k[i] = x[i] = all[(i * 7 + n) % all.size()];
            auto v = [&] { if constexpr (V) return ad::VarView<T, ad::vec>(x.data(), a.data(), n); else return ad::VarView<T, ad::mat>(x.data(), a.data(), n, m); }();
            Arr s(n, m); for (int i = 0; i < N; ++i) s.data()[i] = T(i % 3 - 1.5);
            auto f = [&](auto e, bool left, const char* how) {
                auto b = ad::bind(e); rep.states++; rep.traces++; rep.transitions += 2; std::fill(a.begin(), a.end(), T(0)); Arr got = ad::autodiff(b, s);
                for (int i = 0; i < N; ++i) {
                    ld l = left ? (ld)x[i] : (ld)u, r = left ? (ld)u : (ld)x[i]; if (OP == 3 && r == 0) continue;
                    ld want = ap<OP, ld, ld>(l, r), g = s.data()[i] * (left ? dl(OP, l, r) : dr(OP, l, r)), mag = OP < 2 ? std::fabs(l) + std::fabs(r) : std::fabs(want);
                    auto name = [&] { return std::string(left ? "x " : "") + (left ? "" : how) + " " + ON[OP] + " " + (left ? how : "x") + " with x a " + tn<T>() + (V ? " vector" : " matrix") + " of " + std::to_string(N) + ", " + tn<U>() + " = " + ref::num((double)u) + ", element " + std::to_string(i) + " = " + ref::num((double)x[i]); };
                    if (std::fabs((ld)got.data()[i] - want) > eps<T>() * mag) { rep.fail("VALUE", name(), "the value is " + ref::num((double)got.data()[i]) + ", expected " + ref::num((double)want)); return; }
                    if (off(a[i], g, eps<T>() * 8)) { rep.fail("GRAD", name(), "the adjoint is " + ref::num((double)a[i]) + ", expected " + ref::num((double)g)); return; }
                    if (x[i] != k[i]) { rep.fail("STATE", name(), "x changed"); return; }
                }
            };
            f(ap<OP>(v, T(u)), true, "literal"); f(ap<OP>(T(u), v), false, "literal"); f(ap<OP>(v, ad::constant(T(u))), true, "constant"); f(ap<OP>(ad::constant(T(u)), v), false, "constant");
            if constexpr (MIXED<T, U>) { f(ap<OP>(v, u), true, "literal of its type"); f(ap<OP>(u, v), false, "literal of its type"); f(ap<OP>(v, ad::constant(u)), true, "constant of its type"); f(ap<OP>(ad::constant(u), v), false, "constant of its type"); }
        }
    }
    template <class T, class U> static constexpr bool MIXED = std::is_same_v<T, U> || (std::is_same_v<U, int>) || (std::is_same_v<U, float> && std::is_same_v<T, double>);
    template <class T, class U> void wides() { wide<0, T, U, ad::vec>(); wide<1, T, U, ad::vec>(); wide<2, T, U, ad::vec>(); wide<3, T, U, ad::vec>(); wide<0, T, U, ad::mat>(); wide<1, T, U, ad::mat>(); wide<2, T, U, ad::mat>(); wide<3, T, U, ad::mat>(); }
};
void part1(Shard&); void part2(Shard&); void part3(Shard&);
#if PART == 0
int main(int argc, char** argv) { Shard sh = shard_args(argc, argv); part1(sh); part2(sh); part3(sh); rep.finish(); }
#elif PART == 1
void part1(Shard& sh) { Run r{sh}; r.first<float>(); r.wides<float, float>(); r.wides<float, int>(); }
#elif PART == 2
void part2(Shard& sh) { Run r{sh}; r.first<double>(); r.wides<double, double>(); r.wides<double, int>(); r.wides<double, float>(); }
#else
void part3(Shard& sh) { Run r{sh}; r.first<ld>(); r.wides<ld, ld>(); r.wides<ld, int>(); }
#endif
