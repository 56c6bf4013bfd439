// P16: forward mode.  Every straight-line program over three forward variables, executed on the real
// ForwardVar next to dual numbers in long double with a running error bound; every representable
// half-precision input for every function; all pairs of values and directions for the operators.
#include "engine.hpp"
#include <fastad_bits/forward.hpp>
#include <vector>
using namespace ad;
using eng::rep; using eng::Shard;
typedef long double L;
struct Q { L v = 0, e = 0; bool ok() const { return std::isfinite((double)v) && fabsl(v) < 1e30L && e <= 1e-7L * (1 + fabsl(v)); } };
struct D { Q w, d; };
static L U = 4e-16L;
static Q rnd(Q a) { a.e += U * fabsl(a.v) + (U > 1e-10L ? 1e-37L : 0); return a; }
static Q operator+(Q a, Q b) { return rnd({a.v + b.v, a.e + b.e}); }
static Q operator-(Q a, Q b) { return rnd({a.v - b.v, a.e + b.e}); }
static Q operator*(Q a, Q b) { return rnd({a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e}); }
static Q inv(Q a) { L m = fabsl(a.v) - a.e; return m > 0 ? rnd({1 / a.v, a.e / (m * fabsl(a.v))}) : Q{NAN, 0}; }
static Q operator/(Q a, Q b) { return a * inv(b); }
enum { NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, EXP, LOG, SQRT, ERF, NU };
static const char* UN[] = {"-", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "erf"};
static const L PI2 = 1.128379167095512573896L;
// f, f' and |f''| at x
static bool fun(int f, L x, L& y, L& d, L& s) {
    switch (f) {
        case NEG: y = -x; d = -1; s = 0; return true;
        case SIN: y = sinl(x); d = cosl(x); s = 1; return fabsl(x) < 1e6L; case COS: y = cosl(x); d = -sinl(x); s = 1; return fabsl(x) < 1e6L;
        case TAN: { L c = cosl(x); y = tanl(x); d = 1 / (c * c); s = 2 * fabsl(y) * d; return fabsl(x) < 1e6L && fabsl(c) > 1e-9L; }
        case ASIN: { L m = 1 - x * x; y = asinl(x); d = 1 / sqrtl(m); s = fabsl(x) * d / m; return m > 1e-9L; } case ACOS: { L m = 1 - x * x; y = acosl(x); d = -1 / sqrtl(m); s = fabsl(x * d / m); return m > 1e-9L; }
        case ATAN: y = atanl(x); d = 1 / (1 + x * x); s = 2 * fabsl(x) * d * d; return fabsl(x) < 1e150L; case EXP: y = d = expl(x); s = y; return x < 650 && x > -650;
        case LOG: y = logl(x); d = 1 / x; s = d * d; return x > 0; case SQRT: y = sqrtl(x); d = 0.5L / y; s = 0.5L * d / x; return x > 0;
        case ERF: y = erfl(x); d = PI2 * expl(-x * x); s = 2 * fabsl(x) * d; return true;
    }
    return false;
}
static bool mun(int f, const D& a, D& r) {
    L y, d, s; if (!fun(f, a.w.v, y, d, s)) return false;
    L lo, hi, t1, t2, s2 = s; if (a.w.e > 0) { L a1, a2; if (!fun(f, a.w.v - a.w.e, a1, lo, t1) || !fun(f, a.w.v + a.w.e, a2, hi, t2)) return false; s2 = std::max(s, std::max(t1, t2)); }
    if (f == NEG) { r.w = {-a.w.v, a.w.e}; r.d = {-a.d.v, a.d.e}; return true; }
    Q df{d, s2 * a.w.e + 8 * U * (fabsl(d) + (f == SIN || f == COS ? 0 : 0))}; if (f == ASIN || f == ACOS) df.e += 4 * U * d * d * fabsl(d); if (f == TAN || f == ERF || f == EXP) df.e += U * fabsl(d) * (1 + 4 * a.w.v * a.w.v * (f == ERF));
    L dm = fabsl(d) + s2 * a.w.e; r.w = {y, dm * a.w.e + 4 * U * fabsl(y) + (f == LOG ? U : 0)}; r.d = df * a.d; return true;
}
static bool mbin(int op, const D& a, const D& b, D& r) {
    switch (op) { case 0: r = {a.w + b.w, a.d + b.d}; return true; case 1: r = {a.w - b.w, a.d - b.d}; return true; case 2: r = {a.w * b.w, a.w * b.d + a.d * b.w}; return true;
        default: if (fabsl(b.w.v) < 1e-12L || b.w.e * 100 > fabsl(b.w.v)) return false; r = {a.w / b.w, (a.d * b.w - a.w * b.d) / (b.w * b.w)}; return true; }
}
template <class T> ForwardVar<T> fun_(int f, const ForwardVar<T>& x) {
    switch (f) { case NEG: return -x; case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ASIN: return asin(x); case ACOS: return acos(x); case ATAN: return atan(x); case EXP: return exp(x); case LOG: return log(x); case SQRT: return sqrt(x); default: return erf(x); }
}
template <class T> ForwardVar<T> bin_(int op, const ForwardVar<T>& x, const ForwardVar<T>& y) { switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; } }
template <class T> bool near_(T g, const Q& w) { if (std::isnan((double)g)) return false; return fabsl((L)g - w.v) <= 4 * w.e + 1e-300L; }
static bool tame(const D& d) { return d.w.ok() && std::isfinite((double)d.d.v) && fabsl(d.d.v) < 1e30L; }
constexpr int NR = 3;
struct Ins { int k, d, a, b; };           // 0 unary, 1 binary, 2 +=, 3 copy, 4 plain assignment, 5 += plain, 6 set_value, 7 set_adjoint, 8 get_value()=, 9 get_adjoint()=, 10 swap, 11 v=f(a) op b in one expression, 12 set_value(get of other)
static std::string istr(const Ins& i) {
    auto r = [](int x) { return "r" + std::to_string(x); }; static const char* B[] = {"+", "-", "*", "/"};
    switch (i.k) { case 0: return r(i.d) + "=" + UN[i.b] + "(" + r(i.a) + ")"; case 1: return r(i.d) + "=" + r(i.a) + B[i.b / NR] + r(i.b % NR); case 2: return r(i.d) + "+=" + r(i.a); case 3: return r(i.d) + "=" + r(i.a); case 4: return r(i.d) + "=0.75"; case 5: return r(i.d) + "+=0.75";
        case 6: return r(i.d) + ".set_value(1.25)"; case 7: return r(i.d) + ".set_adjoint(-1.5)"; case 8: return r(i.d) + ".get_value()=0.5"; case 9: return r(i.d) + ".get_adjoint()=2"; case 10: return "swap(" + r(i.d) + "," + r(i.a) + ")"; default: return r(i.d) + "=" + UN[i.b] + "(" + r(i.a) + ")*" + r(i.d) + "+" + r(i.a); }
}
static std::vector<Ins> menu() {
    std::vector<Ins> m;
    for (int d = 0; d < NR; ++d) for (int a = 0; a < NR; ++a) {
        for (int f = 0; f < NU; ++f) m.push_back({0, d, a, f});
        for (int op = 0; op < 4; ++op) for (int b = 0; b < NR; ++b) m.push_back({1, d, a, op * NR + b});
        m.push_back({2, d, a, 0}); m.push_back({3, d, a, 0}); if (d < a) m.push_back({10, d, a, 0});
        for (int f : {SIN, EXP, SQRT}) m.push_back({11, d, a, f});
    }
    for (int d = 0; d < NR; ++d) for (int k = 4; k < 10; ++k) m.push_back({k, d, 0, 0});
    return m;
}
template <class T> struct Explore {
    std::vector<Ins> M = menu(); std::vector<Ins> path; std::string start; Shard& sh; int len;
    struct State { std::vector<ForwardVar<T>> r; D m[NR]; };
    static bool exec(const Ins& i, State& s) {
        auto& d = s.r[i.d]; auto& a = s.r[i.a]; D& md = s.m[i.d]; D ma = s.m[i.a]; D t;
        switch (i.k) {
            case 0: if (!mun(i.b, ma, t)) return false; d = fun_<T>(i.b, a); md = t; break;
            case 1: if (!mbin(i.b / NR, ma, s.m[i.b % NR], t)) return false; d = bin_<T>(i.b / NR, a, s.r[i.b % NR]); md = t; break;
            case 2: d += a; md = {md.w + ma.w, md.d + ma.d}; break;
            case 3: d = a; md = ma; break;
            case 4: d = T(0.75); md = {{0.75L, 0}, {0, 0}}; break;
            case 5: d += T(0.75); md = {md.w + Q{0.75L, 0}, md.d}; break;
            case 6: d.set_value(T(1.25)); md.w = {1.25L, 0}; break; case 7: d.set_adjoint(T(-1.5)); md.d = {-1.5L, 0}; break; case 8: d.get_value() = T(0.5); md.w = {0.5L, 0}; break; case 9: d.get_adjoint() = T(2); md.d = {2, 0}; break;
            case 10: std::swap(d, a); std::swap(s.m[i.d], s.m[i.a]); break;
            default: { D p, q, z; if (!mun(i.b, ma, p) || !mbin(2, p, md, q) || !mbin(0, q, ma, z)) return false; d = fun_<T>(i.b, a) * d + a; md = z; }
        }
        return true;
    }
    std::string where() { std::string o = start; for (auto& i : path) o += "; " + istr(i); return o; }
    void dfs(const State& s, int left) {
        for (size_t q = 0; q < M.size(); ++q) {
            if (rep.full()) return;
            if (left == len && !sh.mine()) continue;
            State t = s; path.push_back(M[q]);
            if (exec(M[q], t)) {
                bool go = true; for (int k = 0; k < NR; ++k) go = go && tame(t.m[k]);
                rep.transitions++;
                if (!go) rep.skipped++;
                else {
                    rep.states++;
                    for (int k = 0; k < NR; ++k) {
                        const auto& c = t.r[k];
                        if (!near_(c.get_value(), t.m[k].w)) { rep.fail("VALUE", where(), "r" + std::to_string(k) + " has value " + ref::num((double)c.get_value()) + ", expected " + ref::num((double)t.m[k].w.v)); go = false; }
                        else if (!near_(c.get_adjoint(), t.m[k].d)) { rep.fail("GRAD", where(), "r" + std::to_string(k) + " has adjoint " + ref::num((double)c.get_adjoint()) + ", expected " + ref::num((double)t.m[k].d.v)); go = false; }
                    }
                    if (rep.states % 2000003 == 5) rep.sample(where());
                    if (go && left > 1) dfs(t, left - 1); else if (go) rep.traces++;
                }
            } else rep.skipped++;
            path.pop_back();
        }
    }
    void run(const std::vector<std::array<double, 2>>& in) {
        State s; start = "start"; for (int k = 0; k < NR; ++k) { s.r.push_back(ForwardVar<T>(T(in[k][0]), T(in[k][1]))); s.m[k] = {{(L)T(in[k][0]), 0}, {(L)T(in[k][1]), 0}}; start += " r" + std::to_string(k) + "=(" + ref::num(in[k][0]) + "," + ref::num(in[k][1]) + ")"; }
        for (int k = 0; k < NR; ++k) { const auto& c = s.r[k]; if ((L)c.get_value() != s.m[k].w.v || (L)c.get_adjoint() != s.m[k].d.v) { rep.fail("VALUE", start, "a new variable does not hold what it was given"); return; } }
        rep.programs++; dfs(s, len);
    }
};
static double half(unsigned h, bool bf) {
    int eb = bf ? 8 : 5, mb = bf ? 7 : 10, bias = bf ? 127 : 15; int sgn = h >> 15, e = (h >> mb) & ((1 << eb) - 1), m = h & ((1 << mb) - 1);
    if (e == (1 << eb) - 1) return NAN; double v = e ? std::ldexp(1 + std::ldexp(m, -mb), e - bias) : std::ldexp(m, 1 - bias - mb); return sgn ? -v : v;
}
template <class T> void values(Shard& sh, const char* tn) {
    static const double dirs[] = {1, -2.5, 0, 3e3};
    for (int f = 0; f < NU; ++f) for (int bf = 0; bf < 2; ++bf) for (unsigned h = 0; h < 65536; ++h) {
        if (h % sh.n != (unsigned)sh.i) continue;
        double x = half(h, bf); if (std::isnan(x)) continue;
        for (double dir : dirs) {
            D a{{x, 0}, {(L)T(dir), 0}}, r; if (!mun(f, a, r) || !tame(r) || fabsl(r.d.v) > (sizeof(T) == 4 ? 1e30L : 1e290L)) { rep.skipped++; continue; }
            if (sizeof(T) == 4 && (fabsl(r.w.v) > 1e30L || (r.w.v != 0 && fabsl(r.w.v) < 1e-30L) || (r.d.v != 0 && fabsl(r.d.v) < 1e-30L) || fabs(x) > 1e15 || (x && fabs(x) < 1e-15))) { rep.skipped++; continue; }
            ForwardVar<T> v{T(x), T(dir)}; ForwardVar<T> y = fun_<T>(f, v); rep.states++; rep.transitions++; rep.traces++;
            std::string n = std::string(tn) + " " + UN[f] + "(" + ref::num(x) + ") direction " + ref::num(dir);
            if (!near_(y.get_value(), r.w)) rep.fail("VALUE", n, ref::num((double)y.get_value()) + ", expected " + ref::num((double)r.w.v));
            else if (!near_(y.get_adjoint(), r.d)) rep.fail("GRAD", n, ref::num((double)y.get_adjoint()) + ", expected " + ref::num((double)r.d.v));
            if ((L)v.get_value() != (L)x || (L)v.get_adjoint() != (L)T(dir)) rep.fail("STATE", n, "the operand changed");
            if (rep.full()) return;
        }
    }
    static const double A[] = {0, 1, -1, 2, -3, 0.5, 1e-8, -1e8, 7.25, 1e5, -0.3, 12, 3, -1e-3};
    for (double x : A) for (double y : A) for (double p : A) for (double q : A) for (int op = 0; op < 4; ++op) {
        if (!sh.mine()) continue;
        D a{{(L)T(x), 0}, {(L)T(p), 0}}, b{{(L)T(y), 0}, {(L)T(q), 0}}, r; if (!mbin(op, a, b, r) || !tame(r)) { rep.skipped++; continue; }
        ForwardVar<T> u, v; u.set_value(T(x)); u.set_adjoint(T(p)); v.set_value(T(y)); v.set_adjoint(T(q)); ForwardVar<T> z = bin_<T>(op, u, v); rep.states++; rep.transitions++; rep.traces++;
        std::string n = std::string(tn) + " (" + ref::num(x) + "," + ref::num(p) + ") " + "+-*/"[op] + " (" + ref::num(y) + "," + ref::num(q) + ")";
        if (!near_(z.get_value(), r.w)) rep.fail("VALUE", n, ref::num((double)z.get_value()) + ", expected " + ref::num((double)r.w.v));
        else if (!near_(z.get_adjoint(), r.d)) rep.fail("GRAD", n, ref::num((double)z.get_adjoint()) + ", expected " + ref::num((double)r.d.v));
        if (rep.full()) return;
    }
    ForwardVar<T> z; if (z.get_value() != 0 || z.get_adjoint() != 0) rep.fail("VALUE", "default construction", "not zero");
    ForwardVar<T> w(T(1.5)); if (w.get_value() != T(1.5) || w.get_adjoint() != 0) rep.fail("VALUE", "construction from a number", "wrong");
    if (w.set_value(2) != 2 || w.set_adjoint(3) != 3 || w.get_value() != 2 || w.get_adjoint() != 3) rep.fail("VALUE", "setters", "wrong");
}
int main(int argc, char** argv) {
    Shard sh = eng::shard_args(argc, argv);
    static const std::vector<std::vector<std::array<double, 2>>> IN = {{{0.4, 1}, {0.7, 0}, {-0.3, 0}}, {{0.25, -0.5}, {-0.6, 2}, {1.75, 3}}, {{0, 1}, {1, 1}, {2, -1}}, {{-2.5, 0.125}, {0.9, 0}, {0.1, -4}}};
    { U = 4e-16L; Explore<double> e{menu(), {}, "", sh, 3}; for (auto& i : IN) e.run(i); }
    if (sh.tier) { Explore<double> e{menu(), {}, "", sh, 4}; e.run(IN[1]); }
    values<double>(sh, "double");
    { U = 2.4e-7L; Explore<float> e{menu(), {}, "", sh, 2}; for (auto& i : IN) e.run(i); }
    values<float>(sh, "float");
    rep.finish();
}
