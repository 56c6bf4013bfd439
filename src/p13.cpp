// P13: owned constants keep their data, constant views follow the memory they view.  Every sequence
// of operations on sources, constants, copies, containers and expressions built from them.
#include "ops.hpp"
#include <optional>
using namespace eng;
enum Op { SRC_W, SRC_DEL, SRC_NEW, BUF_W, BUF_ALL, SC_W, K_SRC, K_TMP, K_FN, L_K, L_ASSIGN, L_MOVE, K_L, PUSH, PUSHL, ERASE, K_BOX, V_BUF, V_COPY, X_K, X_L, X_V, X_FOLD, X_SC, X_MIX, X_IF, X_EQ, X_BOX, EVX, INP, NOPS };
static const char* NAMES[] = {"source[1]=n", "delete source", "new source", "memory[0]=n", "memory=n..", "k=n", "K=constant(source)", "K=constant(source+1)", "K=f() returning a constant", "L=copy of K", "L=K", "L=move(K)", "K=L", "box.push_back(K)", "box.push_back(move(L))", "box.erase(begin)", "K=box.back()", "W=constant_view(memory)", "W=copy of W",
    "X=bind(x*K)", "X=bind(x*L)", "X=bind(x*W)", "X=bind(x*(K*2+1))", "X=bind(x*constant(k)+k)", "X=bind(W-x*K)", "X=bind(if_else(s,K,W))", "X=bind((t=W,t*x))", "X=bind(x*box.back())", "autodiff(X)", "set other inputs"};
template <class Sh> struct Tr;
template <> struct Tr<ad::vec> { using M = Eigen::VectorXd; static constexpr int R = 3, C = 1; static M make() { return M::Zero(3); } static auto view(const double* p) { return ad::constant_view(p, 3); } static auto var(double* v, double* a) { return ad::VarView<double, ad::vec>(v, a, 3); } };
template <> struct Tr<ad::mat> { using M = Eigen::MatrixXd; static constexpr int R = 2, C = 3; static M make() { return M::Zero(2, 3); } static auto view(const double* p) { return ad::constant_view(p, 2, 3); } static auto var(double* v, double* a) { return ad::VarView<double, ad::mat>(v, a, 2, 3); } };
template <class Sh> struct World {
    using T = Tr<Sh>; using M = typename T::M; using K_t = decltype(ad::constant(std::declval<const M&>())); using V_t = decltype(T::view(nullptr)); using Var = ad::VarView<double, Sh>;
    static constexpr int N = T::R * T::C;
    static std::string name(int o) { return NAMES[o]; } static int count() { return NOPS; }
    struct Base { virtual ~Base() {} virtual std::vector<double> run(const std::vector<double>& seed) = 0; };
    template <class E> struct Ex : Base { E e; Ex(const E& x) : e(x) {} std::vector<double> run(const std::vector<double>& seed) override { using A = std::conditional_t<std::is_same_v<Sh, ad::vec>, Eigen::ArrayXd, Eigen::ArrayXXd>; A s(T::R, T::C); std::copy(seed.begin(), seed.end(), s.data()); auto v = ad::autodiff(e, s); return std::vector<double>(v.data(), v.data() + v.size()); } };
    template <class E> static std::unique_ptr<Base> wrap(const E& e) { auto b = ad::bind(e); return std::make_unique<Ex<decltype(b)>>(b); }
    std::vector<double> xv = std::vector<double>(N), xa = std::vector<double>(N), tv = std::vector<double>(N), ta = std::vector<double>(N); double sv = 1, sa = 0;
    std::unique_ptr<M> src; std::unique_ptr<double[]> mem{new double[N]}; double k = 3; std::optional<K_t> K, L; std::vector<K_t> box; std::optional<V_t> W; std::unique_ptr<Base> X;
    using D = std::vector<double>; D msrc, mmem, mK, mL; std::vector<D> mbox; int fresh = 2; bool hasW = false;
    int xkind = -1; D xk; double xs = 0; int in = 0;
    D data(const M& m) { return D(m.data(), m.data() + N); }
    explicit World(int start) { for (int i = 0; i < N; ++i) { mem[i] = fresh++; mmem.push_back(mem[i]); } newsrc(); inputs(0); if (start) { for (int o : {K_SRC, L_K, V_BUF, X_K, PUSH}) apply(o); } if (start == 2) for (int o : {K_TMP, X_MIX, PUSHL}) apply(o); }
    void newsrc() { src.reset(new M(T::make())); msrc.clear(); for (int i = 0; i < N; ++i) { src->data()[i] = fresh++; msrc.push_back(src->data()[i]); } }
    void inputs(int i) { in = i; for (int j = 0; j < N; ++j) xv[j] = i ? 2 - j : j + 0.5; sv = i ? 0 : 1; }
    Var x() { return T::var(xv.data(), xa.data()); } Var t() { return T::var(tv.data(), ta.data()); }
    static K_t fn() { M m = T::make(); for (int i = 0; i < N; ++i) m.data()[i] = 50 + i; return ad::constant(m); }
    bool enabled(int o) {
        switch (o) { case SRC_W: case SRC_DEL: return !!src; case SRC_NEW: return !src; case K_SRC: case K_TMP: return !!src; case K_FN: case BUF_W: case BUF_ALL: case SC_W: case V_BUF: case X_SC: case X_EQ: case INP: return o != X_EQ || W.has_value();
            case L_K: case X_K: case X_FOLD: return K.has_value(); case L_ASSIGN: case L_MOVE: case K_L: return K.has_value() && L.has_value(); case PUSH: return K.has_value() && box.size() < 3; case PUSHL: return L.has_value() && box.size() < 3; case ERASE: case X_BOX: return !box.empty(); case K_BOX: return K.has_value() && !box.empty(); case V_COPY: case X_V: return W.has_value(); case X_L: return L.has_value(); case X_MIX: case X_IF: return K.has_value() && W.has_value(); case EVX: return !!X; }
        return false;
    }
    std::string apply(int o) {
        double n = fresh++;
        switch (o) {
            case SRC_W: src->data()[1] = msrc[1] = n; break; case SRC_DEL: src.reset(); break; case SRC_NEW: newsrc(); break; case BUF_W: mem[0] = mmem[0] = n; break; case BUF_ALL: for (int i = 0; i < N; ++i) mem[i] = mmem[i] = n + i; break; case SC_W: k = n; break;
            case K_SRC: K.emplace(ad::constant(*src)); mK = msrc; break; case K_TMP: { M m = *src; m.array() += 1; K.emplace(ad::constant(m)); mK = data(m); break; } case K_FN: K.emplace(fn()); mK.clear(); for (int i = 0; i < N; ++i) mK.push_back(50 + i); break;
            case L_K: L.emplace(*K); mL = mK; break; case L_ASSIGN: *L = *K; mL = mK; break; case L_MOVE: *L = std::move(*K); mL = mK; K.reset(); break; case K_L: *K = *L; mK = mL; break;
            case PUSH: box.push_back(*K); mbox.push_back(mK); break; case PUSHL: box.push_back(std::move(*L)); mbox.push_back(mL); L.reset(); break; case ERASE: box.erase(box.begin()); mbox.erase(mbox.begin()); break; case K_BOX: *K = box.back(); mK = mbox.back(); break;
            case V_BUF: W.emplace(T::view(mem.get())); break; case V_COPY: { V_t w(*W); W.emplace(w); break; }
            case X_K: X = wrap(x() * *K); xk = mK; break; case X_L: X = wrap(x() * *L); xk = mL; break; case X_V: X = wrap(x() * *W); break; case X_FOLD: X = wrap(x() * (*K * 2. + 1.)); xk = mK; break; case X_SC: X = wrap(x() * ad::constant(k) + k); xs = k; break;
            case X_MIX: X = wrap(*W - x() * *K); xk = mK; break; case X_IF: X = wrap(ad::if_else(ad::VarView<double>(&sv, &sa), *K, *W)); xk = mK; break; case X_EQ: X = wrap((t() = *W, t() * x())); break; case X_BOX: X = wrap(x() * box.back()); xk = mbox.back(); break;
            case INP: inputs(1 - in); return "";
            case EVX: {
                D seed; for (int i = 0; i < N; ++i) seed.push_back(i % 2 ? -1.5 : 2); xa.assign(N, 0); ta.assign(N, 0); sa = 0; D in_ = xv;
                D g = X->run(seed);
                for (int i = 0; i < N; ++i) {
                    double v = 0, d = 0, q = xv[i];
                    switch (xkind) { case X_K: case X_L: case X_BOX: v = q * xk[i]; d = xk[i]; break; case X_V: case X_EQ: v = q * mmem[i]; d = mmem[i]; break; case X_FOLD: d = 2 * xk[i] + 1; v = q * d; break; case X_SC: d = xs; v = q * xs + xs; break; case X_MIX: v = mmem[i] - q * xk[i]; d = -xk[i]; break; case X_IF: v = sv ? xk[i] : mmem[i]; break; }
                    if (g.size() != (size_t)N || g[i] != v) return "value[" + std::to_string(i) + "] = " + ref::num(g[i]) + ", expected " + ref::num(v);
                    if (xa[i] != d * seed[i]) return "adjoint of x[" + std::to_string(i) + "] = " + ref::num(xa[i]) + ", expected " + ref::num(d * seed[i]);
                    if (xv[i] != in_[i]) return "x changed"; if (sa != 0) return "the condition received an adjoint";
                }
                return "";
            }
        }
        if (o >= X_K && o <= X_BOX) xkind = o;
        return "";
    }
    template <class A> std::string cmp(A& a, const D& d, const char* w) {
        if (a.rows() != (size_t)T::R || a.cols() != (size_t)T::C || a.size() != (size_t)N) return std::string(w) + " has the wrong size";
        for (int i = 0; i < N; ++i) if (a.data()[i] != d[i] || a.get().data()[i] != d[i] || a.feval().data()[i] != d[i] || a.get(i % T::R, i / T::R) != d[i]) return std::string(w) + "[" + std::to_string(i) + "] = " + ref::num(a.data()[i]) + ", expected " + ref::num(d[i]);
        return "";
    }
    std::string check() {
        std::string e; if (K && !(e = cmp(*K, mK, "K")).empty()) return e; if (L && !(e = cmp(*L, mL, "L")).empty()) return e; if (W && !(e = cmp(*W, mmem, "W")).empty()) return e; for (size_t i = 0; i < box.size(); ++i) if (!(e = cmp(box[i], mbox[i], "box")).empty()) return e;
        for (int i = 0; i < N; ++i) if (mem[i] != mmem[i]) return "the viewed memory was written to"; return "";
    }
    std::string finish() { if (X) return apply(EVX); return ""; }
};
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); int l = (sh.tier ? 5 : 4) - (DEPTHCUT);
    for (int w = 0; w < 3; ++w) { ops::explore<World<ad::vec>>(l, [&] { return std::make_unique<World<ad::vec>>(w); }, "vector world " + std::to_string(w), sh); ops::explore<World<ad::mat>>(l, [&] { return std::make_unique<World<ad::mat>>(w); }, "matrix world " + std::to_string(w), sh); }
    rep.finish();
}
