// P02: every pair of values from an alphabet, through every arithmetic operator, in every pairing
// of operand shapes and kinds (variable, expression, constant, literal, same variable twice).
#include "engine.hpp"
using namespace eng; using namespace ref;
using dyn::VS; using dyn::VV; using dyn::VM;
static const std::vector<double> AL = {0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 0.1, -0.3, 1e-3, -1e-3, 1e3, -1e3, 7.25, -11, 1e-8, -1e8, 123456.75, 2.0000001, -1.9999999, 1.0 / 3, 65536};
struct Ctx {
    Shard& sh; Runner r; Opts o; Arena A; B b{A};
    Ctx(Shard& s) : sh(s) { o.cats = VALUE | GRAD | LEAF; }
    template <class E> void go(const Node* n, const E& e, Store& st, const Vals& in, const char* kind) {
        if (rep.full()) return;
        Any x = dyn::any_root(e);
        for (int s = 0; s < 3; ++s) { std::string nm = std::string(kind) + " " + str(n); if (nm.size() > 300) nm.resize(300); current = nm; if (!r.run(n, x, st, in, mkseed(n, s), o, &nm)) break; }
    }
};
template <int OP, class X, class Y> static auto op(const X& x, const Y& y) {
    if constexpr (OP == ADD) return x + y; else if constexpr (OP == SUB) return x - y; else if constexpr (OP == MUL) return x * y; else return x / y;
}
// sizes r x c; vector/matrix operands take consecutive windows of the alphabet product
template <int OP> static void sweep(Ctx& c) {
    auto A1 = AL, A2 = AL; if (OP == DIV) A2.erase(A2.begin());
    int n1 = A1.size(), n2 = A2.size();
    B& b = c.b;
    // scalar pairs, and each scalar against the whole alphabet as vector and matrix
    for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) {
        if (!c.sh.mine()) continue;
        rep.programs++;
        Store st({{S,1,1},{S,1,1}}); Vals in = {{A1[i]}, {A2[j]}};
        auto x = st.S(0), y = st.S(1); auto nx = b.var(0, S, 1, 1), ny = b.var(1, S, 1, 1);
        c.go(b.bin(OP, nx, ny), op<OP>(x, y), st, in, "var var");
        c.go(b.bin(OP, nx, b.cst(A2[j])), op<OP>(x, A2[j]), st, in, "var literal");
        c.go(b.bin(OP, b.cst(A1[i]), ny), op<OP>(A1[i], y), st, in, "literal var");
        c.go(b.bin(OP, nx, b.cst(A2[j])), op<OP>(x, ad::constant(A2[j])), st, in, "var const");
        c.go(b.bin(OP, b.cst(A1[i]), ny), op<OP>(ad::constant(A1[i]), y), st, in, "const var");
        if (A2[j] == (int)A2[j]) c.go(b.bin(OP, nx, b.cst(A2[j])), op<OP>(x, (int)A2[j]), st, in, "var int");
        if (A1[i] == (int)A1[i]) c.go(b.bin(OP, b.cst(A1[i]), ny), op<OP>((int)A1[i], y), st, in, "int var");
        c.go(b.bin(OP, b.bin(ADD, nx, ny), ny), op<OP>(x + y, y), st, in, "expr var");
        if (OP != DIV || A1[i] * A2[j] != 0) c.go(b.bin(OP, nx, b.bin(MUL, nx, ny)), op<OP>(x, x * y), st, in, "var expr");
        if (i == j || n1 != n2) { if (OP != DIV || A1[i] != 0) c.go(b.bin(OP, nx, nx), op<OP>(x, x), st, in, "same"); }
        c.A.clear();
    }
    auto multi = [&](int r, int cc, bool vecs) {
        if (!c.sh.mine()) return;
        rep.programs++;
        int m = r * cc;
        for (int off = 0; off < (m > 400 ? 1 : n1); ++off) {
            Shape sh = vecs ? V : M;
            Store st({{S,1,1},{sh,r,cc},{sh,r,cc}});
            Vals in = {{A1[off % n1]}, {}, {}};
            for (int q = 0; q < m; ++q) { in[1].push_back(A1[(q / (m > 400 ? n2 : 1) + off) % n1]); in[2].push_back(A2[(q + off * (m > 400 ? 1 : 5)) % n2]); }
            if (OP == DIV && in[0][0] == 0) in[0][0] = 4;
            Vals nz = in; for (auto& z : nz[1]) if (z == 0) z = -6;
            auto nx = b.var(1, sh, r, cc), ny = b.var(2, sh, r, cc), ns = b.var(0, S, 1, 1);
            auto all = [&](auto x, auto y, auto s) {
                auto cx = vecs ? b.cstv(in[1]) : b.cstm(r, cc, in[1]); auto cy = vecs ? b.cstv(in[2]) : b.cstm(r, cc, in[2]);
                c.go(b.bin(OP, nx, ny), op<OP>(x, y), st, in, "var var");
                c.go(b.bin(OP, ns, ny), op<OP>(s, y), st, in, "scl var");
                c.go(b.bin(OP, nx, ns), op<OP>(x, s), st, in, "var scl");
                c.go(b.bin(OP, ns, nx), op<OP>(s, x), st, OP == DIV ? nz : in, "scl var");
                c.go(b.bin(OP, nx, b.cst(2.5)), op<OP>(x, 2.5), st, in, "var literal");
                c.go(b.bin(OP, b.cst(-2.5), ny), op<OP>(-2.5, y), st, in, "literal var");
                c.go(b.bin(OP, nx, b.cst(3)), op<OP>(x, 3), st, in, "var int");
                c.go(b.bin(OP, b.cst(3), ny), op<OP>(3, y), st, in, "int var");
                c.go(b.bin(OP, nx, nx), op<OP>(x, x), st, OP == DIV ? nz : in, "same");
                c.go(b.bin(OP, b.bin(ADD, nx, ns), ny), op<OP>(x + s, y), st, in, "expr var");
                if (OP != DIV) c.go(b.bin(OP, nx, b.bin(MUL, nx, ny)), op<OP>(x, x * y), st, in, "var expr");
                c.go(b.bin(OP, b.bin(MUL, ns, ns), ny), op<OP>(s * s, y), st, in, "scl expr var");
                c.go(b.bin(OP, nx, b.un(EXP, b.un(SIN, ns))), op<OP>(x, ad::exp(ad::sin(s))), st, in, "var scl expr");
                (void)cx; (void)cy;
                if constexpr (std::is_same_v<decltype(x), VV>) {
                    Eigen::VectorXd e1 = Eigen::Map<Eigen::VectorXd>(in[1].data(), m), e2 = Eigen::Map<Eigen::VectorXd>(in[2].data(), m);
                    c.go(b.bin(OP, nx, cy), op<OP>(x, ad::constant(e2)), st, in, "var const"); c.go(b.bin(OP, cx, ny), op<OP>(ad::constant(e1), y), st, in, "const var");
                    c.go(b.bin(OP, nx, cy), op<OP>(x, ad::constant_view(e2.data(), m)), st, in, "var view"); c.go(b.bin(OP, cx, ny), op<OP>(ad::constant_view(e1.data(), m), y), st, in, "view var");
                    c.go(b.bin(OP, ns, cy), op<OP>(s, ad::constant(e2)), st, in, "scl const"); c.go(b.bin(OP, cx, ns), op<OP>(ad::constant(e1), s), st, in, "const scl");
                } else {
                    Eigen::MatrixXd e1 = Eigen::Map<Eigen::MatrixXd>(in[1].data(), r, cc), e2 = Eigen::Map<Eigen::MatrixXd>(in[2].data(), r, cc);
                    c.go(b.bin(OP, nx, cy), op<OP>(x, ad::constant(e2)), st, in, "var const"); c.go(b.bin(OP, cx, ny), op<OP>(ad::constant(e1), y), st, in, "const var");
                    c.go(b.bin(OP, nx, cy), op<OP>(x, ad::constant_view(e2.data(), r, cc)), st, in, "var view"); c.go(b.bin(OP, cx, ny), op<OP>(ad::constant_view(e1.data(), r, cc), y), st, in, "view var");
                    c.go(b.bin(OP, ns, cy), op<OP>(s, ad::constant(e2)), st, in, "scl const"); c.go(b.bin(OP, cx, ns), op<OP>(ad::constant(e1), s), st, in, "const scl");
                }
            };
            if (vecs) all(st.V(1), st.V(2), st.S(0)); else all(st.M(1), st.M(2), st.S(0));
            c.A.clear();
            if (rep.full()) return;
        }
    };
    int top = c.sh.tier ? 40 : 19;
    for (int m = 1; m <= top; ++m) multi(m, 1, true);
    multi(n1 * n2, 1, true);
    for (int r = 1; r <= (c.sh.tier ? 9 : 5); ++r) for (int q = 1; q <= (c.sh.tier ? 9 : 5); ++q) multi(r, q, false);
    multi(n1, n2, false); multi(7, 8, false); multi(1, 9, false); multi(9, 1, false);
}
#if PART == 1
void add_(Ctx& c) { sweep<ADD>(c); }
#elif PART == 2
void sub_(Ctx& c) { sweep<SUB>(c); }
#elif PART == 3
void mul_(Ctx& c) { sweep<MUL>(c); }
#elif PART == 4
void div_(Ctx& c) { sweep<DIV>(c); }
#else
void add_(Ctx&); void sub_(Ctx&); void mul_(Ctx&); void div_(Ctx&);
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); Ctx c(sh);
    add_(c); sub_(c); mul_(c); div_(c);
    rep.finish();
}
#endif
