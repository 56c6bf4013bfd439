// P03: comparisons on every ordered pair of an alphabet with ties and neighbouring numbers;
// if_else under every sequence of conditions, in every context.
#include "hist.hpp"
#include "progs.hpp"
#include <limits>
#include <cmath>
using namespace eng; using namespace ref;
static const double D1 = 1.0 + 2.220446049250313e-16, D2 = 1.0 - 1.1102230246251565e-16;
static const std::vector<double> AL = {0, -0.0, 1, D1, D2, -1, -D1, 2, -2, 0.5, -0.5, 1e-9, -1e-9, 1e9, -1e9, 1e15, 1e15 + 1, 3, 3.0000000000000004, 0.1, 0.30000000000000004, 0.3, -7, 5e-7};
struct P3 {
    Shard& sh; Runner r; Opts o; Arena A; B b{A};
    P3(Shard& s) : sh(s) { o.cats = VALUE | GRAD | LEAF | ADJ; }
    Vals a0;
    void go(const Node* n, Store& st, const Vals& in) {
        if (rep.full()) return;
        a0 = in; int k = 1; for (auto& v : a0) for (auto& x : v) x = 0.125 * (++k % 9) - 0.5;
        o.a0 = &a0;
        Any e = build(n, st); std::string nm = str(n); if (nm.size() > 300) nm.resize(300);
        for (int s = 0; s < 2; ++s) if (!r.run(n, e, st, in, mkseed(n, s), o, &nm)) return;
    }
    void pairs() {
        int n = AL.size();
        for (int op = LT; op <= OR; ++op) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            if (!sh.mine() || rep.full()) continue;
            rep.programs++;
            Store st({{S,1,1},{S,1,1}}); Vals in = {{AL[i]}, {AL[j]}};
            auto x = b.var(0, S, 1, 1), y = b.var(1, S, 1, 1);
            go(b.bin(op, x, y), st, in); go(b.bin(op, x, b.cst(AL[j])), st, in); go(b.bin(op, b.cst(AL[i]), y), st, in);
            go(b.bin(MUL, b.bin(op, x, y), x), st, in); go(b.bin(ADD, x, b.bin(op, x, y)), st, in); go(b.un(SIN, b.bin(op, x, y)), st, in);
            go(b.ife(b.bin(op, x, y), x, y), st, in); go(b.ife(b.bin(op, x, y), b.bin(MUL, x, y), b.cst(2)), st, in); go(b.ife(b.bin(op, x, y), b.cst(2), b.un(SIN, y)), st, in);
            if (i == j) { go(b.bin(op, x, x), st, in); go(b.ife(x, y, b.bin(ADD, x, x)), st, in); }
            A.clear();
        }
        // the same grid as vectors and matrices, and scalar against vector
        for (int op = LT; op <= OR; ++op) for (int form = 0; form < 2; ++form) for (int i = 0; i < n; ++i) {
            if (!sh.mine() || rep.full()) continue;
            rep.programs++;
            Shape s = form ? M : V; int r = form ? 6 : n, c = form ? 4 : 1;
            Store st({{S,1,1},{s,r,c},{s,r,c}}); Vals in = {{AL[i]}, AL, {}}; for (int j = 0; j < n; ++j) in[2].push_back(AL[(j + i) % n]);
            auto q = b.var(0, S, 1, 1), x = b.var(1, s, r, c), y = b.var(2, s, r, c);
            auto cx = form ? b.cstm(r, c, in[1]) : b.cstv(in[1]);
            if (op >= AND) {   // boolean operands only
                auto p1 = b.bin(LT, x, y), p2 = b.bin(GE, x, q);
                go(b.bin(op, p1, p2), st, in); go(b.red(SUM, b.bin(op, p2, p1)), st, in); go(b.bin(op, b.bin(LT, q, b.cst(1)), p1), st, in); go(b.bin(MUL, b.bin(op, p1, p2), x), st, in);
                A.clear(); continue;
            }
            go(b.bin(op, x, y), st, in); go(b.bin(op, q, y), st, in); go(b.bin(op, x, q), st, in); go(b.bin(op, cx, y), st, in); go(b.bin(op, y, cx), st, in); go(b.bin(op, x, b.cst(1)), st, in);
            go(b.bin(MUL, b.bin(op, x, y), x), st, in); go(b.bin(SUB, y, b.bin(op, x, q)), st, in); go(b.red(SUM, b.bin(MUL, b.bin(op, x, y), y)), st, in); go(b.bin(MUL, b.bin(op, x, y), b.bin(op, y, x)), st, in);
            go(b.ife(b.bin(LT, b.red(SUM, b.bin(op, x, y)), b.cst(n / 2)), x, y), st, in);
            A.clear();
        }
    }
    void histories() {
        for (int form = 0; form < 4; ++form) {
            Shape s = form == 0 ? S : form == 1 ? V : M; int r = form == 0 ? 1 : form == 3 ? 1 : 2 + form / 2, c = form < 2 ? 1 : form == 3 ? 4 : 2;
            std::vector<VarDecl> d = {{S,1,1},{S,1,1},{s,r,c},{s,r,c}};
            Store st(d); Hist h;
            // four inputs: condition on/off x two sets of branch values; one with a tie
            std::vector<Vals> in;
            for (int q = 0; q < 4; ++q) { Vals v = {{q & 1 ? 0.5 : 2.0}, {q == 3 ? 0.5 : 1.0}}; for (int w = 0; w < 2; ++w) { std::vector<double> z; for (int i = 0; i < r * c; ++i) z.push_back(0.3 + 0.4 * ((i * 3 + w * 5 + q * 7) % 11) - (q > 1 ? 1.7 : 0)); v.push_back(z); } in.push_back(v); }
            auto a = b.var(0, S, 1, 1), t = b.var(1, S, 1, 1), x = b.var(2, s, r, c), y = b.var(3, s, r, c);
            std::vector<double> cv; for (int i = 0; i < r * c; ++i) cv.push_back(0.7 - 0.3 * i);
            auto k = s == S ? b.cst(0.7) : s == V ? b.cstv(cv) : b.cstm(r, c, cv);
            NodeV conds = {b.bin(LT, a, t), b.bin(GE, a, t), b.bin(NE, a, t), b.bin(EQL, a, t), b.bin(LE, a, b.cst(1)), b.bin(AND, b.bin(LT, a, t), b.bin(GT, b.red(SUM, x), b.cst(0))), b.bin(OR, b.bin(LT, a, t), b.bin(GT, b.red(SUM, x), b.cst(0))),
                           b.bin(SUB, b.bin(LT, a, t), b.cst(1)), b.cst(1), b.cst(0), b.bin(LT, b.un(EXP, a), b.cst(4))};
            NodeV br = {x, y, k, b.bin(MUL, x, y), b.bin(MUL, x, a), b.un(EXP, x), b.bin(ADD, k, x), b.pw(2, x)};
            if (s == S) br.push_back(b.red(PROD, b.bin(ADD, x, y)));
            h.len = sh.tier ? 5 : 4; h.nseeds = 1; h.with_autodiff = false;
            auto run = [&](const Node* n) { if (!n || !sh.mine() || rep.full()) return; rep.programs++; Any e = build(n, st); h.explore(n, e, st, in, str(n)); };
            for (auto cn : conds) for (auto p : br) for (auto q : br) {
                if (p->k == CONST && q->k == CONST && cn->k == CONST) continue;
                auto f = b.ife(cn, p, q);
                run(f); run(b.bin(MUL, f, x)); run(b.bin(SUB, b.un(SIN, x), f)); run(b.red(SUM, f)); run(b.un(EXP, f)); run(b.bin(MUL, f, f)); run(b.bin(MUL, a, f));
                run(b.ife(conds[0], f, y)); run(b.ife(conds[1], x, f)); run(b.iter(SUMIT, {f, x, f})); run(b.glue(f, b.bin(MUL, f, y)));
                if (s == S) { run(b.ife(b.bin(LT, f, t), x, y)); run(b.ife(f, x, y)); }
                run(b.ife(cn, b.ife(conds[1], p, q), b.ife(conds[0], q, p)));
            }
            // the branch is the one selected when the expression was evaluated, even if the condition's inputs have changed since
            for (auto cn : conds) if (cn->k == BIN && cn->op <= NE) for (auto p : br) for (auto q : br) {
                if (!sh.mine() || rep.full() || cn->op == SUB || p == br[4] || q == br[4]) continue;
                auto f = b.ife(cn, p, q);
                for (auto n : {f, b.bin(MUL, f, x), b.red(SUM, f)}) {
                    rep.programs++; Any e = build(n, st); current = str(n); if (!this->r.bind(e, o, current)) continue;
                    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
                        auto seed = mkseed(n, 1); Result R = this->r.model.run(n, in[i], seed); if (!R.defined) continue;
                        for (int v = 0; v < 4; ++v) { std::copy(in[i][v].begin(), in[i][v].end(), st.v(v)); st.adj[v].fill(0); }
                        std::vector<double> out; feval(e, out);
                        st.v(0)[0] = in[j][0][0]; st.v(1)[0] = in[j][1][0];
                        beval(e, seed); rep.transitions += 2; rep.states++;
                        for (int v = 0; v < 4; ++v) for (size_t u = 0; u < in[i][v].size(); ++u) if (!(std::fabs(st.a(v)[u] - R.grad[v][u]) <= R.gtol[v][u]) && !rep.full())
                            rep.fail("GRAD", str(n) + " evaluated at " + show(in[i]) + ", x0 and x1 then set to " + num(in[j][0][0]) + ", " + num(in[j][1][0]), "adjoint of x" + std::to_string(v) + "[" + std::to_string(u) + "] = " + num(st.a(v)[u]) + ", expected " + num(R.grad[v][u]));
                    }
                }
            }
            A.clear();
        }
    }
};

// every pair of extreme numbers (infinite, subnormal, huge, adjacent), straight on the nodes: variables, expressions,
// constants on either side, broadcast in both directions; exactly 0 or 1, adjoints untouched
template <class T> struct Extreme {
    Shard& sh; std::vector<T> al;
    Extreme(Shard& s) : sh(s) {
        const T inf = std::numeric_limits<T>::infinity(), mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min(), dn = std::numeric_limits<T>::denorm_min(), ep = std::numeric_limits<T>::epsilon();
        for (T v : {T(0), dn, mn, mn - dn, T(std::sqrt(mn)), T(std::sqrt(mn) / 4), ep, T(0.5), T(1) - ep / 2, T(1), T(1) + ep, T(2), T(3), T(1) / ep, T(std::sqrt(mx) * 2), std::nextafter(mx, T(0)), mx, inf}) { al.push_back(v); al.push_back(-v); }
    }
    template <class E> void one(const E& ex, const char* form, const char* op, std::initializer_list<double> in, const std::vector<int>& want, std::initializer_list<ad::Var<T, ad::vec>*> vs, std::initializer_list<ad::Var<T>*> ss) {
        auto e = ad::bind(ex); rep.programs++; rep.states++; rep.transitions += 2; rep.traces++;
        for (auto v : vs) v->get_adj().setConstant(T(0.375)); for (auto v : ss) v->get_adj() = T(0.375);
        auto nm = [&] { std::string r = std::string(sizeof(T) == 4 ? "float " : "") + form + " " + op + " at"; for (double d : in) r += " " + num(d); return r; };
        auto&& y = ad::evaluate(e);
        if constexpr (ad::util::is_scl_v<E>) { if (!(double(y) == want[0])) rep.fail("VALUE", nm(), "value " + num(double(y)) + ", expected " + num(want[0])); ad::autodiff(e, typename std::decay_t<decltype(y)>(1)); }
        else { for (int i = 0; i < (int)want.size(); ++i) if (!(double(y(i)) == want[i])) rep.fail("VALUE", nm(), "element " + std::to_string(i) + " = " + num(double(y(i))) + ", expected " + num(want[i]));
               Eigen::Array<typename std::decay_t<decltype(y)>::Scalar, Eigen::Dynamic, 1> sd(want.size()); sd.setOnes(); ad::autodiff(e, sd); }
        auto chk = [&](T a) { if (!(a == T(0.375)) && !rep.full()) rep.fail("GRAD", nm(), "adjoint changed to " + num(double(a)) + " by a comparison"); };
        for (auto v : vs) for (int i = 0; i < v->get_adj().size(); ++i) chk(v->get_adj()(i)); for (auto v : ss) chk(v->get_adj());
    }
    void run() {
        ad::Var<T> x(0), y(0); ad::Var<T, ad::vec> u(3), v(3);
        for (T a : al) for (T b : al) {
            if (!sh.mine() || rep.full()) continue;
            x.get() = a; y.get() = b; u.get() << a, b, a; v.get() << b, a, a;
#define REL(op) { one(x op y, "x y", #op, {a, b}, {a op b}, {}, {&x, &y}); one(x op ad::constant(b), "x c", #op, {a, b}, {a op b}, {}, {&x}); one(ad::constant(a) op y, "c y", #op, {a, b}, {a op b}, {}, {&y}); \
                  one(-x op -y, "-x -y", #op, {a, b}, {-a op -b}, {}, {&x, &y}); one(x op b, "x literal", #op, {a, b}, {a op b}, {}, {&x}); one(a op y, "literal y", #op, {a, b}, {a op b}, {}, {&y}); }
#define VREL(op) { REL(op) one(u op v, "vec vec", #op, {a, b}, {a op b, b op a, a op a}, {&u, &v}, {}); one(u op x, "vec x", #op, {a, b}, {a op a, b op a, a op a}, {&u}, {&x}); one(y op u, "y vec", #op, {a, b}, {b op a, b op b, b op a}, {&u}, {&y}); one(u op b, "vec literal", #op, {a, b}, {a op b, b op b, a op b}, {&u}, {}); one(a op v, "literal vec", #op, {a, b}, {a op b, a op a, a op a}, {&v}, {}); }
            VREL(<) VREL(<=) VREL(>) VREL(>=) VREL(==) VREL(!=) REL(&&) REL(||)
        }
    }
};
int main(int argc, char** argv) { Shard sh = shard_args(argc, argv); P3 p(sh); p.pairs(); p.histories(); Extreme<double>(sh).run(); Extreme<float>(sh).run(); rep.finish(); }
