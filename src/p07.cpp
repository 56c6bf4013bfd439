// P07: reductions over every small vector of an alphabet with zeros, signs and repeats, and over every length.
#include "hist.hpp"
#include "progs.hpp"
#include <list>
#include <array>
using namespace eng; using namespace ref;
struct P7 {
    Shard& sh; Runner r; Opts o;
    P7(Shard& s) : sh(s) { o.cats = VALUE | GRAD | LEAF; }
    // programs over x2 (all elements) and scalars x0, x1
    NodeV progs(Arena& A, const Node* x, const Node* s, bool wide) {
        B b{A}; NodeV o;
        for (Kind k : {SUM, PROD, NORM}) {
            auto n = b.red(k, x); if (!n) continue;
            o.push_back(n); o.push_back(b.bin(MUL, n, s)); 
            if (!wide) continue;
            o.push_back(b.red(k, b.un(SIN, x))); o.push_back(b.red(k, b.bin(MUL, x, s))); o.push_back(b.bin(MUL, n, x)); o.push_back(b.bin(SUB, b.red(k, b.bin(SUB, x, s)), n)); o.push_back(b.un(SIN, n)); o.push_back(b.red(k, b.pw(2, x)));
            if (x->s != S) { o.push_back(b.red(k, b.trans(x))); o.push_back(b.red(k, b.bin(GT, x, s))); }
            o.push_back(b.red(k, b.bin(ADD, x, x->s == S ? b.cst(2) : x->s == V ? b.cstv(std::vector<double>(x->r, 2)) : b.cstm(x->r, x->c, std::vector<double>(x->r * x->c, 2)))));
        }
        return o;
    }
    void vectors(const std::vector<double>& AL, int n, bool wide) {
        // every vector of length n, as a vector and as every matrix shape with n elements, and as n scalars
        std::vector<std::pair<Shape, std::pair<int,int>>> shapes = {{V, {n, 1}}};
        for (int q = 1; q <= n; ++q) if (n % q == 0) shapes.push_back({M, {q, n / q}});
        for (auto& [s, d] : shapes) {
            Arena A; B b{A}; std::vector<VarDecl> dl = {{S,1,1},{s,d.first,d.second}}; Store st(dl);
            auto ps = progs(A, b.var(1, s, d.first, d.second), b.var(0, S, 1, 1), wide);
            std::vector<Any> es; std::vector<std::string> nm; for (auto p : ps) { es.push_back(build(p, st)); nm.push_back(str(p)); }
            rep.programs += sh.i == 0 ? ps.size() : 0;
            std::vector<int> ix(n, 0);
            for (;;) {
                if (sh.mine()) { Vals in = {{1.75}, {}}; for (int i : ix) in[1].push_back(AL[i]);
                    for (size_t p = 0; p < ps.size() && !rep.full(); ++p) r.run(ps[p], es[p], st, in, std::vector<double>(ps[p]->size(), (p + ix[0]) % 3 ? -1.5 : 1.0), o, &nm[p]); }
                int k = n - 1; while (k >= 0 && ++ix[k] == (int)AL.size()) ix[k--] = 0; if (k < 0) break;
            }
        }
        // n scalars in a range
        for (int form = 0; form < 3; ++form) {
            Arena A; B b{A}; Shape s = form == 0 ? S : form == 1 ? V : M; int rr = form ? 2 : 1, cc = form == 2 ? 2 : 1;
            std::vector<VarDecl> dl = {{S,1,1}}; for (int i = 0; i < n; ++i) dl.push_back({s, rr, cc});
            Store st(dl); NodeV xs, es1, es2, alt; auto s0 = b.var(0, S, 1, 1);
            for (int i = 0; i < n; ++i) { auto x = b.var(i + 1, s, rr, cc); xs.push_back(x); es1.push_back(b.bin(MUL, x, s0)); es2.push_back(b.un(SIN, x)); alt.push_back(i % 2 ? b.var(1, s, rr, cc) : x); }
            NodeV ps; for (Kind k : {SUMIT, PRODIT, FOREACH}) { for (auto& v : {xs, es1, es2, alt}) ps.push_back(b.iter(k, v)); ps.push_back(b.bin(MUL, b.iter(k, xs), s0)); ps.push_back(b.bin(MUL, b.iter(k, es1), xs[0])); ps.push_back(b.red(SUM, b.iter(k, xs))); }
            std::vector<Any> es; std::vector<std::string> nm; for (auto p : ps) { es.push_back(build(p, st)); nm.push_back(str(p)); }
            rep.programs += sh.i == 0 ? ps.size() : 0;
            std::vector<int> ix(n, 0);
            for (;;) {
                if (sh.mine()) { Vals in = {{1.75}}; for (int i : ix) { std::vector<double> v; for (int q = 0; q < rr * cc; ++q) v.push_back(AL[(i + q * 2) % AL.size()]); in.push_back(v); }
                    for (size_t p = 0; p < ps.size() && !rep.full(); ++p) r.run(ps[p], es[p], st, in, mkseed(ps[p], (p + ix[0]) % 2), o, &nm[p]); }
                int k = n - 1; while (k >= 0 && ++ix[k] == (int)AL.size()) ix[k--] = 0; if (k < 0) break;
            }
        }
    }
    void lengths(int top) {
        static const double T[] = {0.75, -0.5, 1.25, 0.3, 2.0, -0.9, 0.6, 1.1, -1.4, 0.95, 1.05};
        auto one = [&](Shape s, int R, int C, int zeros) {
            if (!sh.mine() || rep.full()) return;
            Arena A; B b{A}; Store st({{S,1,1},{s,R,C}}); int m = R * C;
            Vals in = {{-0.7}, {}}; for (int i = 0; i < m; ++i) in[1].push_back(T[(i * 3) % 11] + (m > 30 ? 0 : 0.01 * i));
            if (zeros >= 1) in[1][m - 1] = 0; if (zeros >= 2) in[1][0] = 0;
            for (auto p : progs(A, b.var(1, s, R, C), b.var(0, S, 1, 1), true)) { rep.programs++; Any e = build(p, st); for (int q = 0; q < 2; ++q) r.run(p, e, st, in, mkseed(p, 1 - q), o); }
        };
        for (int z = 0; z < 3; ++z) { for (int m = 1; m <= top; ++m) one(V, m, 1, z); for (int R = 1; R <= 9; ++R) for (int C = 1; C <= 9; ++C) one(M, R, C, z); }
        for (int m = 1; m <= 20; ++m) for (int form = 0; form < 3; ++form) {
            if (!sh.mine() || rep.full()) continue;
            Arena A; B b{A}; Shape s = form == 0 ? S : form == 1 ? V : M; int rr = form ? 3 : 1, cc = form == 2 ? 2 : 1;
            std::vector<VarDecl> dl = {{S,1,1}}; Vals in = {{0.8}}; for (int i = 0; i < m; ++i) { dl.push_back({s, rr, cc}); std::vector<double> v; for (int q = 0; q < rr * cc; ++q) v.push_back(T[(i * 3 + q) % 11]); in.push_back(v); }
            Store st(dl); NodeV xs, es; auto s0 = b.var(0, S, 1, 1); for (int i = 0; i < m; ++i) { xs.push_back(b.var(i + 1, s, rr, cc)); es.push_back(b.bin(SUB, xs[i], b.bin(MUL, s0, xs[0]))); }
            for (Kind k : {SUMIT, PRODIT, FOREACH}) for (auto& v : {xs, es}) { auto p = b.iter(k, v); rep.programs++; Any e = build(p, st); r.run(p, e, st, in, mkseed(p, 1), o); }
        }
    }
    // user containers and empty ranges
    template <class It> void range(It f, It l, Store& st, const Vals& in, const NodeV& xs, const Node* s0, const char* what) {
        B b{A2}; auto s = st.S(0);
        auto go = [&](const Node* n, const auto& e) { Any x = dyn::any_root(e); std::string nm = std::string(what) + " " + str(n); rep.programs++; for (int q = 0; q < 2; ++q) r.run(n, x, st, in, mkseed(n, q), o, &nm); };
        NodeV a, c; for (auto x : xs) { a.push_back(b.bin(MUL, x, s0)); c.push_back(b.un(EXP, x)); }
        go(b.iter(SUMIT, xs), ad::sum(f, l, [](const auto& x) { return x; })); go(b.iter(PRODIT, xs), ad::prod(f, l, [](const auto& x) { return x; }));
        go(b.iter(SUMIT, a), ad::sum(f, l, [&](const auto& x) { return x * s; })); go(b.iter(PRODIT, a), ad::prod(f, l, [&](const auto& x) { return x * s; }));
        go(b.iter(SUMIT, c), ad::sum(f, l, [&](const auto& x) { return ad::exp(x); })); go(b.iter(FOREACH, c), ad::for_each(f, l, [&](const auto& x) { return ad::exp(x); }));
    }
    Arena A2;
    void containers() {
        if (!sh.mine()) return;
        for (int n = 1; n <= 4; ++n) {
            std::vector<VarDecl> dl = {{S,1,1}}; Vals in = {{1.5}}; for (int i = 0; i < n; ++i) { dl.push_back({S,1,1}); in.push_back({0.5 - 0.75 * i}); }
            Store st(dl); B b{A2}; NodeV xs; for (int i = 0; i < n; ++i) xs.push_back(b.var(i + 1, S, 1, 1));
            std::vector<dyn::VS> v; for (int i = 0; i < n; ++i) v.push_back(st.S(i + 1));
            std::list<dyn::VS> l(v.begin(), v.end());
            range(v.begin(), v.end(), st, in, xs, b.var(0, S, 1, 1), "vector"); range(v.cbegin(), v.cend(), st, in, xs, b.var(0, S, 1, 1), "const vector"); range(l.begin(), l.end(), st, in, xs, b.var(0, S, 1, 1), "list"); range(v.data(), v.data() + n, st, in, xs, b.var(0, S, 1, 1), "pointers");
            NodeV rv(xs.rbegin(), xs.rend()); range(v.rbegin(), v.rend(), st, in, rv, b.var(0, S, 1, 1), "reversed");
        }
        // a range over plain numbers, producing expressions of one variable
        Store st({{S,1,1}}); B b{A2}; auto s = st.S(0); auto s0 = b.var(0, S, 1, 1); std::vector<double> k = {2, -0.5, 3};
        auto go = [&](const Node* n, const auto& e) { Any x = dyn::any_root(e); std::string nm = "numbers " + str(n); rep.programs++; for (double v : {0.7, 0.0, -2.0}) r.run(n, x, st, {{v}}, {1.5}, o, &nm); };
        NodeV a; for (double q : k) a.push_back(b.bin(SUB, s0, b.cst(q)));
        go(b.iter(SUMIT, a), ad::sum(k.begin(), k.end(), [&](double q) { return s - q; })); go(b.iter(PRODIT, a), ad::prod(k.begin(), k.end(), [&](double q) { return s - q; }));
        // nothing to reduce
        auto none = [&](const char* what, auto e, double want, double* a, int na) {
            rep.programs++; rep.states++; rep.transitions += 2; rep.traces++;
            auto b = ad::bind(e); for (int i = 0; i < na; ++i) a[i] = 0;
            double g = ad::autodiff(b); if (g != want) rep.fail("VALUE", what, "value " + num(g) + ", expected " + num(want));
            for (int i = 0; i < na; ++i) if (a[i] != 0) rep.fail("GRAD", what, "adjoint not zero");
        };
        std::vector<dyn::VS> ev;
        none("sum of an empty range", ad::sum(ev.begin(), ev.end(), [](const auto& x) { return x; }), 0, nullptr, 0);
        none("prod of an empty range", ad::prod(ev.begin(), ev.end(), [](const auto& x) { return x; }), 1, nullptr, 0);
        ad::Var<double, ad::vec> v0(0);
        none("sum of an empty vector", ad::sum(v0), 0, nullptr, 0); none("prod of an empty vector", ad::prod(v0), 1, nullptr, 0); none("norm of an empty vector", ad::norm(v0), 0, nullptr, 0);
    }
};
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); P7 p(sh); bool t = sh.tier;
    for (int n = 1; n <= (t ? 7 : 6); ++n) p.vectors({0, 1, -1, 2, -0.5, 3}, n, n <= 5 || t);
    for (int n = 6; n <= (t ? 9 : 7); ++n) p.vectors({0, 1.5, -2}, n, false);
    p.lengths(t ? 130 : 70);
    p.containers();
    rep.finish();
}
