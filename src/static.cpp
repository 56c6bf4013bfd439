#include "static.hpp"
namespace sp {
std::vector<Prog>& registry() { static std::vector<Prog> r; return r; }
static double pick(int kind, int i) {
    static const double A[] = {0.4, 0.7, 0.25, 0.9, 0.55, 0.15, 0.8, 0.35, 0.62, 0.47, 0.31, 0.72};      // (0,1)
    static const double B[] = {-0.6, 1.3, 0.45, -1.7, 0.8, 2.1, -0.35, 0.95, -1.15, 0.2, 1.6, -0.85};
    static const double C[] = {2, -3, 1, 0.5, -2, 4, 3, -1, 8, -0.25, 5, -6};
    static const double D[] = {1, 0, -2, 0, 3, 0, 0, -1, 0.5, 0, 2, 1};                                     // zeros and ties
    static const double E[] = {1e6, -1e-6, 1e3, -1e5, 1e-4, 20, -30, 1e2, 0.01, -4e3, 7, 1e-2};             // wide range
    const double* T[] = {A, B, C, D, E};
    return T[kind % 5][i % 12] * (1 + 0.03125 * (i / 12));
}
static void spd(double* p, int n, int kind) {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p[j * n + i] = i == j ? 1.5 + 0.5 * i + 0.25 * kind : 0.25 + 0.0625 * (i + j);
}
Vals values(int a, int b, int kind) {
    Vals o; int k = kind;
    auto d = decl(a, b);
    for (size_t q = 0; q < d.size(); ++q) {
        std::vector<double> x; for (int i = 0; i < d[q].size(); ++i) x.push_back(pick(kind, k++));
        if ((q == 8 || q == 9) && (kind == 0 || kind == 2)) spd(x.data(), a, kind + (q == 9));
        o.push_back(x);
    }
    return o;
}
Konst konst(int a, int b, int kind) {
    Konst c; int k = 5 + 3 * kind;
    auto f = [&](int r, int cc) { Eigen::MatrixXd m(r, cc); for (int i = 0; i < r * cc; ++i) m.data()[i] = pick(kind, k++); return m; };
    c.k0 = pick(kind, k++); c.k1 = pick(kind, k++); c.i0 = kind % 2 ? 3 : -2;
    c.va = f(a, 1); c.vb = f(b, 1); c.Mab = f(a, b); c.Mba = f(b, a); c.Maa = f(a, a);
    if (kind == 0) spd(c.Maa.data(), a, 1);
    c.spd = Eigen::MatrixXd(a, a); spd(c.spd.data(), a, kind);
    c.via = Eigen::VectorXi(a); c.bits = Eigen::VectorXd(a); for (int i = 0; i < a; ++i) { c.via[i] = 1 + (i * 2 + kind) % 5; c.bits[i] = (i + kind) % 2; }
    return c;
}
#ifndef REALMODE
// determinants are computed by cofactors in the reference
static bool heavy(const Node* n) {
    if (n->k == ref::DET || n->k == ref::LOGDET || (n->k == ref::PDF && (n->op == ref::WISHART || n->kid.back()->s == ref::M))) return true;
    for (auto c : n->kid) if (heavy(c)) return true;
    return false;
}
void run_registry(Shard& sh, const Sweep& sw) {
    auto& reg = registry();
    Runner r;
    for (auto& p : reg) {
        if (!sh.mine() || rep.full()) continue;
        rep.programs++;
        auto sizes = sw.sizes; sizes.insert(sizes.end(), sw.large.begin(), sw.large.end());
        for (size_t z = 0; z < sizes.size(); ++z) for (int kind = 0; kind < (z < sw.sizes.size() ? sw.nvals : 2) && !rep.full(); ++kind) {
            auto [a, b] = sizes[z]; bool large = z >= sw.sizes.size();
            Store st(decl(a, b)); Konst k = konst(a, b, kind), kr = k; Arena A; R rr(A, kr, a, b);
            std::string name = std::string(p.name) + " [a=" + std::to_string(a) + ",b=" + std::to_string(b) + "]";
            const Node* n = p.rf(rr);
            if (!n) continue;                    // shapes do not fit for this size
            if (large && heavy(n)) continue;
            current = name;
            Vals in = values(a, b, kind);
            // folded constants are computed while building: values come first
            for (size_t i = 0; i < in.size(); ++i) { std::copy(in[i].begin(), in[i].end(), st.v(i)); st.adj[i].fill(0); }
            Env e(st, k, a, b);
            Any x = p.mk(e);
            if (x.visit([](auto& d) { return (int)d.rows(); }) != n->r || x.visit([](auto& d) { return (int)d.cols(); }) != n->c || x.shape() != (int)n->s) {
                rep.fail("SHAPE", name, "expression has the wrong shape"); continue; }
            for (int s = 0; s < (large ? 1 : sw.seeds3 ? 3 : 2); ++s) {
                Opts o = sw.o; o.scales = s == 0 && kind < 3 && !large;
                if (!r.run(n, x, st, in, mkseed(n, s == 0 ? 1 : s == 1 ? 0 : 2), o, &name)) break;
                rep.nodes += r.model.L.fevals;
                if (rep.programs % 97 == 1 && s == 0 && kind == 1) rep.sample(name + " -> " + show(r.value) + " adjoints " + show(r.adj));
            }
        }
    }
}
#endif
}
