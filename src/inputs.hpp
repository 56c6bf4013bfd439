// input assignments shared by the explorers
#pragma once
#include "engine.hpp"
namespace eng {
// [0] inside (0,1) with symmetric positive definite square matrices, [1] signed
inline std::vector<Vals> inputs(const std::vector<VarDecl>& d) {
    using namespace ref;
    static const double P[] = {0.4, 0.7, 0.25, 0.9, 0.55, 0.15, 0.8, 0.35, 0.62, 0.47, 0.31, 0.72};
    static const double Q[] = {-0.6, 1.3, 0.45, -1.7, 0.8, 2.1, -0.35, 0.95, -1.15, 0.2, 1.6, -0.85};
    std::vector<Vals> o(2);
    int k = 0;
    for (auto& x : d) {
        std::vector<double> p, q;
        for (int i = 0; i < x.size(); ++i, ++k) { p.push_back(P[k % 12] + 0.01 * (k / 12)); q.push_back(Q[k % 12] + 0.07 * (k / 12)); }
        if (x.s == M && x.r == x.c)          // one symmetric positive definite, for the Cholesky policies and densities
            for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.r; ++j) p[j * x.r + i] = i == j ? 1.25 + 0.5 * i + 0.1 * k : 0.3 + 0.05 * (i + j);
        o[0].push_back(p); o[1].push_back(q);
    }
    return o;
}
// zeros, ties and small integers; another symmetric positive definite matrix
inline Vals inputs_zero(const std::vector<VarDecl>& d) {
    using namespace ref;
    static const double Z[] = {0, 1, 2, 0, 3, 1, 1, 0.5, 0, 2, 0.25, 1};
    Vals o; int k = 0;
    for (auto& x : d) {
        std::vector<double> p; for (int i = 0; i < x.size(); ++i, ++k) p.push_back(Z[(k * 5) % 12]);
        if (x.s == M && x.r == x.c) for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.r; ++j) p[j * x.r + i] = i == j ? 2.5 + i + 0.25 * (k % 3) : 0.5;
        o.push_back(p);
    }
    return o;
}
}
