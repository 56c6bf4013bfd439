// Dense linear algebra in long double (Gauss-Jordan with full row pivoting), independent of Eigen and of FastAD.
#pragma once
#include <vector>
#include <cmath>
#include <utility>
namespace ldm {
using T = long double;
struct Inv { std::vector<T> inv; T logdet = 0; int sign = 1; };      // column-major; log |det| and inverse
inline Inv inverse(std::vector<T> a, int n) {
    Inv r; r.inv.assign(n * n, 0); for (int i = 0; i < n; ++i) r.inv[i * n + i] = 1;
    for (int k = 0; k < n; ++k) {
        int p = k; for (int i = k; i < n; ++i) if (std::fabs(a[k * n + i]) > std::fabs(a[k * n + p])) p = i;
        if (p != k) { r.sign = -r.sign; for (int j = 0; j < n; ++j) { std::swap(a[j * n + k], a[j * n + p]); std::swap(r.inv[j * n + k], r.inv[j * n + p]); } }
        T d = a[k * n + k]; r.logdet += std::log(std::fabs(d)); if (d < 0) r.sign = -r.sign;
        for (int j = 0; j < n; ++j) { a[j * n + k] /= d; r.inv[j * n + k] /= d; }
        for (int i = 0; i < n; ++i) if (i != k) { T f = a[k * n + i]; if (f != 0) for (int j = 0; j < n; ++j) { a[j * n + i] -= f * a[j * n + k]; r.inv[j * n + i] -= f * r.inv[j * n + k]; } }
    }
    return r;
}
constexpr T LN2 = 0.693147180559945309417232121458176568L;
// well-conditioned test matrices: 0-2 symmetric positive definite, 3 symmetric negative definite, 4-5 general
inline std::vector<double> sample(int n, int kind) {
    std::vector<double> m(n * n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
        double off = 0.25 / (1 + std::abs(i - j) + kind % 3), diag = 1.5 + 0.25 * ((i + kind) % 4);
        m[j * n + i] = kind < 4 ? (i == j ? diag : off) * (kind == 3 ? -1 : 1) : (i == j ? 0 : (i < j ? off : -off) * ((i * 3 + j) % 2 ? 1 : -0.5)) + (i == (j + kind) % n ? 2 - 4 * (i % 2) : 0);
    }
    return m;
}
}
