#include "dyn.hpp"
#include "ref.hpp"
namespace dyn {
Any mk_if(const Any& c, const Any& x, const Any& y) {
    if (x.s) return any(ad::if_else(*c.s, *x.s, *y.s));
    if (x.v) return any(ad::if_else(*c.s, *x.v, *y.v));
    return any(ad::if_else(*c.s, *x.m, *y.m));
}
Any mk_glue(const Any& x, const Any& y) { return x.visit([&](auto& a) { return y.visit([&](auto& b) { return any((a, b)); }); }); }
Any mk_eq(double* val, double* adj, int r, int c, const Any& x) {
    if (x.s) { VS w(val, adj); return any(w = *x.s); }
    if (x.v) { VV w(val, adj, r); return any(w = *x.v); }
    VM w(val, adj, r, c); return any(w = *x.m);
}
template <class W, class E> static Any oe(int op, const W& w, const E& e) {
    switch (op) { case 0: return any(w += e); case 1: return any(w -= e); case 2: return any(w *= e); case 3: return any(w /= e); }
    return {};
}
Any mk_opeq(int op, int shape, double* val, double* adj, int r, int c, const Any& x) {
    if (shape == 0) return oe(op, VS(val, adj), *x.s);
    if (shape == 1) { VV w(val, adj, r); return x.s ? oe(op, w, *x.s) : oe(op, w, *x.v); }
    VM w(val, adj, r, c); return x.s ? oe(op, w, *x.s) : oe(op, w, *x.m);
}
template <class D, class G> static Any it(int kind, const std::vector<Any>& xs, G g) {
    auto f = [&](const Any& x) { return D(*g(x)); };
    switch (kind) {
    case ref::SUMIT: return any(ad::sum(xs.begin(), xs.end(), f));
    case ref::PRODIT: return any(ad::prod(xs.begin(), xs.end(), f));
    case ref::FOREACH: return any(ad::for_each(xs.begin(), xs.end(), f));
    }
    return {};
}
Any mk_iter(int kind, const std::vector<Any>& xs) {
    if (xs[0].s) return it<DS>(kind, xs, [](const Any& x) { return x.s.get(); });
    if (xs[0].v) return it<DV>(kind, xs, [](const Any& x) { return x.v.get(); });
    return it<DM>(kind, xs, [](const Any& x) { return x.m.get(); });
}
}
