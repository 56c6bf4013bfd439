#include "dyn.hpp"
#include "ref.hpp"
namespace dyn {
template <class F> static Any three(const std::vector<Any>& x, F f) {
    if (x[0].s) return any(f(*x[0].s, *x[1].s, *x[2].s));
    if (x[1].s && x[2].s) return any(f(*x[0].v, *x[1].s, *x[2].s));
    if (x[1].s && x[2].v) return any(f(*x[0].v, *x[1].s, *x[2].v));
    if (x[1].v && x[2].s) return any(f(*x[0].v, *x[1].v, *x[2].s));
    if (x[1].v && x[2].v) return any(f(*x[0].v, *x[1].v, *x[2].v));
    return {};
}
Any mk_pdf(int which, const std::vector<Any>& x) {
    switch (which) {
    case ref::NORMAL:
        if (x[2].m) { if (x[1].s) return any(ad::normal_adj_log_pdf(*x[0].v, *x[1].s, *x[2].m)); return any(ad::normal_adj_log_pdf(*x[0].v, *x[1].v, *x[2].m)); }
        return three(x, [](auto& a, auto& b, auto& c) { return ad::normal_adj_log_pdf(a, b, c); });
    case ref::CAUCHY: return three(x, [](auto& a, auto& b, auto& c) { return ad::cauchy_adj_log_pdf(a, b, c); });
    case ref::UNIFORM: return three(x, [](auto& a, auto& b, auto& c) { return ad::uniform_adj_log_pdf(a, b, c); });
    case ref::BERNOULLI:
        if (x[0].s) return any(ad::bernoulli_adj_log_pdf(*x[0].s, *x[1].s));
        if (x[1].s) return any(ad::bernoulli_adj_log_pdf(*x[0].v, *x[1].s));
        return any(ad::bernoulli_adj_log_pdf(*x[0].v, *x[1].v));
    case ref::WISHART: { double n = *x[2].s->m->data(); return any(ad::wishart_adj_log_pdf(*x[0].m, *x[1].m, n)); }
    }
    return {};
}
}
