#include "dyn.hpp"
#include "ref.hpp"
namespace dyn {
template <class F> static Any each(const Any& x, F f) { return x.visit([&](auto& d) { return any(f(d)); }); }
#if PART == 1
Any mk_un_a(int op, const Any& x) {
    using namespace ad;
    switch (op) {
    case ref::NEG: return each(x, [](auto& d) { return -d; });
    case ref::SIN: return each(x, [](auto& d) { return ad::sin(d); });
    case ref::COS: return each(x, [](auto& d) { return ad::cos(d); });
    case ref::TAN: return each(x, [](auto& d) { return ad::tan(d); });
    case ref::ASIN: return each(x, [](auto& d) { return ad::asin(d); });
    case ref::ACOS: return each(x, [](auto& d) { return ad::acos(d); });
    case ref::ATAN: return each(x, [](auto& d) { return ad::atan(d); });
    case ref::EXP: return each(x, [](auto& d) { return ad::exp(d); });
    }
    return {};
}
#elif PART == 2
Any mk_un_a(int op, const Any& x);
Any mk_un(int op, const Any& x) {
    switch (op) {
    case ref::LOG: return each(x, [](auto& d) { return ad::log(d); });
    case ref::SQRT: return each(x, [](auto& d) { return ad::sqrt(d); });
    case ref::ERF: return each(x, [](auto& d) { return ad::erf(d); });
    case ref::SIGMOID: return each(x, [](auto& d) { return ad::sigmoid(d); });
    case ref::SINH: return each(x, [](auto& d) { return ad::sinh(d); });
    case ref::COSH: return each(x, [](auto& d) { return ad::cosh(d); });
    case ref::TANH: return each(x, [](auto& d) { return ad::tanh(d); });
    }
    return mk_un_a(op, x);
}
#else
Any mk_pow(int e, const Any& x) {
    switch (e) {
#define P(k) case k: return each(x, [](auto& d) { return ad::pow<k>(d); });
    P(-3) P(-2) P(-1) P(0) P(1) P(2) P(3) P(4) P(5)
    }
    return {};
}
#endif
}
