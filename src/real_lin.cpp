#include "dyn.hpp"
#include "ref.hpp"
namespace dyn {
Any mk_red(int kind, const Any& x) {
    switch (kind) {
    case ref::SUM: return x.visit([](auto& d) { return any(ad::sum(d)); });
    case ref::PROD: return x.visit([](auto& d) { return any(ad::prod(d)); });
    case ref::NORM: if (x.v) return any(ad::norm(*x.v)); if (x.m) return any(ad::norm(*x.m)); return {};
    case ref::TRANS: if (x.v) return any(ad::transpose(*x.v)); if (x.m) return any(ad::transpose(*x.m)); return {};
    }
    return {};
}
Any mk_dot(const Any& x, const Any& y) { if (!x.m) return {}; if (y.v) return any(ad::dot(*x.m, *y.v)); if (y.m) return any(ad::dot(*x.m, *y.m)); return {}; }
Any mk_det(int kind, int pol, const Any& x) {
    using namespace ad::core;
    if (kind == ref::DET) switch (pol) {
        case ref::LU: return any(ad::det(*x.m));
        case ref::LDLT: return any(ad::det<ad::DetLDLT>(*x.m));
        case ref::LLT: return any(ad::det<ad::DetLLT>(*x.m));
    } else switch (pol) {
        case ref::LU: return any(ad::log_det(*x.m));
        case ref::LDLT: return any(ad::log_det<ad::LogDetLDLT>(*x.m));
        case ref::LLT: return any(ad::log_det<ad::LogDetLLT>(*x.m));
    }
    return {};
}
}
