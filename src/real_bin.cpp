#include "dyn.hpp"
#include "ref.hpp"
namespace dyn {
template <class F> static Any pairs(const Any& x, const Any& y, F f) {
    if (x.s && y.s) return any(f(*x.s, *y.s));
    if (x.s && y.v) return any(f(*x.s, *y.v));
    if (x.v && y.s) return any(f(*x.v, *y.s));
    if (x.v && y.v) return any(f(*x.v, *y.v));
    if (x.s && y.m) return any(f(*x.s, *y.m));
    if (x.m && y.s) return any(f(*x.m, *y.s));
    if (x.m && y.m) return any(f(*x.m, *y.m));
    return {};
}
#define OP(k, o) case ref::k: return pairs(x, y, [](auto& a, auto& b) { return a o b; });
#if PART == 1
Any mk_bin_arith(int op, const Any& x, const Any& y) { switch (op) { OP(ADD, +) OP(SUB, -) OP(MUL, *) OP(DIV, /) } return {}; }
#elif PART == 2
Any mk_bin_cmp(int op, const Any& x, const Any& y) { switch (op) { OP(LT, <) OP(LE, <=) OP(GT, >) OP(GE, >=) } return {}; }
#else
Any mk_bin_arith(int, const Any&, const Any&); Any mk_bin_cmp(int, const Any&, const Any&);
Any mk_bin(int op, const Any& x, const Any& y) {
    if (op <= ref::DIV) return mk_bin_arith(op, x, y);
    if (op <= ref::GE) return mk_bin_cmp(op, x, y);
    switch (op) { OP(EQL, ==) OP(NE, !=) OP(AND, &&) OP(OR, ||) }
    return {};
}
#endif
}
