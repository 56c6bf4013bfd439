// Type-erased expression node.  Every FastAD node template is instantiated once per operand
// shape over Dyn<shape>, so that expression trees of any form can be put together at run time
// out of the real nodes.  A Dyn is itself a user-defined expression node: it counts visits,
// logs them, and is a scheduling point.
#pragma once
#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <fastad_bits/reverse/core/transpose.hpp>
#include <memory>
#include <vector>
#include <cstring>

namespace dyn {
using ad::scl; using ad::vec; using ad::mat;
using Pack = ad::util::PtrPack<double>;
using SizePack = ad::util::SizePack;
using AV = Eigen::Array<double, Eigen::Dynamic, 1>;
using AM = Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic>;

struct Ev { int id; char what; };                 // 'f' forward begin, 'F' forward end, 'b' backward begin, 'B' backward end
struct Hooks {
    bool log = false;
    std::vector<Ev> events;
    void (*point)(char) = nullptr;                // scheduling point
    inline void at(int id, char w) { if (log && id) events.push_back({id, w}); if (point) point(w); }
};
extern thread_local Hooks hooks;

template <class Sh> struct Arr;
template <> struct Arr<scl> { using t = double; };
template <> struct Arr<vec> { using t = AV; };
template <> struct Arr<mat> { using t = AM; };

struct ModelBase {
    virtual ~ModelBase() {}
    virtual ModelBase* clone() const = 0;
    virtual void feval() = 0;
    virtual void beval_i(int) = 0;
    virtual void beval_d(double) = 0;
    virtual void beval_a(const void*) = 0;
    virtual double* data() = 0;
    virtual double* data_adj() = 0;
    virtual const double* result() const = 0;     // storage returned by the last feval
    virtual bool rebind(Pack) = 0;
    virtual Pack bind_cache(Pack) = 0;
    virtual SizePack bind_cache_size() const = 0;
    virtual SizePack single_bind_cache_size() const = 0;
};

template <class T> inline const double* addr_of(const T& x) {
    if constexpr (std::is_same_v<std::decay_t<T>, double>) return &x; else return x.data();
}

// Root: the outermost expression of a program; only ever seeded by the user, with its own shape
template <class E, class Sh, bool Root = false>
struct Model final : ModelBase {
    static constexpr bool is_const = ad::util::is_constant_v<E>;
    E e; const double* res = nullptr;
    Model(const E& x) : e(x) {}
    ModelBase* clone() const override { return new Model<E, Sh, Root>(e); }
    void feval() override { res = addr_of(e.feval()); }
    void beval_i(int s) override { (void)s; if constexpr (!Root) e.beval(s); else beval_d(s); }
    void beval_d(double s) override { (void)s; if constexpr (!Root || std::is_same_v<Sh, scl>) e.beval(s); else std::abort(); }
    void beval_a(const void* s) override {
        (void)s;
        if constexpr (!std::is_same_v<Sh, scl>) e.beval(*static_cast<const typename Arr<Sh>::t*>(s));
    }
    double* data() override { if constexpr (is_const) return const_cast<double*>(e.data()); else return e.data(); }
    double* data_adj() override { if constexpr (is_const) return nullptr; else return e.data_adj(); }
    const double* result() const override { return res; }
    bool rebind(Pack p) override {
        (void)p;
        if constexpr (is_const) return false;
        else { static_cast<typename E::value_adj_view_t&>(e).bind(p); return true; }
    }
    Pack bind_cache(Pack p) override { return e.bind_cache(p); }
    SizePack bind_cache_size() const override { return e.bind_cache_size(); }
    SizePack single_bind_cache_size() const override { return e.single_bind_cache_size(); }
};

template <class Sh>
struct Dyn : ad::core::ValueAdjView<double, Sh>, ad::core::ExprBase<Dyn<Sh>> {
    using value_adj_view_t = ad::core::ValueAdjView<double, Sh>;
    using typename value_adj_view_t::value_t;
    using typename value_adj_view_t::shape_t;
    using typename value_adj_view_t::var_t;
    using typename value_adj_view_t::ptr_pack_t;
    std::unique_ptr<ModelBase> m;
    int id = 0;

    template <class E, class = std::enable_if_t<ad::util::is_expr_v<E> && !std::is_same_v<E, Dyn>>>
    Dyn(const E& e, int) : value_adj_view_t(nullptr, nullptr, e.rows(), e.cols()), m(new Model<E, Sh, true>(e)) { mirror(); }
    template <class E, class = std::enable_if_t<ad::util::is_expr_v<E> && !std::is_same_v<E, Dyn>>>
    explicit Dyn(const E& e) : value_adj_view_t(nullptr, nullptr, e.rows(), e.cols()), m(new Model<E, Sh>(e)) { mirror(); }
    Dyn(const Dyn& o) : value_adj_view_t(nullptr, nullptr, o.rows(), o.cols()), m(o.m->clone()), id(o.id) { mirror(); }
    Dyn(Dyn&& o) : value_adj_view_t(nullptr, nullptr, o.rows(), o.cols()), m(std::move(o.m)), id(o.id) { mirror(); }
    Dyn& operator=(const Dyn&) = delete;
    void mirror() { value_adj_view_t::bind({m->data(), m->data_adj()}); }

    const var_t& feval() {
        hooks.at(id, 'f');
        sync();
        m->feval();
        // a node returns either its own storage or that of what it views
        if (m->result() != this->data()) std::memmove(this->data(), m->result(), sizeof(double) * this->size());
        hooks.at(id, 'F');
        return this->get();
    }
    void sync() { if (this->data() != m->data() || this->data_adj() != m->data_adj()) m->rebind({this->data(), this->data_adj()}); }
    template <class T> void beval(const T& seed) {
        hooks.at(id, 'b');
        if constexpr (std::is_same_v<T, int>) m->beval_i(seed);
        else if constexpr (std::is_arithmetic_v<T>) m->beval_d(seed);
        else {
            static_assert(!std::is_same_v<Sh, scl>);
            typename Arr<Sh>::t s = seed;
            m->beval_a(&s);
        }
        hooks.at(id, 'B');
    }
    ptr_pack_t bind_cache(ptr_pack_t p) { p = m->bind_cache(p); mirror(); return p; }
    SizePack bind_cache_size() const { return m->bind_cache_size(); }
    SizePack single_bind_cache_size() const { return m->single_bind_cache_size(); }
};
using DS = Dyn<scl>; using DV = Dyn<vec>; using DM = Dyn<mat>;

// an expression of run-time shape
struct Any {
    std::unique_ptr<DS> s; std::unique_ptr<DV> v; std::unique_ptr<DM> m;
    Any() {}
    Any(Any&&) = default; Any& operator=(Any&&) = default;
    Any(const Any& o) : s(o.s ? new DS(*o.s) : nullptr), v(o.v ? new DV(*o.v) : nullptr), m(o.m ? new DM(*o.m) : nullptr) {}
    int shape() const { return s ? 0 : v ? 1 : 2; }
    explicit operator bool() const { return s || v || m; }
    template <class F> auto visit(F&& f) { return s ? f(*s) : v ? f(*v) : f(*m); }
    template <class F> auto visit(F&& f) const { return s ? f(*s) : v ? f(*v) : f(*m); }
    void set_id(int i) { visit([&](auto& d) { d.id = i; }); }
};
template <class E> inline Any any_root(const E& e) {
    Any o;
    if constexpr (ad::util::is_scl_v<E>) o.s.reset(new DS(e, 0));
    else if constexpr (ad::util::is_vec_v<E>) o.v.reset(new DV(e, 0));
    else o.m.reset(new DM(e, 0));
    return o;
}
template <class E> inline Any any(const E& e) {
    Any o;
    if constexpr (ad::util::is_scl_v<E>) o.s.reset(new DS(e));
    else if constexpr (ad::util::is_vec_v<E>) o.v.reset(new DV(e));
    else o.m.reset(new DM(e));
    return o;
}
using VS = ad::VarView<double, scl>; using VV = ad::VarView<double, vec>; using VM = ad::VarView<double, mat>;

// factories, defined in real_*.cpp
Any mk_un(int op, const Any& x);
Any mk_pow(int e, const Any& x);
Any mk_bin(int op, const Any& x, const Any& y);
Any mk_red(int kind, const Any& x);               // ref::SUM PROD NORM TRANS
Any mk_dot(const Any& x, const Any& y);
Any mk_det(int kind, int pol, const Any& x);
Any mk_if(const Any& c, const Any& x, const Any& y);
Any mk_glue(const Any& x, const Any& y);
Any mk_eq(double* val, double* adj, int r, int c, const Any& x);
Any mk_opeq(int op, int shape, double* val, double* adj, int r, int c, const Any& x);
Any mk_iter(int kind, const std::vector<Any>& xs);
Any mk_pdf(int which, const std::vector<Any>& xs);
}
