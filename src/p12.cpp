// P12: variables have value semantics, views alias exactly the elements they name.
// Every sequence of operations on real variables, views, containers and expressions, next to a
// model that records which storage (and which elements of it) each object names.
#include "ops.hpp"
#include <optional>
using namespace eng;
template <class T, class Sh> using Var_ = ad::Var<T, Sh>;
template <class T, class Sh> struct Mk;
template <class T> struct Mk<T, ad::scl> { static constexpr int R = 1, C = 1; static ad::Var<T, ad::scl> var() { return ad::Var<T, ad::scl>(); } static auto view(T* v, T* a, int) { return ad::VarView<T, ad::scl>(v, a); } };
template <class T> struct Mk<T, ad::vec> { static constexpr int R = 3, C = 1; static ad::Var<T, ad::vec> var() { return ad::Var<T, ad::vec>(3); } static auto view(T* v, T* a, int n) { return ad::VarView<T, ad::vec>(v, a, n); } };
template <class T> struct Mk<T, ad::mat> { static constexpr int R = 2, C = 3; static ad::Var<T, ad::mat> var() { return ad::Var<T, ad::mat>(2, 3); } static auto view(T* v, T* a, int n) { return ad::VarView<T, ad::mat>(v, a, 2, n / 2); } };
enum Op { WV, WA, ZERO, ONES, ZEROA, ONESA, RESETA, ASSIGN01, ASSIGN10, SELF, MOVE01, COPY2, MOVE2, NEW2, DEL2, DEL1, ASSIGN02, ASSIGN20, SWAP, RET,
    EL, EH, ET, E_OF_R, R_ALL, R_HEAD, R_TAIL, R_OF_R, R_BIND, E_BIND, R_BIND1, R1, EWV, EWA, EZ, ER, RWV, RWA, RZ_, RO, RZA, RR, X_V, X_R, Y_E, XEV, YEV, P_SET, P_EV, Q_SET, Q_EV,
    PUSH0, PUSHM1, ERASE, BOXASSIGN, UNBOX, BOXCOPY, NOPS };
static const char* NAMES[] = {"A.value[last]=n", "A.adj[0]=n", "A.zero()", "A.ones()", "A.zero_adj()", "A.ones_adj()", "B.reset_adj()", "A=B", "B=A", "A=A", "A=move(B)", "new C(A)", "new C(move(B))", "new C", "delete C", "delete B", "A=C", "C=A", "swap(A,B)", "A=f(B) returning a local copy",
    "e=A[1]", "e=A.head(2)[0]", "e=A.tail(2)[1]", "e=r[0]", "r=view(A)", "r=A.head(2)", "r=A.tail(2)", "r=r.tail(1)", "r.bind(raw)", "e.bind(raw+1)", "r.bind(B+1..)", "r=view(B)", "e.value=n", "e.adj=n", "e.zero()", "e.reset_adj()", "r.value[0]=n", "r.adj[last]=n", "r.zero()", "r.ones()", "r.zero_adj()", "r.reset_adj()", "x=bind(sum(A*A))", "x=bind(sum(r*r))", "y=bind(e*e)", "autodiff(x,2)", "autodiff(y,3)", "p=bind(r=A+A)", "evaluate(p)", "q=bind((r*=2,r))", "autodiff(q)",
    "box.push_back(A)", "box.push_back(move(B))", "box.erase(begin)", "box[0]=A", "A=box.back()", "box=vector(box)"};
struct Sto { std::vector<double> v, a; bool ok = true, alive = true; };
struct Ref { int s = -1, off = 0, n = 0; explicit operator bool() const { return s >= 0; } };
template <class T, class Sh> struct World {
    using V = ad::Var<T, Sh>; using W = ad::VarView<T, Sh>; using E = ad::VarView<T, ad::scl>; using M = Mk<T, Sh>;
    static constexpr int N = M::R * M::C; static constexpr bool vec = std::is_same_v<Sh, ad::vec>, scl = std::is_same_v<Sh, ad::scl>;
    static std::string name(int o) { return NAMES[o]; } static int count() { return NOPS; }
    static auto mkx(W w) { if constexpr (scl) return ad::bind(w * w); else return ad::bind(ad::sum(w * w)); }
    static auto mky(E e) { return ad::bind(e * e); }
    static auto mkp(W r, W a) { return ad::bind(r = a + a); }
    static auto mkq(W r) { return ad::bind(ad::sum((r *= T(2), r))); }
    std::unique_ptr<V> s[3]; std::vector<V> box;
    std::optional<E> e; std::optional<W> r; std::unique_ptr<T[]> rawv{new T[N + 2]}, rawa{new T[N + 2]};
    std::optional<decltype(mkx(std::declval<W>()))> x; std::optional<decltype(mky(std::declval<E>()))> y; std::optional<decltype(mkp(std::declval<W>(), std::declval<W>()))> p; 
    // model
    std::vector<Sto> st; int sl[3] = {-1, -1, -1}; std::vector<int> bx; Ref me, mr, mx, my, mp, mpa; int RAW; int fresh = 1;
    int sto() { Sto q; q.v.assign(N, 0); q.a.assign(N, 0); st.push_back(q); return (int)st.size() - 1; }
    explicit World(int start) {
        for (int i = 0; i < 2; ++i) { s[i].reset(new V(M::var())); sl[i] = sto(); for (int j = 0; j < N; ++j) { s[i]->get(j % M::R, j / M::R) = st[sl[i]].v[j] = fresh; s[i]->get_adj(j % M::R, j / M::R) = st[sl[i]].a[j] = 100 + fresh; ++fresh; } }
        RAW = sto(); st[RAW].v.resize(N + 2); st[RAW].a.resize(N + 2); for (int j = 0; j < N + 2; ++j) { rawv[j] = st[RAW].v[j] = fresh++; rawa[j] = st[RAW].a[j] = 100 + fresh; }
        if (start) { apply(vec ? R_TAIL : R_ALL); apply(vec ? EL : E_OF_R); apply(X_V); apply(Y_E); }
        if (start == 2) { apply(PUSH0); apply(PUSH0); apply(COPY2); }
        if (start == 3) { apply(R_ALL); apply(P_SET); apply(R_BIND); apply(X_R); }
    }
    bool ok(int i) const { return i >= 0 && st[i].ok && st[i].alive; }
    bool ok(const Ref& q) const { return q && st[q.s].alive; }
    bool rd(const Ref& q) const { return ok(q) && st[q.s].ok; }
    bool enabled(int o) {
        bool A = ok(sl[0]), B = ok(sl[1]), C = ok(sl[2]);
        switch (o) {
            case WV: case WA: case ZERO: case ONES: case ZEROA: case ONESA: return A;
            case RESETA: return B; case ASSIGN01: return B && sl[0] >= 0; case ASSIGN10: return A && s[1]; case SELF: return A; case MOVE01: return B; case COPY2: return A && !s[2]; case MOVE2: return B && !s[2]; case NEW2: return !s[2];
            case DEL2: return !!s[2]; case DEL1: return !!s[1]; case ASSIGN02: return C; case ASSIGN20: return A && s[2]; case SWAP: return A && B; case RET: return B;
            case EL: case EH: case ET: return vec && A; case E_OF_R: return rd(mr) && !scl; case R_ALL: return A; case R_HEAD: case R_TAIL: return vec && A; case R_OF_R: return vec && rd(mr); case R_BIND: return !!mr; case E_BIND: return !!me; case R_BIND1: return B && mr && mr.n < N; case R1: return B;
            case EWV: case EWA: case EZ: case ER: return rd(me); case RWV: case RWA: case RZ_: case RO: case RZA: case RR: return rd(mr);
            case X_V: return A; case X_R: return rd(mr); case Y_E: return rd(me); case XEV: return rd(mx); case YEV: return rd(my);
            case P_SET: return A && rd(mr) && mr.n == N; case P_EV: return rd(mp) && rd(mpa); case Q_SET: return false; case Q_EV: return rd(mr);
            case PUSH0: return A && box.size() < 3; case PUSHM1: return B && box.size() < 3; case ERASE: return !box.empty() && ok(bx[0]); case BOXASSIGN: return A && !box.empty(); case UNBOX: return !bx.empty() && ok(bx.back()); case BOXCOPY: return !box.empty();
        }
        return false;
    }
    void forget(int id) { for (Ref* q : {&me, &mr, &mx, &my, &mp, &mpa}) if (q->s == id) *q = Ref(); }       // nothing is promised of views of a variable moved away
    void copy(int to, int from) { st[to].v = st[from].v; st[to].a = st[from].a; st[to].ok = true; }
    int dup(int from) { int k = sto(); copy(k, from); return k; }
    void kill(int id) { st[id].alive = false; forget(id); }
    static V ret(const V& v) { V l(v); return l; }
    std::string apply(int o) {
        double n = fresh++; std::string err;
        switch (o) {
            case WV: s[0]->get(M::R - 1, M::C - 1) = n; st[sl[0]].v[N - 1] = n; break;
            case WA: s[0]->get_adj(0, 0) = n; st[sl[0]].a[0] = n; break;
            case ZERO: s[0]->zero(); st[sl[0]].v.assign(N, 0); break; case ONES: s[0]->ones(); st[sl[0]].v.assign(N, 1); break;
            case ZEROA: s[0]->zero_adj(); st[sl[0]].a.assign(N, 0); break; case ONESA: s[0]->ones_adj(); st[sl[0]].a.assign(N, 1); break; case RESETA: s[1]->reset_adj(); st[sl[1]].a.assign(N, 0); break;
            case ASSIGN01: *s[0] = *s[1]; copy(sl[0], sl[1]); break; case ASSIGN10: *s[1] = *s[0]; copy(sl[1], sl[0]); break; case SELF: { V& q = *s[0]; *s[0] = q; break; }
            case MOVE01: *s[0] = std::move(*s[1]); copy(sl[0], sl[1]); st[sl[1]].ok = false; break;
            case COPY2: s[2].reset(new V(*s[0])); sl[2] = dup(sl[0]); break;
            case MOVE2: s[2].reset(new V(std::move(*s[1]))); sl[2] = dup(sl[1]); { int k = sto(); st[k].ok = false; kill(sl[1]); sl[1] = k; } break;
            case NEW2: s[2].reset(new V(M::var())); sl[2] = sto(); break;
            case DEL2: s[2].reset(); kill(sl[2]); sl[2] = -1; break; case DEL1: s[1].reset(); kill(sl[1]); sl[1] = -1; break;
            case ASSIGN02: *s[0] = *s[2]; copy(sl[0], sl[2]); break; case ASSIGN20: *s[2] = *s[0]; copy(sl[2], sl[0]); break;
            case SWAP: { std::swap(*s[0], *s[1]); std::swap(st[sl[0]].v, st[sl[1]].v); std::swap(st[sl[0]].a, st[sl[1]].a); forget(sl[0]); forget(sl[1]); break; }
            case RET: *s[0] = ret(*s[1]); copy(sl[0], sl[1]); break;
            case EL: if constexpr (vec) { e.emplace((*s[0])[1]); me = {sl[0], 1, 1}; } break; case EH: if constexpr (vec) { e.emplace(s[0]->head(2)[0]); me = {sl[0], 0, 1}; } break; case ET: if constexpr (vec) { e.emplace(s[0]->tail(2)(1)); me = {sl[0], 2, 1}; } break;
            case E_OF_R: if constexpr (vec) e.emplace((*r)[0]); else e.emplace(&r->get(0, 0), &r->get_adj(0, 0)); me = {mr.s, mr.off, 1}; break;
            case R_ALL: r.emplace(*s[0]); mr = {sl[0], 0, N}; break; case R1: r.emplace(*s[1]); mr = {sl[1], 0, N}; break;
            case R_HEAD: if constexpr (vec) { r.emplace(s[0]->head(2)); mr = {sl[0], 0, 2}; } break; case R_TAIL: if constexpr (vec) { r.emplace(s[0]->tail(2)); mr = {sl[0], 1, 2}; } break;
            case R_OF_R: if constexpr (vec) { W w = r->tail(r->size() - 1 ? 1 : 0); r.emplace(w); int l = mr.n - 1 ? 1 : 0; mr = {mr.s, mr.off + mr.n - l, l}; if (!l) { r.reset(); mr = Ref(); } } break;
            case R_BIND: { auto z = r->bind({rawv.get(), rawa.get()}); mr = {RAW, 0, mr.n}; if (z.val != rawv.get() + mr.n || z.adj != rawa.get() + mr.n) err = "bind returned the wrong end"; break; }
            case E_BIND: { auto z = e->bind({rawv.get() + 1, rawa.get() + 1}); me = {RAW, 1, 1}; if (z.val != rawv.get() + 2 || z.adj != rawa.get() + 2) err = "bind returned the wrong end"; break; }
            case R_BIND1: r->bind({s[1]->data() + 1, s[1]->data_adj() + 1}); mr = {sl[1], 1, mr.n}; break;
            case EWV: e->get() = n; st[me.s].v[me.off] = n; break; case EWA: e->get_adj() = n; st[me.s].a[me.off] = n; break; case EZ: e->zero(); st[me.s].v[me.off] = 0; break; case ER: e->reset_adj(); st[me.s].a[me.off] = 0; break;
            case RWV: r->get(0, 0) = n; st[mr.s].v[mr.off] = n; break; case RWA: r->get_adj(r->rows() - 1, r->cols() - 1) = n; st[mr.s].a[mr.off + mr.n - 1] = n; break;
            case RZ_: r->zero(); for (int i = 0; i < mr.n; ++i) st[mr.s].v[mr.off + i] = 0; break; case RO: r->ones(); for (int i = 0; i < mr.n; ++i) st[mr.s].v[mr.off + i] = 1; break;
            case RZA: r->zero_adj(); for (int i = 0; i < mr.n; ++i) st[mr.s].a[mr.off + i] = 0; break; case RR: r->reset_adj(); for (int i = 0; i < mr.n; ++i) st[mr.s].a[mr.off + i] = 0; break;
            case X_V: x.emplace(mkx(*s[0])); mx = {sl[0], 0, N}; break; case X_R: x.emplace(mkx(*r)); mx = mr; break; case Y_E: y.emplace(mky(*e)); my = me; break;
            case XEV: { double v = 0; for (int i = 0; i < mx.n; ++i) { double q = st[mx.s].v[mx.off + i]; v += q * q; } for (int i = 0; i < mx.n; ++i) st[mx.s].a[mx.off + i] += 4 * st[mx.s].v[mx.off + i]; double g = ad::autodiff(*x, T(2)); if (g != v) err = "the expression yields " + ref::num(g) + " instead of " + ref::num(v); break; }
            case YEV: { double q = st[my.s].v[my.off]; double g = ad::autodiff(*y, T(3)); st[my.s].a[my.off] += 6 * q; if (g != q * q) err = "the expression yields " + ref::num(g) + " instead of " + ref::num(q * q); break; }
            case P_SET: p.emplace(mkp(*r, *s[0])); mp = mr; mpa = {sl[0], 0, N}; break;
            case P_EV: { std::vector<double> z; for (int i = 0; i < N; ++i) z.push_back(2 * st[mpa.s].v[mpa.off + i]); ad::evaluate(*p); for (int i = 0; i < N; ++i) st[mp.s].v[mp.off + i] = z[i]; break; }
            case Q_EV: { auto q = [&] { if constexpr (scl) return ad::bind((*r *= T(2), *r * *r)); else return ad::bind(ad::sum((*r *= T(2), *r * *r))); }(); double v = 0; for (int i = 0; i < mr.n; ++i) { double t = 2 * st[mr.s].v[mr.off + i]; v += t * t; }
                double g = ad::evaluate(q); if (g != v) err = "the expression yields " + ref::num(g) + " instead of " + ref::num(v); for (int i = 0; i < mr.n; ++i) { double z = st[mr.s].v[mr.off + i]; if (r->data()[i] != 2 * z) err = "the updated view does not hold the new value"; st[mr.s].a[mr.off + i] = r->data_adj()[i] = 0; }
                ad::evaluate_adj(q); for (int i = 0; i < mr.n; ++i) st[mr.s].a[mr.off + i] = 8 * st[mr.s].v[mr.off + i]; break; }
            case PUSH0: for (int id : bx) forget(id); box.push_back(*s[0]); bx.push_back(dup(sl[0])); break;
            case PUSHM1: for (int id : bx) forget(id); box.push_back(std::move(*s[1])); bx.push_back(dup(sl[1])); { int k = sto(); st[k].ok = false; kill(sl[1]); sl[1] = k; } break;
            case ERASE: box.erase(box.begin()); kill(bx[0]); bx.erase(bx.begin()); break;
            case BOXASSIGN: box[0] = *s[0]; copy(bx[0], sl[0]); break; case UNBOX: *s[0] = box.back(); copy(sl[0], bx.back()); break;
            case BOXCOPY: { std::vector<V> c(box); box = c; break; }
        }
        return err;
    }
    template <class A> std::string cmp(A& a, const Ref& q, const char* what) {
        if ((int)a.size() != q.n || (int)(a.rows() * a.cols()) != q.n) return std::string(what) + " has the wrong size";
        auto& S = st[q.s]; int R = (int)a.rows();
        for (int i = 0; i < q.n; ++i) {
            double v = a.get(i % R, i / R), d = a.get_adj(i % R, i / R);
            if (v != S.v[q.off + i] || a.data()[i] != S.v[q.off + i]) return std::string(what) + " element " + std::to_string(i) + " has value " + ref::num(v) + " instead of " + ref::num(S.v[q.off + i]);
            if (d != S.a[q.off + i] || a.data_adj()[i] != S.a[q.off + i]) return std::string(what) + " element " + std::to_string(i) + " has adjoint " + ref::num(d) + " instead of " + ref::num(S.a[q.off + i]);
            const A& c = a; if (c.get(i % R, i / R) != v || c.get_adj(i % R, i / R) != d || c.data() != a.data() || c.data_adj() != a.data_adj()) return std::string(what) + ": const access differs";
            if constexpr (std::is_same_v<typename A::shape_t, ad::scl>) { if (a.get() != v || a.get_adj() != d || a.feval() != v) return std::string(what) + ": access differs"; }
            else if (a.get().data()[i] != v || a.get_adj().data()[i] != d || a.feval().data()[i] != v) return std::string(what) + ": access differs";
        }
        return "";
    }
    std::string check() {
        static const char* L[] = {"A", "B", "C"}; std::string err;
        for (int i = 0; i < 3; ++i) if (s[i] && ok(sl[i]) && !(err = cmp(*s[i], {sl[i], 0, N}, L[i])).empty()) return err;
        for (size_t i = 0; i < box.size(); ++i) if (ok(bx[i]) && !(err = cmp(box[i], {bx[i], 0, N}, "box")).empty()) return err;
        if (rd(me) && !(err = cmp(*e, me, "e")).empty()) return err;
        if (rd(mr) && !(err = cmp(*r, mr, "r")).empty()) return err;
        for (int i = 0; i < N + 2; ++i) if (rawv[i] != st[RAW].v[i] || rawa[i] != st[RAW].a[i]) return "raw memory changed";
        return "";
    }
    std::string finish() { std::string err; if (enabled(XEV) && !(err = apply(XEV)).empty()) return err; if (enabled(YEV) && !(err = apply(YEV)).empty()) return err; return check(); }
};
template <class T, class Sh> void go(const char* nm, int len, Shard& sh) {
    for (int start = 0; start < 4; ++start) ops::explore<World<T, Sh>>(len, [&] { return std::make_unique<World<T, Sh>>(start); }, std::string(nm) + " world " + std::to_string(start), sh);
}
#if !DEPTHCUT
// every sequence of re-bindings of one view, to storage with and without adjoints
template <class T, class Sh> void binds(int R, int C, int len, Shard& sh) {
    if (!sh.mine()) return;
    const int n = R * C; using W = ad::VarView<T, Sh>;
    std::vector<T> va(n + 1, T(1)), vb(n + 1, T(2)), aa(n + 1, T(3)), ab(n + 1, T(4)); T* vp[] = {va.data(), vb.data()}; T* ap[] = {aa.data(), ab.data(), nullptr};
    auto make = [&](T* v, T* a) { if constexpr (std::is_same_v<Sh, ad::scl>) return W(v, a); else if constexpr (std::is_same_v<Sh, ad::vec>) return W(v, a, n); else return W(v, a, R, C); };
    std::vector<int> q(len + 1, 0);
    for (;;) {
        std::string t = "view " + std::to_string(R) + "x" + std::to_string(C) + " over"; current = t; rep.states++; rep.traces++;
        W w = make(vp[q[0] % 2], ap[q[0] / 2]);
        for (int k = 0; k <= len; ++k) {
            T *v = vp[q[k] % 2], *a = ap[q[k] / 2];
            t += std::string(k ? ", then " : " ") + (q[k] % 2 ? "B" : "A") + (a ? q[k] / 2 ? "/B" : "/A" : "/no adjoints");
            if (k) { auto z = w.bind({v, a}); rep.transitions++; if (z.val != v + n || (a && z.adj != a + n)) { rep.fail("BIND", t, "bind returned the wrong end"); return; } }
            const W& c = w;
            if (w.data() != v || c.data() != v || w.data_adj() != a || c.data_adj() != a) { rep.fail("BIND", t, "the view names other storage"); return; }
            if ((int)w.size() != n || (int)w.rows() != R || (int)w.cols() != C) { rep.fail("BIND", t, "the shape changed"); return; }
            w.get(R - 1, C - 1) = T(10 + k); if (v[n - 1] != T(10 + k)) { rep.fail("BIND", t, "a value written through the view is not in its storage"); return; }
            if (a) { w.get_adj(R - 1, C - 1) = T(20 + k); w.get_adj(0, 0) += T(1); if (a[n - 1] != T(20 + k) + (n == 1)) { rep.fail("BIND", t, "an adjoint written through the view is not in its storage"); return; } w.reset_adj(); for (int i = 0; i < n; ++i) if (a[i] != 0) { rep.fail("BIND", t, "reset_adj left an adjoint"); return; } }
        }
        int k = len; while (k >= 0 && ++q[k] >= 6) q[k--] = 0;
        if (k < 0) break;
    }
}
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void part1(int l, Shard& sh); void part2(int l, Shard& sh); void part3(int l, Shard& sh);
#if PART == 1
void part1(int l, Shard& sh) {
#if !DEPTHCUT
    binds<double, ad::scl>(1, 1, 4, sh); binds<float, ad::scl>(1, 1, 4, sh); binds<double, ad::vec>(1, 1, 4, sh); binds<double, ad::vec>(3, 1, 4, sh); binds<float, ad::vec>(2, 1, 4, sh); binds<double, ad::mat>(1, 1, 4, sh); binds<double, ad::mat>(1, 3, 4, sh); binds<double, ad::mat>(3, 1, 4, sh); binds<double, ad::mat>(2, 2, 4, sh);
#endif
    go<double, ad::scl>("scalar", l, sh); go<float, ad::scl>("float scalar", 3, sh); }
#elif PART == 2
void part2(int l, Shard& sh) { go<double, ad::vec>("vector", l, sh); go<float, ad::vec>("float vector", 3, sh); }
#elif PART == 3
void part3(int l, Shard& sh) { go<double, ad::mat>("matrix", l, sh); go<float, ad::mat>("float matrix", 3, sh); }
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); int l = (sh.tier ? 5 : 4) - (DEPTHCUT);
    part1(l, sh); part2(l, sh); part3(l, sh);
    rep.finish();
}
#endif
