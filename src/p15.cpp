// P15: bound expressions own their working memory.  Every sequence of lifetime operations on real
// ExprBind objects of several expression types, next to a model that only knows which expression
// each object holds and at which inputs it was evaluated last.
#include "ops.hpp"
#include "static.hpp"
using namespace eng; using namespace ref;
// variables: 0,1 scalar | 2,3 vec 2 | 4,5 vec 4 | 6 mat 2x2 | 7 mat 3x3 | 8,9 placeholders vec 2/4 | 10 scalar
static std::vector<VarDecl> decls() { return {{S,1,1},{S,1,1},{V,2,1},{V,2,1},{V,4,1},{V,4,1},{M,2,2},{M,3,3},{V,2,1},{V,4,1},{S,1,1}}; }
static Vals input_(int k) {
    Vals v; int i = 0; for (auto& d : decls()) { std::vector<double> x; for (int j = 0; j < d.size(); ++j, ++i) x.push_back(0.3 + 0.15 * ((i * 7 + 3 * k) % 9) - (k && i % 3 == 0 ? 1.1 : 0)); if (d.s == M) for (int j = 0; j < d.r; ++j) x[j * d.r + j] += 2 + k; v.push_back(x); }
    return v;
}
static const Vals& input(int k) { static const Vals v[2] = {input_(0), input_(1)}; return v[k]; }
// each family: one type, two different objects of it (other variables, other sizes)
struct FArith { static auto real(Store& s, int w) { auto a = s.S(w), b = s.S(1 - w); return ad::sin(a) * ad::exp(b) + a * b; }
    static const Node* ref(B& b, int w) { auto x = b.var(w, S, 1, 1), y = b.var(1 - w, S, 1, 1); return b.bin(ADD, b.bin(MUL, b.un(SIN, x), b.un(EXP, y)), b.bin(MUL, x, y)); } };
struct FVec { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w), u = s.V(3 + 2 * w); return ad::sin(v) * (u + 2.) - v; }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1), u = b.var(3 + 2 * w, V, 2 + 2 * w, 1); return b.bin(SUB, b.bin(MUL, b.un(SIN, v), b.bin(ADD, u, b.cst(2))), v); } };
struct FSeq { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w), t = s.V(8 + w); return (t = ad::sin(v) * v, ad::sum(t * t) - ad::sum(t)); }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1), t = b.var(8 + w, V, 2 + 2 * w, 1); return b.glue(b.eq(t, b.bin(MUL, b.un(SIN, v), v)), b.bin(SUB, b.red(SUM, b.bin(MUL, t, t)), b.red(SUM, t))); } };
struct FUpd { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w), u = s.V(3 + 2 * w); return (v *= ad::exp(u), ad::sum(v * v)); }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1), u = b.var(3 + 2 * w, V, 2 + 2 * w, 1); return b.glue(b.opeq(2, v, b.un(EXP, u)), b.red(SUM, b.bin(MUL, v, v))); } };
struct FDet { static auto real(Store& s, int w) { auto m = s.M(6 + w); return ad::det(m) * s.S(0) + ad::log_det(m * 2.); }
    static const Node* ref(B& b, int w) { auto m = b.var(6 + w, M, 2 + w, 2 + w); return b.bin(ADD, b.bin(MUL, b.det(DET, 0, m), b.var(0, S, 1, 1)), b.det(LOGDET, 0, b.bin(MUL, m, b.cst(2)))); } };
struct FRed { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w), u = s.V(3 + 2 * w); return ad::prod(v + 1.) * ad::norm(u) + ad::sum(u * v); }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1), u = b.var(3 + 2 * w, V, 2 + 2 * w, 1); return b.bin(ADD, b.bin(MUL, b.red(PROD, b.bin(ADD, v, b.cst(1))), b.red(NORM, u)), b.red(SUM, b.bin(MUL, u, v))); } };
struct FPdf { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w); return ad::if_else(s.S(0) < s.S(1), ad::normal_adj_log_pdf(v, s.S(w), 1.5), ad::sum(v) * s.S(0)); }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1); return b.ife(b.bin(LT, b.var(0, S, 1, 1), b.var(1, S, 1, 1)), b.pdf(NORMAL, {v, b.var(w, S, 1, 1), b.cst(1.5)}), b.bin(MUL, b.red(SUM, v), b.var(0, S, 1, 1))); } };
struct FOwn { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w); Eigen::VectorXd c(2 + 2 * w); for (int i = 0; i < c.size(); ++i) c[i] = i - 0.5 + w; return ad::sum(v * ad::constant(c)) * ad::constant(3.); }
    static const Node* ref(B& b, int w) { auto v = b.var(2 + 2 * w, V, 2 + 2 * w, 1); std::vector<double> c; for (int i = 0; i < 2 + 2 * w; ++i) c.push_back(i - 0.5 + w); return b.bin(MUL, b.red(SUM, b.bin(MUL, v, b.cstv(c))), b.cst(3)); } };
struct FIter { static auto real(Store& s, int w) { auto x = s.S(0), y = s.S(1); std::vector<decltype(ad::sin(x) * y)> e; for (int i = 0; i < 2 + w; ++i) e.push_back(ad::sin(i % 2 ? x : y) * s.S(w)); return ad::sum(e.begin(), e.end(), [](const auto& q) { return q; }) * ad::prod(e.begin(), e.end(), [](const auto& q) { return q; }); }
    static const Node* ref(B& b, int w) { std::vector<const Node*> e; for (int i = 0; i < 2 + w; ++i) e.push_back(b.bin(MUL, b.un(SIN, b.var(i % 2 ? 0 : 1, S, 1, 1)), b.var(w, S, 1, 1))); return b.bin(MUL, b.iter(SUMIT, e), b.iter(PRODIT, e)); } };
struct FMat { static auto real(Store& s, int w) { auto m = s.M(6 + w); return ad::dot(ad::transpose(m) * 0.5, m) + m; }
    static const Node* ref(B& b, int w) { auto m = b.var(6 + w, M, 2 + w, 2 + w); return b.bin(ADD, b.dot(b.bin(MUL, b.trans(m), b.cst(0.5)), m), m); } };
struct FEach { static auto real(Store& s, int w) { auto v = s.V(2 + 2 * w), t = s.V(8 + w); std::vector<decltype(t[0] = v[0] * v[0])> e; for (int i = 0; i < 2 + 2 * w; ++i) e.push_back(t[i] = v[i] * v[i]); return (ad::for_each(e.begin(), e.end(), [](const auto& q) { return q; }), ad::sum(t * v)); }
    static const Node* ref(B& b, int w) { int n = 2 + 2 * w; auto v = b.var(2 + 2 * w, V, n, 1), t = b.var(8 + w, V, n, 1); std::vector<const Node*> e; for (int i = 0; i < n; ++i) e.push_back(b.eq(b.sub(8 + w, i, S, 1), b.bin(MUL, b.sub(2 + 2 * w, i, S, 1), b.sub(2 + 2 * w, i, S, 1)))); return b.glue(b.iter(FOREACH, e), b.red(SUM, b.bin(MUL, t, v))); } };
enum { NEW0, NEW1, COPY1, COPY2, MOVE2, DEL0, DEL1, ASSIGN01, ASSIGN10, ASSIGN20, SELF, MOVEA01, SWAP, RETURN0, REASSIGN1, PUSH0, PUSHM1, PUSHTMP, ERASE0, INSERT0, BOXASSIGN, UNBOX, BOXCOPY, EVAL0, EVAL1, EVALB, DIFF0, DIFF1, DIFFB, TMP, INPUT, NOPS };
static const char* NAMES[] = {"new A=bind(f0)", "new B=bind(f1)", "new B(A)", "new C(B)", "new C(move(A))", "delete A", "delete B", "A=B", "B=A", "C=A", "A=A", "A=move(B)", "swap(A,B)", "A=function returning bind(f1)", "B=bind(f0)",
    "box.push_back(A)", "box.push_back(move(B))", "box.push_back(bind(f1))", "box.erase(begin)", "box.insert(begin,A)", "box[0]=A", "A=box.back()", "box=copy of box", "evaluate(A)", "evaluate(B)", "evaluate(box.back())", "evaluate_adj(A)", "evaluate_adj(B)", "evaluate_adj(box.back())", "autodiff(copy of A)", "set other inputs"};
template <class F> struct World {
    using E = decltype(F::real(std::declval<Store&>(), 0)); using X = ad::core::ExprBind<E>;
    static std::string name(int o) { return NAMES[o]; } static int count() { return NOPS; }
    struct Exp { Result r[2][2]; bool seq; };
    static Exp& exp_() { static Exp* e = nullptr; static Arena A; if (!e) { e = new Exp; Model m; B b{A}; for (int w = 0; w < 2; ++w) for (int i = 0; i < 2; ++i) { auto n = F::ref(b, w); e->r[w][i] = m.run(n, input(i), mkseed(n, 1)); e->seq = contains(n, EQ) || contains(n, OPEQ); if (!e->r[w][i].defined) { rep.fail("DOMAIN", str(n), "harness: not defined"); } } } return *e; }
    Store st{decls()}; std::unique_ptr<X> s[3]; std::vector<X> box; Exp& ex = exp_();
    struct Obj { int w = -1; bool ev = false; int at = 0; }; Obj o[3]; std::vector<Obj> bx; int in = 0;    // w: which expression (-1: none, -2: moved from); ev: evaluated at the current inputs
    Vals acc, tol;
    explicit World(int start) {
        set(0); reset();
        if (start) { s[0].reset(new X(F::real(st, 0))); o[0].w = 0; s[1].reset(new X(F::real(st, 1))); o[1].w = 1; }
        if (start == 2) { box.push_back(*s[0]); bx.push_back(o[0]); box.push_back(*s[1]); bx.push_back(o[1]); }
    }
    void set(int i) { in = i; auto& v = input(i); for (size_t k = 0; k < v.size(); ++k) std::copy(v[k].begin(), v[k].end(), st.v(k)); if (ex.seq) { for (auto& q : o) q.ev = false; for (auto& q : bx) q.ev = false; } }
    void reset() { acc.clear(); for (size_t i = 0; i < st.decl.size(); ++i) { st.adj[i].fill(0); acc.push_back(std::vector<double>(st.decl[i].size(), 0)); } tol = acc; }
    bool pend(const Obj& q) const { return q.ev && q.at == in; }     // evaluated at the inputs the variables hold now
    static bool live(const Obj& q) { return q.w >= 0; }
    bool enabled(int p) {
        bool A = live(o[0]), B = live(o[1]), C = live(o[2]); (void)C;
        switch (p) {
            case NEW0: return !s[0]; case NEW1: return !s[1]; case COPY1: return A && !s[1]; case COPY2: return B && !s[2]; case MOVE2: return A && !s[2]; case DEL0: return !!s[0]; case DEL1: return !!s[1];
            case ASSIGN01: return B && s[0]; case ASSIGN10: return A && s[1]; case ASSIGN20: return A && s[2]; case SELF: return A; case MOVEA01: return B && s[0]; case SWAP: return A && B; case RETURN0: return !!s[0]; case REASSIGN1: return !!s[1];
            case PUSH0: case INSERT0: return A && box.size() < 3; case PUSHM1: return B && box.size() < 3; case PUSHTMP: return box.size() < 3; case ERASE0: return !box.empty(); case BOXASSIGN: return A && !box.empty(); case UNBOX: return s[0] && !bx.empty(); case BOXCOPY: return !box.empty();
            case EVAL0: return A; case EVAL1: return B; case EVALB: return !bx.empty(); case DIFF0: return pend(o[0]); case DIFF1: return pend(o[1]); case DIFFB: return !bx.empty() && pend(bx.back()); case TMP: return A; case INPUT: return true;
        }
        return false;
    }
    static bool bad(double g, double w, double t) { return std::isnan(g) || !(g == w || std::fabs(g - w) <= t); }
    static X make(Store& st, int w) { X x(F::real(st, w)); return x; }
    std::string value(const std::vector<double>& g, const Result& r) { if (g.size() != r.value.size()) return "value has the wrong size"; for (size_t i = 0; i < g.size(); ++i) if (bad(g[i], r.value[i], r.vtol[i])) return "value[" + std::to_string(i) + "] = " + num(g[i]) + ", expected " + num(r.value[i]); return ""; }
    void add(const Result& r) { for (size_t k = 0; k < acc.size(); ++k) for (size_t i = 0; i < acc[k].size(); ++i) { acc[k][i] += r.grad[k][i]; tol[k][i] += r.gtol[k][i] + 1e-15 * std::fabs(acc[k][i]); } }
    // updates and assignments interact through the variables: after evaluating one object, the others must be evaluated again
    std::string eval(X& x, Obj& q) {
        if (ex.seq) { restore(); for (auto& z : o) z.ev = false; for (auto& z : bx) z.ev = false; reset(); }
        q.ev = true; q.at = in; const Result& r = ex.r[q.w][in]; std::vector<double> g;
        auto v = ad::evaluate(x); if constexpr (std::is_same_v<decltype(v), double>) g.assign(1, v); else g.assign(v.data(), v.data() + v.size());
        return value(g, r);
    }
    template <class Y> auto seed(Y& x, int w) { auto& r = ex.r[w][in]; if constexpr (ad::util::is_scl_v<E>) return 1.5; else { using A = std::conditional_t<ad::util::is_vec_v<E>, dyn::AV, dyn::AM>; A a(x.get().rows(), x.get().cols()); for (size_t i = 0; i < r.value.size(); ++i) a.data()[i] = (i % 2 ? -0.75 : 1.5) + 0.25 * (double)(i % 7); return a; } }
    std::string diff(X& x, Obj& q) { ad::evaluate_adj(x, seed(x, q.w)); add(ex.r[q.w][in]); std::string e = adjs(); if (ex.seq) { for (auto& z : o) z.ev = false; for (auto& z : bx) z.ev = false; restore(); reset(); } return e; }
    void restore() { auto& v = input(in); for (size_t k = 0; k < v.size(); ++k) std::copy(v[k].begin(), v[k].end(), st.v(k)); }
    std::string adjs() { for (size_t k = 0; k < acc.size(); ++k) { if (k == 8 || k == 9) continue; for (size_t i = 0; i < acc[k].size(); ++i) if (bad(st.a(k)[i], acc[k][i], tol[k][i])) return "adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "] = " + num(st.a(k)[i]) + ", expected " + num(acc[k][i]); } return ""; }
    std::string apply(int p) {
        std::string err;
        switch (p) {
            case NEW0: s[0].reset(new X(ad::bind(F::real(st, 0)))); o[0] = {0, false}; break; case NEW1: s[1].reset(new X(ad::bind(F::real(st, 1)))); o[1] = {1, false}; break;
            case COPY1: s[1].reset(new X(*s[0])); o[1] = o[0]; break; case COPY2: s[2].reset(new X(*s[1])); o[2] = o[1]; break; case MOVE2: s[2].reset(new X(std::move(*s[0]))); o[2] = o[0]; o[0] = {-2, false}; break;
            case DEL0: s[0].reset(); o[0] = Obj(); break; case DEL1: s[1].reset(); o[1] = Obj(); break;
            case ASSIGN01: *s[0] = *s[1]; o[0] = o[1]; break; case ASSIGN10: *s[1] = *s[0]; o[1] = o[0]; break; case ASSIGN20: *s[2] = *s[0]; o[2] = o[0]; break; case SELF: { X& y = *s[0]; *s[0] = y; break; }
            case MOVEA01: *s[0] = std::move(*s[1]); o[0] = o[1]; o[1] = {-2, false}; break; case SWAP: std::swap(*s[0], *s[1]); std::swap(o[0], o[1]); break;
            case RETURN0: *s[0] = make(st, 1); o[0] = {1, false}; break; case REASSIGN1: *s[1] = ad::bind(F::real(st, 0)); o[1] = {0, false}; break;
            case PUSH0: box.push_back(*s[0]); bx.push_back(o[0]); break; case PUSHM1: box.push_back(std::move(*s[1])); bx.push_back(o[1]); o[1] = {-2, false}; break; case PUSHTMP: box.push_back(make(st, 1)); bx.push_back({1, false}); break;
            case ERASE0: box.erase(box.begin()); bx.erase(bx.begin()); break; case INSERT0: box.insert(box.begin(), *s[0]); bx.insert(bx.begin(), o[0]); break; case BOXASSIGN: box[0] = *s[0]; bx[0] = o[0]; break; case UNBOX: *s[0] = box.back(); o[0] = bx.back(); break;
            case BOXCOPY: { std::vector<X> c(box); box.swap(c); break; }
            case EVAL0: err = eval(*s[0], o[0]); break; case EVAL1: err = eval(*s[1], o[1]); break; case EVALB: err = eval(box.back(), bx.back()); break;
            case DIFF0: err = diff(*s[0], o[0]); break; case DIFF1: err = diff(*s[1], o[1]); break; case DIFFB: err = diff(box.back(), bx.back()); break;
            case TMP: { if (ex.seq) { restore(); reset(); for (auto& z : o) z.ev = false; for (auto& z : bx) z.ev = false; } auto v = ad::autodiff(X(*s[0]), seed(*s[0], o[0].w)); std::vector<double> g; if constexpr (std::is_same_v<decltype(v), double>) g.assign(1, v); else g.assign(v.data(), v.data() + v.size()); err = value(g, ex.r[o[0].w][in]); add(ex.r[o[0].w][in]); if (err.empty()) err = adjs(); if (ex.seq) restore(), reset(); break; }
            case INPUT: set(1 - in); break;
        }
        return err;
    }
    std::string check() { return ""; }
    std::string guards() { for (size_t k = 0; k < st.decl.size(); ++k) if (!st.val[k].intact() || !st.adj[k].intact()) return "wrote outside variable x" + std::to_string(k); return ""; }
    std::string finish() {       // every survivor still yields its result: pending backward passes first
        std::string e; const char* L[] = {"A", "B", "C"};
        for (int i = 0; i < 3; ++i) if (s[i] && pend(o[i]) && !ex.seq && !(e = diff(*s[i], o[i])).empty()) return std::string("at the end, differentiating ") + L[i] + ": " + e;
        for (size_t i = 0; i < box.size(); ++i) if (pend(bx[i]) && !ex.seq && !(e = diff(box[i], bx[i])).empty()) return "at the end, differentiating box[" + std::to_string(i) + "]: " + e;
        for (int i = 0; i < 3; ++i) if (s[i] && live(o[i]) && (!(e = eval(*s[i], o[i])).empty() || !(e = diff(*s[i], o[i])).empty())) return std::string("at the end, ") + L[i] + ": " + e;
        for (size_t i = 0; i < box.size(); ++i) if (!(e = eval(box[i], bx[i])).empty() || !(e = diff(box[i], bx[i])).empty()) return "at the end, box[" + std::to_string(i) + "]: " + e;
        if (!ex.seq && !(e = independent()).empty()) return e;
        return guards();
    }
    // survivors share nothing: some are evaluated elsewhere between evaluation and differentiation of the others, in both orders
    std::string independent() {
        std::vector<std::pair<X*, Obj*>> all; std::string e;
        for (int i = 0; i < 3; ++i) if (s[i] && live(o[i])) all.push_back({s[i].get(), &o[i]});
        for (size_t i = 0; i < box.size(); ++i) all.push_back({&box[i], &bx[i]});
        for (int b = 1; b < (int)all.size(); b *= 2) for (int flip = 0; flip < 2; ++flip) {
            auto in_ = [&](size_t i) { return (!!(i & b)) != (!!flip); }; auto fail = [&](const char* w) { return std::string("at the end, evaluated at one point and differentiated after another object was evaluated elsewhere (") + w + "): " + e; };
            for (auto& q : all) if (!(e = eval(*q.first, *q.second)).empty()) return fail("value");
            set(1 - in); for (size_t i = 0; i < all.size(); ++i) if (in_(i) && !(e = eval(*all[i].first, *all[i].second)).empty()) return fail("value at the other point");
            set(1 - in); for (size_t i = 0; i < all.size(); ++i) if (!in_(i) && !(e = diff(*all[i].first, *all[i].second)).empty()) return fail("adjoints");
            set(1 - in); for (size_t i = 0; i < all.size(); ++i) if (in_(i) && !(e = diff(*all[i].first, *all[i].second)).empty()) return fail("adjoints at the other point");
            set(1 - in);
        }
        return "";
    }
};
template <class F> void go(const char* nm, int len, Shard& sh) { for (int w = 0; w < 3; ++w) ops::explore<World<F>>(len, [&] { return std::make_unique<World<F>>(w); }, std::string(nm) + " world " + std::to_string(w), sh); }
void part1(int l, Shard& sh); void part2(int l, Shard& sh); void part3(int l, Shard& sh); void part4(int l, Shard& sh);
#if PART == 1
void part1(int l, Shard& sh) { go<FArith>("f=sin(a)*exp(b)+a*b", l, sh); go<FVec>("f=sin(v)*(u+2)-v", l, sh); go<FSeq>("f=(w=sin(v)*v,sum(w*w)-sum(w))", l, sh); }
#elif PART == 2
void part2(int l, Shard& sh) { go<FUpd>("f=(v*=exp(u),sum(v*v))", l, sh); go<FDet>("f=det(M)*a+log_det(M*2)", l, sh); go<FRed>("f=prod(v+1)*norm(u)+sum(u*v)", l, sh); }
#elif PART == 3
void part3(int l, Shard& sh) { go<FPdf>("f=if_else(a<b,normal(v,.,1.5),sum(v)*a)", l, sh); go<FOwn>("f=sum(v*constant)*3", l, sh); go<FIter>("f=sum over range*prod over range", l, sh); }
#else
void part4(int l, Shard& sh) { go<FMat>("f=dot(transpose(M)*.5,M)+M", l, sh); go<FEach>("f=(for_each(w[i]=v[i]*v[i]),sum(w*v))", l, sh); }
int main(int argc, char** argv) { Shard sh = shard_args(argc, argv); int l = (sh.tier ? 5 : 4) - (DEPTHCUT); part1(l, sh); part2(l, sh); part3(l, sh); part4(l, sh); rep.finish(); }
#endif
