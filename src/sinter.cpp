// P17 on statically typed programs: two complete lives (build, bind, evaluate, differentiate,
// destroy) of the same program on two threads.  Their memory accesses are recorded; when none
// conflicts, all interleavings are equivalent to the one executed, otherwise the orders of the
// conflicting accesses are enumerated.  Also all interleavings at sub-expression visits on one thread.
#include "static.hpp"
#include "inter.hpp"
#include "tsanrt.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace sp;
using D = std::vector<double>;
using Task = std::function<void(D&)>;
static unsigned long long n_conf, n_class, n_acc;
static void put(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(9); c += k; n -= k; } }
static bool get(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
template <class T> static void putv(int fd, const std::vector<T>& v) { size_t n = v.size(); put(fd, &n, sizeof n); put(fd, v.data(), n * sizeof(T)); }
template <class T> static bool getv(int fd, std::vector<T>& v) { size_t n; if (!get(fd, &n, sizeof n) || n > 10000000) return false; v.resize(n); return get(fd, v.data(), n * sizeof(T)); }
// f runs in a child process with fresh static state, its output comes back through a pipe
template <class F, class G> static int isolated(F&& f, G&& g) {
    int p[2]; if (pipe(p)) _exit(9);
    pid_t c = fork(); if (c < 0) { std::fprintf(stderr, "fork failed\n"); _exit(2); }
    if (!c) { close(p[0]); f(p[1]); close(p[1]); _exit(0); }
    close(p[1]); bool ok = g(p[0]); close(p[0]); int st; waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st); if (WEXITSTATUS(st)) return WEXITSTATUS(st); return ok ? 0 : 99;
}
static bool same_bits(const D& a, const D& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), 8 * a.size())); }
// returns the number of schedules whose results differ from those of the runs alone; reports them when expected is 0
static int pairup(const std::string& name, const Task& f, const Task& g, bool report, int maxpairs) {
    current = name; D rx, ry; rt::Granules c; std::vector<int> hits(2); unsigned long long acc[2] = {0, 0};
    int rc = isolated([&](int fd) {
        D a, b; auto [lx, ly] = rt::record([&] { f(a); }, [&] { g(b); }); auto cc = rt::conflicts(lx, ly);
        putv(fd, a); putv(fd, b); putv(fd, cc); unsigned long long n[2] = {lx.accesses, ly.accesses}; put(fd, n, sizeof n);
    }, [&](int fd) { return getv(fd, rx) && getv(fd, ry) && getv(fd, c) && get(fd, acc, sizeof acc); });
    if (rc == 3) { rep.fails++; return 1; } if (rc) { rep.fail("CRASH", name, "a run alone ended with status " + std::to_string(rc)); return 1; }
    n_acc += acc[0] + acc[1]; rep.transitions += acc[0] + acc[1]; rep.states++; rep.traces++; n_class++;
    if (c.empty()) return 0;
    n_conf++;
    auto play = [&](int first, std::vector<int> plan, int* h) {
        bool ok = true; std::string what; D a, b; int hh[2] = {0, 0};
        int rc = isolated([&](int fd) { D p, q; auto o = rt::schedule([&] { f(p); }, [&] { g(q); }, c, first, plan); putv(fd, p); putv(fd, q); put(fd, o.hits, sizeof o.hits); }, [&](int fd) { return getv(fd, a) && getv(fd, b) && get(fd, hh, sizeof hh); });
        rep.states++; rep.traces++; rep.transitions += hh[0] + hh[1];
        if (h) { h[0] = hh[0]; h[1] = hh[1]; }
        std::string pl = std::string(first ? "Y" : "X") + " first, switching after"; for (int q : plan) pl += " " + std::to_string(q); pl += " shared accesses";
        if (rc == 5) { ok = false; what = "the two threads wait for each other"; } else if (rc) { ok = false; what = "ends with status " + std::to_string(rc); }
        else if (!same_bits(a, rx)) { ok = false; what = "X gives " + show(a) + ", alone " + show(rx); } else if (!same_bits(b, ry)) { ok = false; what = "Y gives " + show(b) + ", alone " + show(ry); }
        if (!ok && report) rep.fail("RACE", name + " (two threads, " + pl + ")", what + "; " + std::to_string(c.size()) + " shared words");
        return ok;
    };
    int h[2] = {0, 0}, bad = 0; bad += !play(0, {}, h); if (bad && report) return bad; bad += !play(1, {}, nullptr);
    for (int first = 0; first < 2; ++first) {
        int n = h[first], m = h[1 - first]; bool two = (long)n * m <= maxpairs; int step = 1; while (n / step > maxpairs) ++step;
        for (int i = 0; i < n; i += step) for (int j = two ? 0 : -1; j < (two ? m : 0); ++j) { bad += !play(first, j < 0 ? std::vector<int>{i} : std::vector<int>{i, j}, nullptr); if (bad && report) return bad; }
        if (!two) rep.count("pairs_with_one_preemption_only");
    }
    return bad;
}
// one life of a typed program
struct Life {
    const Prog& p; int a, b; const Konst& k; Store* st; const Vals& in; D seed;
    void operator()(D& out) const {
        for (size_t v = 0; v < in.size(); ++v) for (size_t j = 0; j < in[v].size(); ++j) { if (st->alias.empty() || !st->alias[v]) st->v(v)[j] = in[v][j]; st->a(v)[j] = 0; }
        {
            Env e(*st, const_cast<Konst&>(k), a, b); Any x = p.mk(e);
            auto n = x.visit([](auto& d) { return d.bind_cache_size(); }); D cv(n(0) + 1, 0.5), ca(n(1) + 1, -0.5); x.visit([&](auto& d) { d.bind_cache({cv.data(), ca.data()}); });
            feval(x, out); D val = out; beval(x, seed); feval(x, out); out.insert(out.end(), val.begin(), val.end());
        }
        for (size_t v = 0; v < in.size(); ++v) { out.insert(out.end(), st->a(v), st->a(v) + in[v].size()); out.insert(out.end(), st->v(v), st->v(v) + in[v].size()); }
    }
};
static bool writes(const Node* n, int v) { if ((n->k == ref::EQ || n->k == ref::OPEQ) && n->var == v) return true; for (auto k : n->kid) if (writes(k, v)) return true; return false; }
// ---- lives of owning objects: Var, bound expressions, forward variables
static double B_[64];
template <class F> static Task life(F f) { return [f](D& out) { f(out); }; }
static void push(D& o, double x) { o.push_back(x); }
template <class T> static void pushm(D& o, const T& m) { for (int i = 0; i < m.size(); ++i) o.push_back(m.data()[i]); }
static std::vector<std::pair<std::string, std::function<Task(int)>>> extras() {
    using namespace ad; std::vector<std::pair<std::string, std::function<Task(int)>>> v;
    auto add = [&](const char* n, auto f) { v.push_back({n, [f](int i) { return Task([f, i](D& o) { f(i, o); }); }}); };
    add("Var scalars, bind, autodiff", [](int i, D& o) { Var<double> x(1.25 + i), y(0.5 * (i + 1)); auto e = ad::bind(sin(x) * y + exp(x * y)); push(o, autodiff(e)); push(o, x.get_adj()); push(o, y.get_adj()); Var<double> z(x); z.get() += 1; auto q = ad::bind(z * x); push(o, autodiff(q)); push(o, z.get_adj()); });
    add("Var vectors, bind, autodiff, reset", [](int i, D& o) { Var<double, vec> x(3 + i); for (int j = 0; j < 3 + i; ++j) x.get()[j] = 0.5 + j * (i + 1); auto e = ad::bind(sum(x * x) + prod(x) - norm(sin(x))); push(o, autodiff(e)); for (int j = 0; j < 3 + i; ++j) push(o, x.get_adj()(j)); x.reset_adj(); push(o, autodiff(e)); for (int j = 0; j < 3 + i; ++j) push(o, x.get_adj()(j)); });
    add("Var matrices, dot, det, wishart", [](int i, D& o) { Var<double, mat> M(2, 2); M.get() << 2 + i, 0.5, 0.5, 1.5; Var<double, vec> w(2); w.get() << 1, -2 - i; auto e = ad::bind(sum(dot(M, w)) * log_det<ad::LogDetLLT>(M) + det(M) + norm(transpose(M))); push(o, autodiff(e)); for (int c = 0; c < 2; ++c) { push(o, w.get_adj()(c)); for (int r = 0; r < 2; ++r) push(o, M.get_adj()(r, c)); } auto f = ad::bind(wishart_adj_log_pdf(M, ad::constant(Eigen::MatrixXd(Eigen::MatrixXd::Identity(2, 2) * (2. + i))), ad::constant(4.5))); push(o, autodiff(f)); for (int c = 0; c < 2; ++c) for (int r = 0; r < 2; ++r) push(o, M.get_adj()(r, c)); });
    add("placeholders in a bound sequence", [](int i, D& o) { Var<double> x(0.75 + i), w, z; auto e = ad::bind((w = x * x + 1., z = sin(w) * x, w * z + x)); for (int q = 0; q < 2; ++q) { x.get() += q; x.reset_adj(); push(o, autodiff(e)); push(o, x.get_adj()); } });
    add("vectors of Var, sum and prod over ranges, for_each", [](int i, D& o) { std::vector<Var<double>> x(4); for (int j = 0; j < 4; ++j) x[j].get() = 1 + j + 0.5 * i; auto e = ad::bind(ad::sum(x.begin(), x.end(), [](const auto& q) { return q * q; }) + ad::prod(x.begin(), x.end(), [](const auto& q) { return sin(q); })); push(o, autodiff(e)); for (auto& q : x) push(o, q.get_adj()); std::vector<Var<double>> w(4); auto it = w.begin(); auto f = ad::bind((ad::for_each(x.begin(), x.end(), [&](const auto& q) { auto& t = *it; ++it; return t = q * 2.; }), w[0] * w[3])); push(o, autodiff(f)); for (auto& q : x) push(o, q.get_adj()); });
    add("densities over Var", [](int i, D& o) { Var<double, vec> x(3); x.get() << 0.2, 0.5 + i, -0.75; Var<double> m(0.25), s(1.5 + i); auto e = ad::bind(normal_adj_log_pdf(x, m, s) + cauchy_adj_log_pdf(x, m, s) + uniform_adj_log_pdf(m, s - 10., s + 10.)); push(o, autodiff(e)); push(o, m.get_adj()); push(o, s.get_adj()); for (int j = 0; j < 3; ++j) push(o, x.get_adj()(j)); });
    add("forward variables", [](int i, D& o) { ForwardVar<double> x(0.5 + i, 1), y(2 - i, 0); auto f = [](auto a, auto b) { return sin(a) * b + exp(a * b) / (b * b + exp(a)) - log(a * a + b * b) + tan(a) + sqrt(exp(a)) + cos(b); }; auto r = f(x, y); push(o, r.get_value()); push(o, r.get_adjoint()); r += x; r = r * r; push(o, r.get_value()); push(o, r.get_adjoint()); });
    add("if_else and comparisons over Var", [](int i, D& o) { Var<double> x(0.5 - i), y(2.); auto e = ad::bind(if_else(x < y * 0.2, sin(x), x * y) + if_else((x > 0.) && (y > 1.), x, y)); for (int q = 0; q < 2; ++q) { x.get() += q; push(o, autodiff(e)); push(o, x.get_adj()); push(o, y.get_adj()); } });
    add("copying, moving and growing containers of bound expressions", [](int i, D& o) { Var<double> x(1.5 + i), y(0.25); auto mk = [&] { return ad::bind(x * y + sin(x)); }; std::vector<decltype(mk())> v; for (int q = 0; q < 5; ++q) v.push_back(mk()); auto c = v; v.clear(); auto m = std::move(c[2]); push(o, autodiff(m)); push(o, autodiff(c[4])); push(o, x.get_adj()); });
    return v;
}
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); int maxp = sh.tier ? 4000 : 600;
    // the machinery must see and reach interference where there is some: the same program on two
    // threads writing the same variables, and a lazily filled static
    if (sh.i == 0) {
        auto shared_write = [](int i) { return Task([i](D& o) { ad::VarView<double> x(B_ + 2 + 2 * i, B_ + 3 + 2 * i), w(B_, B_ + 1); x.get() = 1.5 + i; *x.data_adj() = 0; auto e = (w = x * x, w * x); double cv[8], ca[8]; e.bind_cache({cv, ca}); o.push_back(ad::autodiff(e)); o.push_back(x.get_adj()); }); };
        int f0 = rep.fails; unsigned long long c0 = n_conf; int bad = pairup("self-test", shared_write(0), shared_write(1), false, 400);
        if (n_conf == c0 || bad == 0 || rep.fails != f0) { std::fprintf(stderr, "self-test: interference through a shared variable was not found (%llu conflicts, %d)\n", n_conf - c0, bad); return 2; }
        rep.count("selftest_interfering_schedules", bad); c0 = n_conf;
        auto lazy = [](int i) { return Task([i](D& o) { static double table[4]; static bool ready = false; if (!ready) { ready = true; for (int q = 0; q < 4; ++q) table[q] = q + 0.5; } o.push_back(table[3] * i); }); };
        bad = pairup("self-test 2", lazy(1), lazy(2), false, 400); if (n_conf == c0 || !bad) { std::fprintf(stderr, "self-test: a lazily filled table was not found\n"); return 2; }
        auto good = [](int i) { return Task([i](D& o) { static std::vector<double> table = [] { std::vector<double> q; for (int j = 0; j < 4; ++j) q.push_back(j + 0.5); return q; }(); o.push_back(table[3] * i); }); };
        bad = pairup("self-test 3", good(1), good(2), false, 400); if (bad) { std::fprintf(stderr, "self-test: a properly initialised static raises an alarm\n"); return 2; }
        rep.states = rep.traces = rep.transitions = 0; n_conf = n_class = n_acc = 0;
    }
    { Eigen::MatrixXd q = Eigen::MatrixXd::Random(9, 9); volatile double z = (q * q)(0, 0); (void)z; }     // Eigen's cache sizes are read once, under a lock
#ifndef NOEXTRA
    auto ex = extras();
    for (size_t i = 0; i < ex.size(); ++i) for (size_t j = 0; j < ex.size(); ++j) if (sh.mine()) { rep.programs++; pairup("X = " + ex[i].first + " | Y = " + ex[j].first, ex[i].second(0), ex[j].second(1), true, maxp); if (i == j) pairup("X = Y = " + ex[i].first, ex[i].second(0), ex[j].second(0), true, maxp); }
#endif
    Inter it; it.max_sched = sh.tier ? 2000 : 150; Side X, Y;
    for (auto& p : registry()) {
        if (!sh.mine() || rep.full()) continue;
        rep.programs++;
        for (int share = 0; share < 2; ++share) {
            int a = 2, b = 3, c = share ? 2 : 3, d = share ? 3 : 2;
            Arena A; Konst kx = konst(a, b, 0), ky = share ? kx : konst(c, d, 1); R rx(A, kx, a, b), ry(A, ky, c, d);
            const Node *nx = p.rf(rx), *ny = p.rf(ry); if (!nx || !ny) continue;
            Store sx(decl(a, b)), sy(decl(c, d)); Vals ix = values(a, b, 0), iy = share ? ix : values(c, d, 1);
            if (share) { sy.alias.assign(sx.decl.size(), nullptr); for (size_t v = 0; v < sx.decl.size(); ++v) if (!writes(nx, (int)v)) { sy.alias[v] = sx.v(v); std::copy(ix[v].begin(), ix[v].end(), sx.v(v)); } }
            std::vector<double*> keep; if (share) { sx.alias = sy.alias; }      // neither thread writes the shared inputs
            std::string name = std::string(p.name) + (share ? " [two threads, same inputs]" : " [two threads, different inputs]");
            auto s1 = mkseed(nx, 1), s2 = mkseed(ny, 0);
            ref::Model m; auto dom = [&] { auto x = m.run(nx, ix, s1), y = m.run(ny, iy, s2); return x.value_defined && y.value_defined && x.defined && y.defined; };
            if (!dom()) { rep.skipped++; continue; }
            Life fx{p, a, b, kx, &sx, ix, s1}, fy{p, c, d, share ? kx : ky, &sy, iy, s2};
            pairup(name, fx, fy, true, maxp);
            if (rep.full()) break;
            // one thread: every interleaving at the visits of the leaves
            Env ex_(sx, kx, a, b), ey(sy, share ? kx : ky, c, d); Any x = p.mk(ex_), y = p.mk(ey); Runner r1, r2; Opts o; if (!r1.bind(x, o, name) || !r2.bind(y, o, name)) break;
            X.st = &sx; X.e = &x; X.seed = s1; X.in = ix; Y.st = &sy; Y.e = &y; Y.seed = s2; Y.in = iy;
            if (!it.explore(X, Y, std::string(p.name) + (share ? " [same inputs]" : " [different inputs]"))) break;
        }
        if (rep.programs % 701 == 3) rep.sample(std::string(p.name) + ": no conflicting access between two lives on two threads");
    }
    rep.count("pairs_of_lives", n_class); rep.count("pairs_with_conflicting_accesses", n_conf); rep.count("memory_accesses_recorded", n_acc);
    rep.finish();
}
