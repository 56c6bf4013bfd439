#include "engine.hpp"
#include <csignal>
#include <unistd.h>
#include <cstdlib>

namespace dyn { thread_local Hooks hooks; }
namespace eng {
Report rep;
std::string current;
std::string (*current_fn)() = nullptr;

static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }
void Report::fail(const char* cat, const std::string& prog, const std::string& msg) {
    ++fails;
    if (fails > max_fails) return;
    std::printf("FAIL {\"category\":\"%s\",\"program\":\"%s\",\"message\":\"%s\"}\n", cat, esc(prog).c_str(), esc(msg).c_str());
    std::fflush(stdout);
}
void Report::finish() {
    std::printf("REPORT {\"programs\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"skipped\":%llu,\"nodes\":%llu,\"fails\":%d,\"samples\":[", programs, states, transitions, traces, skipped, nodes, fails);
    for (size_t i = 0; i < samples.size(); ++i) std::printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    std::printf("],\"extra\":{");
    for (size_t i = 0; i < extra.size(); ++i) std::printf("%s\"%s\":%llu", i ? "," : "", esc(extra[i].first).c_str(), extra[i].second);
    std::printf("}}\n"); std::fflush(stdout);
    _exit(fails ? 1 : 0);
}
static void on_crash(int s) {
    char b[256]; int n = std::snprintf(b, sizeof b, "FAIL {\"category\":\"CRASH\",\"message\":\"signal %d\",\"program\":\"", s);
    if (write(1, b, n) < 0) {}
    if (current_fn) current = current_fn(); std::string e = esc(current); if (e.size() > 4000) e.resize(4000);
    if (write(1, e.data(), e.size()) < 0) {}
    if (write(1, "\"}\n", 3) < 0) {}
    _exit(3);
}
void crash_handlers() { for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_crash); }
Shard shard_args(int argc, char** argv) {
    Shard s; if (argc > 1) s.i = std::atoi(argv[1]); if (argc > 2) s.n = std::atoi(argv[2]); if (argc > 3) s.tier = std::atoi(argv[3]);
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    crash_handlers(); return s;
}
std::string show(const std::vector<double>& v) { std::string o = "["; for (size_t i = 0; i < v.size() && i < 24; ++i) o += (i ? "," : "") + ref::num(v[i]); return o + (v.size() > 24 ? ",...]" : "]"); }
std::string show(const Vals& v) { std::string o = "{"; for (size_t i = 0; i < v.size(); ++i) o += (i ? ", x" : "x") + std::to_string(i) + "=" + show(v[i]); return o + "}"; }

void feval(Any& e, std::vector<double>& out) {
    e.visit([&](auto& d) {
        auto v = ad::evaluate(d);
        if constexpr (std::is_same_v<decltype(v), double>) out.assign(1, v);
        else out.assign(v.data(), v.data() + v.size());
    });
}
void beval(Any& e, const std::vector<double>& seed) {
    if (e.s) ad::evaluate_adj(*e.s, seed[0]);
    else if (e.v) { dyn::AV s = Eigen::Map<const dyn::AV>(seed.data(), seed.size()); ad::evaluate_adj(*e.v, s); }
    else { dyn::AM s = Eigen::Map<const dyn::AM>(seed.data(), e.m->rows(), e.m->cols()); ad::evaluate_adj(*e.m, s); }
}
void autodiff(Any& e, const std::vector<double>& seed, std::vector<double>& out) {
    if (e.s) { out.assign(1, ad::autodiff(*e.s, seed[0])); }
    else if (e.v) { dyn::AV s = Eigen::Map<const dyn::AV>(seed.data(), seed.size()); auto v = ad::autodiff(*e.v, s); out.assign(v.data(), v.data() + v.size()); }
    else { dyn::AM s = Eigen::Map<const dyn::AM>(seed.data(), e.m->rows(), e.m->cols()); auto v = ad::autodiff(*e.m, s); out.assign(v.data(), v.data() + v.size()); }
}
std::vector<double> mkseed(const Node* n, int kind) {
    std::vector<double> s(n->size());
    for (size_t i = 0; i < s.size(); ++i) s[i] = kind == 0 ? 1 : kind == 2 ? 0 : (i % 2 ? -0.75 : 1.5) + 0.25 * (double)(i % 7);
    return s;
}
bool Runner::bind(Any& e, const Opts& o, const std::string& name) {
    return e.visit([&](auto& d) {
        auto sz = d.bind_cache_size();
        if (sz(0) > 100000 || sz(1) > 100000) { rep.fail("CACHE", name, "absurd cache size"); return false; }
        cv.alloc((int)sz(0)); ca.alloc((int)sz(1)); cv.fill(o.garbage); ca.fill(o.garbage2);
        auto end = d.bind_cache({cv.p(), ca.p()});
        if (o.cats & CACHE) {
            if (end.val != cv.p() + sz(0) || end.adj != ca.p() + sz(1)) {
                rep.fail("CACHE", name, "bind_cache consumed (" + std::to_string(end.val - cv.p()) + "," + std::to_string(end.adj - ca.p()) + ") but bind_cache_size promised (" + std::to_string(sz(0)) + "," + std::to_string(sz(1)) + ")");
                return false;
            }
            auto again = d.bind_cache_size();
            if (again(0) != sz(0) || again(1) != sz(1)) { rep.fail("CACHE", name, "bind_cache_size changes after binding"); return false; }
        }
        return true;
    });
}
void Runner::exec(Any& e, Store& st, const Vals& vals, const std::vector<double>& seed, const Opts& o, const ref::Result* r, const std::string& name) {
    for (size_t i = 0; i < st.decl.size(); ++i) {
        st.val[i].arm(); st.adj[i].arm();
        bool leaf = !r || (!r->assigned[i] && !r->opassigned[i]);
        for (int j = 0; j < st.decl[i].size(); ++j) { st.v(i)[j] = vals[i][j]; st.a(i)[j] = leaf && o.a0 ? (*o.a0)[i][j] : 0; }
    }
    auto snap = [&](Vals& w, bool adjs) { w.resize(st.decl.size()); for (size_t i = 0; i < st.decl.size(); ++i) { double* p = adjs ? st.a(i) : st.v(i); w[i].assign(p, p + st.decl[i].size()); } };
    if (o.use_autodiff) { autodiff(e, seed, value); after_fwd.clear(); }
    else {
        Vals before; if (o.cats & LEAF) snap(before, true);
        feval(e, value); snap(after_fwd, false); rep.transitions++;
        if (o.cats & LEAF) { snap(adj_fwd, true); for (size_t k = 0; k < before.size(); ++k) for (size_t i = 0; i < before[k].size(); ++i) if (!same(before[k][i], adj_fwd[k][i])) rep.fail("LEAF", name + "  at " + show(vals), "evaluating changed the adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "]"); }
        if (!r || r->defined || (o.cats & (LEAF | CACHE))) beval(e, seed);
    }
    rep.transitions++;
    snap(after_bwd, false); snap(adj, true);
}
bool Runner::run(const Node* prog, Any& e, Store& st, const Vals& vals, const std::vector<double>& seed, const Opts& o, const std::string* nm) {
    res = model.run(prog, vals, seed);
    if (!res.value_defined) { rep.skipped++; return false; }
    std::string name = (nm ? *nm : ref::str(prog));
    auto where = [&] { return name + "  at " + show(vals) + " seed " + show(seed) + (o.a0 ? " adj0 " + show(*o.a0) : ""); };
    current = where();
    if (!bind(e, o, current)) return true;
    rep.states++;
    for (int pass = 0; pass < (o.rerun ? 2 : 1); ++pass) {
        exec(e, st, vals, seed, o, &res, name);
        std::string again = pass ? " (second evaluation)" : "";
        auto bad = [](double got, double want, double tol) { return std::isnan(got) || !(got == want || std::fabs(got - want) <= tol); };
        if (o.cats & VALUE) {
            if (value.size() != res.value.size()) { rep.fail("VALUE", where(), "value has " + std::to_string(value.size()) + " elements" + again); return true; }
            for (size_t i = 0; i < value.size(); ++i) if (bad(value[i], res.value[i], res.vtol[i])) {
                rep.fail("VALUE", where(), "value[" + std::to_string(i) + "] = " + ref::num(value[i]) + ", expected " + ref::num(res.value[i]) + again); return true; }
        }
        for (size_t k = 0; k < vals.size(); ++k) {
            bool as = res.assigned[k], op = res.opassigned[k];
            if ((o.cats & VALUE) && !after_fwd.empty() && (as || op)) for (size_t i = 0; i < vals[k].size(); ++i)
                if (bad(after_fwd[k][i], res.fwd[k][i], res.ftol[k][i])) { rep.fail("VALUE", where(), "x" + std::to_string(k) + "[" + std::to_string(i) + "] holds " + ref::num(after_fwd[k][i]) + " after evaluation, expected " + ref::num(res.fwd[k][i]) + again); return true; }
            if ((o.cats & LEAF) && !as && !op) for (size_t i = 0; i < vals[k].size(); ++i)
                if (!same(after_bwd[k][i], vals[k][i]) || (!after_fwd.empty() && !same(after_fwd[k][i], vals[k][i]))) { rep.fail("LEAF", where(), "value of x" + std::to_string(k) + "[" + std::to_string(i) + "] changed" + again); return true; }
            if ((o.cats & STATE) && res.defined && op && !as) for (size_t i = 0; i < vals[k].size(); ++i)
                if (!(std::fabs(after_bwd[k][i] - vals[k][i]) <= 1e-12 * std::fabs(vals[k][i]))) { rep.fail("STATE", where(), "x" + std::to_string(k) + "[" + std::to_string(i) + "] = " + ref::num(after_bwd[k][i]) + " after backward pass, was " + ref::num(vals[k][i]) + " before evaluation" + again); return true; }
            if ((o.cats & (GRAD | ADJ)) && res.defined) for (size_t i = 0; i < vals[k].size(); ++i) {
                double base = (o.a0 && !as && !op) ? (*o.a0)[k][i] : 0;
                if (bad(adj[k][i], base + res.grad[k][i], res.gtol[k][i] + 1e-15 * std::fabs(base))) {
                    rep.fail("GRAD", where(), "adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "] = " + ref::num(adj[k][i]) + ", expected " + ref::num(base + res.grad[k][i]) + again); return true; }
                if ((o.cats & ADJ) && !res.reach[k][i] && !same(adj[k][i] + 0.0, base + 0.0)) {
                    rep.fail("ADJ", where(), "adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "] touched although the result does not depend on it" + again); return true; }
            }
        }
        if (o.cats & CACHE) {
            if (!cv.intact() || !ca.intact()) { rep.fail("CACHE", where(), "wrote outside the cache" + again); return true; }
            for (size_t i = 0; i < st.decl.size(); ++i) if (!st.val[i].intact() || !st.adj[i].intact()) { rep.fail("CACHE", where(), "wrote outside variable x" + std::to_string(i) + again); return true; }
        }
    }
    if (o.scales && !o.a0 && (o.cats & GRAD) && res.defined)
        for (int ex : {-70, -300, 90, 0}) {
            double c = ex ? std::ldexp(1., ex) : -1; auto s = seed; for (auto& q : s) q *= c;
            exec(e, st, vals, s, o, &res, name);
            for (size_t k = 0; k < vals.size(); ++k) for (size_t i = 0; i < vals[k].size(); ++i)
                if (!(std::fabs(adj[k][i] - c * res.grad[k][i]) <= std::fabs(c) * res.gtol[k][i])) {
                    rep.fail("GRAD", where(), "with the seed times " + ref::num(c) + " the adjoint of x" + std::to_string(k) + "[" + std::to_string(i) + "] = " + ref::num(adj[k][i]) + ", expected " + ref::num(c * res.grad[k][i])); return true; }
        }
    rep.traces++;
    return true;
}
}
