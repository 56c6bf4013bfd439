// Explores every sequence of operations up to a length on one expression object: set inputs +
// evaluate, differentiate with one of several seeds, reset adjoints, autodiff.  The reference
// model is history-free: what an operation must yield depends on current inputs, the seed and
// the adjoints accumulated since the last reset only.
#pragma once
#include "engine.hpp"
namespace eng {
struct Hist {
    struct Exp { ref::Result r; };
    int len = 4, nseeds = 2;
    bool with_autodiff = true;
    int nreg = 0;                                       // >1: binding to other memory is an operation too
    struct Reg { Buf v, a; std::vector<double> sv, sa; }; std::vector<Reg> reg;
    Runner run; Opts o;
    std::vector<Vals> in;
    unsigned long long steps = 0, seqs = 0;
    Hist() { o.garbage = 5.5; o.garbage2 = -2.25; }

    void explore(const Node* n, Any& e, Store& st, const std::vector<Vals>& inputs, const std::string& name) {
        if (rep.full()) return;
        in = inputs;
        int ni = (int)in.size(); nseeds = std::max(1, std::min(nseeds, 2));
        std::vector<std::vector<double>> seeds; for (int s = 0; s < nseeds; ++s) seeds.push_back(mkseed(n, s == 0 ? 1 : 0));
        if (nseeds > 1) for (auto& x : seeds[1]) x = -0.5;
        std::vector<std::vector<ref::Result>> R(ni);
        bool any = false;
        for (int i = 0; i < ni; ++i) for (int s = 0; s < nseeds; ++s) { R[i].push_back(run.model.run(n, in[i], seeds[s])); any = any || R[i][0].value_defined; }
        if (!any) { rep.skipped++; return; }
        bool seq = ref::contains(n, ref::EQ) || ref::contains(n, ref::OPEQ), upd = ref::contains(n, ref::OPEQ);
        current = name;
        if (!run.bind(e, o, name)) return;
        reg.assign(nreg, Reg());
        auto size = e.visit([](auto& d) { return d.bind_cache_size(); });
        static const double G[] = {5.5, std::numeric_limits<double>::quiet_NaN(), -1e300, std::numeric_limits<double>::infinity()};
        for (int j = 0; j < nreg; ++j) { reg[j].v.alloc((int)size(0), j & 1); reg[j].a.alloc((int)size(1), (j >> 1 ^ j) & 1); }
        int region = -1;
        std::vector<double> cv0(run.cv.p(), run.cv.p() + run.cv.n), ca0(run.ca.p(), run.ca.p() + run.ca.n);      // where it was bound first
        // state: index of inputs evaluated last (-1: none / used up), accumulated adjoints
        int cur = -1; bool fresh = true;                    // fresh: no differentiation since the reset
        Vals acc, tol; auto zero = [&](Vals& a) { a.clear(); for (auto& d : st.decl) a.push_back(std::vector<double>(d.size(), 0)); };
        auto reset = [&] { for (size_t i = 0; i < st.decl.size(); ++i) st.adj[i].fill(0); zero(acc); zero(tol); fresh = true; };
        reset();
        std::string trail; bool dead = false;
        auto bad = [](double got, double want, double t) { return std::isnan(got) || !(got == want || std::fabs(got - want) <= t); };
        auto fail = [&](const char* cat, const std::string& m) {
            std::string t = trail.size() > 240 ? "..." + trail.substr(trail.size() - 240) : trail;
            std::string v; for (int i = 0; i < ni; ++i) v += " in" + std::to_string(i) + "=" + show(in[i]);
            rep.fail(cat, name + " after history " + t + " with" + v, m); dead = true; };
        std::vector<double> out;
        auto check_val = [&](const ref::Result& r, int i) {
            if (!r.value_defined) return;
            if (out.size() != r.value.size()) return fail("VALUE", "wrong number of elements");
            for (size_t q = 0; q < out.size(); ++q) if (bad(out[q], r.value[q], r.vtol[q])) return fail("VALUE", "value[" + std::to_string(q) + "] = " + ref::num(out[q]) + ", a fresh expression gives " + ref::num(r.value[q]));
        };
        auto check_adj = [&] {
            for (size_t k = 0; k < acc.size(); ++k) for (size_t q = 0; q < acc[k].size(); ++q) if (bad(st.a((int)k)[q], acc[k][q], tol[k][q]))
                return fail("GRAD", "adjoint of x" + std::to_string(k) + "[" + std::to_string(q) + "] = " + ref::num(st.a((int)k)[q]) + ", expected " + ref::num(acc[k][q]));
        };
        auto add = [&](const ref::Result& r) { for (size_t k = 0; k < acc.size(); ++k) for (size_t q = 0; q < acc[k].size(); ++q) { acc[k][q] += r.grad[k][q]; tol[k][q] += r.gtol[k][q] + 1e-15 * std::fabs(acc[k][q]); } };
        auto set = [&](int i) { for (size_t k = 0; k < st.decl.size(); ++k) std::copy(in[i][k].begin(), in[i][k].end(), st.v((int)k)); };
        // operations: 0..ni-1 set+evaluate; ni..ni+nseeds-1 differentiate; then reset; then autodiff of input 0 / last
        int base = ni + nseeds + 1 + (with_autodiff ? 1 : 0), nops = base + nreg;
        auto enabled = [&](int op) {
            if (op < ni) return !nreg || region >= 0;
            if (op < ni + nseeds) return cur >= 0 && R[cur][0].defined && (!seq || fresh);
            if (op >= base) return op - base != region;
            if (op == ni + nseeds) return !fresh;
            if (nreg && region < 0) return false;
            return R[0][0].defined && (!seq || fresh);
        };
        auto apply = [&](int op) {
            ++steps; rep.transitions++;
            if (op >= base) {
                if (region >= 0) { auto& g = reg[region]; g.sv.assign(g.v.p(), g.v.p() + g.v.n); g.sa.assign(g.a.p(), g.a.p() + g.a.n); }
                region = op - base; trail += " B" + std::to_string(region); cur = -1;
                auto& g = reg[region]; g.v.arm(); g.a.arm(); g.v.fill(G[region % 4]); g.a.fill(G[(region + 1) % 4]);
                e.visit([&](auto& d) {
                    auto before = d.bind_cache_size(); auto end = d.bind_cache({g.v.p(), g.a.p()});
                    if (before(0) != size(0) || before(1) != size(1)) fail("CACHE", "bind_cache_size changed");
                    else if (end.val != g.v.p() + size(0) || end.adj != g.a.p() + size(1)) fail("CACHE", "bind_cache consumed " + std::to_string(end.val - g.v.p()) + "," + std::to_string(end.adj - g.a.p()) + " elements instead of " + std::to_string(size(0)) + "," + std::to_string(size(1)));
                });
                return;
            }
            if (op < ni) {
                trail += " E" + std::to_string(op); set(op); feval(e, out); cur = op; check_val(R[op][0], op);
                check_adj();
            } else if (op < ni + nseeds) {
                int s = op - ni; trail += " D" + std::to_string(s); beval(e, seeds[s]); fresh = false;
                add(R[cur][s]); check_adj();
                for (size_t k = 0; k < st.decl.size(); ++k) if (!R[cur][s].assigned[k]) for (size_t q = 0; q < in[cur][k].size(); ++q)
                    if (!(std::fabs(st.v((int)k)[q] - in[cur][k][q]) <= (R[cur][s].opassigned[k] ? 1e-12 * std::fabs(in[cur][k][q]) : 0))) { fail("STATE", "x" + std::to_string(k) + "[" + std::to_string(q) + "] = " + ref::num(st.v((int)k)[q]) + " after differentiating, was " + ref::num(in[cur][k][q])); break; }
                if (upd) cur = -1;
            } else if (op == ni + nseeds) { trail += " R"; reset(); }
            else { trail += " A"; set(0); autodiff(e, seeds[0], out); fresh = false; cur = upd ? -1 : 0; check_val(R[0][0], 0); add(R[0][0]); check_adj(); }
            for (int j = 0; j < nreg && !dead; ++j) {
                auto& g = reg[j];
                if (!g.v.intact() || !g.a.intact()) fail("CACHE", "wrote outside the memory it is bound to");
                else if (j != region && !g.sv.empty() && (std::memcmp(g.sv.data(), g.v.p(), 8 * g.sv.size()) || std::memcmp(g.sa.data(), g.a.p(), 8 * g.sa.size()))) fail("CACHE", "wrote to memory it was bound to before");
            }
            if (nreg && !dead && region >= 0 && ((cv0.size() && std::memcmp(cv0.data(), run.cv.p(), 8 * cv0.size())) || (ca0.size() && std::memcmp(ca0.data(), run.ca.p(), 8 * ca0.size())))) fail("CACHE", "wrote to memory it was bound to before");
            if (nreg) for (size_t k = 0; k < st.decl.size() && !dead; ++k) if (!st.val[k].intact() || !st.adj[k].intact()) fail("CACHE", "wrote outside variable x" + std::to_string(k));
            if (trail.size() > 2000) trail = trail.substr(trail.size() - 600);
        };
        // all sequences of length len, run one after the other on the same object
        std::vector<int> seqv(len, 0);
        for (;;) {
            int fix = -1;
            reset(); cur = -1; region = nreg ? -1 : 0; trail += " |R"; for (auto& g : reg) { g.sv.clear(); g.sa.clear(); }
            for (int k = 0; k < len; ++k) { if (!enabled(seqv[k])) { fix = k; break; } apply(seqv[k]); if (dead) return; }
            if (fix < 0) { ++seqs; rep.states++; fix = len - 1; }
            int k = fix; for (int j = k + 1; j < len; ++j) seqv[j] = 0;
            while (k >= 0 && ++seqv[k] >= nops) seqv[k--] = 0;
            if (k < 0) break;
        }
        rep.traces++;
    }

    // Every pair of nearby or look-alike inputs: the same expression object evaluated and differentiated at A, at A', and at A
    // again, where A' differs from A in one element by a little, or holds the same numbers in another order, with another sign
    // or scale, or with the same sum.  Square matrices stay symmetric.  (A fresh expression could not confuse the two.)
    void neighbours(const Node* n, Any& e, Store& st, const Vals& A, const std::string& name) {
        if (rep.full()) return;
        std::vector<char> used(st.decl.size(), 0); uses(n, used);
        auto seed = mkseed(n, 1);
        ref::Result ra = run.model.run(n, A, seed); if (!ra.value_defined) { rep.skipped++; return; }
        current = name; if (!run.bind(e, o, name)) return;
        std::vector<double> out; Vals W = A;
        auto bad = [](double got, double want, double t) { return std::isnan(got) || !(got == want || std::fabs(got - want) <= t); };
        auto set = [&](const Vals& v) { for (size_t k = 0; k < st.decl.size(); ++k) { std::copy(v[k].begin(), v[k].end(), st.v((int)k)); st.adj[k].fill(0); } };
        auto step = [&](const ref::Result& r, const Vals& v, bool diff, const char* what) {
            set(v); feval(e, out); rep.transitions += 1 + diff;
            for (size_t q = 0; q < out.size(); ++q) if (bad(out[q], r.value[q], r.vtol[q])) { rep.fail("VALUE", name + " at " + show(v) + what, "value[" + std::to_string(q) + "] = " + ref::num(out[q]) + ", a fresh expression gives " + ref::num(r.value[q])); return false; }
            if (!diff || !r.defined) return true;
            beval(e, seed);
            for (size_t k = 0; k < v.size(); ++k) for (size_t q = 0; q < v[k].size(); ++q) if (bad(st.a((int)k)[q], r.grad[k][q], r.gtol[k][q])) { rep.fail("GRAD", name + " at " + show(v) + what, "adjoint of x" + std::to_string(k) + "[" + std::to_string(q) + "] = " + ref::num(st.a((int)k)[q]) + ", a fresh expression gives " + ref::num(r.grad[k][q])); return false; }
            return true;
        };
        if (!step(ra, A, true, " (first)")) return;
        auto visit = [&] {
            ref::Result rb = run.model.run(n, W, seed); if (!rb.value_defined) { W = A; return; }
            rep.states++;
            bool ok = step(rb, W, true, (" after " + show(A)).c_str()) && step(ra, A, true, (" after " + show(W)).c_str()) && step(rb, W, false, " again") && step(rb, W, true, " twice");
            (void)ok; W = A;
        };
        for (size_t k = 0; k < st.decl.size() && !rep.full(); ++k) {
            if (!used[k]) continue;
            auto& d = st.decl[k]; auto& x = W[k]; int m = (int)x.size(); bool sq = d.s == ref::M && d.r == d.c && d.r > 1;
            if (sq) {
                int r = d.r;
                for (int i = 0; i < r; ++i) for (int j = i; j < r; ++j) for (double q : {1e-7, 1e-4, 0.5}) { x[j * r + i] += q; if (i != j) x[i * r + j] += q; visit(); }
                for (int i = 0; i < r; ++i) { int j = (i + 1) % r; x[i * r + i] += 0.25; x[j * r + j] -= 0.25; visit(); }                                        // same trace and sum
                for (int i = 0; i + 1 < r; ++i) { for (int c = 0; c < r; ++c) std::swap(x[c * r + i], x[c * r + i + 1]); for (int c = 0; c < r; ++c) std::swap(x[i * r + c], x[(i + 1) * r + c]); visit(); }   // symmetric exchange
                for (int i = 0; i + 1 < r; ++i) { for (int c = 0; c < r; ++c) std::swap(x[c * r + i], x[c * r + i + 1]); visit(); }                              // exchanged rows
                for (int i = 0; i < r; ++i) for (int j = 0; j < i; ++j) std::swap(x[j * r + i], x[i * r + j]);
                visit();
            } else {
                for (int i = 0; i < m; ++i) for (double q : {1e-7, 1e-4, 0.5}) { x[i] += q; visit(); }
                for (int i = 0; i + 1 < m; ++i) { std::swap(x[i], x[i + 1]); visit(); }
                for (int i = 0; i + 1 < m; ++i) { x[i] += 0.125; x[i + 1] -= 0.125; visit(); }
                for (int i = 0; i < m; ++i) { x[i] = -x[i]; visit(); }
            }
            for (auto& q : x) q = -q; 
            visit();
            for (auto& q : x) q *= 2;
            visit();
            for (size_t l = k + 1; l < st.decl.size(); ++l) if (used[l] && st.decl[l].s == d.s && st.decl[l].r == d.r && st.decl[l].c == d.c) { std::swap(W[k], W[l]); visit(); }   // exchanged variables
        }
        rep.traces++;
    }
    static void uses(const Node* n, std::vector<char>& u) { if (n->k == ref::VAR || n->k == ref::EQ || n->k == ref::OPEQ) u[n->var] = 1; for (auto c : n->kid) uses(c, u); }
};
}
