// All interleavings of the steps of two evaluations on one thread: each side runs as a coroutine
// that can be suspended between any two visits of its sub-expressions.
#pragma once
#include "engine.hpp"
// saves the callee-saved registers on the current stack and continues on another one
extern "C" void fastad_switch(void** from, void* to);
asm(R"(
.text
.globl fastad_switch
.type fastad_switch,@function
fastad_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fastad_switch,.-fastad_switch
)");
namespace eng {
struct Side {
    Store* st; Any* e; std::vector<double> seed; Vals in, a0;
    std::vector<double> value; Vals adj, val;                   // outcome of the last complete run
    std::vector<double> value1; Vals adj1, val1; int segs = 0;    // the same, alone
    void* sp = nullptr; std::vector<char> stk; int depth = 0; bool done = true;
    Side() : stk(1 << 18) {}
};
struct Inter {
    static inline Side* cur = nullptr; static inline void* back = nullptr;
    unsigned long long max_sched = 1000;
    std::function<bool()> domain;                                // asked before a difference is reported
    static void yield() { Side* s = cur; fastad_switch(&s->sp, back); }
    static void point(char w) {
        Side* s = cur; if (!s) return;
        switch (w) {
            case 'f': ++s->depth; break;
            case 'F': --s->depth; yield(); break;                // after every sub-expression, and between the two passes
            case 'b': if (s->depth++) yield(); break;            // before every sub-expression
            case 'B': --s->depth; break;
        }
    }
    static void body() { for (;;) { Side* s = cur; s->depth = 0; feval(*s->e, s->value); s->depth = 0; beval(*s->e, s->seed); s->done = true; yield(); } }
    static void resume(Side& s) { cur = &s; fastad_switch(&back, s.sp); cur = nullptr; }
    static void start(Side& s) {
        uintptr_t top = ((uintptr_t)(s.stk.data() + s.stk.size())) & ~(uintptr_t)15; void** p = (void**)top;
        *--p = nullptr; *--p = (void*)body; for (int i = 0; i < 6; ++i) *--p = nullptr;        // body starts as if it had been called
        s.sp = p;
    }
    static void reset(Side& s) {
        for (size_t i = 0; i < s.in.size(); ++i) { std::copy(s.in[i].begin(), s.in[i].end(), s.st->v(i)); for (size_t j = 0; j < s.in[i].size(); ++j) s.st->a(i)[j] = s.a0.empty() ? 0 : s.a0[i][j]; }
        s.done = false;
    }
    static void snap(Side& s) { s.adj.resize(s.in.size()); s.val.resize(s.in.size()); for (size_t i = 0; i < s.in.size(); ++i) { s.adj[i].assign(s.st->a(i), s.st->a(i) + s.in[i].size()); s.val[i].assign(s.st->v(i), s.st->v(i) + s.in[i].size()); } }
    static void alone(Side& s) {
        reset(s); s.segs = 0; while (!s.done) { resume(s); ++s.segs; }
        snap(s); s.value1 = s.value; s.adj1 = s.adj; s.val1 = s.val;
    }
    static std::string diff(Side& s) {
        snap(s);
        auto d = [](const std::vector<double>& x, const std::vector<double>& y) { return x.size() != y.size() || (x.size() && std::memcmp(x.data(), y.data(), 8 * x.size())); };
        if (d(s.value, s.value1)) return "value " + show(s.value) + ", alone " + show(s.value1);
        for (size_t i = 0; i < s.in.size(); ++i) { if (d(s.adj[i], s.adj1[i])) return "adjoint of x" + std::to_string(i) + " " + show(s.adj[i]) + ", alone " + show(s.adj1[i]); if (d(s.val[i], s.val1[i])) return "x" + std::to_string(i) + " holds " + show(s.val[i]) + ", alone " + show(s.val1[i]); }
        return "";
    }
    // every order of x.segs steps of x and y.segs of y with at most `sw` switches
    static unsigned long long count(int n, int m, int sw) {       // orders with at most sw context switches
        // compositions: blocks alternate
        auto C = [](int a, int b) { double r = 1; if (b < 0 || b > a) return 0.0; for (int i = 1; i <= b; ++i) r = r * (a - b + i) / i; return r; };
        double t = 0; for (int s = 1; s <= sw; ++s) { int A = (s + 2) / 2, B = (s + 1) / 2; t += C(n - 1, A - 1) * C(m - 1, B - 1) + C(n - 1, B - 1) * C(m - 1, A - 1); }
        return t > 1e15 ? (unsigned long long)1e15 : (unsigned long long)(t + 0.5);
    }
    // returns false after a failure
    bool explore(Side& x, Side& y, const std::string& name) {
        current = name; hooks_on(); start(x); start(y); alone(x); alone(y);
        int n = x.segs, m = y.segs, sw = 1; while (sw < n + m && (sw < 2 || count(n, m, sw + 1) <= max_sched)) ++sw;
        bool full = sw >= n + m || count(n, m, n + m) == count(n, m, sw); if (full) { rep.count("pairs_with_all_interleavings"); } else { rep.count("pairs_with_bounded_switches"); }
        std::string order; bool ok = rec(x, y, n, m, sw + 1, order, name);
        dyn::hooks.point = nullptr; return ok;
    }
    static void hooks_on() { dyn::hooks.point = point; }
private:
    bool rec(Side& x, Side& y, int n, int m, int sw, std::string& o, const std::string& name) {
        if (!n && !m) return play(x, y, o, name);
        for (int k = 0; k < 2; ++k) {
            if (!(k ? m : n)) continue;
            char c = k ? 'Y' : 'X'; int w = sw - (o.empty() || o.back() != c); if (w < 0) continue;
            if (w == 0 && (k ? n : m)) continue;                  // the other side could not finish any more
            o += c; bool ok = rec(x, y, n - !k, m - k, w, o, name); o.pop_back(); if (!ok) return false;
        }
        return true;
    }
    bool play(Side& x, Side& y, const std::string& o, const std::string& name) {
        reset(x); reset(y);
        for (char c : o) resume(c == 'X' ? x : y);
        rep.states++; rep.transitions += o.size(); rep.traces++;
        std::string d; if (!x.done || !y.done) d = "a different number of steps than alone";
        else { d = diff(x); if (!d.empty()) d = "X: " + d; else { d = diff(y); if (!d.empty()) d = "Y: " + d; } }
        if (d.empty()) { if (rep.states % 5000011 == 77) rep.sample(name + " order " + o); return true; }
        start(x); start(y); if (domain && !domain()) { rep.skipped++; return false; }
        rep.fail("INTERLEAVING", name + " steps " + o, d); return false;
    }
};
}
