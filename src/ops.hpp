// Exhaustive exploration of operation sequences on real objects, next to an explicit model.
// A World is built afresh for every sequence; an operation may be disabled in the state reached,
// which cuts the subtree.  World: static name(op), static count(); enabled(op), apply(op) -> error,
// check() -> error after every operation, finish() -> error at the end.
#pragma once
#include "engine.hpp"
#include <memory>
namespace ops {
using eng::rep;
inline std::vector<int> cur_seq; inline std::string (*cur_name)(int) = nullptr; inline std::string cur_world; inline int cur_at = 0;
inline std::string describe(int upto = 1 << 20) { std::string s = cur_world + ":"; for (int i = 0; i < (int)cur_seq.size() && i <= upto; ++i) s += (i ? "; " : " ") + cur_name(cur_seq[i]); return s; }
template <class W, class Mk> void explore(int len, Mk mk, const std::string& world, eng::Shard& sh) {
    cur_world = world; cur_name = [](int o) { return W::name(o); }; eng::current_fn = [] { return describe(cur_at); };
    int n = W::count(); rep.programs++;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
        if (!sh.mine()) continue;
        cur_seq.assign(len, 0); auto& s = cur_seq; s[0] = a; s[1] = b;
        for (;;) {
            if (rep.full()) return;
            int fix = -1; std::string err; cur_at = 0;
            {
                auto w = mk(); err = w->check();
                for (; err.empty() && cur_at < len; ++cur_at) { if (!w->enabled(s[cur_at])) { fix = cur_at; break; } rep.transitions++; err = w->apply(s[cur_at]); if (err.empty()) err = w->check(); if (!err.empty()) break; }
                if (fix < 0 && err.empty()) err = w->finish();
            }
            if (!err.empty()) { rep.fail("STATE", describe(cur_at), err); fix = std::min(cur_at, len - 1); }
            else if (fix < 0) { rep.states++; rep.traces++; fix = len - 1; if (rep.states % 200003 == 7) rep.sample(describe()); }
            int k = fix; for (int j = k + 1; j < len; ++j) s[j] = 0;
            while (k >= 2 && ++s[k] >= n) s[k--] = 0;
            if (k < 2) break;
        }
    }
}
}
