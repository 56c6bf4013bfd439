// P05: placeholders, glue and for_each: every sequence of statements up to a length
#include "seqs.hpp"
using namespace eng;
struct P5 : Seqs {
    P5(Shard& s, int n) : Seqs(s, n) { o.cats = VALUE | GRAD | LEAF; h.nseeds = 1; }
    int maxlen = 3; bool wide = true; int hlen = 4;
    void rec(NodeV& stm, unsigned mask, int last) {
        if (rep.full()) return;
        size_t m = sp.mark();
        if (!stm.empty()) {
            const Node* w = x[last];
            auto fs = finals(mask, w);
            bool deep = stm.size() >= 3;
            size_t q = 0;
            for (auto f : fs) { ++q; if (deep && q != fs.size() && q != 3 && q != 6) continue; strings(stm, f, [&](const Node* p) {
                go(p);
                if (stm.size() <= 2 && wide) { size_t m2 = sp.mark(); inside(p, x[0], [&](const Node* z) { go(z); }); sp.drop(m2); }
                if (stm.size() == 1 || (stm.size() == 2 && (q == 3 || q == fs.size()))) hist(p, stm.size() == 1 ? hlen : hlen - 1);
            }); }
            // assignment used as a value, the variable used again afterwards
            auto e = stm.back(); NodeV head(stm.begin(), stm.end() - 1);
            NodeV vs; auto add = [&](const Node* z) { if (z) vs.push_back(z); };
            add(b.bin(MUL, e, w)); add(b.bin(ADD, b.un(SIN, e), w)); add(b.bin(MUL, e, b.bin(SUB, w, x[0]))); add(b.un(EXP, e)); add(b.red(SUM, e)); add(b.bin(MUL, b.red(SUM, e), b.red(PROD, w))); add(b.iter(SUMIT, {e, b.bin(MUL, w, w)})); add(b.iter(PRODIT, {e, w, b.un(SIN, w)}));
            add(b.bin(DIV, b.bin(MUL, e, w), b.bin(ADD, b.bin(MUL, w, w), b.cst(1)))); add(b.ife(b.bin(LT, x[0], b.cst(0.5)), b.bin(MUL, e, w), b.un(SIN, x[0]->s == w->s ? x[0] : x[1]->s == w->s ? x[1] : x[2])));
            if (w->s == S) { add(b.pdf(NORMAL, {x[1], e, b.bin(ADD, b.bin(MUL, w, w), b.cst(1))})); add(b.bin(MUL, e, b.bin(MUL, x[1], w))); }
            if (w->s == V) { add(b.pdf(NORMAL, {e, b.red(SUM, w), b.cst(1.5)})); add(b.dot(x[2], e)); add(b.trans(e)); }
            if (w->s == M) { add(b.dot(e, x[1])); add(b.dot(e, w)); add(b.det(DET, LU, e)); add(b.trans(e)); }
            add(e);
            for (auto z : vs) if (head.empty()) { go(z); hist(z, hlen); } else strings(head, z, [&](const Node* p) { go(p); });
            // assignment inside an expression whose own value is not used (its seed is zero), the variable used later
            if (wide && stm.size() <= 2) {
                add(b.un(NEG, e)); add(b.bin(SUB, b.cst(2), e)); add(b.bin(DIV, e, b.cst(4))); add(b.bin(ADD, b.bin(MUL, e, b.cst(2)), x[0])); add(b.red(NORM, e)); add(b.red(PROD, e)); add(b.pw(2, e)); add(b.pw(0, e)); add(b.bin(MUL, b.cst(0), e)); add(b.bin(MUL, e, b.cst(0)));
                add(b.iter(FOREACH, {e, b.bin(MUL, w, b.cst(3))})); add(b.glue(b.bin(MUL, e, b.cst(3)), b.un(SIN, x[0])));
                NodeV us = {w, b.un(SIN, w), b.bin(MUL, b.red(SUM, w), x[0]), b.bin(MUL, w, w)};
                for (size_t q = 0; q < vs.size(); ++q) for (size_t u = 0; u < us.size(); ++u) if (vs[q]) {
                    if (!head.empty() && u != q % us.size()) continue;
                    auto z = b.glue(vs[q], us[u]);
                    if (head.empty()) { go(z); go(b.bin(MUL, z, x[0])); if (u == 1) hist(z, hlen - 1); } else strings(head, z, [&](const Node* p) { go(p); });
                }
            }
        }
        sp.drop(m);
        if ((int)stm.size() >= maxlen) return;
        for (int t = 3; t < 8; ++t) if (!(mask >> t & 1)) {
            if ((t == 4 && !(mask >> 3 & 1)) || (t == 6 && !(mask >> 5 & 1))) continue;      // same-shape targets are interchangeable: first one first
            size_t m2 = sp.mark();
            for (auto& ex : exprs(mask, x[t]->s)) {
                if (!ex.core && (int)stm.size() + 1 >= (maxlen < 3 ? 3 : maxlen)) continue;
                if (!ex.core && stm.size() == 1 && !wide) continue;
                auto e = b.eq(x[t], ex.n); if (!e) continue;
                stm.push_back(e); rec(stm, mask | 1u << t, t); stm.pop_back();
            }
            sp.drop(m2);
        }
    }
    // assignments to single elements and ranges of a vector, and recurrences over them
    void elements() {
        for (int len = 1; len <= n; ++len) for (int form = 0; form < 6; ++form) for (int rev = 0; rev < 2; ++rev) {
            size_t m = sp.mark();
            auto el = [&](int v, int i) { return b.sub(v, i, S, 1); };
            NodeV s; 
            for (int q = 0; q < len; ++q) {
                int i = rev ? len - 1 - q : q, prev = rev ? i + 1 : i - 1; bool first = q == 0;
                const Node* p = first ? x[0] : el(5, prev);
                const Node* e = form == 0 ? b.bin(MUL, el(1, i), x[0]) : form == 1 ? b.bin(MUL, p, el(1, i)) : form == 2 ? b.bin(ADD, p, b.un(SIN, el(1, i))) : form == 3 ? b.un(SIN, p)
                    : form == 4 ? b.ife(b.bin(LT, el(1, i), b.cst(0.5)), b.bin(MUL, p, p), b.un(EXP, p)) : b.red(SUM, b.bin(MUL, x[1], p));
                s.push_back(b.eq(el(5, i), e));
            }
            const Node* w = b.sub(5, 0, V, len); const Node* last = el(5, rev ? 0 : len - 1);
            for (auto f : {last, b.un(EXP, last), w, b.red(SUM, w), b.bin(MUL, w, w), b.red(PROD, w), b.bin(MUL, b.red(NORM, w), x[0]), b.pdf(NORMAL, {w, x[0], b.cst(2)})}) strings(s, f, [&](const Node* p) { go(p); if (len <= 2 && n <= 2) hist(p, 4); });
            go(b.iter(FOREACH, s)); go(b.bin(MUL, b.iter(FOREACH, s), x[0])); go(b.un(SIN, b.iter(FOREACH, s))); go(b.iter(SUMIT, s)); go(b.iter(PRODIT, s));
            sp.drop(m);
        }
        // two halves of a vector
        for (int k = 1; k < n; ++k) {
            auto a = b.sub(5, 0, V, k), c = b.sub(5, k, V, n - k), p = b.sub(1, 0, V, k), q = b.sub(1, k, V, n - k);
            NodeV s = {b.eq(a, b.un(SIN, p)), b.eq(c, b.bin(MUL, q, x[0]))};
            for (auto f : {x[5], b.bin(MUL, x[5], x[1]), b.red(SUM, b.bin(MUL, x[5], x[5])), b.bin(MUL, b.red(SUM, a), c), b.dot(x[2], x[5])}) { strings(s, f, [&](const Node* z) { go(z); }); strings({s[1], s[0]}, f, [&](const Node* z) { go(z); }); }
            s[1] = b.eq(c, b.bin(MUL, q, b.red(SUM, a))); strings(s, b.bin(MUL, x[5], x[5]), [&](const Node* z) { go(z); });
        }
    }
    // chains and fans of placeholders: w_k uses all earlier ones
    void chains(int top) {
        auto el = [&](int v, int i) { return b.sub(v, i, S, 1); };
        for (int len = 1; len <= std::min(top, n); ++len) {
            size_t m = sp.mark(); NodeV s; const Node* acc = x[0];
            for (int i = 0; i < len; ++i) { s.push_back(b.eq(el(5, i), b.bin(MUL, b.cst(0.5), b.un(i % 2 ? SIN : EXP, acc)))); acc = b.bin(i % 2 ? SUB : ADD, acc, b.bin(MUL, el(5, i), el(1, i))); }
            strings(s, acc, [&](const Node* p) { go(p); }); strings(s, b.bin(MUL, acc, x[5]), [&](const Node* p) { go(p); });
            sp.drop(m);
        }
    }
    void known() {      // see known_findings.txt; kept out of every other program
        strict() = true; o.rerun = false; h.o.garbage = 1; 
        Vals v = in[1]; auto one = [&](const Node* p) { if (p && sh.i == 0) { Any e = build(p, st); r.run(p, e, st, v, mkseed(p, 0), o); } };
        auto W = b.eq(x[7], b.dot(x[2], x[2])); auto l = b.eq(x[3], b.det(DET, LU, W));
        one(b.glue(l, b.red(SUM, x[7])));
        one(b.ife(b.bin(LT, b.eq(x[3], b.bin(MUL, x[0], x[0])), b.cst(3)), x[3], b.bin(MUL, x[0], b.cst(2))));
        strict() = false;
    }
};
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv); bool t = sh.tier;
    { P5 p(sh, 2); p.hlen = t ? 5 : 4; NodeV s; p.rec(s, 7, 0); p.elements(); p.known(); }
    { P5 p(sh, 1); p.maxlen = 2; NodeV s; p.rec(s, 7, 0); }
    { P5 p(sh, 3); p.maxlen = 2; p.wide = t; NodeV s; p.rec(s, 7, 0); p.elements(); }
    for (int n : {4, 5, 8, 13}) { P5 p(sh, n); p.elements(); p.chains(n); }
    if (t) { P5 p(sh, 2); p.maxlen = 4; p.wide = false; NodeV s; p.rec(s, 7, 0); }
    rep.finish();
}
