// Boring reference model: programs are small syntax trees, evaluated element by
// element onto a scalar tape of (value, parents, local derivative) and swept
// backwards.  Knows nothing of FastAD (no include of it, no shared code).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <limits>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
#include <functional>

namespace ref {

enum Shape : int { S = 0, V = 1, M = 2 };
inline const char* shname(int s) { return s == S ? "scl" : s == V ? "vec" : "mat"; }

enum Kind : int { VAR, CONST, UN, BIN, POW, SUM, PROD, NORM, TRANS, DOT, DET, LOGDET, IF,
                  GLUE, EQ, OPEQ, SUMIT, PRODIT, FOREACH, PDF };
// unary
enum Un : int { NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, EXP, LOG, SQRT, ERF, SIGMOID, SINH, COSH, TANH, N_UN };
static const char* const un_name[] = {"neg","sin","cos","tan","asin","acos","atan","exp","log","sqrt","erf","sigmoid","sinh","cosh","tanh"};
enum Bin : int { ADD, SUB, MUL, DIV, LT, LE, GT, GE, EQL, NE, AND, OR, N_BIN };
static const char* const bin_name[] = {"+","-","*","/","<","<=",">",">=","==","!=","&&","||"};
static const char* const opeq_name[] = {"+=","-=","*=","/="};
enum Pdf : int { NORMAL, CAUCHY, UNIFORM, BERNOULLI, WISHART, N_PDF };
static const char* const pdf_name[] = {"normal","cauchy","uniform","bernoulli","wishart"};
enum DetPol : int { LU = 0, LDLT = 1, LLT = 2 };
static const char* const pol_name[] = {"lu","ldlt","llt"};

struct Node {
    Kind k;
    int op = 0;               // Un/Bin/pow exponent/policy/pdf/opeq index
    Shape s = S;
    int r = 1, c = 1;
    std::vector<const Node*> kid;
    int var = -1, off = 0;    // VAR/EQ/OPEQ: variable, element offset (sub-view)
    std::vector<double> cv;   // CONST
    int size() const { return r * c; }
};

struct Arena {
    std::deque<Node> d;
    const Node* add(Node n) { d.push_back(std::move(n)); return &d.back(); }
    void clear() { d.clear(); }
};

// ---- construction helpers (shape inference); return nullptr if ill-typed
struct B {
    Arena& a;
    const Node* var(int id, Shape s, int r, int c) { Node n; n.k = VAR; n.s = s; n.r = r; n.c = c; n.var = id; return a.add(n); }
    const Node* sub(int id, int off, Shape s, int r) { Node n; n.k = VAR; n.s = s; n.r = r; n.c = 1; n.var = id; n.off = off; return a.add(n); }
    const Node* cst(double x) { Node n; n.k = CONST; n.cv = {x}; return a.add(n); }
    const Node* cstv(std::vector<double> v) { Node n; n.k = CONST; n.s = V; n.r = (int)v.size(); n.cv = v; return a.add(n); }
    const Node* cstm(int r, int c, std::vector<double> v) { Node n; n.k = CONST; n.s = M; n.r = r; n.c = c; n.cv = v; return a.add(n); }
    const Node* un(int op, const Node* x) { if (!x) return nullptr; Node n; n.k = UN; n.op = op; n.s = x->s; n.r = x->r; n.c = x->c; n.kid = {x}; return a.add(n); }
    const Node* pw(int e, const Node* x) { if (!x) return nullptr; Node n; n.k = POW; n.op = e; n.s = x->s; n.r = x->r; n.c = x->c; n.kid = {x}; return a.add(n); }
    const Node* bin(int op, const Node* x, const Node* y) {
        if (!x || !y) return nullptr;
        if (x->s != S && y->s != S && (x->s != y->s || x->r != y->r || x->c != y->c)) return nullptr;
        Node n; n.k = BIN; n.op = op; n.kid = {x, y};
        const Node* b = x->s == S ? y : x; n.s = b->s; n.r = b->r; n.c = b->c; return a.add(n);
    }
    const Node* red(Kind k, const Node* x) { // SUM PROD NORM
        if (!x || (k == NORM && x->s == S)) return nullptr;
        Node n; n.k = k; n.kid = {x}; return a.add(n);
    }
    const Node* trans(const Node* x) { if (!x || x->s == S) return nullptr; Node n; n.k = TRANS; n.s = M; n.r = x->c; n.c = x->r; n.kid = {x}; return a.add(n); }
    const Node* dot(const Node* x, const Node* y) {
        if (!x || !y || x->s != M || y->s == S || x->c != y->r) return nullptr;
        Node n; n.k = DOT; n.s = y->s; n.r = x->r; n.c = y->c; n.kid = {x, y}; return a.add(n);
    }
    const Node* det(Kind k, int pol, const Node* x) { if (!x || x->s != M || x->r != x->c) return nullptr; Node n; n.k = k; n.op = pol; n.kid = {x}; return a.add(n); }
    const Node* ife(const Node* c, const Node* x, const Node* y) {
        if (!c || !x || !y || c->s != S || x->s != y->s || x->r != y->r || x->c != y->c) return nullptr;
        Node n; n.k = IF; n.s = x->s; n.r = x->r; n.c = x->c; n.kid = {c, x, y}; return a.add(n);
    }
    const Node* glue(const Node* x, const Node* y) { if (!x || !y) return nullptr; Node n; n.k = GLUE; n.s = y->s; n.r = y->r; n.c = y->c; n.kid = {x, y}; return a.add(n); }
    const Node* eq(const Node* v, const Node* x) {
        if (!v || !x || v->k != VAR || x->k == VAR || v->s != x->s || v->r != x->r || v->c != x->c) return nullptr;
        Node n; n.k = EQ; n.s = v->s; n.r = v->r; n.c = v->c; n.var = v->var; n.off = v->off; n.kid = {x}; return a.add(n);
    }
    const Node* opeq(int op, const Node* v, const Node* x) {
        if (!v || !x || v->k != VAR) return nullptr;
        if (x->s != S && (v->s != x->s || v->r != x->r || v->c != x->c)) return nullptr;
        Node n; n.k = OPEQ; n.op = op; n.s = v->s; n.r = v->r; n.c = v->c; n.var = v->var; n.off = v->off; n.kid = {x}; return a.add(n);
    }
    const Node* iter(Kind k, std::vector<const Node*> xs) {
        if (xs.empty()) return nullptr;
        for (auto x : xs) if (!x || x->s != xs[0]->s || x->r != xs[0]->r || x->c != xs[0]->c) return nullptr;
        Node n; n.k = k; n.s = xs[0]->s; n.r = xs[0]->r; n.c = xs[0]->c; n.kid = xs; return a.add(n);
    }
    const Node* pdf(int which, std::vector<const Node*> xs) {
        for (auto x : xs) if (!x) return nullptr;
        Node n; n.k = PDF; n.op = which; n.kid = xs; return a.add(n);
    }
};

inline std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string str(const Node* n) {
    auto k = [&](size_t i) { return str(n->kid[i]); };
    auto all = [&] { std::string o; for (size_t i = 0; i < n->kid.size(); ++i) o += (i ? ", " : "") + k(i); return o; };
    auto vn = [&] {
        std::string o = "x" + std::to_string(n->var);
        return o + (n->s == S ? (n->off ? "[" + std::to_string(n->off) + "]" : "") : n->s == V ? (":" + std::to_string(n->off) + "+" + std::to_string(n->r)) : (":" + std::to_string(n->r) + "x" + std::to_string(n->c)));
    };
    switch (n->k) {
        case VAR: return vn();
        case CONST: { if (n->s == S) return num(n->cv[0]); std::string o = n->s == V ? "c[" : "C[" + std::to_string(n->r) + "x" + std::to_string(n->c) + ":"; for (size_t i = 0; i < n->cv.size() && i < 9; ++i) o += (i ? "," : "") + num(n->cv[i]); return o + "]"; }
        case UN: return std::string(un_name[n->op]) + "(" + k(0) + ")";
        case POW: return "pow<" + std::to_string(n->op) + ">(" + k(0) + ")";
        case BIN: return "(" + k(0) + " " + bin_name[n->op] + " " + k(1) + ")";
        case SUM: return "sum(" + k(0) + ")";
        case PROD: return "prod(" + k(0) + ")";
        case NORM: return "norm(" + k(0) + ")";
        case TRANS: return "transpose(" + k(0) + ")";
        case DOT: return "dot(" + k(0) + ", " + k(1) + ")";
        case DET: return std::string("det<") + pol_name[n->op] + ">(" + k(0) + ")";
        case LOGDET: return std::string("log_det<") + pol_name[n->op] + ">(" + k(0) + ")";
        case IF: return "if_else(" + all() + ")";
        case GLUE: return "(" + k(0) + ", " + k(1) + ")";
        case EQ: return "(" + vn() + " = " + k(0) + ")";
        case OPEQ: return "(" + vn() + " " + opeq_name[n->op] + " " + k(0) + ")";
        case SUMIT: return "sum_over{" + all() + "}";
        case PRODIT: return "prod_over{" + all() + "}";
        case FOREACH: return "for_each{" + all() + "}";
        case PDF: return std::string(pdf_name[n->op]) + "_adj_log_pdf(" + all() + ")";
    }
    return "?";
}
// known findings are kept out of the generic domain; strict mode puts them back (see known_findings.txt)
inline bool& strict() { static bool b = false; return b; }
inline bool contains(const Node* n, Kind k) { if (n->k == k) return true; for (auto x : n->kid) if (contains(x, k)) return true; return false; }
inline int nodes(const Node* n) { int o = 1; for (auto x : n->kid) o += nodes(x); return o; }

using ld = long double;

template <class T>
struct Tape {
    struct E { int p; T w, aw; };    // aw: magnitude for the error bound
    std::vector<T> val;
    std::vector<int> eb;       // edge begin per node (size n+1)
    std::vector<E> ed;
    std::vector<T> adj, aadj;
    bool bad = false;          // outside the checked domain: skip this program/input
    std::vector<int> branch;   // decisions taken (if_else / comparisons), for ambiguity detection
    std::vector<std::vector<int>> slot;   // current tape id of each variable element
    std::vector<std::vector<int>> init;   // initial ids
    std::vector<std::vector<int>> eqid;   // ids created by EQ per variable (empty if none)
    std::vector<char> touched;            // variable was op='d
    std::vector<std::vector<char>> rd;    // element was read (or op='d): may no longer be assigned
    size_t fevals = 0;
    std::function<void(const Node*, bool)> on_if;

    void clear() { val.clear(); eb.assign(1, 0); ed.clear(); bad = false; branch.clear(); slot.clear(); init.clear(); eqid.clear(); touched.clear(); rd.clear(); fevals = 0; }
    int leaf(T v) { val.push_back(v); eb.push_back((int)ed.size()); return (int)val.size() - 1; }
    void edge(int p, T w) { ed.push_back({p, w, std::fabs(w)}); }
    int done(T v) { val.push_back(v); eb.push_back((int)ed.size()); if (!std::isfinite((double)v)) bad = true; return (int)val.size() - 1; }
    bool nonfin = false;
    std::vector<int> gate;                // outputs of nodes that skip their operands when the seed is zero, and whose operands assign
    static bool assigns(const Node* n) { return contains(n, EQ) || contains(n, OPEQ); }
    int n1(T v, int a, T wa) { edge(a, wa); return done(v); }
    int n2(T v, int a, T wa, int b, T wb) { edge(a, wa); edge(b, wb); return done(v); }
    // primitive scalar ops (used to spell out the log densities)
    // comparisons of computed (hence rounded) values must not be close calls
    std::vector<int> cp;                  // node -> node it copies or negates exactly
    int copy(int v, int a) { cp.resize(v + 1, -1); cp[v] = a; return v; }
    bool computed(int a) const { while (a < (int)cp.size() && cp[a] >= 0) a = cp[a]; return eb[a + 1] > eb[a]; }
    void close(int a, int b) { if ((computed(a) || computed(b)) && !(std::fabs(val[a] - val[b]) > 1e-9L * (1 + std::fabs(val[a]) + std::fabs(val[b])))) bad = true; }
    void close0(int a) { if (computed(a) && !(std::fabs(val[a]) > 1e-9L)) bad = true; }
    void close1(int a) { if (computed(a) && !(std::fabs(val[a] - 1) > 1e-9L)) bad = true; }
    int add(int a, int b) { return n2(val[a] + val[b], a, 1, b, 1); }
    int sub(int a, int b) { return n2(val[a] - val[b], a, 1, b, -1); }
    int mul(int a, int b) { return n2(val[a] * val[b], a, val[b], b, val[a]); }
    int div(int a, int b) { return n2(val[a] / val[b], a, 1 / val[b], b, -val[a] / (val[b] * val[b])); }
    int log(int a) { return n1(std::log(val[a]), a, 1 / val[a]); }
    int scale(int a, T k) { return n1(k * val[a], a, k); }

    void setup(const std::vector<std::vector<double>>& vars) {
        clear(); cp.clear(); nonfin = false; gate.clear();
        for (auto& v : vars) { std::vector<int> s; for (double x : v) s.push_back(leaf((T)x)); slot.push_back(s); }
        init = slot; eqid.resize(vars.size()); touched.assign(vars.size(), 0);
        for (auto& v : vars) rd.push_back(std::vector<char>(v.size(), 0));
    }
    static T minor_det(const std::vector<T>& a, int n) {   // Laplace, column major
        if (n == 0) return 1;
        if (n == 1) return a[0];
        if (n == 2) return a[0] * a[3] - a[1] * a[2];
        if (n > 5) { // plain Gauss with partial pivoting in T
            std::vector<T> b = a; T d = 1;
            for (int k = 0; k < n; ++k) {
                int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(b[k * n + i]) > std::fabs(b[k * n + p])) p = i;
                if (b[k * n + p] == 0) return 0;
                if (p != k) { for (int j = 0; j < n; ++j) std::swap(b[j * n + k], b[j * n + p]); d = -d; }
                d *= b[k * n + k];
                for (int i = k + 1; i < n; ++i) { T f = b[k * n + i] / b[k * n + k]; for (int j = k; j < n; ++j) b[j * n + i] -= f * b[j * n + k]; }
            }
            return d;
        }
        T d = 0;
        for (int j = 0; j < n; ++j) { T t = a[j * n] * minor_det(minor(a, n, 0, j), n - 1); d += (j % 2) ? -t : t; }
        return d;
    }
    static std::vector<T> minor(const std::vector<T>& a, int n, int i, int j) {
        std::vector<T> m; m.reserve((n - 1) * (n - 1));
        for (int q = 0; q < n; ++q) if (q != j) for (int p = 0; p < n; ++p) if (p != i) m.push_back(a[q * n + p]);
        return m;
    }
    // determinant as one tape node with cofactor derivatives
    int detnode(const std::vector<int>& x, int n) {
        std::vector<T> a; for (int i : x) a.push_back(val[i]);
        for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
            T cf = minor_det(minor(a, n, i, j), n - 1); edge(x[j * n + i], ((i + j) % 2) ? -cf : cf);
        }
        T m = 0; for (size_t e = ed.size() - n * n; e < ed.size(); ++e) m = std::max(m, ed[e].aw);
        for (size_t e = ed.size() - n * n; e < ed.size(); ++e) ed[e].aw = m;      // an inverse is computed to normwise accuracy
        return done(minor_det(a, n));
    }
    static bool spd(const std::vector<T>& a, int n) { // leading minors all > 0, symmetric
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (a[j * n + i] != a[i * n + j]) return false;
        for (int k = 1; k <= n; ++k) { std::vector<T> b; for (int j = 0; j < k; ++j) for (int i = 0; i < k; ++i) b.push_back(a[j * n + i]); if (!(minor_det(b, k) > 0)) return false; }
        return true;
    }
    std::vector<T> vals(const std::vector<int>& x) const { std::vector<T> o; for (int i : x) o.push_back(val[i]); return o; }
    bool symmetric(const std::vector<T>& a, int n) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (a[j * n + i] != a[i * n + j]) return false; return true; }
    void detcheck(int pol, const std::vector<T>& a, int n) {
        T d = minor_det(a, n), sc = 1;
        for (int j = 0; j < n; ++j) { T m = 0; for (int i = 0; i < n; ++i) m = std::max<T>(m, std::fabs(a[j * n + i])); sc *= m; }
        if (!(std::fabs(d) > 1e-6L * sc)) bad = true;                 // (nearly) singular: outside the domain
        if (!bad && n > 1) {                                          // as large a condition number as makes it singular in double precision
            T big = 0, cof = 0; for (T v : a) big = std::max<T>(big, std::fabs(v));
            T small = big; for (T v : a) if (v != 0) small = std::min<T>(small, std::fabs(v));
            if (small < 1e-10L * big) { for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) cof = std::max<T>(cof, std::fabs(minor_det(minor(a, n, i, j), n - 1))); if (!(big * cof < 1e13L * std::fabs(d))) bad = true; }
        }
        if (pol != LU && !symmetric(a, n)) bad = true;
        if (pol == LLT && !spd(a, n)) bad = true;
        if (pol == LDLT && !spd(a, n)) { std::vector<T> m = a; for (auto& q : m) q = -q; if (!spd(m, n)) bad = true; }
    }

    // one raw-variable operand: its elements must not change between being read and being used
    struct Raw { int var, off, n; std::vector<int> ids; };
    void raws(const Node* n, std::vector<Raw>& out) const {
        const Node* q = n; bool glued = false;
        while (q->k == GLUE || q->k == FOREACH) { q = q->kid.back(); glued = true; }
        (void)glued;
        if (q->k == VAR || q->k == EQ) out.push_back({q->var, q->off, q->size(), std::vector<int>(slot[q->var].begin() + q->off, slot[q->var].begin() + q->off + q->size())});
    }
    void still(const std::vector<Raw>& rs) { for (auto& r : rs) for (int i = 0; i < r.n; ++i) if (slot[r.var][r.off + i] != r.ids[i]) bad = true; }
    // a variable read raw as the value of an operand whose own subtree op='d it
    static bool opeqs(const Node* n, int var) { if (n->k == OPEQ && n->var == var) return true; for (auto x : n->kid) if (opeqs(x, var)) return true; return false; }

    std::vector<int> ev(const Node* n) {
        ++fevals;
        std::vector<std::vector<int>> K;
        std::vector<Raw> raw;
        auto kids = [&](size_t from = 0) {
            for (size_t i = from; i < n->kid.size(); ++i) { K.push_back(ev(n->kid[i])); raws(n->kid[i], raw); }
            still(raw);
            if (n->kid.size() > 1 && n->k != GLUE && n->k != FOREACH && n->k != IF)
                for (auto x : n->kid) {   // (v op= e, v) used as an operand with siblings: known finding, outside the generic domain
                    const Node* q = x; while (q->k == GLUE || q->k == FOREACH) q = q->kid.back();
                    if (q != x && (q->k == VAR || q->k == EQ)) for (auto y : n->kid) if (!strict() && opeqs(y, q->var)) bad = true;
                }
        };
        std::vector<int> o;
        switch (n->k) {
        case VAR: for (int i = 0; i < n->size(); ++i) rd[n->var][n->off + i] = 1;
            return std::vector<int>(slot[n->var].begin() + n->off, slot[n->var].begin() + n->off + n->size());
        case CONST: for (double x : n->cv) o.push_back(leaf((T)x)); return o;
        case UN: kids(); for (int i : K[0]) {
            T x = val[i], f = 0, d = 0, e;
            switch (n->op) {
            case NEG: f = -x; d = -1; break;
            default: if (n->op <= TAN && computed(i) && !(std::fabs(x) < 1e4L)) bad = true; break;   // rounding of the argument is amplified
            }
            switch (n->op) {
            case SIN: f = std::sin(x); d = std::cos(x); break;
            case COS: f = std::cos(x); d = -std::sin(x); break;
            case TAN: f = std::tan(x); d = 1 + f * f; break;
            case ASIN: f = std::asin(x); d = 1 / std::sqrt((1 - x) * (1 + x)); break;
            case ACOS: f = std::acos(x); d = -1 / std::sqrt((1 - x) * (1 + x)); break;
            case ATAN: f = std::atan(x); d = 1 / (1 + x * x); break;
            case EXP: f = std::exp(x); d = f; break;
            case LOG: f = std::log(x); d = 1 / x; break;
            case SQRT: f = std::sqrt(x); d = 1 / (2 * f); break;
            case ERF: f = std::erf(x); d = (T)1.12837916709551257389615890312154517L * std::exp(-x * x); break;
            case SIGMOID: e = std::exp(-std::fabs(x)); f = x >= 0 ? 1 / (1 + e) : e / (1 + e); d = e / ((1 + e) * (1 + e)); break;
            case SINH: f = std::sinh(x); d = std::cosh(x); break;
            case COSH: f = std::cosh(x); d = std::sinh(x); break;
            case TANH: f = std::tanh(x); e = std::cosh(x); d = 1 / (e * e); break;
            }
            if (!std::isfinite((double)d)) nonfin = true;
            ed.push_back({i, d, n->op == TANH ? std::max<T>(1, std::fabs(d)) : std::fabs(d)});   // 1 - f^2 is accurate to eps only
            o.push_back(done(f)); if (n->op == NEG) copy(o.back(), i);
        } return o;
        case POW: kids(); for (int i : K[0]) {
            T x = val[i], f = ipow(x, n->op), d = n->op == 0 ? 0 : n->op * ipow(x, n->op - 1);
            if (!std::isfinite((double)d)) nonfin = true;
            o.push_back(n1(f, i, d));
        } return o;
        case BIN: {
            kids(); size_t m = n->size();
            if (m == 0 && n->op == DIV && K[1].size() == 1 && val[K[1][0]] == 0) bad = true;   // nothing divided by zero
            for (size_t q = 0; q < m; ++q) {
                int a = K[0][K[0].size() == m && n->kid[0]->s != S ? q : 0], b = K[1][K[1].size() == m && n->kid[1]->s != S ? q : 0];
                T x = val[a], y = val[b]; bool t;
                switch (n->op) {
                case ADD: o.push_back(add(a, b)); break;
                case SUB: o.push_back(sub(a, b)); break;
                case MUL: o.push_back(mul(a, b)); break;
                case DIV: o.push_back(div(a, b)); break;
                default:
                    if (!strict() && assigns(n)) nonfin = true;
                    if (n->op >= AND) { close0(a); close0(b); } else close(a, b);
                    t = n->op == LT ? x < y : n->op == LE ? x <= y : n->op == GT ? x > y : n->op == GE ? x >= y : n->op == EQL ? x == y
                        : n->op == NE ? x != y : n->op == AND ? (x != 0 && y != 0) : (x != 0 || y != 0);
                    branch.push_back(t); o.push_back(leaf(t ? 1 : 0));
                }
            }
            return o; }
        case SUM: { kids(); T t = 0; for (int i : K[0]) { edge(i, 1); t += val[i]; } return {done(t)}; }
        case NORM: { kids(); T t = 0; for (int i : K[0]) { edge(i, 2 * val[i]); t += val[i] * val[i]; } return {done(t)}; }
        case PROD: { kids(); return {prodnode(K[0])}; }
        case TRANS: kids(); for (int j = 0; j < n->c; ++j) for (int i = 0; i < n->r; ++i) { int q = K[0][i * n->c + j]; o.push_back(copy(n1(val[q], q, 1), q)); } return o;
        case DOT: { kids(); int R = n->r, C = n->c, I = n->kid[0]->c;
            for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) {
                T t = 0;
                for (int k = 0; k < I; ++k) { int a = K[0][k * R + i], b = K[1][j * I + k]; edge(a, val[b]); edge(b, val[a]); t += val[a] * val[b]; }
                o.push_back(done(t));
            } return o; }
        case DET: { kids(); int m = n->kid[0]->r; detcheck(n->op, vals(K[0]), m); int d = detnode(K[0], m); if (assigns(n)) gate.push_back(d); return {d}; }
        case LOGDET: { kids(); int m = n->kid[0]->r; detcheck(n->op, vals(K[0]), m); int d = detnode(K[0], m), l = n1(std::log(std::fabs(val[d])), d, 1 / val[d]); if (assigns(n)) gate.push_back(l); return {l}; }
        case IF: {
            auto c = ev(n->kid[0]); close0(c[0]); if (!strict() && assigns(n->kid[0])) nonfin = true; bool t = val[c[0]] != 0; branch.push_back(t); if (on_if) on_if(n, t);
            auto x = ev(n->kid[t ? 1 : 2]); std::vector<int> r; for (int i : x) r.push_back(copy(n1(val[i], i, 1), i)); return r; }
        case GLUE: ev(n->kid[0]); return ev(n->kid[1]);
        case EQ: {
            kids(); std::vector<int> r; for (int i : K[0]) r.push_back(copy(n1(val[i], i, 1), i));
            for (int i = 0; i < n->size(); ++i) if (rd[n->var][n->off + i] || (!eqid[n->var].empty() && eqid[n->var][n->off + i] >= 0)) bad = true; // one assignment, before any use
            if (eqid[n->var].empty()) eqid[n->var].assign(slot[n->var].size(), -1);
            for (size_t i = 0; i < r.size(); ++i) { slot[n->var][n->off + i] = r[i]; eqid[n->var][n->off + i] = r[i]; }
            return r; }
        case OPEQ: {
            std::vector<int> before(slot[n->var].begin() + n->off, slot[n->var].begin() + n->off + n->size());
            K.push_back(ev(n->kid[0])); raws(n->kid[0], raw); still(raw);
            for (int i = 0; i < n->size(); ++i) if (slot[n->var][n->off + i] != before[i]) bad = true; // nested op= on the same variable
            if (n->size() == 0 && n->op == 3 && n->kid[0]->s == S && val[K[0][0]] == 0) bad = true;   // nothing divided by zero
            std::vector<int> r;
            for (int q = 0; q < n->size(); ++q) { int a = before[q], b = K[0][n->kid[0]->s == S ? 0 : q];
                r.push_back(n->op == 0 ? add(a, b) : n->op == 1 ? sub(a, b) : n->op == 2 ? mul(a, b) : div(a, b)); }
            for (size_t i = 0; i < r.size(); ++i) slot[n->var][n->off + i] = r[i];
            touched[n->var] = 1; for (int i = 0; i < n->size(); ++i) rd[n->var][n->off + i] = 1;
            return r; }
        case SUMIT: { kids(); for (int q = 0; q < n->size(); ++q) { T t = 0; for (auto& x : K) { edge(x[q], 1); t += val[x[q]]; } o.push_back(done(t)); } return o; }
        case PRODIT: { kids(); for (int q = 0; q < n->size(); ++q) { std::vector<int> xs; for (auto& x : K) xs.push_back(x[q]); o.push_back(prodnode(xs)); } return o; }
        case FOREACH: { std::vector<int> r; for (auto x : n->kid) r = ev(x); return r; }
        case PDF: { kids(); int l = pdf(n, K); if (assigns(n)) gate.push_back(l); return {l}; }
        }
        bad = true; return o;
    }
    static T ipow(T x, int n) { T r = 1; int m = n < 0 ? -n : n; for (int i = 0; i < m; ++i) r *= x; return n < 0 ? 1 / r : r; }
    int prodnode(const std::vector<int>& x) {
        T t = 1; for (int i : x) t *= val[i];
        for (size_t i = 0; i < x.size(); ++i) { T w = 1; for (size_t j = 0; j < x.size(); ++j) if (j != i) w *= val[x[j]]; edge(x[i], w); }
        return done(t);
    }
    int neginf() { val.push_back(-std::numeric_limits<T>::infinity()); eb.push_back((int)ed.size()); return (int)val.size() - 1; }
    int pdf(const Node* n, const std::vector<std::vector<int>>& K) {
        auto at = [&](int k, size_t i) { return K[k][n->kid[k]->s == S ? 0 : i]; };
        size_t N = n->kid[0]->size();
        int acc = leaf(0);
        switch (n->op) {
        case NORMAL:
            if (n->kid[2]->s == M) {
                int p = n->kid[2]->r; auto a = vals(K[2]);
                if (!symmetric(a, p)) { bad = true; return neginf(); }
                T d = minor_det(a, p); bool pd = spd(a, p); branch.push_back(pd);
                if (std::fabs(d) < 1e-6L) { bad = true; return neginf(); }
                if (!pd) return neginf();
                int dn = detnode(K[2], p);
                std::vector<int> z; for (int i = 0; i < p; ++i) z.push_back(sub(at(0, i), at(1, i)));
                // quadratic form through the adjugate: sum_ij cof_ij z_i z_j / det
                for (int i = 0; i < p; ++i) for (int j = 0; j < p; ++j) {
                    std::vector<int> m; for (int q = 0; q < p; ++q) if (q != j) for (int r = 0; r < p; ++r) if (r != i) m.push_back(K[2][q * p + r]);
                    int cf = detnode(m, p - 1); if ((i + j) % 2) cf = scale(cf, -1);
                    acc = add(acc, mul(cf, mul(z[i], z[j])));
                }
                return add(scale(div(acc, dn), (T)-0.5), scale(log(dn), (T)-0.5));
            }
            { bool ok = true; for (int i : K[2]) { close0(i); ok = ok && val[i] > 0; } branch.push_back(ok); if (!ok) return neginf(); }
            for (size_t i = 0; i < N; ++i) { int z = div(sub(at(0, i), at(1, i)), at(2, i)); acc = sub(acc, add(scale(mul(z, z), (T)0.5), log(at(2, i)))); }
            return acc;
        case CAUCHY:
            { bool ok = true; for (int i : K[2]) { close0(i); ok = ok && val[i] > 0; } branch.push_back(ok); if (!ok) return neginf(); }
            for (size_t i = 0; i < N; ++i) { int d = sub(at(0, i), at(1, i)); acc = sub(acc, log(add(at(2, i), div(mul(d, d), at(2, i))))); }
            return acc;
        case UNIFORM:
            for (size_t i = 0; i < N; ++i) { close(at(1, i), at(0, i)); close(at(0, i), at(2, i)); bool ok = val[at(1, i)] < val[at(0, i)] && val[at(0, i)] < val[at(2, i)]; branch.push_back(ok); if (!ok) return neginf(); }
            for (size_t i = 0; i < N; ++i) acc = sub(acc, log(sub(at(2, i), at(1, i))));
            return acc;
        case BERNOULLI:
            for (size_t i = 0; i < N; ++i) {
                T x = val[at(0, i)], p = val[at(1, i)];
                bool zero = x == 0, one = x == 1; close0(at(0, i)); close1(at(0, i)); close0(at(1, i)); close1(at(1, i));
                branch.push_back(zero); branch.push_back(one); branch.push_back(p > 0); branch.push_back(p < 1);
                if (!zero && !one) { nonfin = true; return neginf(); }   // gradient unspecified
                if (p <= 0 && !zero) { nonfin = true; return neginf(); }
                if (p >= 1 && !one) { nonfin = true; return neginf(); }
            }
            for (size_t i = 0; i < N; ++i) {
                T p = val[at(1, i)]; if (!(p > 0 && p < 1)) continue;    // degenerate: contributes nothing
                if (val[at(0, i)] == 1) acc = add(acc, log(at(1, i))); else acc = add(acc, log(sub(leaf(1), at(1, i))));
            }
            return acc;
        case WISHART: {
            int p = n->kid[0]->r; auto X = vals(K[0]), Vv = vals(K[1]); T nn = val[K[2][0]];
            if (!symmetric(X, p) || !symmetric(Vv, p) || std::fabs(minor_det(X, p)) < 1e-6L || std::fabs(minor_det(Vv, p)) < 1e-6L) { bad = true; return neginf(); }
            bool ok = spd(X, p) && spd(Vv, p) && nn > p - 1; branch.push_back(ok); if (!ok) return neginf();
            int dX = detnode(K[0], p), dV = detnode(K[1], p);
            int tr = leaf(0); // tr(V^-1 X) = sum_ij (V^-1)_ji X_ij ; inverse via cofactors
            for (int i = 0; i < p; ++i) for (int j = 0; j < p; ++j) {
                std::vector<int> m; for (int q = 0; q < p; ++q) if (q != j) for (int r = 0; r < p; ++r) if (r != i) m.push_back(K[1][q * p + r]);
                int cf = detnode(m, p - 1); if ((i + j) % 2) cf = scale(cf, -1);
                tr = add(tr, mul(cf, K[0][j * p + i]));
            }
            tr = div(tr, dV);
            return add(add(scale(log(dX), (nn - p - 1) / 2), scale(tr, (T)-0.5)), scale(log(dV), -nn / 2)); }
        }
        bad = true; return acc;
    }
    void back(const std::vector<int>& root, const std::vector<double>& seed) {
        adj.assign(val.size(), 0); aadj.assign(val.size(), 0);
        for (size_t i = 0; i < root.size(); ++i) { double s = seed.size() == 1 ? seed[0] : seed[i]; adj[root[i]] += s; aadj[root[i]] += std::fabs(s); }
        for (int i = (int)val.size() - 1; i >= 0; --i) {
            if (adj[i] == 0 && aadj[i] == 0) continue;
            for (int e = eb[i]; e < eb[i + 1]; ++e) { adj[ed[e].p] += adj[i] * ed[e].w; aadj[ed[e].p] += aadj[i] * ed[e].aw; }
        }
    }
};

// Everything the model predicts of one evaluate + backward pass.
struct Result {
    bool defined = false;                       // inside the checked domain
    bool value_defined = false;                 // value may be checked even if the gradient may not
    std::vector<double> value, vtol;            // root value
    std::vector<std::vector<double>> grad, gtol;   // d/d(initial variable element); placeholders: total derivative
    std::vector<std::vector<char>> reach;       // can a change of the element reach the root at all (with the branches taken)
    std::vector<std::vector<double>> fwd, ftol;    // variable contents after the forward pass
    std::vector<char> assigned, opassigned;
};

struct Model {
    Tape<ld> L; Tape<double> D; std::vector<int> rL, rD;
    Result run(const Node* n, const std::vector<std::vector<double>>& vars, const std::vector<double>& seed) {
        Result o;
        L.setup(vars); rL = L.ev(n);
        if (L.bad) return o;
        D.setup(vars); rD = D.ev(n);
        if (D.bad || L.branch != D.branch) return o;
        for (auto v : L.val) if (v != 0 && std::fabs((double)v) < 1e-200) return o;      // underflow: outside the domain
        for (size_t i = 0; i < rL.size(); ++i) if (std::isinf(L.val[rL[i]]) != std::isinf(D.val[rD[i]]) || (std::isinf((double)L.val[rL[i]]) && !std::isinf(L.val[rL[i]]))) return o;
        double big = 0;
        for (size_t i = 0; i < rL.size(); ++i) {
            ld v = L.val[rL[i]]; double d = D.val[rD[i]];
            o.value.push_back((double)v);
            o.vtol.push_back(std::isinf(v) ? 0 : 1e-10 * std::fabs((double)v) + 1e-12 + 200 * std::fabs((double)(v - d)));
            if (std::isnan((double)v)) return o;
            big = std::max(big, std::isinf(v) ? 0. : std::fabs((double)v));
        }
        if (big > 1e60) return o;
        o.value_defined = true;
        for (size_t k = 0; k < vars.size(); ++k) {
            o.assigned.push_back(!L.eqid[k].empty()); o.opassigned.push_back(L.touched[k]);
            std::vector<double> f, ft;
            for (size_t i = 0; i < vars[k].size(); ++i) { ld v = L.val[L.slot[k][i]]; f.push_back((double)v); ft.push_back(1e-10 * std::fabs((double)v) + 1e-12 + 200 * std::fabs((double)(v - D.val[D.slot[k][i]]))); }
            o.fwd.push_back(f); o.ftol.push_back(ft);
        }
        if (L.nonfin) return o;
        for (auto& e : L.ed) if (!(std::fabs((double)e.w) < 1e60)) return o;
        for (auto v : L.val) if (!std::isinf(v) && !(std::fabs((double)v) < 1e60)) return o;
        // a root of -inf contributes no derivative: its tape node has no edges
        L.back(rL, seed); D.back(rD, seed);
        if (!strict()) for (int g : L.gate) if (L.adj[g] == 0 || std::isinf(L.val[g])) return o;
        std::vector<char> R(L.val.size(), 0); for (int i : rL) R[i] = 1;
        for (int i = (int)L.val.size() - 1; i >= 0; --i) if (R[i]) for (int e = L.eb[i]; e < L.eb[i + 1]; ++e) R[L.ed[e].p] = 1;
        for (size_t k = 0; k < vars.size(); ++k) {
            std::vector<double> g, t; std::vector<char> rc;
            for (size_t i = 0; i < vars[k].size(); ++i) {
                int a = L.init[k][i], b = D.init[k][i];
                if (!L.eqid[k].empty() && L.eqid[k][i] >= 0) { a = L.eqid[k][i]; b = D.eqid[k][i]; }
                ld v = L.adj[a]; if (std::isnan((double)v)) return o;
                g.push_back((double)v); rc.push_back(R[a]);
                t.push_back(1e-10 * (double)L.aadj[a] + 1e-13 + 200 * std::fabs((double)(v - D.adj[b])));
            }
            o.grad.push_back(g); o.gtol.push_back(t); o.reach.push_back(rc);
        }
        o.defined = true;
        return o;
    }
};
} // namespace ref
