#!/usr/bin/env python3
"""Writes statically typed FastAD programs together with their reference trees.
usage: gen.py SET OUTDIR NFILES   -> OUTDIR/SET_<i>.cpp"""
import re, sys, itertools

class X:                       # expression: C++ text, reference text, dims, constant?
    def __init__(s, cpp, ref, d, const=False, leaf=False): s.cpp, s.ref, s.d, s.const, s.leaf = cpp, ref, d, const, leaf
    @property
    def sh(s): return {0: 's', 1: 'v', 2: 'm'}[len(s.d)]
def dims(x): return x.d
UN = dict(NEG='-', SIN='ad::sin', COS='ad::cos', TAN='ad::tan', ASIN='ad::asin', ACOS='ad::acos', ATAN='ad::atan', EXP='ad::exp', LOG='ad::log', SQRT='ad::sqrt',
          ERF='ad::erf', SIGMOID='ad::sigmoid', SINH='ad::sinh', COSH='ad::cosh', TANH='ad::tanh')
BIN = dict(ADD='+', SUB='-', MUL='*', DIV='/', LT='<', LE='<=', GT='>', GE='>=', EQL='==', NE='!=', AND='&&', OR='||')
def un(op, x): return X(f'{UN[op]}({x.cpp})', f'r.b.un(ref::{op},{x.ref})', x.d, x.const)
def pw(n, x): return X(f'ad::pow<{n}>({x.cpp})', f'r.b.pw({n},{x.ref})', x.d, x.const)
def bi(op, x, y):
    if x.d and y.d and x.d != y.d: return None
    return X(f'({x.cpp} {BIN[op]} {y.cpp})', f'r.b.bin(ref::{op},{x.ref},{y.ref})', x.d or y.d, x.const and y.const)
def red(k, x):
    if k == 'NORM' and not x.d: return None
    return X(f'ad::{k.lower()}({x.cpp})', f'r.b.red(ref::{k},{x.ref})', (), x.const)
def trans(x):
    if not x.d: return None
    d = ('1', x.d[0]) if len(x.d) == 1 else (x.d[1], x.d[0])
    return X(f'ad::transpose({x.cpp})', f'r.b.trans({x.ref})', d, x.const)
def dot(x, y):
    if len(x.d) != 2 or not y.d or x.d[1] != y.d[0]: return None
    return X(f'ad::dot({x.cpp},{y.cpp})', f'r.b.dot({x.ref},{y.ref})', (x.d[0],) + y.d[1:], x.const and y.const)
POL = {'LU': ('', ''), 'LDLT': ('<ad::DetLDLT>', '<ad::LogDetLDLT>'), 'LLT': ('<ad::DetLLT>', '<ad::LogDetLLT>')}
def det(p, x):
    if len(x.d) != 2 or x.d[0] != x.d[1]: return None
    return X(f'ad::det{POL[p][0]}({x.cpp})', f'r.b.det(ref::DET,ref::{p},{x.ref})', (), x.const)
def logdet(p, x):
    if len(x.d) != 2 or x.d[0] != x.d[1]: return None
    return X(f'ad::log_det{POL[p][1]}({x.cpp})', f'r.b.det(ref::LOGDET,ref::{p},{x.ref})', (), x.const)
def ife(c, x, y):
    if c.d or x.d != y.d: return None
    return X(f'ad::if_else({c.cpp},{x.cpp},{y.cpp})', f'r.b.ife({c.ref},{x.ref},{y.ref})', x.d, c.const and x.const and y.const)
def glue(x, y): return X(f'({x.cpp}, {y.cpp})', f'r.b.glue({x.ref},{y.ref})', y.d, False)
def eq(w, x):
    if w.d != x.d: return None
    return X(f'({w.cpp} = {x.cpp})', f'r.b.eq({w.ref},{x.ref})', w.d)
def opeq(op, w, x):
    if x.d and w.d != x.d: return None
    i = {'+=': 0, '-=': 1, '*=': 2, '/=': 3}[op]
    return X(f'({w.cpp} {op} {x.cpp})', f'r.b.opeq({i},{w.ref},{x.ref})', w.d)
def pdf(w, *xs):
    f = {'NORMAL': 'ad::normal_adj_log_pdf', 'CAUCHY': 'ad::cauchy_adj_log_pdf', 'UNIFORM': 'ad::uniform_adj_log_pdf', 'BERNOULLI': 'ad::bernoulli_adj_log_pdf', 'WISHART': 'ad::wishart_adj_log_pdf'}[w]
    return X(f'{f}({", ".join(x.cpp for x in xs)})', f'r.b.pdf(ref::{w},{{{",".join(x.ref for x in xs)}}})', (), all(x.const for x in xs))
def itr(k, c, body, refbody):
    """sum/prod/for_each over the pair of variables c in {ss,vs,ms}; body(x) builds an element"""
    n = {'SUMIT': 'ad::sum', 'PRODIT': 'ad::prod', 'FOREACH': 'ad::for_each'}[k]
    vs = {'ss': (s0, s1), 'vs': (v0, v1), 'ms': (M0, M1)}[c]
    e = body(X('x', '', vs[0].d))
    return X(f'{n}(e.{c}.begin(), e.{c}.end(), [&](auto& x) {{ return {e.cpp}; }})',
             f'r.b.iter(ref::{k},{{{",".join(body(v).ref for v in vs)}}})', e.d)
def V(n, d): return X('e.' + n, 'r.' + n, d, False, True)
s0, s1 = V('s0', ()), V('s1', ())
v0, v1, w0 = V('v0', ('a',)), V('v1', ('a',)), V('w0', ('b',))
M0, M1, N0 = V('M0', ('a', 'b')), V('M1', ('a', 'b')), V('N0', ('b', 'a'))
Q0, Q1 = V('Q0', ('a', 'a')), V('Q1', ('a', 'a'))
def C(n, d, how='c'):
    k = 'e.k.' + n
    cpp = {'c': f'ad::constant({k})', 'raw': k, 'w': f'ad::constant_view({k}.data(), {", ".join("(size_t)" + k + (".rows()" if i == 0 else ".cols()") for i in range(len(d)))})'}[how]
    return X(cpp, f'r.c(r.kw.{n})' if how == 'w' else f'r.c(r.k.{n})', d, True, True)
k0, k1 = C('k0', ()), C('k1', ())
k0r, i0r = C('k0', (), 'raw'), C('i0', (), 'raw')
def lit(t): return X(f'REAL({t})' if '.' in t else t, f'r.c({t})', (), True, True)
va, vaw, var_ = C('va', ('a',)), C('va', ('a',), 'w'), C('va', ('a',), 'raw')
vb, vbw = C('vb', ('b',)), C('vb', ('b',), 'w')
Mab, Mabw, Mabr = C('Mab', ('a', 'b')), C('Mab', ('a', 'b'), 'w'), C('Mab', ('a', 'b'), 'raw')
Mba, Maa, Maaw, spd, spdw = C('Mba', ('b', 'a')), C('Maa', ('a', 'a')), C('Maa', ('a', 'a'), 'w'), C('spd', ('a', 'a')), C('spd', ('a', 'a'), 'w')
bits, bitsw = C('bits', ('a',)), C('bits', ('a',), 'w')

def allok(it): return [x for x in it if x is not None]

def set_arith():
    S = [s0, s1, k0, k0r, i0r, un('SIN', s1), bi('MUL', s0, s1)]
    Vv = [v0, v1, va, vaw, var_, un('SIN', v1), bi('SUB', v0, v1)]
    Mm = [M0, M1, Mab, Mabw, Mabr, un('SIN', M1), bi('SUB', M0, M1)]
    for op in ('ADD', 'SUB', 'MUL', 'DIV'):
        for A, B in ((S, S), (S, Vv), (Vv, S), (Vv, Vv), (S, Mm), (Mm, S), (Mm, Mm)):
            for x in A:
                for y in B:
                    if x.const and y.const: continue
                    yield bi(op, x, y)
    for w, xs in ((s0, [s1]), (v0, [s0, v1]), (M0, [s0, M1])): pass

def set_cmp():
    S = [s0, s1, k0, k0r, i0r, bi('MUL', s0, s1)]
    Vv = [v0, v1, va, vaw, bi('SUB', v0, v1)]
    Mm = [M0, M1, Mab, Mabw, bi('SUB', M0, M1)]
    for op in ('LT', 'LE', 'GT', 'GE', 'EQL', 'NE'):
        for A, B in ((S, S), (S, Vv), (Vv, S), (Vv, Vv), (S, Mm), (Mm, S), (Mm, Mm)):
            for x in A:
                for y in B:
                    if not (x.const and y.const): yield bi(op, x, y)
    B_ = [s0, k0, bi('LT', s0, s1), bi('GE', s1, k0)]
    for op in ('AND', 'OR'):
        for x in B_:
            for y in B_:
                if not (x.const and y.const): yield bi(op, x, y)
    # comparisons as factors: they carry no derivative
    for op in ('LT', 'LE', 'GT', 'GE', 'EQL', 'NE'):
        yield bi('MUL', bi(op, s0, s1), s0); yield bi('MUL', bi(op, v0, v1), v0); yield bi('MUL', bi(op, v0, s0), bi('MUL', v0, v1)); yield bi('ADD', bi(op, M0, M1), M0)
        yield red('SUM', bi(op, v0, v1)); yield red('SUM', bi('MUL', v0, bi(op, v0, k0)))
    conds = [bi('LT', s0, s1), bi('GE', s0, k0), bi('NE', s0, s1), s0, k0, bi('LT', red('SUM', v0), s0), bi('AND', bi('LT', s0, s1), bi('LT', s1, k0)), bi('LT', k0, k1)]
    br = dict(s=[s0, s1, k0, bi('MUL', s0, s1), un('SIN', s1), red('SUM', v0)], v=[v0, v1, va, vaw, un('SIN', v1), bi('MUL', v0, s0)], m=[M0, Mab, Mabw, un('SIN', M1), bi('MUL', M0, M1)])
    for c in conds:
        for xs in br.values():
            for x in xs:
                for y in xs:
                    if c.const and x.const and y.const: continue
                    yield ife(c, x, y)
    for c in conds[:2]:
        i1 = ife(c, bi('MUL', s0, s1), s0); i2 = ife(conds[2], v0, bi('MUL', v1, v1))
        yield ife(conds[1], i1, s1); yield ife(conds[2], s0, i1); yield bi('MUL', i1, i2); yield bi('SUB', i2, un('EXP', v0)); yield un('SIN', i2); yield red('SUM', i2); yield bi('MUL', i1, i1)
        yield ife(bi('LT', i1, s1), i1, s0); yield bi('ADD', bi('MUL', i1, s0), i1)

INNER = None
def inner():
    lt = bi('LT', s0, s1)
    s = [s0, un('SIN', s0), bi('MUL', s0, s1), red('SUM', v0), red('NORM', v1), red('PROD', v0), pw(2, s1), det('LU', Q0), logdet('LU', Q1), ife(lt, bi('MUL', s0, s1), s1),
         glue(v0, bi('DIV', s0, s1)), bi('MUL', k0r, s0), lt, pdf('NORMAL', v0, s0, k1), pdf('CAUCHY', s0, s1, lit('0.5')), itr('SUMIT', 'ss', lambda x: un('EXP', x), 0), red('SUM', bi('MUL', v0, s0)), itr('PRODIT', 'ss', lambda x: bi('MUL', x, k0r), 0)]
    v = [v0, un('EXP', v0), bi('MUL', v0, s0), bi('DIV', s1, v1), bi('ADD', v0, v1), dot(M0, w0), dot(Q0, v1), pw(3, v1), ife(lt, v0, bi('MUL', v1, k0r)), itr('SUMIT', 'vs', lambda x: un('SIN', x), 0), itr('PRODIT', 'vs', lambda x: x, 0), bi('MUL', vaw, v0), un('NEG', v1)]
    m = [M0, un('SIN', M1), bi('MUL', M0, s0), bi('MUL', M0, M1), dot(Q0, M0), trans(N0), ife(lt, M0, M1), pw(2, M1), itr('SUMIT', 'ms', lambda x: bi('MUL', x, s0), 0)]
    q = [Q0, dot(Q0, Q1), dot(trans(Q0), Q0), bi('ADD', Q0, Q1), trans(Q0), dot(M0, N0), bi('MUL', Q0, s0), bi('MUL', Q0, Q0)]
    return s, v, m, q
def set_comp():
    s, v, m, q = inner()
    n = 0
    for x in s + v + m + q:
        for u in UN:
            n += 1
            if u in ('SIN', 'NEG', 'EXP', 'TANH') or n % 4 == 0: yield un(u, x)
        yield pw(2, x); yield pw(-1, x); yield red('SUM', x); yield red('PROD', x); yield red('NORM', x); yield trans(x)
    for x in q:
        for p in POL: yield det(p, x); yield logdet(p, x)
    ops = ['MUL', 'SUB', 'DIV', 'ADD']
    def pairs(A, B, k):
        nonlocal n
        for x in A:
            for y in B:
                for j in range(k):
                    n += 1
                    yield bi('MUL' if j == 0 else ops[1 + n % 3], x, y)
    for A, B, k in ((s, s, 2), (s, v, 1), (v, s, 1), (v, v, 2), (s, m, 1), (m, s, 1), (m, m, 2), (q, q, 1)): yield from pairs(A, B, k)
    for x in q:
        for y in v + m + q: yield dot(x, y)
    for x in m: yield dot(x, w0); yield dot(x, N0); yield dot(x, trans(M0))
    for i, x in enumerate(s):
        y, z = s[(i + 3) % len(s)], s[(i + 7) % len(s)]
        yield pdf('NORMAL', x, y, un('EXP', z)); yield pdf('CAUCHY', x, y, un('EXP', z)); yield pdf('UNIFORM', x, bi('SUB', y, lit('60.')), bi('ADD', z, lit('60.'))); yield pdf('BERNOULLI', lit('1'), un('SIGMOID', x))
        for u in v:
            yield pdf('NORMAL', u, x, un('EXP', y)); 
            yield glue(u, x)
    for i, x in enumerate(v):
        y, z = v[(i + 3) % len(v)], v[(i + 5) % len(v)]
        yield pdf('NORMAL', x, y, un('EXP', z)); yield pdf('CAUCHY', x, y, un('EXP', z)); yield pdf('UNIFORM', x, bi('SUB', y, lit('60.')), bi('ADD', z, lit('60.'))); yield pdf('BERNOULLI', bits, un('SIGMOID', x))
        yield pdf('NORMAL', x, s[i], un('EXP', y)); yield pdf('NORMAL', x, y, un('EXP', s[i])); yield pdf('CAUCHY', x, s[i], un('EXP', y)); yield pdf('CAUCHY', x, y, un('EXP', s[i])); yield pdf('UNIFORM', x, bi('SUB', s[i], lit('60.')), bi('ADD', y, lit('60.')))
        yield pdf('NORMAL', x, y, dot(trans(Q0), Q0)); yield pdf('NORMAL', x, s[i], bi('ADD', dot(trans(Q0), Q0), spd))

def set_unary():
    for leaf in (s0, v0, M0):
        for u in UN: yield un(u, leaf)
        for p in range(-5, 8): yield pw(p, leaf)

def set_reduce():
    s, v, m, q = inner()
    for x in [s0, s1, bi('MUL', s0, s1), k0] + v + m + q + [va, vaw, Mab, Mabw]:
        for k in ('SUM', 'PROD', 'NORM'): yield red(k, x)
    for k in ('SUM', 'PROD'):
        for x in v + m: 
            yield bi('MUL', red(k, x), s0); yield bi('MUL', red(k, x), v0); yield un('SIN', red(k, x)); yield bi('DIV', red(k, x), red('NORM', x)) 
    for k in ('SUMIT', 'PRODIT', 'FOREACH'):
        for c in ('ss', 'vs', 'ms'):
            o = {'ss': s1, 'vs': v1, 'ms': M1}[c]
            for f in (lambda x: x, lambda x: un('EXP', x), lambda x: bi('MUL', x, s0), lambda x: bi('MUL', x, x), lambda x: bi('MUL', x, k0r), lambda x: bi('SUB', x, o), lambda x: pw(2, x)):
                yield itr(k, c, f, 0)
                yield bi('MUL', itr(k, c, f, 0), s1)
                yield un('SIN', itr(k, c, f, 0))
                yield red('SUM', itr(k, c, f, 0))
            for f in (lambda x: red('SUM', x), lambda x: red('PROD', x)): yield itr(k, c, f, 0)
        yield itr(k, 'vs', lambda x: red('NORM', x), 0)
        if k == 'FOREACH': continue
        yield itr(k, 'ss', lambda x: k0, 0); yield itr(k, 'vs', lambda x: va, 0); yield bi('MUL', itr(k, 'ss', lambda x: k0, 0), s0); yield bi('MUL', itr(k, 'vs', lambda x: va, 0), v0)

def set_linalg():
    s, v, m, q = inner()
    vw = [w0, vb, vbw, un('SIN', w0)]; vA = [v0, va, vaw, un('EXP', v1), bi('MUL', v0, s0)]
    mab = [M0, Mab, Mabw, un('SIN', M1), bi('MUL', M0, s0)]; mba = [N0, Mba, un('EXP', N0), trans(M0)]; maa = [Q0, Maa, Maaw, un('SIN', Q1), trans(Q0), dot(Q0, Q1)]
    for x in mab:
        for y in vw + mba: yield dot(x, y)
    for x in mba:
        for y in vA + mab: yield dot(x, y)
    for x in maa:
        for y in vA + mab + maa: yield dot(x, y)
    for x in vA + mab + maa + vw:
        yield trans(x)
        if not x.const: yield bi('MUL', trans(x), s0); yield un('SIN', trans(x)); yield trans(trans(x)); yield red('SUM', trans(x))
    for x in (v0, va, un('EXP', v1)):
        for y in (M0, Q0, v1):
            z = dot(trans(x), y)
            if z: yield z
    for x in maa + [spd, spdw, dot(trans(Q0), Q0), bi('MUL', Q0, s0), bi('ADD', Q0, spd)]:
        for p in POL:
            yield det(p, x); yield logdet(p, x); yield bi('MUL', det(p, x), s0); yield bi('MUL', logdet(p, x), v0)

def set_pdf():
    XS = [s0, k0, bi('MUL', s0, s1)]; XV = [v0, va, vaw, un('SIN', v1)]
    PS = [s1, k1, lit('0.25'), bi('MUL', s0, s1)]; PV = [v1, va, vaw, bi('SUB', v1, v0)]
    SS = [s1, lit('0.75'), un('EXP', s0), k0]; SV = [v1, un('EXP', v0), va, X('ad::constant(VectorR(e.k.via.cast<REAL>()))', 'r.c(r.k.via)', ('a',), True)]
    for w in ('NORMAL', 'CAUCHY'):
        for x in XS:
            for p in PS:
                for t in SS: yield pdf(w, x, p, t)
        for x in XV:
            for p in PS + PV:
                for t in SS + SV: yield pdf(w, x, p, t)
    SM = [Q0, spd, spdw, dot(trans(Q0), Q0)]
    for x in XV:
        for p in PS + PV:
            for t in SM: yield pdf('NORMAL', x, p, t)
    lo = lambda z: bi('SUB', z, lit('9.')); hi = lambda z: bi('ADD', z, lit('9.'))
    LS = [s1, lit('-9.'), lo(s0), lit('-9')]; LV = [v1, lo(v1), X('ad::constant(VectorR(e.k.va.array()-9))', 'r.c(Eigen::VectorXd(r.k.va.array()-9))', ('a',), True), va]
    HS = [s0, lit('9.'), hi(s1)]; HV = [v0, hi(v1), X('ad::constant(VectorR(e.k.va.array()+9))', 'r.c(Eigen::VectorXd(r.k.va.array()+9))', ('a',), True)]
    for x in XS:
        for p in LS:
            for t in HS: yield pdf('UNIFORM', x, p, t)
    for x in XV:
        for p in LS + LV:
            for t in HS + HV: yield pdf('UNIFORM', x, p, t)
    bsx = [lit('0'), lit('1'), lit('0.5'), lit('1.'), s0]; bs = [s0, un('SIGMOID', s1), lit('0.25'), k0]
    for x in bsx:
        for p in bs:
            if not ('ad::' not in x.cpp + p.cpp and x.const and p.const): yield pdf('BERNOULLI', x, p)
    for x in [bits, bitsw, X('ad::constant(VectorR(e.k.bits.array()*0.5))', 'r.c(Eigen::VectorXd(r.k.bits.array()*0.5))', ('a',), True), v0, X('ad::constant(Eigen::VectorXi(e.k.bits.cast<int>()))', 'r.c(r.k.bits)', ('a',), True)]:
        for p in bs + [v0, un('SIGMOID', v1), va]: yield pdf('BERNOULLI', x, p)
    n = X('REAL(e.a + 1.5)', 'r.c(r.na + 1.5)', (), True); n2 = X('REAL(e.a - 1)', 'r.c(r.na - 1)', (), True)
    W = [Q0, Q1, spd, spdw, dot(trans(Q1), Q1), bi('ADD', Q1, spd)]
    for x in W:
        for p in W:
            for t in (n, n2): yield pdf('WISHART', x, p, t)
    # densities inside larger expressions
    for base in (pdf('NORMAL', v0, s0, lit('0.5')), pdf('CAUCHY', v0, s0, un('EXP', s1)), pdf('UNIFORM', v0, lo(v1), hi(s0)), pdf('BERNOULLI', bits, un('SIGMOID', s0)), pdf('NORMAL', v0, v1, dot(trans(Q0), Q0)), pdf('WISHART', Q0, spd, n)):
        yield bi('ADD', base, pdf('NORMAL', s0, k0, lit('2'))); yield bi('MUL', base, s1); yield bi('MUL', base, v0); yield un('EXP', base); yield bi('SUB', base, base)

def set_const():
    S = [k0, lit('2'), k0r]; Vv = [va, vaw]; Mm = [Mab, Mabw]; Qq = [Maa, spd, spdw]
    K = []
    for x in [k0] + Vv + Mm:
        for u in UN: K.append(un(u, x))
        for p in (-2, 0, 1, 3): K.append(pw(p, x))
        K += allok([red('SUM', x), red('PROD', x), red('NORM', x), trans(x)])
    for op in BIN:
        for A, B in (([k0], S), (S, [k0]), (S, Vv), (Vv, S), (Vv, Vv), (S, Mm), (Mm, S), (Mm, Mm)):
            if op in ('AND', 'OR') and (A is not S and A != [k0] or B is not S and B != [k0]): continue
            for x in A:
                for y in B:
                    if 'ad::' not in x.cpp and 'ad::' not in y.cpp: continue
                    K.append(bi(op, x, y))
    K += allok([dot(x, y) for x in Mm + Qq for y in [vb, vbw, va, Mba, Mab, Maa]])
    for x in Qq:
        for p in POL: K += [det(p, x), logdet(p, x)]
    for c in (k0, bi('LT', k0, k1), bi('GE', k0, k1)):
        K += [ife(c, k0, k1), ife(c, va, vaw), ife(c, va, va), ife(c, Mab, Mab)]
    K = allok(K)
    cmp_ = ('<', '>', '==', '!=', '&&', '||')
    isb = lambda x: any(f' {t} ' in x.cpp or f' {t}= ' in x.cpp for t in cmp_) and 'if_else' not in x.cpp
    K = [x for x in K if not (isb(x) and x.d)]
    for x in K:
        if not isb(x): yield x
    # a folded constant used next to variables, and every node kind with a constant on either side
    for i, x in enumerate(K):
        y = s0
        yield bi('MUL', x, y)
        if i % 3 == 0: yield bi('SUB', s0, x)
        if i % 3 == 1 and x.d == ('a',): yield bi('MUL', v0, x)
        if i % 3 == 2 and x.d == ('a', 'b'): yield bi('ADD', x, M0)
    fold = {(): [bi('MUL', k0, k1), un('SIN', k0), red('SUM', va)], ('a',): [un('SIN', va), bi('MUL', va, k0)], ('a', 'b'): [un('EXP', Mab), bi('SUB', Mab, k0)], ('a', 'a'): [bi('ADD', Maa, spd), trans(Maa)]}
    for c in fold[()]:
        for z in (s0, v0, M0):
            for op in ('ADD', 'SUB', 'MUL', 'DIV', 'LT'): yield bi(op, c, z); yield bi(op, z, c)
    for d, z in ((('a',), v0), (('a', 'b'), M0), (('a', 'a'), Q0)):
        for c in fold[d]:
            for op in ('ADD', 'SUB', 'MUL', 'DIV', 'LT'): yield bi(op, c, z); yield bi(op, z, c); yield bi(op, c, s0); yield bi(op, s0, c)
            yield ife(bi('LT', s0, s1), c, z); yield ife(bi('LT', s0, s1), z, c); yield ife(k0, c, z); yield ife(k0, z, c); yield glue(z, bi('MUL', c, s0))
    for c in fold[('a', 'a')]: yield dot(c, v0); yield dot(Q0, c); yield dot(c, Q0); yield dot(c, M0)
    for c in fold[('a',)]: yield dot(Q0, c); yield pdf('NORMAL', c, v0, lit('0.5')); yield pdf('NORMAL', v0, c, un('EXP', s0)); yield pdf('CAUCHY', v0, c, lit('0.5'))
    for c in fold[('a', 'b')]: yield dot(c, w0); yield dot(c, N0); yield dot(N0, c)

def set_seq():
    """placeholders, glue, op= with static types"""
    T0, T1 = s1, v1                     # used as placeholders
    for src in (bi('MUL', s0, s0), un('SIN', s0), red('SUM', v0), red('PROD', v0), red('NORM', v0), det('LU', Q0), logdet('LU', Q0), ife(bi('LT', s0, k0), bi('MUL', s0, s0), red('SUM', v0)), pw(2, s0), pdf('NORMAL', v0, s0, lit('0.5')),
                pdf('CAUCHY', v0, s0, lit('0.5')), pdf('BERNOULLI', bits, un('SIGMOID', s0)), bi('ADD', s0, k0r), glue(bi('MUL', v0, s0), un('EXP', s0)), itr('SUMIT', 'ss', lambda x: bi('MUL', s0, s0), 0), X('ad::prod(e.ss.begin(), e.ss.end(), [&](auto&) { return ad::sin(e.s0); })', 'r.b.iter(ref::PRODIT,{r.b.un(ref::SIN,r.s0),r.b.un(ref::SIN,r.s0)})', ()), bi('LT', s0, k0), k0, lit('2.5')):
        e = eq(s1, src)
        yield e
        for use in (s1, bi('MUL', s1, s1), bi('MUL', s1, v0), un('EXP', s1), bi('ADD', bi('MUL', s1, s0), un('SIN', s1)), ife(bi('LT', s0, k0), s1, s0), red('SUM', bi('MUL', v0, s1)), pdf('NORMAL', v0, s1, lit('0.5'))):
            yield glue(e, use)
        yield bi('MUL', e, s1); yield bi('ADD', e, bi('MUL', s1, s0)); yield bi('MUL', e, v0); yield un('SIN', e)
    for src in (bi('MUL', v0, v0), un('SIN', v0), dot(M0, w0), dot(Q0, v0), pw(3, v0), bi('MUL', v0, s0), ife(bi('LT', s0, k0), v0, un('EXP', v0)), bi('ADD', va, v0), itr('SUMIT', 'vs', lambda x: bi('MUL', v0, s0), 0), X('ad::prod(e.vs.begin(), e.vs.end(), [&](auto&) { return (e.v0 * e.s0); })', 'r.b.iter(ref::PRODIT,{r.b.bin(ref::MUL,r.v0,r.s0),r.b.bin(ref::MUL,r.v0,r.s0)})', ('a',)), va, vaw, glue(s0, un('EXP', v0))):
        e = eq(v1, src)
        yield e
        for use in (v1, bi('MUL', v1, v1), red('SUM', v1), bi('MUL', red('SUM', v1), red('NORM', v1)), un('EXP', v1), bi('ADD', bi('MUL', v1, v0), s0), dot(Q1, v1), red('PROD', v1), pdf('NORMAL', v1, s0, lit('0.5')), trans(v1)):
            yield glue(e, use)
        yield red('SUM', e); yield bi('MUL', e, v1); yield dot(Q1, e)
    for src in (bi('MUL', M0, M0), un('SIN', M0), dot(Q0, M0), trans(N0), bi('MUL', M0, s0), Mab, Mabw, pw(2, M0)):
        e = eq(M1, src)
        yield e
        for use in (M1, bi('MUL', M1, M1), red('SUM', M1), dot(M1, w0), trans(M1), bi('MUL', M1, s0)): yield glue(e, use)
    for src in (dot(Q0, Q0), dot(trans(Q0), Q0), bi('MUL', Q0, s0)):
        e = eq(Q1, src)
        for use in (det('LU', Q1), logdet('LU', Q1), dot(Q1, v0), dot(Q1, Q1), pdf('NORMAL', v0, s0, Q1)): yield glue(e, use)
    # two and three placeholders
    e1 = eq(s1, bi('MUL', s0, s0)); e2 = eq(v1, bi('MUL', v0, s1)); e3 = eq(M1, bi('MUL', M0, s1))
    yield glue(glue(e1, e2), red('SUM', bi('MUL', v1, s1))); yield glue(e1, glue(e2, bi('MUL', v1, s1))); yield glue(glue(glue(e1, e2), e3), bi('MUL', red('SUM', M1), red('SUM', v1)))
    yield glue(glue(e1, e2), bi('ADD', bi('MUL', v1, v1), un('EXP', v1))); yield glue(e1, un("SIN", s1))
    # op=
    for op in ('+=', '-=', '*=', '/='):
        for w, xs, other in ((s1, [s0, un('SIN', s0), bi('MUL', s0, s1), k0, k0r, lit('2.0'), red('SUM', v0)], [s0, v0]),
                      (v1, [s0, v0, un('SIN', v0), bi('MUL', v0, v1), va, vaw, k0r, bi('MUL', s0, s1), dot(M0, w0)], [s0, v0]),
                      (M1, [s0, M0, un('SIN', M0), bi('MUL', M0, M1), Mab, Mabw, k0r, dot(Q0, M0)], [s0])):
            for x in xs:
                o = opeq(op, w, x)
                yield o; yield glue(o, w); yield glue(o, un('SIN', w)); yield glue(o, bi('MUL', w, w)); yield glue(o, red('SUM', bi('MUL', w, s0)))
                yield un('EXP', o)
                for y in other:
                    if y.d and w.d and y.d != w.d: continue
                    yield bi('MUL', o, y); yield bi('SUB', y, o)
            # chains on one variable
            for op2 in ('+=', '*=', '/='):
                yield glue(glue(opeq(op, w, s0), opeq(op2, w, un('EXP', s0))), un('SIN', w))
                yield glue(opeq(op, w, s0), glue(opeq(op2, w, bi('MUL', w, s0)), bi('MUL', w, w)))
        yield glue(glue(eq(s1, bi('MUL', s0, s0)), opeq(op, s1, s0)), un('EXP', s1)); yield glue(glue(eq(v1, bi('MUL', v0, v0)), opeq(op, v1, v0)), red('SUM', v1)); yield glue(glue(eq(v1, bi('MUL', v0, v0)), opeq(op, v1, red('SUM', v0))), bi('MUL', v1, s0))
        yield glue(eq(v1, opeq(op, v0, s0)), bi('MUL', v1, v1)); yield glue(eq(s1, opeq(op, s0, red('SUM', v0))), bi('MUL', s1, s1))

def set_view():
    """views of user memory as operands of nodes that also depend on variables"""
    for x in (vaw, Mabw, Maaw, vbw):
        zs = {('a',): [v0, un('SIN', v0), s0, red('SUM', v0), va], ('b',): [w0, s0], ('a', 'b'): [M0, un('EXP', M0), s0, Mab], ('a', 'a'): [Q0, dot(Q0, Q1), trans(Q0), s1]}[x.d]
        for z in zs:
            if z.const: continue
            for op in [o for o in BIN if o not in ('AND', 'OR')]:
                for e in (bi(op, x, z), bi(op, z, x)):
                    yield e
                    if op in ('ADD', 'SUB', 'MUL', 'DIV'): yield red('SUM', e); yield bi('MUL', e, z); yield pw(2, e); yield un('TANH', e); yield bi('SUB', e, x); yield bi('MUL', {('a',): va, ('b',): vb, ('a', 'b'): Mab, ('a', 'a'): Maa}[x.d], e)
            if z.d == x.d:
                for c in (bi('LT', s0, s1), bi('GE', s0, k0), s0):
                    for e in (ife(c, x, z), ife(c, z, x)): yield e; yield un('SIN', e); yield bi('MUL', e, s1)
            yield glue(z, bi('MUL', x, s0)); yield glue(bi('MUL', x, s0), z)
    for e in allok([dot(Mabw, w0), dot(Mabw, un('SIN', w0)), dot(Maaw, v0), dot(Q0, vaw), dot(M0, vbw), dot(un('EXP', M0), vbw), dot(Maaw, Q0), dot(Q0, Maaw), dot(N0, Mabw), dot(Mabw, N0), dot(spdw, M0), dot(Q0, Mabw), dot(trans(M0), vaw), dot(bi('MUL', Mabw, s0), w0), dot(Mabw, bi('MUL', vbw, s0))]):
        yield e; yield red('SUM', e); yield bi('MUL', e, s0); yield un('SIGMOID', e)
        if e.d == ('a',): yield bi('SUB', vaw, e); yield pw(2, bi('SUB', vaw, e)); yield red('NORM', bi('SUB', vaw, e)); yield bi('ADD', un('SIGMOID', bi('ADD', e, v0)), vaw)
        if e.d == ('a', 'b'): yield bi('SUB', Mabw, e); yield red('NORM', bi('MUL', e, Mabw))
        if e.d == ('a', 'a'): yield bi('MUL', Maaw, e); yield dot(e, vaw); yield dot(e, v0)
    for w, x in ((v1, vaw), (M1, Mabw), (Q1, Maaw)):
        e = eq(w, x); yield e; yield glue(e, bi('MUL', w, w)); yield glue(e, bi('MUL', w, s0)); yield glue(e, red('SUM', bi('MUL', w, {('a',): v0, ('a', 'b'): M0, ('a', 'a'): Q0}[w.d])))
        for op in ('+=', '-=', '*=', '/='): o = opeq(op, w, x); yield o; yield glue(o, bi('MUL', w, w)); yield un('EXP', o); yield glue(glue(o, opeq('*=', w, s0)), w)
        for op in ('+=', '*='): yield glue(glue(e, opeq(op, w, s0)), bi('MUL', w, w))

def set_entry():      # a cross-section of all sets, for the entry points
    for f in (set_unary, set_arith, set_cmp, set_linalg, set_reduce, set_pdf, set_comp, set_seq):
        seen = set(); ps = []
        for x in f():
            if x is None or x.cpp in seen or x.const: continue
            seen.add(x.cpp); ps.append(x)
        yield from ps[::max(1, len(ps) // 60)]
SETS = {k[4:]: f for k, f in list(globals().items()) if k.startswith('set_')}
def programs(name):
    seen = set()
    for x in SETS[name]():
        if x is None or x.cpp in seen: continue
        seen.add(x.cpp); yield x
def main():
    name, out, nf = sys.argv[1], sys.argv[2], int(sys.argv[3])
    ps = list(programs(name))
    for f in range(nf):
        with open(f'{out}/{name}_{f}.cpp', 'w') as o:
            o.write('#include "static.hpp"\nusing namespace sp;\n')
            for i, x in enumerate(ps):
                if i % nf != f: continue
                nm = re.sub(r'REAL\(([-0-9.]+)\)', r'\1', x.cpp).replace('e.k.', '').replace('e.', '').replace('ad::', '').replace('"', '').replace('VectorR', 'VectorXd')
                o.write(f'static Reg R{i}({{"{nm}", [](Env& e) -> Any {{ (void)e; return wrap({x.cpp}); }}, [](R& r) -> const Node* {{ (void)r; return {x.ref}; }}}});\n')
    print(len(ps))
main()
