"""Contracts of matrix<float> (C10): every public operation, for the listed shapes and all entries."""
from fractions import Fraction
from itertools import permutations
from .. import terms as tm
from .. import prover
from ..contract import *
from ..run import lemma
from .base import reg

M = 'matrix<float>::'
SQ = [(n, n) for n in (1, 2, 3, 4)]
SHAPES = SQ + [(1, 3), (3, 1), (2, 3), (3, 2), (2, 4), (4, 3)]
P = ['C10']


def mats(name, shapes=SHAPES): return [AMat(name, *s) for s in shapes]
def other(): return mats('other') + [AMatSelf('other', 'this', *s) for s in SHAPES]
def whole(o): return not isinstance(o[1], AMatSelf) or (o[0].n, o[0].m) == (o[1].n, o[1].m)
def nums(name, n): return AList(name, [ANum('%s%d' % (name, i)) for i in range(n)])


BOUND = 'matrices of the listed shapes up to 4x4 (every float entry, every index)'


def m(name, spec, shapes=SHAPES, this=True, **k):
    a = k.pop('args', {})
    if this: a = {'this': mats('this', shapes), **a}
    return reg(M + name, P, spec, args=a, scope=BOUND, **k)


def tab(n, k, fn): return Mat([[fn(i, j) for j in range(k)] for i in range(n)])
def zip2(a, b, op): return tab(a.n, a.m, lambda i, j: op(a.rows[i][j], b.rows[i][j]))
def mapm(a, op): return tab(a.n, a.m, lambda i, j: op(a.rows[i][j]))
def product(a, b): return tab(a.n, b.m, lambda i, j: sum((a.rows[i][k] * b.rows[k][j] for k in range(a.m)), tm.ZERO))
def itself(t, o):
    """the object itself, changed to the given matrix"""
    o.same = t
    return o.after(this=Mat(o.rows))


def same_shape(o): return (o[0].n, o[0].m) == (o[1].n, o[1].m)
def chained(o): return o[0].m == o[1].n and whole(o)


def det(rows):
    n = len(rows)
    s = tm.ZERO
    for p in permutations(range(n)):
        sg = 1
        for i in range(n):
            for j in range(i): sg *= 1 if p[j] < p[i] else -1
        t = tm.const(sg)
        for i in range(n): t = t * rows[i][p[i]]
        s = s + t
    return s


def minor(rows, i, j): return [[v for k, v in enumerate(r) if k != j] for l, r in enumerate(rows) if l != i]


def adj(rows):
    n = len(rows)
    if n == 1: return [[tm.ONE]]
    return [[det(minor(rows, j, i)) * (-1) ** (i + j) for j in range(n)] for i in range(n)]


def opaque():
    d, a = {}, {}
    for n in (2, 3, 4):
        grid = lambda q, n=n: [list(q[i * n:i * n + n]) for i in range(n)]
        d[n] = named('det%d' % n, lambda *q: det(grid(q)), n=n * n, dom=(None, None))
        a[n] = [[named('adj%d.%d.%d' % (n, i, j), (lambda i, j: lambda *q: adj(grid(q))[i][j])(i, j), n=n * n, dom=(None, None)) for j in range(n)] for i in range(n)]
    return d, a


DET, ADJ = opaque()
flat = lambda rows: [v for r in rows for v in r]
constant = lambda rows: len(rows) < 2 or all(tm.is_const(tm.lift(v)) for r in rows for v in r)


def odet(rows): return det(rows) if constant(rows) else DET[len(rows)](*flat(rows))
def oadj(rows): return adj(rows) if constant(rows) else [[e(*flat(rows)) for e in r] for r in ADJ[len(rows)]]


# ------------------------------------------------------------------ construction
m('matrix()', lambda: Mat([]), this=False)
DIM = [AConst('rows', n) for n in (1, 2, 3, 4)], [AConst('columns', n) for n in (1, 2, 3, 4)]
m('matrix(int,int)', lambda n, k: tab(n, k, lambda i, j: tm.ZERO), this=False, args={0: DIM[0], 1: DIM[1]})
m('matrix(int,int,float)', lambda n, k, v: tab(n, k, lambda i, j: v), this=False, args={0: DIM[0], 1: DIM[1]})
m('matrix(int)', lambda n: tab(n, n, lambda i, j: tm.ZERO), this=False, args={0: DIM[0]})
LENS = [nums('data', k) for k in (1, 2, 3, 4, 6, 8, 9, 12, 16)]
m('matrix(int,int,std::vector<float>)', lambda n, k, d: tab(n, k, lambda i, j: d[i * k + j]), this=False, args={0: DIM[0], 1: DIM[1], 2: LENS}, insts=lambda o: o[0].v * o[1].v == len(o[2].items))
m('matrix(int,std::vector<float>)', lambda n, d: tab(n, n, lambda i, j: d[i * n + j]), this=False, args={0: DIM[0], 1: LENS}, insts=lambda o: o[0].v ** 2 == len(o[1].items))
m('matrix(matrix<float>&)', lambda o: Mat(o.rows), this=False, args={0: mats('other')})
m('create_idendity(int)', lambda n: tab(n, n, lambda i, j: tm.ONE if i == j else tm.ZERO), this=False, args={0: DIM[0]})
m('operator=(matrix<float>&)', lambda t, o: itself(t, Mat(o.rows)), args={0: mats('other', SHAPES[1:6]) + other()[-len(SHAPES):]}, insts=whole, modifies=['this'])


# ------------------------------------------------------------------ elements
def element(t, i, j): return [(tm.and_(tm.eq(i, tm.const(a)), tm.eq(j, tm.const(b))), Num(t.rows[a][b])) for a in range(t.n) for b in range(t.m)] + [(TRUE, Throw('out_of_range'))]


IDX = {0: [ANum('row', -2 ** 31, 2 ** 31 - 1, True, special=(-1, 0, 1, 2, 3, 4, 100))], 1: [ANum('column', -2 ** 31, 2 ** 31 - 1, True, special=(-1, 0, 1, 2, 3, 4, 100))]}
for v in ('', '~const'): m('operator()(int,int)' + v, element, args=IDX)
m('rows()', lambda t: Num(t.n))
m('columns()', lambda t: Num(t.m))
m('size()', lambda t: Num(t.n * t.m))
m('values()', lambda t: ListOf([Nums(r) for r in t.rows]))

# ------------------------------------------------------------------ arithmetic
m('operator+(matrix<float>&)', lambda a, b: zip2(a, b, lambda x, y: x + y), args={0: other()}, insts=same_shape)
m('operator-(matrix<float>&)', lambda a, b: zip2(a, b, lambda x, y: x - y), args={0: other()}, insts=same_shape)
m('operator*(matrix<float>&)', product, args={0: other()}, insts=chained)
for op, fn, ok in (('+', lambda a, b: zip2(a, b, lambda x, y: x + y), same_shape), ('-', lambda a, b: zip2(a, b, lambda x, y: x - y), same_shape), ('*', product, chained)):
    m('operator%s=(matrix<float>&)' % op, (lambda fn: lambda a, b: itself(a, fn(a, b)))(fn), args={0: other()}, insts=ok, modifies=['this'])
m('operator+(float&)', lambda a, s: mapm(a, lambda x: x + s))
m('operator-(float&)', lambda a, s: mapm(a, lambda x: x - s))
m('operator*(float&)', lambda a, s: mapm(a, lambda x: x * s))
m('operator/(float&)', lambda a, s: mapm(a, lambda x: x / s), pre=lambda a, s: [tm.ne(s, tm.ZERO)])
m('operator*(std::vector<float>&)', lambda a, v: Nums([sum((x * y for x, y in zip(r, v)), tm.ZERO) for r in a.rows]), args={0: [nums('vec', n) for n in (1, 2, 3, 4)]}, insts=lambda o: o[0].m == len(o[1].items))
for v in ('', '~const'):
    m('operator==(matrix<float>&)' + v, lambda a, b: Bool(tm.and_(*[tm.eq(x, y) for r, q in zip(a.rows, b.rows) for x, y in zip(r, q)]) if (a.n, a.m) == (b.n, b.m) else tm.FALSE), args={0: other()}, insts=lambda o: o[1].n < 4 and whole(o))
m('transpose()', lambda a: tab(a.m, a.n, lambda i, j: a.rows[j][i]))

# ------------------------------------------------------------------ determinant and inverse
IX = lambda n: [AConst(n, i) for i in range(5)]
zeros = lambda vs: tm.and_(*[tm.eq(v, tm.ZERO) for v in vs])
equal = lambda a, b: tm.and_(*[tm.eq(x, y) for x, y in zip(a, b)])
col = lambda a, j: [r[j] for r in a.rows]
m('is_row_null(int)', lambda a, i: Bool(zeros(a.rows[i]) if i < a.n else tm.FALSE), args={0: IX('i')}, modular=True)
m('is_column_null(int)', lambda a, i: Bool(zeros(col(a, i)) if i < a.m else tm.FALSE), args={0: IX('i')}, modular=True)
m('are_rows_equal(int,int)', lambda a, i, j: Bool(equal(a.rows[i], a.rows[j]) if max(i, j) < a.n else tm.FALSE), args={0: IX('i'), 1: IX('j')}, modular=True)
m('are_columns_equal(int,int)', lambda a, i, j: Bool(equal(col(a, i), col(a, j)) if max(i, j) < a.m else tm.FALSE), args={0: IX('i'), 1: IX('j')}, modular=True)
m('determinante()', lambda a: Num(det(a.rows) if a.n == a.m else tm.ZERO), modular=True, tlimit=300, applied=lambda a: Num(odet(a.rows) if a.n == a.m else tm.ZERO))
m('adjoint()', lambda a: Mat(adj(a.rows) if a.n == a.m else a.rows), modular=True, tlimit=300, applied=lambda a: Mat(oadj(a.rows) if a.n == a.m else a.rows))


@lambda f: m('invert()', f, SQ, tlimit=300)
def _(a):
    d = odet(a.rows)
    return [(tm.eq(d, tm.ZERO), Mat(a.rows)), (TRUE, Mat([[v / d for v in r] for r in oadj(a.rows)]))]


# ------------------------------------------------------------------ filling and resizing
m('fill(float)', lambda a, v: itself(a, mapm(a, lambda x: v)), modifies=['this'])
m('insert(std::vector<float>&)', lambda a, d: itself(a, tab(a.n, a.m, lambda i, j: d[i * a.m + j]) if len(d) == a.n * a.m else Mat(a.rows)), args={0: LENS}, modifies=['this'])
m('resize(int,int,float)', lambda a, n, k, v: itself(a, tab(n, k, lambda i, j: a.rows[i][j] if i < a.n and j < a.m else v)), args={0: DIM[0], 1: DIM[1]}, modifies=['this'])


@lemma('a matrix times its inverse is the identity', *P)
def _(ctx):
    obs = []
    for n, _ in SQ:
        A = [[tm.var('a.%d.%d' % (i, j)) for j in range(n)] for i in range(n)]
        d, B = det(A), adj(A)
        for l, X, Y in (('A inv(A)', A, B), ('inv(A) A', B, A)):
            for i in range(n):
                for j in range(n):
                    s = sum((X[i][k] * Y[k][j] for k in range(n)), tm.ZERO) / d
                    r = prover.prove_eq([tm.ne(d, tm.ZERO)], s, tm.ONE if i == j else tm.ZERO, Fraction(1, 10 ** 9))
                    obs.append(ob('%s[%dx%d]#%d,%d' % (l, n, n, i, j), r[0], r[1] if r[0] == 'proved' else '', '' if r[0] == 'proved' else tm.show(s)[:300]))
    return obs
