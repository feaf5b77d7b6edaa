"""Contracts of chromatic adaptation (C26)."""
from fractions import Fraction
from .. import terms as tm
from .. import prover
from ..contract import *
from ..model import TYPES, ORDER
from ..run import lemma
from .conv import conv, as_out
from .base import reg
from .ops import cv

F = Fraction
CH = 'chromatic_adaptation::'


def M(s): return [[F(v) for v in r.split()] for r in s.strip().split('\n')]


# the published sensor matrices and their inverses (5 to 7 digits)
MATS = dict(
    von_kries=(M('0.40024 0.7076 -0.08081\n-0.2263 1.16532 0.0457\n0 0 0.91822'), M('1.8599364 -1.1293816 0.2198974\n0.3611914 0.6388125 -0.0000064\n0 0 1.0890636')),
    bradford=(M('0.8951 0.2664 -0.1614\n-0.7502 1.7135 0.0367\n0.0389 -0.0685 1.0296'), M('0.9869929 -0.1470543 0.1599627\n0.4323053 0.5183603 0.0492912\n-0.0085287 0.0400428 0.9684867')),
    xyz_scale=(M('1 0 0\n0 1 0\n0 0 1'), M('1 0 0\n0 1 0\n0 0 1')),
    sharp=(M('1.2694 -0.0988 -0.1706\n-0.8364 1.8006 0.0357\n0.0297 -0.0315 1.0018'), M('0.81563 0.04715 0.13722\n0.37911 0.57694 0.044\n-0.01226 0.01674 0.99552')),
    cmccat97=(M('0.8951 0.2664 -0.1614\n-0.7502 1.7135 0.0367\n0.0389 -0.0685 1.0296'), M('0.98699 -0.14705 0.15996\n0.43231 0.51836 0.04929\n-0.00853 0.04004 0.96849')),
    cmccat2000=(M('0.7982 0.3389 -0.1371\n-0.5918 1.5512 0.0406\n0.0008 0.0239 0.9753'), M('1.07645 -0.23766 0.16121\n0.41096 0.55434 0.03469\n-0.01095 -0.01339 1.02434')),
    cat02=(M('0.7328 0.4296 -0.1624\n-0.7036 1.6975 0.0061\n0.003 0.0136 0.9834'), M('1.09612 -0.27887 0.18275\n0.45437 0.47353 0.0721\n-0.00963 -0.0057 1.01533')))


def mul(m, v): return [sum((tm.const(a) * b for a, b in zip(r, v)), tm.ZERO) for r in m]
def app(f, *a): return tm.app(f, *[tm.lift(x) for x in a])
def power(a, b): return app('pow', a, b)


def sensors(c, target, m):
    """sensor responses of the two white points"""
    return mul(MATS[m][0], space_of(c).w), mul(MATS[m][0], white_of(target)[1:])


def adapted(m, gains, degree=None):
    """gains(source white, target white in XYZ, sensor response of the color, of the whites, color in XYZ, parameters) -> new sensor responses"""
    def spec(c, target, *par):
        D = degree(*par) if degree else None
        if D is None: return one(c, target, None)
        return [(tm.lt(D, tm.ZERO), one(c, target, tm.ZERO)), (tm.lt(tm.ONE, D), one(c, target, tm.ONE)), (TRUE, one(c, target, D))]

    def one(c, target, D):
        z = conv(c, 'xyz')
        src, dst = space_of(c).w, list(white_of(target)[1:])
        new = gains(z, mul(MATS[m][0], z.c), src, dst, MATS[m][0], D)
        o = Color('xyz', mul(MATS[m][1], new), z.alpha, derived_space(c.space, target))
        return as_out(conv(cv(o), c.type))

    def top(c, target, *par):
        own = white_of(target)[0] == space_of(c).name + '.w'
        return Same(c) if own else spec(c, target, *par)
    return top


def ratio(z, s, src, dst, m, D): return [v * d / r for v, d, r in zip(s, mul(m, dst), mul(m, src))]


def unit(z, s, src, dst, m):
    """everything per unit of luminance"""
    n = tm.ite(tm.eq(z.c[1], tm.ZERO), tm.ONE, z.c[1])
    return n, [v / n for v in s], mul(m, [v / src[1] for v in src]), mul(m, [v / dst[1] for v in dst])


def sign(v, a): return tm.ite(tm.lt(v, tm.ZERO), -a, a)


def full_bradford(z, s, src, dst, m, D):
    n, s, r, d = unit(z, s, src, dst, m)
    p = power(r[2] / d[2], F('0.0834'))
    q = s[2] / r[2]
    return [n * d[0] * s[0] / r[0], n * d[1] * s[1] / r[1], n * d[2] * sign(q, power(tm.fabs(q), p))]


def full_cmccat97(z, s, src, dst, m, D):
    n, s, r, d = unit(z, s, src, dst, m)
    p = power(r[2] / d[2], F('0.0834'))
    return [n * s[0] * (D * d[0] / r[0] + 1 - D), n * s[1] * (D * d[1] / r[1] + 1 - D),
            n * sign(s[2], power(tm.fabs(s[2]), p) * (D * d[2] / power(r[2], p) + 1 - D))]


def full_cmccat2000(z, s, src, dst, m, D):
    return [v * (D * (src[1] / dst[1]) * (d / r) + 1 - D) for v, d, r in zip(s, mul(m, dst), mul(m, src))]


def full_cat02(z, s, src, dst, m, D):
    return [v * (D * d / r + 1 - D) for v, d, r in zip(s, mul(m, dst), mul(m, src))]


# degrees of adaptation, to be limited to 0..1
def deg97(f, la): return f - f / (1 + 2 * power(la, F(1, 4)) + power(la, F(2)) / 300)
def deg2000(f, la, lr): return f * (F('0.08') * app('log10', (la + lr) / 2) + F('0.76') - F('0.45') * (la - lr) / (la + lr))
def deg02(f, la): return f * (1 - app('exp', (-la - 42) / 92) / F('3.6'))


def nonpos(m):
    """outside the model: a white point the sensors do not respond to"""
    def u(c, target, *par):
        a, b = sensors(c, target, m)
        return tm.or_(*[tm.le(v, tm.ZERO) for v in a + b])
    return u


TARGET = [AWhite('target'), AWhiteOf('target', 'S.color')]
FULL = dict(bradford=(full_bradford, '', None), cmccat97=(full_cmccat97, ',float,float', deg97), cmccat2000=(full_cmccat2000, ',float,float,float', deg2000), cat02=(full_cat02, ',float,float', deg02))
for m in MATS:
    simple = m + ('_adaptation_simplified' if m in FULL else '_adaptation')
    reg('%s%s(color_base*,white_point*)' % (CH, simple), ['C26', 'C16'], adapted(m, ratio), args={1: TARGET}, undef=nonpos(m))
    if m in FULL:
        g, par, dg = FULL[m]
        reg('%s%s_adaptation(color_base*,white_point*%s)' % (CH, m, par), ['C26', 'C16'], adapted(m, g, dg), args={1: TARGET}, undef=nonpos(m),
            ranges={2: (F(1, 2), F(1)), 3: (F(1, 10), F(1000)), 4: (F(1, 10), F(1000))})
reg(CH + 'calculate_adapting_luminance(float,float)', ['C26'], lambda l, b: Num(l * b / 100))


@lemma('the inverse matrices invert, so the old white is adapted to the new white', 'C26')
def _(ctx):
    from ..contract import ob
    out = []
    for m, (a, b) in MATS.items():
        e = max(abs(sum(b[i][k] * a[k][j] for k in range(3)) - (i == j)) for i in range(3) for j in range(3))
        out.append(ob('%s: |M^-1 M - 1| <= 1/100000' % m, 'proved' if e <= F(1, 100000) else 'refuted', 'nf', detail=str(float(e)), kind='lemma'))
        # gains applied to the old white
        w, t = [tm.var('w.' + c, F(1, 20), 2) for c in 'XYZ'], [tm.var('t.' + c, F(1, 20), 2) for c in 'XYZ']
        new = ratio(None, mul(a, w), w, t, a, None)
        for i in range(3):
            r = prover.prove_eq([tm.lt(tm.ZERO, v) for v in mul(a, w)], mul(b, new)[i], t[i], F(1, 10000))
            out.append(ob('%s: old white -> new white, %s' % (m, 'XYZ'[i]), r[0], r[1] if r[0] == 'proved' else '', kind='lemma'))
    return out
