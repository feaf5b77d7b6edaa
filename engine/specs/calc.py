"""Contracts of color arithmetic: add, mix, subtract (C21) and averages (C22)."""
from fractions import Fraction
from .. import terms as tm
from ..contract import *
from ..model import CV, TYPES, ORDER
from .conv import conv, as_out
from .base import reg
from ..contract import *
from .ops import cv, tier

F = Fraction
CC = 'color_calculation::'

# ------------------------------------------------------------------ averages (C22)
LENS = (0, 1, 2, 3, 7)


def averaged(k):
    t = TYPES[k]

    def spec(l, include_alpha):
        n = length(l)
        if n is tm.ZERO: return Throw('invalid_argument')
        f = item(l, 0)
        a = total(l, lambda c: c.alpha) / n if include_alpha else f.alpha
        o = Color(k, [total(l, lambda c, i=i: c.c[i]) / n for i in range(t.n)], a, f.space)
        return [(tm.eq(n, tm.ZERO), Throw('invalid_argument')), (TRUE, o)]
    return spec


for k in ORDER:
    nm = TYPES[k].short.replace('color', '') if k in ('rgb_true', 'rgb_deep', 'grey_true', 'grey_deep') else k
    reg('%saverage_%s(std::vector<%s*>,bool)' % (CC, k, TYPES[k].short), ['C22', 'C16'], averaged(k),
        args=dict(colors=(lambda k: lambda p: [ASymList('colors', k)] + [AList('colors', [AColor('c%d' % i, k, 'S%d' % (i and 1 + i % 3)) for i in range(n)]) for n in LENS])(k)))


# ------------------------------------------------------------------ add, mix, subtract (C21)
def bad(w): return tm.or_(tm.lt(w, tm.ZERO), tm.lt(tm.ONE, w))


def polar(c):
    """a hue/saturation color as a point of the plane"""
    h = c.hue / 180 * PI
    return tm.app('cos', h) * c.saturation, tm.app('sin', h) * c.saturation, c.value


def unpolar(x, y, z): return [tm.app('atan2', y, x) * 180 / PI, tm.app('sqrt', x * x + y * y), z]


PI = tm.const(F('3.14159265358979323846'))
DIRECT = dict(grey_true='lin', grey_deep='lin', cmyk='lin', xyz='lin', xyy='lin', cieluv='lin', rgb_true='rms', rgb_deep='rms', hsv='polar')
VIA = dict(hsi='hsv', hsl='hsv', hcy='hsv', lab='xyz', lch_ab='xyz', lch_uv='xyz')


def lin(w1, w2): return lambda p, q: w1 * p + w2 * q


def combine(a, b, k, w1, w2, ia, rms):
    """colors a and b of type k, weighted; the result is of a's color space"""
    if k in VIA:
        m = VIA[k]
        return as_out(conv(cv(combine(conv(a, m), conv(b, m), m, w1, w2, ia, rms)), k))
    f = lin(w1, w2)
    mode = DIRECT[k]
    if mode == 'rms' and rms: g = lambda p, q: tm.app('sqrt', w1 * p * p + w2 * q * q)
    else: g = f
    al = g(a.alpha, b.alpha) if ia else a.alpha
    if mode == 'polar':
        return Color(k, unpolar(*[f(p, q) for p, q in zip(polar(a), polar(b))]), al, a.space)
    return Color(k, [g(p, q) for p, q in zip(a.c, b.c)], al, a.space)


def adding(k): return lambda a, b, w1, w2, ia: [(tm.or_(bad(w1), bad(w2)), Throw('invalid_argument')), (TRUE, combine(a, conv(b, k or a.type), k or a.type, w1, w2, ia, True))]
def mixing(k): return lambda a, b, w, ia: [(bad(w), Throw('invalid_argument')), (TRUE, combine(a, conv(b, k or a.type), k or a.type, w, 1 - w, ia, True))]
def subtracting(k): return lambda a, b, w, ia: [(bad(w), Throw('invalid_argument')), (TRUE, combine(a, conv(b, k or a.type), k or a.type, tm.ONE, -w, ia, False))]


W = (F(-1, 2), F(3, 2))
for k in [None] + ORDER:
    sh = TYPES[k].short if k else 'color_base'
    kw = dict(same_space=k is None)
    for fn, mk, ws in (('add', adding, ('weight1', 'weight2')), ('mix', mixing, ('weight',)), ('subtract', subtracting, ('weight',))):
        reg('%s%s(%s*,%s*,%sbool)' % (CC, fn, sh, sh, 'float,' * len(ws)), ['C21', 'C16'], mk(k), ranges={w: W for w in ws}, modular=k is not None, **kw)
