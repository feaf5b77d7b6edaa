"""C17: converting there and back.  Contracts of the client functions in harness.h, verified with the converters inlined (the edge
contracts are not used, only the published forward formulas to say when an intermediate value is limited)."""
from .. import terms as tm
from .. import contract as K
from ..contract import *
from ..run import lemma
from .base import reg
from .conv import F, CC, EDGE, CV, cuberoot

INL = [CC + '%s_to_%s(%s*)' % (a, b, TYPES[a].short) for a in ORDER for b in ORDER if a != b] + [CC + 'to_%s(color_base*)' % b for b in ORDER]


def unlimited(c, b):
    """no channel of c converted to b has to be limited"""
    hyp = []

    def chan(t, i, v):
        v = tm.lift(v)
        lo, hi = TYPES[t].ranges[i]
        w = tm.ite(tm.lt(v, tm.ZERO), v + 360, v) if TYPES[t].names[i] == 'hue' else v
        hyp.append(tm.and_(tm.le(tm.lift(lo), w), tm.le(w, tm.lift(hi))))
        return v
    old, K.chan = K.chan, chan
    try: EDGE[(c.type, b)](c)
    finally: K.chan = old
    return tm.and_(*hyp)


def back(a, b, extra=None, facts=None, split=None, **kw):
    """facts: true statements about pow, sqrt, sin and cos at the terms that matter (assumed axioms)"""
    def spec(c):
        h = unlimited(c, b)
        if extra: h = tm.and_(h, extra(c))
        if facts: h = tm.and_(h, *facts(c))
        o = Out('color', type=a, c=list(c.c), alpha=c.alpha, space=c.space)
        return [(tm.and_(h, s), o) for s in (split(c) if split else ())] + [(h, o), (tm.TRUE, Any())]
    reg('roundtrip::%s_%s(%s*)' % (a, b, TYPES[a].short), ['C17'], spec, inline=INL, **kw)




def orders(c):
    r, g, b = c.c
    le = tm.le
    return [tm.and_(le(r, g), le(g, b)), tm.and_(le(r, b), le(b, g)), tm.and_(le(g, r), le(r, b)), tm.and_(le(g, b), le(b, r)), tm.and_(le(b, r), le(r, g)), tm.and_(le(b, g), le(g, r))]


for k in ('hsv', 'hsl', 'hcy'): back('rgb_deep', k, split=orders, tlimit=400)
back('rgb_deep', 'cmyk')
back('rgb_true', 'rgb_deep', lambda c: tm.and_(*[tm.eq(v, tm.app('round', v)) for v in c.c + [c.alpha]]))
back('xyz', 'xyy', lambda c: tm.or_(tm.lt(tm.ZERO, c.y), tm.eq(c.x + c.y + c.z, tm.ZERO)))


def cubes(c):
    r = []
    for v, n in zip(c.c, space_of(c).w):
        q = v / n
        p = cuberoot(q)
        r += [tm.le(tm.ZERO, p), tm.eq(p * p * p, q)]
    return r


def regions(c):
    y = c.y / space_of(c).w[1]
    t = tm.le(tm.lift(F('0.2067')), cuberoot(y))      # the linear and the cubic part, and around the seam
    return [tm.le(c.x + c.y + c.z, tm.ZERO), tm.le(y, tm.lift(F('0.0088'))), tm.le(y, tm.lift(F('0.008856'))), tm.and_(t, tm.le(y, tm.lift(F('0.0089')))), t]


def angles(c):
    """r cos(h) = x and r sin(h) = y for the polar form (r, h) of (x, y), in degrees with and without a full turn"""
    x, y = c.c[1], c.c[2]
    r = tm.app('sqrt', x * x + y * y)
    out = [tm.le(tm.ZERO, r), tm.eq(r * r, x * x + y * y)]
    for turn in (0, 360):
        h = (tm.app('atan2', y, x) * 180 / tm.PI + turn) * tm.PI / 180
        out += [tm.eq(r * tm.app('cos', h), x), tm.eq(r * tm.app('sin', h), y)]
    return out


back('xyz', 'lab', facts=cubes)
back('xyz', 'cieluv', lambda c: tm.or_(tm.lt(tm.ZERO, c.y), tm.eq(c.x + c.y + c.z, tm.ZERO)), facts=cubes, split=regions, tlimit=150, tidy=True)
back('lab', 'lch_ab', facts=angles)
back('cieluv', 'lch_uv', facts=angles)
