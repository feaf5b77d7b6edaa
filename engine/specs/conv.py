"""Contracts of color_converter: the conversion graph.

Every conversion is the composition of *edges* along the tree
   {rgb_true, grey_true, grey_deep, cmyk, hsi, hsv, hsl, hcy} - rgb_deep - xyz - {xyy, cieluv - lch_uv, lab - lch_ab}
with the direct shortcuts listed in DIRECT.  Edges carry the formulas; a composite contract says "equals the composition"."""
from fractions import Fraction
from .. import terms as tm
from ..contract import *
from ..model import CV, TYPES, ORDER

F = Fraction
CC = 'color_converter::'
EDGE = {}       # (a, b) -> spec fn(CV) -> cases


def edge(a, b, *props):
    def deco(fn):
        EDGE[(a, b)] = fn
        c = Contract('%s%s_to_%s(%s*)' % (CC, a, b, TYPES[a].short), props, fn, modular=True, opaque='cv.%s>%s' % (a, b))
        CONTRACTS[model.norm_sig(c.sig)] = c
        return fn
    return deco


def a01(c): return tm.div(tm.lift(c.alpha), tm.const(TYPES[c.type].amax))
def mx(*v):
    r = v[0]
    for x in v[1:]: r = tm.fmax(r, x)
    return r
def mn(*v):
    r = v[0]
    for x in v[1:]: r = tm.fmin(r, x)
    return r
def rnd(v): return tm.app('round', v)
def ite(c, a, b): return tm.ite(c, tm.lift(a), tm.lift(b))
def eq(a, b): return tm.eq(a, tm.lift(b))


# ------------------------------------------------------------------ RGB, grey, CMYK
@edge('rgb_true', 'rgb_deep', 'C11')
def _(c): return Color('rgb_deep', [v / 255 for v in c.c], a01(c), c.space)

@edge('rgb_deep', 'rgb_true', 'C11')
def _(c): return Color('rgb_true', [rnd(v * 255) for v in c.c], rnd(c.alpha * 255), c.space)

@edge('rgb_true', 'grey_true', 'C11')
def _(c): return Color('grey_true', [(c.red + c.green + c.blue) / 3], c.alpha, c.space)

@edge('rgb_true', 'grey_deep', 'C11')
def _(c): return Color('grey_deep', [(c.red + c.green + c.blue) / 765], a01(c), c.space)

@edge('rgb_deep', 'grey_deep', 'C11')
def _(c): return Color('grey_deep', [(c.red + c.green + c.blue) / 3], c.alpha, c.space)

@edge('grey_true', 'rgb_true', 'C11')
def _(c): return Color('rgb_true', [c.grey] * 3, c.alpha, c.space)

@edge('grey_true', 'rgb_deep', 'C11')
def _(c): return Color('rgb_deep', [c.grey / 255] * 3, a01(c), c.space)

@edge('grey_true', 'grey_deep', 'C11')
def _(c): return Color('grey_deep', [c.grey / 255], a01(c), c.space)

@edge('grey_deep', 'rgb_deep', 'C11')
def _(c): return Color('rgb_deep', [c.grey] * 3, c.alpha, c.space)

@edge('rgb_deep', 'cmyk', 'C11')
def _(c):
    k = 1 - mx(*c.c)
    black = tm.le(tm.ONE, k)
    return Color('cmyk', [ite(black, 0, (1 - v - k) / (1 - k)) for v in c.c] + [k], c.alpha, c.space)

@edge('cmyk', 'rgb_deep', 'C11')
def _(c): return Color('rgb_deep', [(1 - v) * (1 - c.black) for v in c.c[:3]], c.alpha, c.space)


# ------------------------------------------------------------------ hue models
def rgb_hue(c, mxv, d):
    r, g, b = c.c
    return 60 * ite(eq(mxv, r), (g - b) / d, ite(eq(mxv, g), (b - r) / d + 2, (r - g) / d + 4))


def from_rgb(c, t, sat, third, grey):
    hi, lo = mx(*c.c), mn(*c.c)
    achrom = eq(hi, lo)
    d = hi - lo
    return Color(t, [ite(achrom, 0, rgb_hue(c, hi, d)), ite(achrom, 0, sat(hi, lo, d)), ite(achrom, grey(lo), third(hi, lo, d))], c.alpha, c.space)


def luma(r, g, b): return F('0.2126') * r + F('0.7152') * g + F('0.0722') * b

@edge('rgb_deep', 'hsi', 'C12')
def _(c):
    i = (c.red + c.green + c.blue) / 3
    return from_rgb(c, 'hsi', lambda hi, lo, d: 1 - lo / i, lambda hi, lo, d: i, lambda lo: lo)

@edge('rgb_deep', 'hsv', 'C12')
def _(c): return from_rgb(c, 'hsv', lambda hi, lo, d: d / hi, lambda hi, lo, d: hi, lambda lo: lo)

@edge('rgb_deep', 'hsl', 'C12')
def _(c): return from_rgb(c, 'hsl', lambda hi, lo, d: d / (1 - tm.fabs(hi + lo - 1)), lambda hi, lo, d: (hi + lo) / 2, lambda lo: lo)

@edge('rgb_deep', 'hcy', 'C12')
def _(c): return from_rgb(c, 'hcy', lambda hi, lo, d: d, lambda hi, lo, d: luma(*c.c), lambda lo: lo)


def hexagon(h):
    """(r, g, b) of the fully saturated color of hue h (0..359): piecewise linear on the color wheel"""
    h6 = h / 60
    cl = lambda v: tm.clamp(v, 0, 1)
    return cl(tm.fabs(h6 - 3) - 1), cl(2 - tm.fabs(h6 - 2)), cl(2 - tm.fabs(h6 - 4))

@edge('hsv', 'rgb_deep', 'C12')
def _(c):
    ch = c.value * c.saturation
    return Color('rgb_deep', [q * ch + (c.value - ch) for q in hexagon(c.hue)], c.alpha, c.space)

@edge('hsl', 'rgb_deep', 'C12')
def _(c):
    ch = (1 - tm.fabs(2 * c.lightness - 1)) * c.saturation
    return Color('rgb_deep', [q * ch + (c.lightness - ch / 2) for q in hexagon(c.hue)], c.alpha, c.space)

@edge('hsi', 'rgb_deep', 'C12')
def _(c):
    # chroma from the intensity: the saturated color has mean (1+Z)/3 with Z its middle channel
    hx = hexagon(c.hue)
    ch = 3 * c.intensity * c.saturation / (hx[0] + hx[1] + hx[2])
    return Color('rgb_deep', [q * ch + c.intensity * (1 - c.saturation) for q in hx], c.alpha, c.space)

@edge('hcy', 'rgb_deep', 'C12')
def _(c):
    hx = hexagon(c.hue)
    y = luma(*hx)
    return Color('rgb_deep', [(q - y) * c.chroma + c.luma for q in hx], c.alpha, c.space)

@edge('hsv', 'hsl', 'C12')
def _(c):
    l = c.value * (2 - c.saturation) / 2
    s = c.value * c.saturation / ite(tm.le(l, F(1, 2)), 2 * l, 2 - 2 * l)
    # the saturation of black and white is not specified
    return [(tm.or_(eq(l, 0), eq(l, 1)), Color('hsl', [c.hue, 0, l], c.alpha, c.space).unspec(1)),
            (TRUE, Color('hsl', [c.hue, s, l], c.alpha, c.space))]
CONTRACTS[model.norm_sig(CC + 'hsv_to_hsl(hsv*)')].undef = lambda c: tm.or_(eq(c.value * (2 - c.saturation) / 2, 0), eq(c.value * (2 - c.saturation) / 2, 1))

@edge('hsl', 'hsv', 'C12')
def _(c):
    v = c.lightness + c.saturation * tm.fmin(c.lightness, 1 - c.lightness)
    return Color('hsv', [c.hue, ite(tm.le(v, 0), 0, 2 * (v - c.lightness) / v), v], c.alpha, c.space)


# ------------------------------------------------------------------ XYZ
@edge('rgb_deep', 'xyz', 'C13')
def _(c):
    s = space_of(c)
    lin = [tm.clamp(s.igam(v), 0, 1) for v in c.c]
    return Color('xyz', [sum((m * v for m, v in zip(row, lin)), tm.ZERO) for row in s.M], c.alpha, c.space)

@edge('xyz', 'rgb_deep', 'C13')
def _(c):
    s = space_of(c)
    return Color('rgb_deep', [s.gam(tm.clamp(sum((m * v for m, v in zip(row, c.c)), tm.ZERO), 0, 1)) for row in s.N], c.alpha, c.space)

@edge('xyz', 'xyy', 'C13')
def _(c):
    s = space_of(c)
    t = c.x + c.y + c.z
    black = tm.le(t, 0)
    wx, wy = s.white_xy
    return Color('xyy', [ite(black, wx, c.x / t), ite(black, wy, c.y / t), c.y], c.alpha, c.space)

@edge('xyy', 'xyz', 'C13')
def _(c):
    z = eq(c.y, 0)
    return Color('xyz', [ite(z, 0, c.x * c.Y / c.y), ite(z, 0, c.Y), ite(z, 0, (1 - c.x - c.y) * c.Y / c.y)], c.alpha, c.space)


# ------------------------------------------------------------------ Lab, Luv, LCH
EPS, KAP = F(216, 24389), F(24389, 27)
def cuberoot(v): return tm.app('pow', v, F(1, 3))

@edge('xyz', 'lab', 'C14')
def _(c):
    w = space_of(c).w
    f = [ite(tm.lt(EPS, v / n), cuberoot(v / n), (KAP * (v / n) + 16) / 116) for v, n in zip(c.c, w)]
    return Color('lab', [116 * f[1] - 16, 500 * (f[0] - f[1]), 200 * (f[1] - f[2])], c.alpha, c.space)

@edge('lab', 'xyz', 'C14')
def _(c):
    w = space_of(c).w
    L, a, b = c.c
    fy = (L + 16) / 116
    g = lambda t: ite(tm.lt(EPS, t * t * t), t * t * t, (116 * t - 16) / KAP)
    y = ite(tm.lt(EPS * KAP, L), fy * fy * fy, L / KAP)
    return Color('xyz', [g(a / 500 + fy) * w[0], y * w[1], g(fy - b / 200) * w[2]], c.alpha, c.space)


def uv_prime(X, Y, Z):
    d = X + 15 * Y + 3 * Z
    return 4 * X / d, 9 * Y / d

@edge('xyz', 'cieluv', 'C14')
def _(c):
    w = space_of(c).w
    black = tm.le(c.x + c.y + c.z, 0)
    u, v = uv_prime(*c.c)
    un, vn = uv_prime(*w)
    y = c.y / w[1]
    L = ite(tm.lt(F('0.008856'), y), 116 * cuberoot(y) - 16, F('903.3') * y)
    return Color('cieluv', [ite(black, 0, L), ite(black, 0, 13 * L * (u - un)), ite(black, 0, 13 * L * (v - vn))], c.alpha, c.space)

@edge('cieluv', 'xyz', 'C14')
def _(c):
    w = space_of(c).w
    un, vn = uv_prime(*w)
    L = c.L
    black = tm.le(L, 0)
    u, v = c.u / (13 * L) + un, c.v / (13 * L) + vn
    t = (L + 16) / 116
    Y = ite(tm.lt(F('903.3') * F('0.008856'), L), t * t * t, L / F('903.3')) * w[1]
    imag = tm.le(v, 0)
    return Color('xyz', [ite(black, 0, ite(imag, 0, 9 * Y * u / (4 * v))), ite(black, 0, Y), ite(black, 0, ite(imag, 0, Y * (12 - 3 * u - 20 * v) / (4 * v)))], c.alpha, c.space)


def polar(t, L, a, b, alpha, space):
    h = tm.app('atan2', b, a) * 180 / tm.PI
    h = ite(tm.lt(h, 0), h + 360, h)
    return Color(t, [L, tm.app('sqrt', a * a + b * b), h], alpha, space)


def unpolar(t, c):
    h = c.hue * tm.PI / 180
    return Color(t, [c.luminance, c.chroma * tm.app('cos', h), c.chroma * tm.app('sin', h)], c.alpha, c.space)

@edge('lab', 'lch_ab', 'C14')
def _(c): return polar('lch_ab', c.luminance, c.a, c.b, c.alpha, c.space)
@edge('cieluv', 'lch_uv', 'C14')
def _(c): return polar('lch_uv', c.L, c.u, c.v, c.alpha, c.space)
@edge('lch_ab', 'lab', 'C14')
def _(c): return unpolar('lab', c)
@edge('lch_uv', 'cieluv', 'C14')
def _(c): return unpolar('cieluv', c)


# ------------------------------------------------------------------ composites
TREE = {k: 'rgb_deep' for k in ('rgb_true', 'grey_true', 'grey_deep', 'cmyk', 'hsi', 'hsv', 'hsl', 'hcy')}
TREE.update(rgb_deep='xyz', xyy='xyz', cieluv='xyz', lab='xyz', lch_ab='lab', lch_uv='cieluv')
# conversions that leave the tree: grey and 8-bit values are exact without going through RGB deep
VIA = {('rgb_deep', 'grey_true'): ['rgb_true', 'grey_true']}


def up(a):
    r = [a]
    while a in TREE:
        a = TREE[a]
        r.append(a)
    return r


def route(a, b):
    if a == b: return []
    if (a, b) in EDGE: return [b]
    if (a, b) in VIA: return VIA[(a, b)]
    if (a, b) == ('grey_deep', 'rgb_true'): return ['rgb_deep', 'rgb_true']
    if b == 'grey_true' and a != 'rgb_true': return route(a, 'rgb_deep') + ['rgb_true', 'grey_true']
    ua, ub = up(a), up(b)
    meet = next(x for x in ua if x in ub)
    p = ua[1:ua.index(meet) + 1] + ub[:ub.index(meet)][::-1]
    # use direct edges between the end points of sub-routes
    return p


def conv1(c, b):
    """one edge, hidden behind its specification functions"""
    k = model.norm_sig('%s%s_to_%s(%s*)' % (CC, c.type, b, TYPES[c.type].short))
    ct = CONTRACTS[k]
    o = opaque_out(ct, [c], cases(ct.spec(c)))
    return CV(o.type, o.c, o.alpha, o.space)


def conv(c, b):
    for t in route(c.type, b): c = conv1(c, t)
    return c


def as_out(c): return Out('color', type=c.type, c=list(c.c), alpha=c.alpha, space=c.space)


def conv_out(c, b):
    if c.type == b: return Same(c)
    return as_out(conv(c, b))


def family(k):
    return 'C11' if k in ('rgb_true', 'rgb_deep', 'grey_true', 'grey_deep', 'cmyk') else 'C12' if k in ('hsi', 'hsv', 'hsl', 'hcy') else 'C13' if k in ('xyz', 'xyy') else 'C14'


def grey_edges():
    @edge('grey_deep', 'grey_true', 'C11')
    def _(c): return Color('grey_true', [rnd(c.grey * 255)], rnd(c.alpha * 255), c.space)

    @edge('grey_deep', 'rgb_true', 'C11')
    def _(c): return Color('rgb_true', [rnd(c.grey * 255)] * 3, rnd(c.alpha * 255), c.space)


grey_edges()
for a in ORDER:
    for b in ORDER:
        if a == b or (a, b) in EDGE: continue
        c = Contract('%s%s_to_%s(%s*)' % (CC, a, b, TYPES[a].short), [max(family(a), family(b))], (lambda b: lambda c: as_out(conv(c, b)))(b))
        CONTRACTS[model.norm_sig(c.sig)] = c

for b in ORDER:
    CONTRACTS[model.norm_sig('%sto_%s(color_base*)' % (CC, b))] = Contract('%sto_%s(color_base*)' % (CC, b), ['C15'], (lambda b: lambda c: conv_out(c, b))(b))


@contract(CC + 'convertTo(color_base*,color_type)', 'C15')
def _(c, t):
    k = next((x for x in ORDER if model.ENUM.get(t) == TYPES[x].enum), None)
    return conv_out(c, k) if k else Null()
