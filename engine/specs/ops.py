"""Contracts of the operations on colors: adjustments, combinations, distances, Porter-Duff, blend modes."""
from fractions import Fraction
from .. import terms as tm
from .. import prover
from ..contract import *
from ..model import CV, TYPES, ORDER
from ..run import lemma
from .conv import conv, conv_out, as_out, rnd, ite, eq, luma, mx, mn
from .base import reg, state

F = Fraction
CA, CD, CM, PD, BL = 'color_adjustments::', 'color_distance::', 'color_combinations::', 'porter_duff::', 'color_blend::'


def cv(o, like=None):
    """view of a specified color"""
    return CV(o.type, list(o.c), o.alpha, o.space)


def back(o, k):
    """a fresh color of calculation type converted to type k"""
    return as_out(conv(cv(o), k))


# ------------------------------------------------------------------ adjustments (C24)
def adj(space, ch, fn):
    def copying(c, p):
        w = conv(c, space)
        return Out('color', **back_kw(Color(space, fn(w, p), w.alpha, c.space), c.type))
    return copying


def back_kw(o, k):
    r = back(o, k)
    return dict(type=r.type, c=r.c, alpha=r.alpha, space=r.space)


def sat_rgb(w, p):
    L = F('0.299') * w.red + F('0.587') * w.green + F('0.114') * w.blue
    return [v + p * (v - L) for v in w.c]


def lum_rgb(w, p): return [v * (1 + p) for v in w.c]
def sat_hsl(w, p): return [w.hue, w.saturation * (1 + p), w.lightness]
def lum_hsl(w, p): return [w.hue, w.saturation, w.lightness * (1 + p)]


ADJ = {}
for nm, space, fn in (('saturate_in_rgb_space', 'rgb_deep', sat_rgb), ('luminate_in_rgb_space', 'rgb_deep', lum_rgb), ('saturate_in_hsl_space', 'hsl', sat_hsl), ('luminate_in_hsl_space', 'hsl', lum_hsl)):
    f = ADJ[nm] = adj(space, nm, fn)
    keep = space == 'hsl'
    # a percentage of zero changes nothing
    reg('%s%s(color_base*,float)' % (CA, nm), ['C24', 'C16'], (lambda f, keep: lambda c, p: [(tm.eq(p, tm.ZERO), Same(c)), (TRUE, f(c, p))] if keep else f(c, p))(f, keep))

    def inplace(f, keep):
        def sp(c, p):
            o = f(c, p)
            z = tm.eq(p, tm.ZERO) if keep else FALSE
            return Void().after(color=state(c, [ite(z, a, b) for a, b in zip(c.c, o.c)], ite(z, c.alpha, o.alpha)))
        return sp
    reg('%s%s(color_base&,float)' % (CA, nm), ['C24'], inplace(f, keep), modifies=['color'])


# ------------------------------------------------------------------ combinations (C23)
def rotated(c, d):
    h = conv(c, 'hsl')
    return as_out(conv(cv(Color('hsl', [h.hue + d, h.saturation, h.lightness], h.alpha, c.space)), c.type))


def combi(n): return lambda c: ListOf([Same(c)] + [rotated(c, F(360 * i, n)) for i in range(1, n)])


reg(CM + 'create_complimentary(color_base*)', ['C23', 'C16'], lambda c: rotated(c, 180))
reg(CM + 'create_triplet(color_base*)', ['C23', 'C16'], combi(3))
reg(CM + 'create_quartet(color_base*)', ['C23', 'C16'], combi(4))
reg(CM + 'create_quintet(color_base*)', ['C23', 'C16'], combi(5))
BADN = [-5, -1, 0, 1, 361, 1000]


@contract(CM + 'create_combination(color_base*,int)', 'C23', 'C16', args=dict(number_of_colors=lambda p: [AnyInt('number_of_colors', (-3, 366))] + [AConst('number_of_colors', n) for n in BADN + [2, 3, 4, 5, 6, 7, 12]]), insts=lambda i: isinstance(i[1], AnyInt) or i[1].v in (2, 3, 7, 12) or i[0].tkey in ('rgb_true', 'hsl', 'lch_ab', 'rgb_deep'))
def _(c, n):
    if isinstance(n, tm.T):
        return [(tm.or_(tm.lt(n, tm.const(2)), tm.lt(tm.const(360), n)), Throw('invalid_argument')),
                (TRUE, ListFn([Same(c)], n, lambda k: rotated(c, 360 * k / n)))]
    n = int(n)
    if n < 2 or n > 360: return Throw('invalid_argument')
    return combi(n)(c)


@contract(CM + 'create_analogous(color_base*,float)', 'C23', 'C16')
def _(c, d):
    return [(tm.or_(tm.eq(d, tm.ZERO), tm.lt(tm.const(120), d)), Throw('invalid_argument')),
            (TRUE, ListOf([rotated(c, -d), Same(c), rotated(c, d)]))]


@contract(CM + 'create_complimentary_split(color_base*,float)', 'C23', 'C16')
def _(c, d):
    comp = cv(rotated(c, 180))
    return [(tm.or_(tm.eq(d, tm.ZERO), tm.lt(tm.const(120), d)), Throw('invalid_argument')),
            (TRUE, ListOf([rotated(comp, -d), Same(c), rotated(comp, d)]))]


def mono_step(c, like, mode, amount):
    h = conv(c, 'hsl')
    s = h.saturation * (1 - amount) if mode in (0, 2) else h.saturation
    l = h.lightness * (1 - amount) if mode in (1, 2) else h.lightness
    return as_out(conv(cv(Color('hsl', [h.hue, s, l], h.alpha, like.space)), like.type))


MONO = [-1, 0, 1, 2, 3]


@contract(CM + 'create_monochromatic(color_base*,int,float,int)', 'C23', 'C16', args=dict(mode=lambda p: [AConst('mode', m) for m in MONO], color_count=lambda p: [AnyInt('color_count')] + [AConst('color_count', n) for n in (-3, 0, 1, 2, 3, 4)]),
          insts=lambda i: i[0].tkey in ('rgb_true', 'hsl', 'rgb_deep', 'lab') or (i[1].v in (0, 1, 2) and (isinstance(i[3], AnyInt) or i[3].v in (2, 3))))
def _(c, mode, amount, n):
    mode = int(mode)
    if isinstance(n, tm.T):
        rng = tm.or_(tm.lt(amount, tm.ZERO), tm.lt(tm.ONE, amount), tm.le(n, tm.ZERO))
        if mode not in (0, 1, 2): rng = tm.or_(rng, tm.lt(tm.ONE, n))
        return [(rng, Throw('invalid_argument')), (TRUE, Chain(Same(c), n, lambda q: mono_step(q, c, mode, amount)))]
    n = int(n)
    if n <= 0: return Throw('invalid_argument')
    cs = [(tm.or_(tm.lt(amount, tm.ZERO), tm.lt(tm.ONE, amount)), Throw('invalid_argument'))]
    if n > 1 and mode not in (0, 1, 2): return cs + [(TRUE, Throw('invalid_argument'))]
    out, last = [Same(c)], c
    for _ in range(n - 1):
        o = mono_step(last, c, mode, amount)
        out.append(o)
        last = cv(o)
    return cs + [(TRUE, ListOf(out))]


# ------------------------------------------------------------------ pairs of colors
def pairs(a, b, centre='rgb_deep', extra=(), full=False):
    """argument choices for two colors and the instances worth checking: every type against the calculation type, both ways (all pairs in the thorough tier),
    the same object twice, null pointers and different color spaces where they matter"""
    def ok(i):
        x, y = i[0], i[1]
        if isinstance(y, AAlias): return not isinstance(x, ANull) and x.tkey == y.tkey and x.space == 'S'
        if isinstance(x, ANull) or isinstance(y, ANull):
            if 'null' not in extra: return False
            other = y if isinstance(x, ANull) else x
            return isinstance(other, ANull) or other.tkey == centre and other.space == 'S'
        if x.space != 'S': return False
        if y.space != 'S': return 'spaces' in extra and (x.tkey, y.tkey) in ((centre, centre), ('hsl', centre), (centre, 'lab'))
        return x.tkey == centre or y.tkey == centre or x.tkey == y.tkey or full or tier() != 'quick'
    A = [AColor(a, k, 'S') for k in ORDER] + [ANull(a)]
    B = [AColor(b, k, 'S') for k in ORDER] + [AColor(b, k, 'S2') for k in ORDER] + [AAlias(b, a, k) for k in ORDER] + [ANull(b)]
    return dict(args={a: A, b: B}, insts=lambda i: ok(i))


def tier():
    from .. import contract
    return contract.TIER


# ------------------------------------------------------------------ distances (C25)
def sq(v): return v * v
def root(v): return tm.app('sqrt', tm.lift(v))
def rad(d): return d * tm.PI / 180
def deg(r): return r * 180 / tm.PI
def cosd(d): return tm.app('cos', rad(tm.lift(d)))
def sind(d): return tm.app('sin', rad(tm.lift(d)))


def euclid2(p, q): return sum((sq(x - y) for x, y in zip(p, q)), tm.ZERO)
def f_cie76(p, q): return root(euclid2(p, q))


def f_weighted(p, q):
    r = (p[0] + q[0]) / 2 * 255
    d = [(x - y) * 255 for x, y in zip(p, q)]
    return root((2 + r / 256) * sq(d[0]) + 4 * sq(d[1]) + (2 + (255 - r) / 256) * sq(d[2])) / 255


def chroma(p): return root(sq(p[1]) + sq(p[2]))


def hue_diff2(p, q): return tm.fmax(tm.ZERO, sq(p[1] - q[1]) + sq(p[2] - q[2]) - sq(chroma(p) - chroma(q)))


def f_cie94(p, q, kL, k1, k2, kC, kH):
    c1, c2 = chroma(p), chroma(q)
    return root(sq((p[0] - q[0]) / kL) + sq((c1 - c2) / (kC * (1 + k1 * c1))) + hue_diff2(p, q) / (kH * (1 + k2 * c1)) / (kH * (1 + k2 * c1)))


def hue_of(b, a):
    h = deg(tm.app('atan2', b, a))
    return ite(tm.lt(h, 0), h + 360, h)


def f_cmc(p, q, l, c):
    c1, c2 = chroma(p), chroma(q)
    h = hue_of(p[2], p[1])
    f = root(sq(sq(c1)) / (sq(sq(c1)) + 1900))
    t = ite(tm.and_(tm.le(tm.const(164), h), tm.le(h, tm.const(345))), F('0.56') + tm.fabs(F('0.2') * cosd(h + 168)), F('0.36') + tm.fabs(F('0.4') * cosd(h + 35)))
    sl = ite(tm.lt(p[0], 16), F('0.511'), F('0.040975') * p[0] / (1 + F('0.01765') * p[0]))
    sc = F('0.0638') * c1 / (1 + F('0.0131') * c1) + F('0.638')
    sh = sc * (f * t + 1 - f)
    return root(sq((p[0] - q[0]) / (l * sl)) + sq((c1 - c2) / (c * sc)) + hue_diff2(p, q) / sh / sh)


P257 = tm.const(25 ** 7)


def pow7(c): return tm.app('pow', c, 7)


def t00(H): return 1 - F('0.17') * cosd(H - 30) + F('0.24') * cosd(2 * H) + F('0.32') * cosd(3 * H + 6) - F('0.2') * cosd(4 * H - 63)


def f_cie00(p, q, kL, k1, k2, kC, kH, published=True, hue=False):
    """CIEDE2000; published=False is the formula of the current tree (known finding): whole degrees, plain chroma in the chroma and weighting terms,
    and the exponent of the rotation term with the wrong sign"""
    L = (p[0] + q[0]) / 2
    C1, C2 = chroma(p), chroma(q)
    cm = (C1 + C2) / 2
    g = root(pow7(cm) / (pow7(cm) + P257))
    a1, a2 = p[1] + p[1] / 2 * (1 - g), q[1] + q[1] / 2 * (1 - g)
    h1, h2 = deg(tm.app('atan2', p[2], a1)), deg(tm.app('atan2', q[2], a2))
    if not published: h1, h2 = tm.app('trunc', h1), tm.app('trunc', h2)
    h1, h2 = ite(tm.lt(h1, 0), h1 + 360, h1), ite(tm.lt(h2, 0), h2 + 360, h2)
    wide = tm.lt(tm.const(180), tm.fabs(h1 - h2))
    if published:
        D1, D2 = root(sq(a1) + sq(p[2])), root(sq(a2) + sq(q[2]))
        dm = (D1 + D2) / 2
        G = root(pow7(dm) / (pow7(dm) + P257))
        none = tm.or_(eq(D1, 0), eq(D2, 0))
        H = ite(none, h1 + h2, ite(wide, ite(tm.lt(h1 + h2, 360), (h1 + h2 + 360) / 2, (h1 + h2 - 360) / 2), (h1 + h2) / 2))
        dh = ite(none, 0, ite(wide, ite(tm.le(h2, h1), h2 - h1 + 360, h2 - h1 - 360), h2 - h1))
    else:
        D1, D2, dm, G = C1, C2, cm, g
        H = ite(wide, (h1 + h2 + 360) / 2, (h1 + h2) / 2)
        dh = ite(wide, ite(tm.le(h2, h1), h2 - h1 + 360, h2 - h1 - 360), h2 - h1)
    dL, dC, dH = q[0] - p[0], D2 - D1, 2 * root(D1 * D2) * sind(dh / 2)
    sC, sH = 1 + k1 * dm, 1 + k2 * dm * t00(H)
    sL = 1 + k2 * sq(L - 50) / root(20 + sq(L - 50))
    e = sq((H - 275) / 25)
    if hue: return H
    rt = -2 * G * sind(60 * tm.app('exp', -e if published else e))
    return root(sq(dL / (kL * sL)) + sq(dC / (kC * sC)) + sq(dH / (kH * sH)) + rt * (dC / (kC * sC)) * (dH / (kH * sH)))


def dist(sig, space, fn, pre=None, full=False, **k):
    def spec(a, b, *r):
        if a.ptr.same(b.ptr): return Num(0)
        return Num(fn(conv(a, space).c, conv(b, space).c, *r))
    reg(CD + sig, ['C25', 'C16'], spec, pre=(lambda a, b, *r: pre(*r)) if pre else None, **pairs('color1', 'color2', space, full=full), **k)


def in_space(fn):
    def spec(a, b, t):
        if a.ptr.same(b.ptr): return Num(0)
        s = 'cieluv' if model.ENUM.get(t) == TYPES['cieluv'].enum else 'rgb_deep'
        return Num(fn(conv(a, s).c, conv(b, s).c))
    return spec


def calc_types(prog):
    return [AConst('calculation_space', v, str(v)) for v, n in sorted(model.ENUM.items()) if n in (TYPES['rgb_deep'].enum, TYPES['cieluv'].enum)]


for nm, fn in (('euclidean_distance', f_cie76), ('euclidean_distance_squared', euclid2)):
    k = pairs('color1', 'color2', full=True)
    k['args']['calculation_space'] = calc_types
    reg(CD + nm + '(color_base*,color_base*,color_type)', ['C25', 'C16'], in_space(fn), **k)
dist('euclidean_distance_weighted(color_base*,color_base*)', 'rgb_deep', f_weighted, full=True)
dist('cielab_delta_e_cie76(color_base*,color_base*)', 'lab', f_cie76, full=True)
POS = lambda *v: [tm.lt(tm.const(F(1, 100)), x) for x in v]
NNG = lambda *v: [tm.le(tm.ZERO, x) for x in v]
KS = dict(ranges=dict(kL=(F(1, 10), 10), k1=(0, 1), k2=(0, 1), kC=(F(1, 10), 10), kH=(F(1, 10), 10), lightness=(F(1, 10), 10), chroma=(F(1, 10), 10)), numrange=(0, 100))
dist('cielab_delta_e_cie94(color_base*,color_base*,float,float,float,float,float)', 'lab', f_cie94, **KS)
dist('cmc_delta_e_lc84(color_base*,color_base*,float,float)', 'lab', f_cmc, **KS)


def wild(a, b, *k):
    """mean hue too far from 275 for the exponential of the current tree to be evaluated in machine numbers"""
    if a.ptr.same(b.ptr): return tm.FALSE
    p, q = conv(a, 'lab').c, conv(b, 'lab').c
    return tm.or_(tm.lt(tm.const(40), tm.fabs(f_cie00(p, q, *k, published=False, hue=True) - 275)), *[tm.lt(sq(c[1]) + sq(c[2]), F(1, 10)) for c in (p, q)])


# the contract states the formula of the current tree; the lemma at the end of this section compares it with the published one (a listed finding)
dist('cielab_delta_e_cie00(color_base*,color_base*,float,float,float,float,float)', 'lab', lambda *a: f_cie00(*a, published=False), skipdef=('sqrt', 'fsqrt', 'exp'), undef=wild, **KS)


# ---- what makes them distances
def labs(n):
    return [tm.var('%s%d' % (n, i), lo, hi) for i, (lo, hi) in enumerate(TYPES['lab'].ranges)]


def rgbs(n): return [tm.var('%s%d' % (n, i), 0, 1) for i in range(3)]


def params(*ns): return [tm.var(n, *KS['ranges'][n]) for n in ns]


P94 = ('kL', 'k1', 'k2', 'kC', 'kH')
FORMULA = dict(euclid=(rgbs, f_cie76, (), True), weighted=(rgbs, f_weighted, (), True), cie76=(labs, f_cie76, (), True), cie94=(labs, f_cie94, P94, False), cmc=(labs, f_cmc, ('lightness', 'chroma'), False))


def pr(nm, r): return ob(nm, r[0], r[1] if r[0] == 'proved' else '', detail='' if r[0] == 'proved' else 'not proved', kind='lemma')


@lemma('distances are zero for equal channels', 'C25')
def _(ctx):
    out = []
    for n, (vs, fn, ps, _) in FORMULA.items():
        p = vs('p')
        out.append(pr('%s(c,c)=0' % n, prover.prove_eq([], fn(p, p, *params(*ps)), tm.ZERO, F(0))))
    return out


@lemma('distances are never negative', 'C25')
def _(ctx):
    out = []
    for n, (vs, fn, ps, _) in FORMULA.items():
        d = fn(vs('p'), vs('q'), *params(*ps))
        lo = tm.bounds(d)[0]
        out.append(ob('%s>=0' % n, 'proved' if lo is not None and lo >= 0 else 'unknown', 'interval', detail=tm.show(d)[:300], kind='lemma'))
    return out


@lemma('CIEDE2000 as computed is the published formula', 'C25')
def _(ctx):
    # Sharma, Wu, Dalal: pair 1
    p, q = [tm.const(F(v)) for v in ('50', '2.6772', '-79.7751')], [tm.const(F(v)) for v in ('50', '0', '-82.7485')]
    k = [tm.const(F(v)) for v in ('1', '0.045', '0.015', '1', '1')]
    got, want = (tm.ev(f_cie00(p, q, *k, published=b), {}, {}) for b in (False, True))
    ok = abs(got - want) < 1e-4
    return [ob('cie00#published', 'proved' if ok else 'refuted', detail='Lab (50, 2.6772, -79.7751) and (50, 0, -82.7485): the contract on the code gives %.4f, the published CIEDE2000 formula %.4f' % (got, want), kind='lemma')]


@lemma('distances do not depend on the order', 'C25')
def _(ctx):
    out = []
    for n, (vs, fn, ps, sym) in FORMULA.items():
        if not sym: continue
        p, q, k = vs('p'), vs('q'), params(*ps)
        out.append(pr('%s(p,q)=%s(q,p)' % (n, n), prover.prove_eq([], fn(p, q, *k), fn(q, p, *k), F(0))))
    return out


# ------------------------------------------------------------------ Porter-Duff (C20) and blend modes (C18)
def bads(a, b):
    """missing colors and different color spaces are invalid arguments"""
    if not isinstance(a, CV) or not isinstance(b, CV) or a.space is not b.space and not same_space(a, b): return Throw('invalid_argument')
    return None


def same_space(a, b): return a.space.same(b.space) if hasattr(a.space, 'same') else a.space == b.space


def areas(s, d): return s.alpha * (1 - d.alpha), d.alpha * (1 - s.alpha), s.alpha * d.alpha


def composed(src, dst, us, ud, ub, both):
    """general compositing equation on the RGB forms, un-premultiplied, in the type of the first argument"""
    s, d = conv(src, 'rgb_deep'), conv(dst, 'rgb_deep')
    a, b, c = areas(s, d)
    al = (a if us else 0) + (b if ud else 0) + (c if ub else 0)
    al = tm.lift(al)
    ch = []
    for x, y in zip(s.c, d.c):
        t = (a * x if us else 0) + (b * y if ud else 0) + c * tm.lift(both(x, y))
        t = tm.clamp(tm.lift(t), 0, 1)          # limiting before the division changes nothing: the result is limited again and 0 <= al <= 1
        ch.append(ite(eq(al, 0), t, t / al))
    return as_out(conv(cv(Color('rgb_deep', ch, al, src.space)), src.type))


def S_(s, d): return s
def D_(s, d): return d
def Z_(s, d): return tm.ZERO


PDOPS = dict(src=(1, 0, 1, S_), dest=(0, 1, 1, D_), over=(1, 1, 1, S_), dest_over=(1, 1, 1, D_), dest_in=(0, 0, 1, D_), out=(1, 0, 0, Z_), dest_out=(0, 1, 0, Z_),
             atop=(0, 1, 1, S_), dest_atop=(1, 0, 1, D_), x_or=(1, 1, 0, Z_), clear=(0, 0, 0, Z_), **{'in': (0, 0, 1, S_)})
for n, (us, ud, ub, f) in PDOPS.items():
    reg(PD + n + '(color_base*,color_base*)', ['C20', 'C16'], (lambda us, ud, ub, f: lambda s, d: bads(s, d) or composed(s, d, us, ud, ub, f))(us, ud, ub, f),
        **pairs('source', 'destination', 'rgb_deep', ('null', 'spaces'), full=True))

HALF = F(1, 2)
le, lt = tm.le, tm.lt
def guarded(c, v, w): return ite(c, v, w)
def hard(s, d): return ite(le(s, HALF), 2 * s * d, 1 - (1 - d) * (1 - (2 * s - 1)))


BLENDS = dict(
    normal=S_, multiply=lambda s, d: s * d, screen=lambda s, d: s + d - s * d, overlay=lambda s, d: hard(d, s), darken=lambda s, d: mn(s, d), lighten=lambda s, d: mx(s, d),
    color_dodge=lambda s, d: ite(eq(d, 0), 0, ite(eq(s, 1), 1, mn(1, d / (1 - s)))),
    color_burn=lambda s, d: ite(eq(d, 1), 0, ite(eq(s, 0), 1, mn(1, (1 - d) / s))),
    linear_dodge=lambda s, d: s + d, linear_burn=lambda s, d: s + d - 1, hard_light=hard,
    soft_light=lambda s, d: ite(le(s, HALF), d * (s + HALF), 1 - (1 - d) * (1 - (s - HALF))),
    vivid_light=lambda s, d: ite(le(s, HALF), ite(eq(d, 0), 0, ite(eq(s, HALF), 1, d / (1 - 2 * s))), ite(eq(d, 1), 1, 1 - (1 - d) / (2 * s - 1))),
    linear_light=lambda s, d: d + 2 * s - 1, pin_light=lambda s, d: ite(le(s, HALF), mn(d, 2 * s), mx(d, 2 * s - 1)),
    hard_mix=lambda s, d: ite(lt(s, 1 - d), 0, 1), difference=lambda s, d: tm.fabs(s - d), subtract=lambda s, d: s - d,
    divide=lambda s, d: ite(eq(d, 0), 0, ite(eq(s, 0), 1, d / s)), plus_lighter=lambda s, d: s + d, plus_darker=lambda s, d: s + d - 1, exclusion=lambda s, d: s + d - 2 * s * d)


def flags(k):
    """both region flags in the calculation type, the usual combination elsewhere"""
    A = k['args']
    A['use_source_region'] = [AConst('use_source_region', b) for b in (True, False)]
    A['use_destination_region'] = [AConst('use_destination_region', b) for b in (True, False)]
    ok = k['insts']
    # (first, second, source flag, destination flag)
    def full(i): return getattr(i[0], 'tkey', None) == getattr(i[1], 'tkey', None) == 'rgb_deep' and not isinstance(i[1], AAlias) and i[1].space == 'S'
    k['insts'] = lambda i: ok(i) and (full(i) or i[2].v and i[3].v or tier() != 'quick')
    return k


for n, f in list(BLENDS.items()):
    if n != 'normal':
        f0 = f
        f = BLENDS[n] = named('blend.' + n, f0)
        reg(BL + n + '_func(float,float)', ['C18'], (lambda f: lambda s, d: Num(f(s, d)))(f), ranges={0: (0, 1), 1: (0, 1)}, helper=True)
    reg(BL + n + '(color_base*,color_base*,bool,bool)', ['C18', 'C16'], (lambda f: lambda s, d, us, ud: bads(s, d) or composed(s, d, us, ud, True, f))(f),
        **flags(pairs('source', 'destination', 'rgb_deep', ('null', 'spaces'))))
k = flags(pairs('source', 'destination', 'rgb_deep', ('null', 'spaces')))
k['args']['blend_function'] = AFunc2('blend_function')
reg(BL + 'custom_componentwise_blend(color_base*,color_base*,bool,bool,std::function<float (float, float)>)', ['C18', 'C16'], lambda s, d, us, ud, f: bads(s, d) or composed(s, d, us, ud, True, f), **k)


# ------------------------------------------------------------------ non separable blend modes (C19)
def hcyblend(h, c, y):
    def sp(s, d, us, ud):
        a, b = conv(s, 'hcy'), conv(d, 'hcy')
        return as_out(conv(cv(Color('hcy', [(a if w == 's' else b).c[i] for i, w in enumerate((h, c, y))], a.alpha, s.space)), s.type))
    return sp


def greyish(h):
    """the hue of a (nearly) grey color is decided by rounding"""
    def un(s, d, us, ud):
        a = conv(s if h == 's' else d, 'hcy')
        return tm.lt(a.c[1], F(1, 200)) if a.ptr is None or (s if h == 's' else d).type != 'hcy' else tm.FALSE
    return un


for n, w in dict(hue='sdd', saturation='dsd', color='ssd', luminosity='dds').items():
    reg(BL + n + '(color_base*,color_base*,bool,bool)', ['C19', 'C16'], hcyblend(*w), undef=greyish(w[0]), **flags(pairs('source', 'destination', 'hcy', full=True)))
