"""Contracts of white points (C08), gamma curves (C06, C07) and RGB color space definitions (C09)."""
from fractions import Fraction
from .. import terms as tm
from .. import prover
from ..contract import *
from ..run import lemma
from .base import reg
from .matrices import odet as det, oadj as adj
from ..contract import eqob as eq

F = Fraction
W = 'white_point::'
ARR3, ARR2 = 'std::array<float, 3>', 'std::array<float, 2>'


def pos(vs): return [tm.ne(v, tm.ZERO) for v in vs]
def chroma(t): return [v / (t[0] + t[1] + t[2]) for v in t]
def tri(c, Y=tm.ONE): return [Y * c[0] / c[1], Y, Y * c[2] / c[1]]
def xyz(x, y): return [x, y, tm.ONE - x - y]
def total3(a, b, c): return [tm.ne(a + b + c, tm.ZERO)]


# ------------------------------------------------------------------ white points
def this_wp(**k): return {'this': AWP('this'), **k}


def itself(t, o):
    o.same = t
    return o.after(this=o)


reg(W + 'white_point(float,float,float,float,float)', ['C08'], lambda a, b, c, x, y: White([a, b, c] + xyz(x, y)))
reg(W + 'white_point(%s,%s)' % (ARR3, ARR2), ['C08'], lambda t, c: White(list(t) + xyz(*c)), args={0: AArr('tri', 3), 1: AArr('chr', 2)})
reg(W + 'white_point(float,float)', ['C08'], lambda x, y: White(tri(xyz(x, y)) + xyz(x, y)), pre=lambda x, y: pos([y]))
reg(W + 'white_point(float,float,float)', ['C08'], lambda a, b, c: White([a, b, c] + chroma([a, b, c])), pre=total3)
reg(W + 'white_point(white_point&)', ['C08'], lambda o: White(o.v), args={0: AWP('other')})
reg(W + 'white_point()', ['C08'], lambda: White([0] * 6))
reg(W + 'tristimulus_to_chromaticity_coordinate(%s)' % ARR3, ['C08'], lambda t: Nums(chroma(t)), args={0: AArr('tri', 3)}, pre=lambda t: total3(*t))
reg(W + 'chromaticity_coordinate_to_tristimulus(%s,float)' % ARR3, ['C08'], lambda c, Y: Nums([Y * v / c[1] for v in c]), args={0: AArr('chr', 3)}, pre=lambda c, Y: pos([c[1]]))
for i, n in enumerate(model.WHITE_GET): reg(W + n + '()', ['C08'], (lambda i: lambda w: Num(w.v[i]))(i), args=this_wp())
reg(W + 'get_tristimulus()', ['C08'], lambda w: Nums(w.v[:3]), args=this_wp())
reg(W + 'get_chromaticity_coordinate()', ['C08'], lambda w: Nums(w.v[3:]), args=this_wp())
for c in ('', '~const'):
    for op, f in (('==', lambda b: b), ('!=', tm.not_)):
        reg(W + 'operator%s(white_point&)%s' % (op, c), ['C08'], (lambda f: lambda a, b: Bool(f(tm.and_(*[tm.eq(p, q) for p, q in zip(a.v, b.v)]))))(f), args=this_wp(other=AWP('other')))

# CIE 15, chromaticity of the illuminants for the 2 degree and the 10 degree observer
ILL = '''D50 .34567 .35850 .34773 .35952
D55 .33242 .34743 .33411 .34877
D65 .31271 .32902 .31382 .33100
D75 .29902 .31485 .29968 .31740
A .44757 .40745 .45117 .40594
B .34842 .35161 .34980 .35270
C .31006 .31616 .31039 .31905
E .333333 .333333 .333333 .333333
F1 .31310 .33727 .31811 .33559
F2 .37208 .37529 .37925 .36733
F3 .40910 .39430 .41761 .38324
F4 .44018 .40329 .44920 .39074
F5 .31379 .34531 .31975 .34246
F6 .37790 .38835 .38660 .37847
F7 .31292 .32933 .31569 .32960
F8 .34588 .35875 .34902 .35939
F9 .37417 .37281 .37829 .37045
F10 .34609 .35986 .35090 .35444
F11 .38052 .37713 .38541 .37123
F12 .43695 .40441 .44256 .39717'''
WHITES = {}
for l in ILL.split('\n'):
    n, *v = l.split()
    for o, (x, y) in (('2', v[:2]), ('10', v[2:])): WHITES['%s_%sDegree' % (n, o)] = (F('0' + x), F('0' + y))
EPS = F(1, 2000)


def near(a, b, e): return tm.and_(tm.le(a - b, tm.const(e)), tm.le(b - a, tm.const(e)))


def preset(name): return {'this': AObj('this', name, None, '')}


def white_preset(nm):
    """Y = 1, the published chromaticity, and tristimulus values that agree with it"""
    px, py = WHITES[nm]
    want = [px / py, F(1), (1 - px - py) / py, px, py, 1 - px - py]

    def sp(v):
        X, Y, Z, x, y, z = [tm.lift(q) for q in v]
        return [('published', tm.and_(near(x, px, EPS), near(y, py, EPS))), ('Y', near(Y, F(1), F(1, 10 ** 6))), ('z', near(z, tm.ONE - x - y, F(1, 10 ** 5))),
                ('consistent', tm.and_(near(X, x * (X + Y + Z), EPS), near(Y, y * (X + Y + Z), EPS)))]

    def check(x, n, pc, v, obs, ct):
        if not isinstance(v, Ptr) or v.null(): return bad(obs, n + '#nonnull', pc, 'no white point')
        for k, t in sp(model.white_view(x, v)):
            r = prover.prove(pc, t)
            obs.append(ob('%s#%s' % (n, k), r[0], r[1] if r[0] == 'proved' else '', '' if r[0] == 'proved' else tm.show(t)[:300], env={}))

    def conc(res, post, env, se, spaces):
        if res.kind != 'white': return 'a white point expected, gives %r' % res
        b = [k for k, t in sp([F(q) for q in res.v]) if not tm.ev(t, {}, {})]
        return '%s is not %s: %r, published %s' % (nm, ' and not '.join(b), res, ', '.join('%.4f' % q for q in want)) if b else None
    return Out('custom', check=check, conc=conc)


for n in WHITES: reg('white_point_presets::%s()' % n, ['C08'], (lambda n: lambda t: white_preset(n))(n), args=preset('white_point_presets'))


# ------------------------------------------------------------------ gamma: piecewise evaluation
G = 'gamma::'
SIZES = [([], []), ([0], [4]), ([0, 1], [4]), ([0, 1, 2], [4, 5]), ([0], [4, 5, 6]), ([0, -1, 1], [-1, 4])]
SEG = 'gammas of at most three segments per direction (every border, every segment function, every insertion order)'


def distinct(ps):
    """no two segments with the same border (which of them applies is not specified)"""
    ps = [p for p in ps if p.fn]
    return [tm.ne(a.border, b.border) for i, a in enumerate(ps) for b in ps[:i]]


def ok(g, *more): return distinct(g.f + [p for p in more]) + distinct(g.i + [p for p in more])
def gammas(n, sizes=SIZES): return [AGamma(n, f, i) for f, i in sizes]
def parts(n, *ks): return AList(n, [APart('%s%d' % (n, i), k) for i, k in enumerate(ks)])


def g(sig, spec, **k): return reg(G + sig, ['C07'], spec, scope=SEG, **k)


V = 'std::vector<gamma_part*>'
g('gamma()', lambda: GammaOut(curve([]), curve([])))
g('gamma(%s,%s)' % (V, V), lambda f, i: GammaOut(curve(f), curve(i)), args={0: [parts('f'), parts('f', 0), parts('f', 0, 1), parts('f', 0, 1, 2)], 1: [parts('i'), parts('i', 4, 5), parts('i', 4, -1, 5)]},
  pre=lambda f, i: distinct(f) + distinct(i), insts=lambda o: len(o[0].items) < 3 or len(o[1].items) < 3)
g('gamma(gamma&)', lambda o: GammaOut(curve(o.f), curve(o.i)), args={0: gammas('other')}, pre=ok)
g('operator=(gamma&)', lambda t, o: itself(t, GammaOut(curve(o.f), curve(o.i))), args={'this': gammas('this', SIZES[:3]), 0: gammas('other', SIZES[:5])}, pre=lambda t, o: ok(t) + ok(o), modifies=['this'])
g('gamma_correction(float)', lambda t, v: Num(curve(t.f)(v)), args={'this': gammas('this')}, pre=lambda t, v: ok(t))
g('inverse_gamma_correction(float)', lambda t, v: Num(curve(t.i)(v)), args={'this': gammas('this')}, pre=lambda t, v: ok(t))
PARTS = [APart('part', 3), APart('part', -1)]
g('add_gamma_curve_part(gamma_part*)', lambda t, p: Void().after(this=GammaOut(curve(t.f + [p]), curve(t.i))), args={'this': gammas('this', SIZES[:3]), 0: PARTS}, pre=ok, modifies=['this'])
g('add_inverse_gamma_curve_part(gamma_part*)', lambda t, p: Void().after(this=GammaOut(curve(t.f), curve(t.i + [p]))), args={'this': gammas('this', SIZES[:3]), 0: PARTS}, pre=ok, modifies=['this'])
LISTS = [parts('l'), parts('l', 3), parts('l', 7, 8), parts('l', 7, 3, 8)]
g('set_gamma_curve_parts(%s)' % V, lambda t, l: Void().after(this=GammaOut(curve(l), curve(t.i))), args={'this': gammas('this', SIZES[:3]), 0: LISTS}, pre=lambda t, l: ok(t) + distinct(l), modifies=['this'])
g('set_inverse_gamma_curve_parts(%s)' % V, lambda t, l: Void().after(this=GammaOut(curve(t.f), curve(l))), args={'this': gammas('this', SIZES[:3]), 0: LISTS}, pre=lambda t, l: ok(t) + distinct(l), modifies=['this'])

GP = 'gamma_part::'
FUN = 'std::function<float (float)>'


def part_out(border, fn):
    """a segment: its border and its function at 5/8"""
    def check(x, n, pc, v, obs, ct):
        if isinstance(v, Obj): v = Ptr(Cell(v))
        if isinstance(v, Cell): v = Ptr(v)
        eq(obs, n + '#border', pc, model.callm(x, v, 'get_upper_border'), border, ct)
        q = model.callm(x, v, 'get_gamma_function')
        p = tm.var('value')
        if fn: eq(obs, n + '#function', pc, x.val(x.call_func(q, [p])), fn(p), ct)
        elif q.node is None and q.fn is None and q.py is None: obs.append(ob(n + '#function', 'proved', 'exec'))
        else: bad(obs, n + '#function', pc, 'holds a function')
    return Out('custom', check=check, conc=None, alt=ListOf([Num(border), Num(fn(F(5, 8))) if fn else Null()]))


class AFun1(Arg):
    def __init__(self, name, k): self.name, self.k = name, k
    def sym(self, x): return Func(py=lambda x, a, *_: tm.app('segment.%d' % self.k, tm.lift(x.val(a[0])))) if self.k >= 0 else Func()
    def view(self, x, v): return (lambda v: tm.app('segment.%d' % self.k, tm.lift(v))) if self.k >= 0 else None
    def token(self, env, sp): return '%d' % self.k
    def concrete(self, env): return 'function %d' % self.k


AP = {'this': APart('this', 1)}
reg(GP + 'gamma_part()', ['C07'], lambda: part_out(tm.ONE, None))
reg(GP + 'gamma_part(%s,float)' % FUN, ['C07'], lambda f, b: part_out(b, f), args={0: [AFun1('f', 2), AFun1('f', -1)]})
reg(GP + 'gamma_part(gamma_part&)', ['C07'], lambda o: part_out(o.border, o.fn), args={0: [APart('other', 2), APart('other', -1)]})
reg(GP + 'get_upper_border()', ['C07'], lambda t: Num(t.border), args=AP)
reg(GP + 'set_upper_border(float)', ['C07'], lambda t, b: Void().after(this=part_out(b, t.fn)), args=AP, modifies=['this'])
reg(GP + 'set_gamma_function(%s)' % FUN, ['C07'], lambda t, f: Void().after(this=part_out(t.border, f)), args={0: AFun1('f', 2), **AP}, modifies=['this'])
reg(GP + 'operator=(gamma_part&)', ['C07'], lambda t, o: Any().after(this=part_out(o.border, o.fn)), args={0: APart('other', 2), **AP}, modifies=['this'])


for op, f in (('<', tm.lt), ('>', lambda a, b: tm.lt(b, a)), ('<=', tm.le), ('>=', lambda a, b: tm.le(b, a))):
    reg('operator%s(gamma_part&,gamma_part&)' % op, ['C07'], (lambda f: lambda a, b: Bool(f(a.border, b.border)))(f), args={0: APart('a', 1), 1: APart('b', 2)})

# ------------------------------------------------------------------ gamma presets
def pw(v, p): return tm.app('pow', tm.lift(v), tm.lift(p))
def power(e): return (lambda v: pw(v, 1 / F(e)), lambda v: pw(v, F(e)))


def toe(edge, below, above):
    f = lambda v: tm.ite(tm.le(v, tm.const(F(edge))), below(v), above(v))
    f.pieces = [(lambda v: tm.le(v, tm.const(F(edge))), below), (lambda v: tm.lt(tm.const(F(edge)), v), above)]
    return f


def pieces(f): return getattr(f, 'pieces', [(lambda v: tm.TRUE, f)])


PUB = dict(
    gamma1_8=power('1.8'), gamma2_2=power('2.2'), gamma2_6=power('2.6'), gamma2_8=power('2.8'), gammaAdobe=power('2.19921875'),
    sRGB=(toe('0.0031308', lambda v: F('12.92') * v, lambda v: F('1.055') * pw(v, F(5, 12)) - F('0.055')), toe('0.04045', lambda v: v / F('12.92'), lambda v: pw((v + F('0.055')) / F('1.055'), F('2.4')))),
    gammaRomm=(toe('0.001953', lambda v: 16 * v, lambda v: pw(v, F(5, 9))), toe('0.031248', lambda v: v / 16, lambda v: pw(v, F('1.8')))),
    gammaUHDTV=(toe('0.018053968510807', lambda v: F('4.5') * v, lambda v: F('1.099') * pw(v, F('0.45')) - F('0.099')), toe('0.081', lambda v: v / F('4.5'), lambda v: pw((v + F('0.099')) / F('1.099'), F(20, 9)))))
for n, (e, d) in PUB.items():
    reg('gamma_presets::%s()' % n, ['C06'], (lambda e, d: lambda t: GammaOut(e, d, F(0), F(1)))(e, d), args=preset('gamma_presets'))

# ------------------------------------------------------------------ RGB color space definitions
R = 'rgb_color_space_definition::'
PRIM = ['red_x', 'red_y', 'green_x', 'green_y', 'blue_x', 'blue_y']


def cc_of(c):
    cols = [xyz(c[0], c[1]), xyz(c[2], c[3]), xyz(c[4], c[5])]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def transform(c, w):
    """columns: the primaries, scaled so that they add up to the white point"""
    cc = cc_of(c)
    d, a = det(cc), adj(cc)
    s = [sum((a[i][k] * w[k] for k in range(3)), tm.ZERO) / d for i in range(3)]
    return [[cc[i][j] * s[j] for j in range(3)] for i in range(3)]


def inverse(m):
    d = det(m)
    return [[v / d for v in r] for r in adj(m)]


def space_out(c, wp, w, gp):
    c = [tm.lift(v) for v in c]
    m = transform(c, w)
    return SpaceOut(sum((xyz(*c[i:i + 2]) for i in (0, 2, 4)), []) + [v for r in m for v in r] + [v for r in inverse(m) for v in r], same_white=wp, same_gamma=gp)


def regular(c, w): return [tm.ne(det(cc_of(c)), tm.ZERO), tm.ne(det(transform(c, w)), tm.ZERO)]


class AGam(Arg):
    def __init__(self, name): self.name = name
    def sym(self, x): return model.make_obj(x, G + 'gamma()')
    def view(self, x, v): return ObjV(v)
    def token(self, env, sp): return 'g 0 0'
    def concrete(self, env): return 'gamma'


class ASpaceDef(Arg):
    """a definition with arbitrary primaries and white point, built through its constructor"""
    def __init__(self, name):
        self.name = name
        self.w, self.g = AWP(name + '.white'), AGam(name + '.gamma')
        self.c = [(name + '.' + p, F(1, 100), F(9, 10), False) for p in PRIM]
        self.vars = self.c + self.w.vars

    def sym(self, x):
        self.wp, self.gp = self.w.sym(x), self.g.sym(x)
        return model.make_obj(x, R + 'rgb_color_space_definition(float,float,float,float,float,float,white_point*,gamma*)', *([tm.var(*v[:3]) for v in self.c] + [self.wp, self.gp]))

    def view(self, x, v): return ObjV(v, c=[tm.var(*q[:3]) for q in self.c], w=self.w.view(x, self.wp), wp=self.wp, gp=self.gp)
    def token(self, env, sp): return 'd ' + ' '.join(hx(env[v[0]]) for v in self.c) + ' ' + self.w.token(env, sp)
    def state(self, s): return space_out(s.c, s.wp, s.w.v[:3], s.gp)
    def concrete(self, env): return 'definition(%s; white %s)' % (', '.join('%.9g' % env[v[0]] for v in self.c), self.w.concrete(env))


def this_space(**k): return {'this': ASpaceDef('this'), **k}


F6 = 'float,float,float,float,float,float'
reg(R + 'rgb_color_space_definition(%s,white_point*,gamma*)' % F6, ['C09'], lambda *a: space_out(a[:6], a[6], a[6].v[:3], a[7]), args={6: AWP('white'), 7: AGam('gamma')}, pre=lambda *a: regular(a[:6], a[6].v[:3]))
reg(R + 'rgb_color_space_definition(%s,%s,%s,white_point*,gamma*)' % (ARR2, ARR2, ARR2), ['C09'], lambda r, g, b, w, gm: space_out(r + g + b, w, w.v[:3], gm),
    args={0: AArr('red', 2), 1: AArr('green', 2), 2: AArr('blue', 2), 3: AWP('white'), 4: AGam('gamma')}, pre=lambda r, g, b, w, gm: regular(r + g + b, w.v[:3]))
SP = lambda s: regular(s.c, s.w.v[:3])
reg(R + 'rgb_color_space_definition(rgb_color_space_definition&)', ['C09'], lambda o: space_out(o.c, o.wp, o.w.v[:3], o.gp), args={0: ASpaceDef('other')}, pre=SP)
reg(R + 'set_white_point(white_point*)', ['C09'], lambda s, w: Void().after(this=space_out(s.c, w, w.v[:3], s.gp)), args=this_space() | {0: AWP('w2')},
    pre=lambda s, w: SP(s) + regular(s.c, w.v[:3]), modifies=['this'])
reg(R + 'set_gamma_curve(gamma*)', ['C09'], lambda s, g: Void().after(this=space_out(s.c, s.wp, s.w.v[:3], g)), args=this_space() | {0: AGam('g2')}, pre=lambda s, g: SP(s), modifies=['this'])
for i, n in enumerate(model.SPACE_GET): reg(R + n + '()', ['C09'], (lambda i: lambda s: Num(sum((xyz(*s.c[k:k + 2]) for k in (0, 2, 4)), [])[i]))(i), args=this_space())
for i, n in enumerate(('red', 'green', 'blue')): reg(R + 'get_%s_chromaticity_coordinate()' % n, ['C09'], (lambda i: lambda s: Nums(xyz(*s.c[2 * i:2 * i + 2])))(i), args=this_space())
reg(R + 'get_white_point()', ['C09'], lambda s: Same(s.wp), args=this_space(), nodrive=True)
reg(R + 'get_gamma_curve()', ['C09'], lambda s: Same(s.gp), args=this_space(), nodrive=True)
reg(R + 'get_transform_matrix()', ['C09'], lambda s: Mat(transform(s.c, s.w.v[:3])), args=this_space(), pre=SP)
reg(R + 'get_inverse_transform_matrix()', ['C09'], lambda s: Mat(inverse(transform(s.c, s.w.v[:3]))), args=this_space(), pre=SP)

DEFS = '''sRGB .64 .33 .30 .60 .15 .06 D65 sRGB
adobeRGB .64 .33 .21 .71 .15 .06 D65 gammaAdobe
pal_secam .64 .33 .29 .60 .15 .06 D65 gamma2_8
americaNTSC .63 .34 .31 .595 .155 .07 D65 gamma2_2
oldNTSC .67 .33 .21 .71 .14 .08 C gamma2_2
appleRGB .625 .34 .28 .595 .155 .07 D65 gamma1_8
dci_p3 .68 .32 .265 .69 .15 .06 D65 gamma2_6
uhdtv .708 .292 .17 .797 .131 .046 D65 gammaUHDTV
adobeWideGammutRGB .735 .265 .115 .826 .157 .018 D50 gammaAdobe
rommRGB .7347 .2653 .1596 .8404 .0366 .0001 D50 gammaRomm
bestRGB .7347 .2653 .2150 .7750 .1300 .0350 D50 gamma2_2
betaRGB .6888 .3112 .1986 .7551 .1265 .0352 D50 gamma2_2
bruceRGB .64 .33 .28 .65 .15 .06 D65 gamma2_2
colorMatchRGB .63 .34 .295 .605 .15 .075 D50 gamma1_8
donRGB4 .696 .300 .215 .765 .130 .035 D50 gamma2_2
ektaSpacePS5 .695 .305 .26 .70 .11 .005 D50 gamma2_2
ProPhotoRGB .7347 .2653 .1596 .8404 .0366 .0001 D50 gamma1_8
SMPTE_C_RGB .63 .34 .31 .595 .155 .07 D65 gamma2_2
cieRGB .735 .265 .274 .717 .167 .009 E gamma2_2
cieXYZ 1 0 0 1 0 0 E gamma2_2'''


def space_preset(nm, c, wn, gn):
    """the published primaries, white point and gamma; matrices that follow from them"""
    px, py = WHITES[wn + '_2Degree']
    enc, dec = PUB[gn]

    def sp(v, w, ex=tm.lift):
        v, w = [ex(q) for q in v], [ex(q) for q in w]
        want = sum((xyz(*[tm.const(q) for q in c[i:i + 2]]) for i in (0, 2, 4)), [])
        m = transform([tm.const(q) for q in c], w[:3])
        n = inverse(m)
        r = [('primaries', tm.and_(*[near(a, b, 2 * EPS) for a, b in zip(v[:9], want)])), ('white', tm.and_(near(w[3], px, EPS), near(w[4], py, EPS))),
             ('transform matrix', tm.and_(*[near(a, b, F(1, 500)) for a, b in zip(v[9:18], [q for l in m for q in l])])),
             ('inverse matrix', tm.and_(*[near(a, b, F(1, 100)) for a, b in zip(v[18:], [q for l in n for q in l])]))]
        return r

    def check(x, n, pc, v, obs, ct):
        if not isinstance(v, Ptr) or v.null(): return bad(obs, n + '#nonnull', pc, 'no color space')
        vs, w, gm = model.space_view(x, v)
        if any(e is None for e in vs): return bad(obs, n + '#matrix', pc, 'a matrix is not 3x3')
        for k, t in sp(vs, model.white_view(x, w)):
            r = prover.prove(pc, t)
            obs.append(ob('%s#%s' % (n, k), r[0], r[1] if r[0] == 'proved' else '', '' if r[0] == 'proved' else tm.show(t)[:300], env={}))
        check_val(x, n + '#gamma', pc, gm, GammaOut(enc, dec, F(0), F(1)), obs, ct)

    def conc(res, post, env, se, spaces):
        from .. import replay
        if res.kind != 'spacev' or res.white.kind != 'white': return 'a color space expected, gives %r' % res
        b = [k for k, t in sp([F(q) for q in res.v], [F(q) for q in res.white.v]) if not tm.ev(t, {}, {})]
        if b: return '%s: not the published %s: %r, white point %r' % (nm, ', '.join(b), res.v, res.white.v)
        w = replay.matches(res.gamma, [replay.evalout(GammaOut(enc, dec, F(0), F(1)), {}, {})], se, spaces)
        return '%s: %s' % (nm, w) if w else None
    return Out('custom', check=check, conc=conc)


for l in DEFS.split('\n'):
    n, *c = l.split()
    reg('rgb_color_space_definition_presets::%s()' % n, ['C09'], (lambda n, c, w, g: lambda t: space_preset(n, c, w, g))(n, [F('0' + q if q[0] == '.' else q) for q in c[:6]], c[6], c[7]), args=preset('rgb_color_space_definition_presets'))


# ------------------------------------------------------------------ consequences
def goals(obs, nm, pc, hi, lo=None, tol=F(1, 2000)):
    """0 <= hi up to tol"""
    r = prover.prove_split(list(pc), tm.le(-tm.const(tol), hi))
    obs.append(ob(nm, r[0], r[1] if r[0] == 'proved' else '', '' if r[0] == 'proved' else tm.show(hi)[:300]))


def power_facts(terms):
    """monotony of the power function at constants near the segment borders: x >= c implies x^p >= c^p, x <= c implies x^p <= c^p (x >= 0, p > 0)"""
    from mpmath import iv, mpf
    iv.prec = 120
    r = []
    seen = set()
    for t in terms:
        for y in tm.subterms(t):
            if y.op != 'app' or y.a[0] != 'pow' or y.id in seen or not tm.is_const(y.a[2]): continue
            seen.add(y.id)
            p = tm.cval(y.a[2])
            for c in BORDERS:
                q = iv.mpf(c.numerator) / c.denominator
                b = iv.exp(iv.log(q) * (iv.mpf(p.numerator) / p.denominator))
                lo, hi = [F(int(mpf(v) * 2 ** 60) + d, 2 ** 60) for v, d in ((b.a, -1), (b.b, 1))]
                x, y0, c = y.a[1], tm._at(y), tm.const(c)
                r += [tm.or_(tm.lt(x, c), tm.le(tm.const(lo), y0)), tm.or_(tm.lt(c, x), tm.le(y0, tm.const(hi)))]
    return r


EDGES = [(F('0.0031308'), F('0.04045'), F('0.055'), F('1.055')), (F('0.001953'), F('0.031248'), F(0), F(1)), (F('0.018053968510807'), F('0.081'), F('0.099'), F('1.099'))]
BORDERS = [b * k for e, d, a, m in EDGES for b in (e, (d + a) / m) for k in (F(99, 100), 1, F(101, 100))]


@lemma('gamma presets: non-decreasing, 0 to 0, 1 to 1, decoding inverts encoding', 'C06')
def _(ctx):
    obs = []
    u, v = tm.var('u', 0, 1), tm.var('v', 0, 1)
    for n, (e, d) in PUB.items():
        for k, f in (('encode', e), ('decode', d)):
            for p in (0, 1):
                q = f(tm.const(p)) - tm.const(p)
                goals(obs, '%s %s(%d) <= %d' % (n, k, p, p), [], -q)
                goals(obs, '%s %s(%d) >= %d' % (n, k, p, p), [], q)
            goals(obs, '%s %s: non-decreasing' % (n, k), [tm.le(u, v)] + power_facts([f(u), f(v)]), f(v) - f(u))
        for i, (ce, fe) in enumerate(pieces(e)):
            for j, (cd, fd) in enumerate(pieces(d)):
                q = tm.lift(fe(v))
                w = fd(q) - v
                pc = [ce(v), cd(q)] + power_facts([w, q])
                if not prover.feasible(pc, tm.TRUE): continue
                goals(obs, '%s: decode(encode(v)) >= v [%d%d]' % (n, i, j), pc, w)
                goals(obs, '%s: decode(encode(v)) <= v [%d%d]' % (n, i, j), pc, -w)
    return obs


@lemma('the RGB to XYZ matrix maps white to the white point and every primary to its chromaticity', 'C09')
def _(ctx):
    from .matrices import det as det0, adj as adj0
    obs = []
    c = [tm.var('p%d' % i) for i in range(6)]
    w = [tm.var('w%d' % i) for i in range(3)]
    cc = cc_of(c)
    d, a = det0(cc), adj0(cc)
    reg_ = [tm.ne(d, tm.ZERO)]
    s = [sum((a[i][k] * w[k] for k in range(3)), tm.ZERO) / d for i in range(3)]
    m = [[cc[i][j] * s[j] for j in range(3)] for i in range(3)]

    def same(nm, p, q, pc):
        r = prover.prove_eq(pc, p, q, F(1, 10 ** 9))
        obs.append(ob(nm, r[0], r[1] if r[0] == 'proved' else '', '' if r[0] == 'proved' else tm.show(p - q)[:300]))
    for i in range(3): same('M (1,1,1) = white: %s' % 'XYZ'[i], sum(m[i], tm.ZERO), w[i], reg_)
    sj = [tm.var('s%d' % j) for j in range(3)]       # the scale of a primary does not matter
    for j in range(3):
        col = [cc[i][j] * sj[j] for i in range(3)]
        tot = sum(col, tm.ZERO)
        for i in range(2): same('primary %s keeps its %s' % ('RGB'[j], 'xy'[i]), col[i] / tot, cc[i][j], [tm.ne(sj[j], tm.ZERO)])
    return obs
