"""Contracts of color_base and the 15 color classes: construction, channels, alpha, copying, comparing, adding, alpha scaling, gamma."""
from fractions import Fraction
from .. import terms as tm
from ..contract import *
from ..model import CV, TYPES, ORDER
from ..terms import TRUE

F = Fraction
CB = 'color_base::'


def reg(sig, props, spec, **k):
    c = Contract(sig, props, spec, **k)
    CONTRACTS[model.norm_sig(sig)] = c
    return c


def state(c, comps=None, alpha=None, space=None):
    """the color c with some parts replaced"""
    return Out('color', type=c.type, c=list(comps if comps is not None else c.c), alpha=c.alpha if alpha is None else alpha, space=c.space if space is None else space)


def with_channel(c, i, v): return state(c, [v if j == i else q for j, q in enumerate(c.c)])


def limit(t, i, v):
    lo, hi = t.ranges[i]
    return tm.clamp(tm.lift(v), lo, hi)


# ------------------------------------------------------------------ the classes
for k in ORDER:
    t = TYPES[k]
    fl = ','.join(['float'] * (t.n + 1))
    reg('%s::%s(%s,rgb_color_space_definition*)' % (t.short, t.short, fl), ['C01', 'C02'], (lambda k, n: lambda *a: Color(k, a[:n], a[n], a[n + 1]))(k, t.n))
    if k in ('rgb_true', 'rgb_deep'):
        reg('%s::%s(float,float,rgb_color_space_definition*)' % (t.short, t.short), ['C01', 'C02'], (lambda k: lambda v, a, s: Color(k, [v] * 3, a, s))(k))
    reg('%s::%s(%s&)' % (t.short, t.short, t.short), ['C03'], lambda o: state(o))
    reg('%s::%s(color_base&)' % (t.short, t.short), ['C03'], (lambda k: lambda o: state(o) if o.type == k else Throw('invalid_argument'))(k), sums=True)
    reg('%s::operator=(%s&)' % (t.short, t.short), ['C03'], (lambda k: lambda c, o: Any().after(this=Out('color', type=k, c=list(o.c), alpha=None, space=None)))(k), modifies=['this'])
    for i, n in enumerate(t.names):
        reg('%s::%s()' % (t.short, n), ['C02'], (lambda i: lambda c: Num(c.c[i]))(i))
        reg('%s::%s(float)' % (t.short, n), ['C01', 'C02'], (lambda k, i: lambda c, v: Void().after(this=with_channel(c, i, chan(k, i, v))))(k, i), modifies=['this'])


# ------------------------------------------------------------------ color_base
def by_index(c, idx, some, none):
    return [(tm.eq(idx, tm.const(i)), some(i)) for i in range(len(c.c))] + [(TRUE, none)]


reg(CB + 'get_component(int)', ['C02'], lambda c, i: by_index(c, i, lambda j: Num(c.c[j]), Throw('out_of_range')), sums=True)
reg(CB + 'set_component(float,int)', ['C01', 'C02'], lambda c, v, i: by_index(c, i, lambda j: Void().after(this=with_channel(c, j, limit(TYPES[c.type], j, v))), Throw('out_of_range').after(this=state(c))), modifies=['this'], sums=True)
reg(CB + 'set_component(float,int,float,float)', ['C02'], lambda c, v, i, hi, lo: by_index(c, i, lambda j: Void().after(this=with_channel(c, j, tm.fmax(tm.fmin(tm.lift(v), tm.lift(hi)), tm.lift(lo)))), Throw('out_of_range').after(this=state(c))), modifies=['this'],
    pre=lambda c, v, i, hi, lo: [tm.le(tm.lift(lo), tm.lift(hi))])
reg(CB + 'get_component_vector()', ['C02'], lambda c: Nums(c.c), sums=True)
reg(CB + 'get_color_type()', ['C02'], lambda c: Num(tm.const(next(v for v, n in model.ENUM.items() if n == TYPES[c.type].enum))), sums=True)
reg(CB + 'get_rgb_color_space()', ['C02'], lambda c: Same(c.space), sums=True)
reg(CB + 'set_rgb_color_space(rgb_color_space_definition*)', ['C02'], lambda c, s: Void().after(this=state(c, space=s)), modifies=['this'], sums=True)
ONE = [k for k in ORDER if TYPES[k].amax == 1]
for cls, ts in ((CB, ONE), ('rgb_truecolor::', ['rgb_true']), ('grey_truecolor::', ['grey_true'])):
    reg(cls + 'alpha()', ['C02'], lambda c: Num(c.alpha), types=dict(this=ts), sums=True)
    reg(cls + 'alpha(float)', ['C01', 'C02'], lambda c, v: Void().after(this=state(c, alpha=tm.clamp(tm.lift(v), 0, TYPES[c.type].amax))), types=dict(this=ts), modifies=['this'], sums=True)


def equal(a, b):
    if a.type != b.type: return tm.FALSE
    return tm.and_(*[tm.eq(x, y) for x, y in zip(a.c, b.c)])


reg('operator==(color_base&,color_base&)', ['C03'], lambda a, b: Bool(equal(a, b)), sums=True)
reg('operator!=(color_base&,color_base&)', ['C03'], lambda a, b: Bool(tm.not_(equal(a, b))), sums=True)
reg(CB + 'operator=(color_base&)', ['C03'], lambda c, o: Any().after(this=Out('color', type=o.type, c=list(o.c), alpha=None, space=None)), modifies=['this'], insts=lambda i: i[0].tkey == i[1].tkey)


@contract(CB + 'operator+(color_base&)', 'C01', 'C04', sums=True)
def _(a, b):
    if a.type != b.type: return Throw('invalid_argument')
    return Out('color', type=a.type, c=[limit(TYPES[a.type], i, x + y) for i, (x, y) in enumerate(zip(a.c, b.c))], alpha=a.alpha, space=a.space)


@contract(CB + 'alpha_multiply()', 'C04', modifies=['this'], sums=True)
def _(c):
    a = c.alpha / TYPES[c.type].amax
    return Void().after(this=state(c, [v * a for v in c.c]))


@contract(CB + 'alpha_divide()', 'C01', 'C04', modifies=['this'], sums=True)
def _(c):
    a = c.alpha / TYPES[c.type].amax
    z = tm.eq(c.alpha, tm.ZERO)
    return Void().after(this=state(c, [tm.ite(z, v, limit(TYPES[c.type], i, v / a)) for i, v in enumerate(c.c)]))


for inv in (False, True):
    reg(CB + ('do_inverse_gamma_correction()' if inv else 'do_gamma_correction()'), ['C07'],
        (lambda inv: lambda c: Void().after(this=state(c, [limit(TYPES[c.type], i, space_of(c).igam(v) if inv else space_of(c).gam(v)) for i, v in enumerate(c.c)])))(inv), modifies=['this'], sums=True)
