"""Function contracts over the real code and their verification.

A contract names one function of /repo by its signature and gives its postcondition as a specification function:
from the observed arguments (views) it computes the required outcome, as terms.  Verification runs the real body
(extracted from /repo on every run) on fully symbolic arguments and discharges, on every path, `outcome == spec`,
the definedness side conditions and the frame condition.  Calls to functions that have a modular contract are
replaced by that contract; everything else is inlined."""
import time
from fractions import Fraction
from . import terms as tm
from . import prover
from .terms import T, TRUE, FALSE
from .exec import *
from . import model
from . import loops
from .model import CV, TYPES, ORDER, NS

TOL = Fraction(1, 10 ** 4)


# ---------------------------------------------------------------- outcomes
class Out:
    def __init__(self, kind, **k):
        self.kind = kind
        self.post = {}
        self.__dict__.update(k)

    def unspec(self, *idx):
        """leave channels unspecified"""
        self.un = getattr(self, 'un', ()) + idx
        self.c = [None if i in idx else v for i, v in enumerate(self.c)]
        return self

    def after(self, **post):
        """state of by-reference arguments after the call"""
        self.post.update(post)
        return self


def wrap_hue(h):
    h = tm.lift(h)
    f = tm.app('fmod', h, 360)
    return tm.ite(tm.lt(f, 0), tm.add(f, tm.const(360)), f)


def chan(tkey, i, v):
    t = TYPES[tkey]
    lo, hi = t.ranges[i]
    v = tm.lift(v)
    if t.hue == i: v = wrap_hue(v)
    return tm.clamp(v, lo, hi)


def Color(tkey, comps, alpha, space):
    """a new color: every channel normalised to its documented range"""
    t = TYPES[tkey]
    return Out('color', type=tkey, c=[chan(tkey, i, v) for i, v in enumerate(comps)], alpha=tm.clamp(tm.lift(alpha), 0, t.amax), space=space)


def Num(v): return Out('num', v=tm.lift(v))
def Bool(v): return Out('bool', v=tm.lift(v))
def Throw(*names): return Out('throw', names=['std::' + n for n in names])
def Null(): return Out('null')
def Same(p): return Out('same', p=p)
def Void(): return Out('void')
def ListOf(items): return Out('list', items=items)
def Nums(vs): return Out('list', items=[Num(v) for v in vs])
def Any(): return Out('any')
def White(v): return Out('white', v=[tm.lift(e) for e in v])
def GammaOut(fwd, inv, lo=None, hi=None): return Out('gamma', fwd=fwd, inv=inv, lo=lo, hi=hi)
def SpaceOut(v, white=None, gamma=None, same_white=None, same_gamma=None): return Out('spacev', v=[tm.lift(e) for e in v], white=white, gamma=gamma, same_white=same_white, same_gamma=same_gamma)
def Mat(rows): return Out('matrix', rows=[[tm.lift(v) for v in r] for r in rows])


def ListFn(head, size, fn):
    """a list of symbolic length: the given first elements, then fn(k) at index k"""
    return Out('listfn', head=head, size=tm.lift(size), fn=fn)


def Chain(first, size, step):
    """a list of symbolic length whose every further element is step(the one before)"""
    return Out('chain', first=first, size=tm.lift(size), step=step)


def cases(spec):
    """normalise to [(exclusive condition, outcome)]"""
    if isinstance(spec, Out): return [(TRUE, spec)]
    out = []
    no = TRUE
    for c, o in spec:
        c = tm.lift(c)
        out.append((tm.and_(no, c), o))
        no = tm.and_(no, tm.not_(c))
        if no is FALSE: break
    return out


SPECIAL = (0, 1, -1, 0.5, 0.25, 2, 128, 255, 100, -100, -128, 300, 359, 359.5, 360, 400, 719.75, -1e-3, -30, -360, -400, 1e4, -1e4)


# ---------------------------------------------------------------- arguments of an instance
class Arg:
    vars = ()

    def sym(self, x): raise NotImplementedError
    def view(self, x, v): return v
    def desc(self): return ''
    def spaces(self): return []


class AColor(Arg):
    def __init__(self, name, tkey, space):
        self.name, self.tkey, self.space = name, tkey, space
        t = TYPES[tkey]
        self.vars = [('%s.%d' % (name, i), lo, hi, t.names[i] == 'hue') for i, (lo, hi) in enumerate(t.ranges)] + [(name + '.a', Fraction(0), Fraction(t.amax), False)]

    def sym(self, x):
        x.argv[self.name] = r = model.sym_color(x, self.tkey, self.name, x.space_obj(self.space))
        return r

    def view(self, x, v): return model.view(x, v)
    def desc(self): return self.tkey
    def spaces(self): return [self.space] if self.space else []
    def token(self, env, sp): return 'C %d %s %s %d' % (ORDER.index(self.tkey), ' '.join(hx(env[v[0]]) for v in self.vars[:-1]), hx(env[self.name + '.a']), sp[self.space] if self.space else -1)
    def concrete(self, env): return '%s(%s; alpha %.9g)' % (self.tkey, ', '.join('%.9g' % env[v[0]] for v in self.vars[:-1]), env[self.name + '.a'])


class ASum(AColor):
    """a color that is the result of an addition: an object of the base class that carries the type of its operands"""
    def sym(self, x):
        o = model.sym_color(x, self.tkey, self.name, x.space_obj(self.space))
        z = Ptr(Cell(model.make(x, self.tkey, [tm.ZERO] * TYPES[self.tkey].n, tm.ZERO, model.NULL)))
        r = model.callm(x, o, 'operator+', x.pcell(z))
        x.argv[self.name] = r = r if isinstance(r, Ptr) else Ptr(r if isinstance(r, Cell) else Cell(r, self.name))
        return r

    def desc(self): return self.tkey + ' sum'
    def token(self, env, sp): return 'D' + AColor.token(self, env, sp)[1:]
    def concrete(self, env): return 'sum of %s and zero' % AColor.concrete(self, env)


SUMTYPES = ['rgb_true', 'grey_true', 'hsl']


class AAlias(Arg):
    """the very same object as an earlier argument"""
    def __init__(self, name, of, tkey, idx=0):
        self.name, self.of, self.tkey, self.idx = name, of, tkey, idx

    def sym(self, x): return x.argv[self.of]
    def view(self, x, v): return model.view(x, v)
    def desc(self): return 'same'
    def token(self, env, sp): return 'A %d' % self.idx
    def concrete(self, env): return 'the same object'


class ANull(Arg):
    tkey = None

    def __init__(self, name): self.name = name
    def sym(self, x): return NULL
    def view(self, x, v): return v
    def desc(self): return 'null'
    def token(self, env, sp): return 'N'
    def concrete(self, env): return 'nullptr'


class ANum(Arg):
    def __init__(self, name, lo=None, hi=None, integer=False, special=()):
        self.name, self.lo, self.hi, self.integer = name, lo, hi, integer
        self.vars = [(name, lo, hi, False)]
        self.special = special

    def sym(self, x): return tm.var(self.name, self.lo, self.hi, self.integer)
    def token(self, env, sp): return ('%d' % round(env[self.name])) if self.integer else hx(env[self.name])
    def concrete(self, env): return '%s=%.9g' % (self.name, env[self.name])


class AnyInt(ANum):
    """every value of an int; the concrete side of the contract is exercised by constant instances"""
    def __init__(self, name, drive=None):
        super().__init__(name, -2 ** 31, 2 ** 31 - 1, True)
        self.nodrive = drive is None
        if drive: self.vars = [(name, Fraction(drive[0]), Fraction(drive[1]), False)]
    def desc(self): return 'every %s' % self.name


class AConst(Arg):
    def __init__(self, name, v, tok=None):
        self.name, self.v, self.tok = name, v, tok

    def sym(self, x): return self.v() if callable(self.v) else self.v
    def desc(self): return '%s=%s' % (self.name, str(self.v).lower())
    def token(self, env, sp): return self.tok if self.tok is not None else str(int(self.v))
    def concrete(self, env): return self.desc()


class AFunc2(Arg):
    """an arbitrary function of two floats, handed over by the caller"""
    def __init__(self, name): self.name = name
    def sym(self, x): return Func(py=lambda x, args, *_: tm.app('userblend', *[tm.lift(x.val(a) if hasattr(x, 'val') else a) for a in args]))
    def view(self, x, v): return lambda s, d: tm.app('userblend', tm.lift(s), tm.lift(d))
    def desc(self): return ''
    def token(self, env, sp): return '0'
    def concrete(self, env): return '%s=(s,d)->0.9s^2-0.7sd+0.8d-0.1' % self.name


tm.APPEVAL['userblend'] = lambda s, d: 0.9 * s * s - 0.7 * s * d + 0.8 * d - 0.1


class ASpace(Arg):
    def __init__(self, name): self.name = name
    def sym(self, x): return x.space_obj(self.name)
    def view(self, x, v): return v
    def spaces(self): return [self.name]
    def token(self, env, sp): return '%d' % sp[self.name]
    def concrete(self, env): return 'space'


class AWhite(Arg):
    def __init__(self, name):
        self.name = name
        self.vars = [(name + '.' + k, Fraction(1, 20), Fraction(5), False) for k in 'XYZ']

    def sym(self, x): return Ptr(Cell(model.white_abs(x, self.name)))
    def token(self, env, sp): return 'w ' + ' '.join(hx(env[self.name + '.' + k]) for k in 'XYZ')
    def concrete(self, env): return 'white(%s)' % ', '.join('%.9g' % env[self.name + '.' + k] for k in 'XYZ')


class AWhiteOf(Arg):
    """the very white point of an RGB color space"""
    def __init__(self, name, space):
        self.name, self.space, self.vars = name, space, []

    def sym(self, x):
        o = x.space_obj(self.space).cell.v
        return o.abs['get_white_point'](x, o, [])

    def desc(self): return 'white of ' + self.space
    def token(self, env, sp): return 'of %d' % sp[self.space]
    def concrete(self, env): return 'the white point of the color space'


def white_of(p):
    """(name, X, Y, Z) of an abstract white point"""
    o = p.cell.v
    if not isinstance(o, Obj) or o.abs is None: raise Unsupported('concrete white point in a specification')
    return (o.tag,) + tuple(model.white_terms(o.tag))


def derived_space(sp, wp):
    """the color space of primaries and gamma of sp with white point wp, as a pointer for comparisons"""
    o = Obj(model.NS + 'rgb_color_space_definition')
    o.tag = model.derived(sp.cell.v.tag, wp.cell.v.tag)
    o.abs = {}
    return Ptr(Cell(o))


class AMat(Arg):
    """matrix<float> of a given shape with arbitrary entries"""
    def __init__(self, name, n, m):
        self.name, self.n, self.m = name, n, m
        self.vars = [('%s.%d.%d' % (name, i, j), None, None, False) for i in range(n) for j in range(m)]

    def sym(self, x):
        x.argv[self.name] = r = Ptr(Cell(model.matrix_obj(x, [[tm.var('%s.%d.%d' % (self.name, i, j)) for j in range(self.m)] for i in range(self.n)])))
        return r
    def view(self, x, v): return model.mat_view(x, v)
    def desc(self): return '%dx%d' % (self.n, self.m)
    def token(self, env, sp): return '%d %d %s' % (self.n, self.m, ' '.join(hx(env[v[0]]) for v in self.vars))
    def concrete(self, env): return 'matrix(%s)' % '; '.join(', '.join('%.9g' % env['%s.%d.%d' % (self.name, i, j)] for j in range(self.m)) for i in range(self.n))


class AMatSelf(AAlias):
    """the object itself, given as the other matrix"""
    def __init__(self, name, of, n, m): self.name, self.of, self.n, self.m = name, of, n, m
    def view(self, x, v): return model.mat_view(x, v)
    def token(self, env, sp): return 'S'


class AObj(Arg):
    """a real object of one of the library's classes, built through its own constructor"""
    def __init__(self, name, sig, fields, tok, state=None, v=()):
        self.name, self.sig, self.fields, self.tok, self.vars = name, sig, fields, tok, list(v)
        if state: self.state = state

    def sym(self, x):
        if self.fields is None: return model.default_obj(x, self.sig)
        return model.make_obj(x, self.sig, *[f(x) if callable(f) else f for f in self.fields])
    def token(self, env, sp): return self.tok(env, sp) if callable(self.tok) else self.tok
    def concrete(self, env): return '%s(%s)' % (self.sig.split('::')[0], ', '.join('%s=%.9g' % (v[0], env[v[0]]) for v in self.vars))


class AWP(AObj):
    """a white point with arbitrary, independent tristimulus values and chromaticity"""
    def __init__(self, name):
        vs = [tm.var(name + '.' + k, *r) for k, r in zip(('tx', 'ty', 'tz', 'cx', 'cy'), [(Fraction(1, 20), 5)] * 3 + [(Fraction(1, 20), Fraction(9, 10))] * 2)]
        super().__init__(name, 'white_point::white_point(float,float,float,float,float)', vs, lambda env, sp: 'v ' + ' '.join(hx(env[v[0]]) for v in self.vars), lambda w: White(w.v),
                         [(name + '.' + k, r[0], r[1], False) for k, r in zip(('tx', 'ty', 'tz', 'cx', 'cy'), [(Fraction(1, 20), Fraction(5))] * 3 + [(Fraction(1, 20), Fraction(9, 10))] * 2)])
        self.six = vs + [tm.ONE - vs[3] - vs[4]]

    def view(self, x, v): return ObjV(v, v=self.six)


class ObjV:
    def __init__(self, ptr, **k):
        self.ptr = ptr
        self.__dict__.update(k)


class AArr(Arg):
    """std::array of floats"""
    def __init__(self, name, n, lo=None, hi=None):
        self.name, self.n = name, n
        self.vars = [('%s.%d' % (name, i), lo, hi, False) for i in range(n)]

    def sym(self, x): return Vec('array', None, [Cell(tm.var(*v[:3])) for v in self.vars])
    def view(self, x, v): return [tm.var(*q[:3]) for q in self.vars]
    def token(self, env, sp): return ' '.join(hx(env[v[0]]) for v in self.vars)
    def concrete(self, env): return '%s=(%s)' % (self.name, ', '.join('%.9g' % env[v[0]] for v in self.vars))


class APart(Arg):
    """one curve segment: an arbitrary border and an arbitrary function (or none)"""
    def __init__(self, name, k):
        self.name, self.k = name, k
        self.vars = [(name + '.border', Fraction(0), Fraction(4), False)]

    def fn(self, v): return tm.app('segment.%d' % self.k, tm.lift(v))
    def sym(self, x): return model.make_obj(x, 'gamma_part::gamma_part(std::function<float (float)>,float)', Func(py=lambda x, args, *_: self.fn(x.val(args[0]))) if self.k >= 0 else Func(), tm.var(*self.vars[0][:3]))
    def view(self, x, v): return ObjV(v, border=tm.var(*self.vars[0][:3]), fn=self.fn if self.k >= 0 else None)
    def token(self, env, sp): return '%s %d' % (hx(env[self.vars[0][0]]), self.k)
    def state(self, p): return ListOf([Num(p.border), Num(p.fn(Fraction(5, 8))) if p.fn else Null()])
    def concrete(self, env): return 'segment %d up to %.9g' % (self.k, env[self.vars[0][0]])


class AGamma(Arg):
    """a gamma with the given numbers of segments (-1: a segment without a function) in any order"""
    def __init__(self, name, fwd, inv):
        self.name = name
        self.f = [APart('%s.f%d' % (name, i), k) for i, k in enumerate(fwd)]
        self.i = [APart('%s.i%d' % (name, i), k) for i, k in enumerate(inv)]
        self.vars = [v for p in self.f + self.i for v in p.vars]

    def sym(self, x):
        return model.make_obj(x, 'gamma::gamma(std::vector<gamma_part*>,std::vector<gamma_part*>)', *[Vec('vector', None, [Cell(p.sym(x)) for p in l]) for l in (self.f, self.i)])

    def view(self, x, v): return ObjV(v, f=[p.view(x, None) for p in self.f], i=[p.view(x, None) for p in self.i])
    def desc(self): return '%d+%d segments' % (len(self.f), len(self.i))
    def state(self, g): return GammaOut(curve(g.f), curve(g.i))
    def token(self, env, sp): return 'g ' + ' '.join('%d %s' % (len(l), ' '.join(p.token(env, sp) for p in l)) for l in (self.f, self.i))
    def concrete(self, env): return 'gamma(%s | %s)' % tuple('; '.join(p.concrete(env) for p in l) for l in (self.f, self.i))


for _k in range(9): tm.APPEVAL['segment.%d' % _k] = (lambda k: lambda v: (k + 1) * 0.37 * v + 0.011 * (k * k + 1))(_k)


def curve(parts):
    """the segment with the smallest upper border not below the value; the value itself when no segment covers it"""
    ps = [p for p in parts if p.fn]

    def at(v):
        v = tm.lift(v)
        r = v
        for p in ps:
            best = tm.and_(tm.le(v, p.border), *[tm.or_(tm.lt(q.border, v), tm.le(p.border, q.border)) for q in ps if q is not p])
            r = tm.ite(best, p.fn(v), r)
        return r
    return at


class AList(Arg):
    """std::vector of a fixed length"""
    def __init__(self, name, items, et=None):
        self.name, self.items, self.et = name, items, et
        self.vars = [v for i in items for v in i.vars]

    def sym(self, x): return Vec('vector', self.et, [Cell(i.sym(x)) for i in self.items])
    def view(self, x, v):
        v = x.val(v)
        return [i.view(x, x.rd(c)) for i, c in zip(self.items, v.c)]
    def desc(self): return '[%s]' % ','.join(i.desc() for i in self.items)
    def spaces(self): return [s for i in self.items for s in i.spaces()]
    def token(self, env, sp): return '%d %s' % (len(self.items), ' '.join(i.token(env, sp) for i in self.items))
    def concrete(self, env): return '[%s]' % ', '.join(i.concrete(env) for i in self.items)


class ListV:
    """a list of unknown length seen by a specification"""
    def __init__(self, n, at): self.n, self.at = n, at


def length(l): return l.n if isinstance(l, ListV) else tm.const(len(l))


def item(l, k): return l.at(tm.lift(k)) if isinstance(l, ListV) else l[k]


def total(l, fn):
    """sum of fn over the elements"""
    if isinstance(l, ListV):
        k = tm.var('spec.k', 0, None, True)
        return loops.sum_over(fn(l.at(k)), k, l.n)
    r = tm.ZERO
    for c in l: r = r + fn(c)
    return r


class ASymList(Arg):
    """std::vector of colors of one class, of any length"""
    nodrive = True

    def __init__(self, name, tkey, et=None, lo=0):
        self.name, self.tkey, self.et = name, tkey, et
        self.n = tm.var(name + '.n', lo, 2 ** 31 - 1, True)

    def sym(self, x):
        t = TYPES[self.tkey]

        def make(k):
            ch = []
            for i, (lo, hi) in enumerate(t.ranges):
                tm.APPB['%s[%s].%d' % (self.name, self.tkey, i)] = (Fraction(lo), Fraction(hi))
                ch.append(tm.app('%s[%s].%d' % (self.name, self.tkey, i), k))
            tm.APPB['%s[%s].a' % (self.name, self.tkey)] = (Fraction(0), Fraction(t.amax))
            al = tm.app('%s[%s].a' % (self.name, self.tkey), k)
            p = Ptr(Cell(model.make(x, self.tkey, ch, al, x.space_obj('S0' if k is tm.ZERO else 'S1')), self.name + '[]'))
            v.sym.parts[p.cell] = ch + [al]
            return p
        v = Vec('vector', self.et)
        v.sym = loops.SymList(self.n, make)
        return v

    def long(self, n):
        """a long list, for a concrete search"""
        return AList(self.name, [AColor('%s%d' % (self.name, i), self.tkey, 'S1' if i else 'S0') for i in range(n)], self.et)

    def view(self, x, v):
        v = x.val(v)
        memo = {}

        def at(k):
            if k.id not in memo:
                nd = len(x.defs)
                memo[k.id] = model.view(x, x.rd(v.sym.elem(x, v, k, False)))
                del x.defs[nd:]
            return memo[k.id]
        return ListV(v.sym.size, at)
    def desc(self): return self.tkey + '...'
    def spaces(self): return ['S0', 'S1']


def hx(v):
    import struct
    v = struct.unpack('f', struct.pack('f', max(-3e38, min(3e38, float(v)))))[0]
    return float(v).hex()


# ---------------------------------------------------------------- the verifying executor
class VExec(Exec):
    def reset(self):
        super().reset()
        self.frame = None
        self.frame_viol = []
        self._sp = {}
        self.argv = {}
        self.loop_hook = loops.hook

    def space_obj(self, name):
        if name is None: return NULL
        r = self._sp.get(name)
        if r is None: r = self._sp[name] = model.space_abs(self, name)
        return r


class SpaceV:
    """an abstract RGB color space seen by a specification"""
    def __init__(self, name):
        self.name = name
        self.M, self.N = model.space_terms(name)
        self.w = model.white_terms(model.white_tag(name))
        self.base = model.base_tag(name)

    def gam(self, v): return model.gamma_app(self.base, False, tm.lift(v))
    def igam(self, v): return model.gamma_app(self.base, True, tm.lift(v))

    @property
    def white_xy(self):
        s = self.w[0] + self.w[1] + self.w[2]
        return self.w[0] / s, self.w[1] / s


def space_of(c):
    """space view of a color view"""
    p = c.space if isinstance(c, CV) else c
    if not isinstance(p, Ptr) or p.null(): raise Unsupported('color without an RGB color space')
    o = p.cell.v
    if not isinstance(o, Obj) or o.abs is None: raise Unsupported('concrete color space in a specification')
    return SpaceV(o.tag)


# ---------------------------------------------------------------- registry
TIER = "quick"
CONTRACTS = {}      # normalised signature -> Contract
LEMMA = []          # property level lemmas


class Contract:
    def __init__(self, sig, props, spec, insts=None, modular=False, opaque=None, inline=(), args=None, types=None, pre=None, same_space=False, why=None, ranges=None, bounded=None, samples=None, tol=None, nospace=False, modifies=(), undef=None, nodrive=False, numrange=None, tlimit=None, skipdef=(), helper=False, applied=None, scope=None, tidy=False, sums=False):
        self.sums = sums            # a color_base argument may also be the result of an addition
        self.sig, self.props, self.spec = sig, list(props), spec
        self.name = sig
        self.insts = insts
        self.scope = scope          # sizes the instances are limited to: proved for these, no claim beyond
        self.applied = applied      # what callers get: the postcondition with its formulas behind named functions
        self.modular, self.opaque, self.inline = modular or helper, opaque, frozenset(inline)
        self.helper = helper        # an internal function: its contract is used when it holds on the current code, and dropped (the body inlined) when not
        self.args, self.types, self.pre = args or {}, types or {}, pre
        self.same_space = same_space
        self.ranges = ranges or {}
        self.bounded = bounded
        self.samples = samples
        self.tol = tol or TOL
        self.nospace = nospace
        self.modifies = set(modifies)
        self.tlimit = tlimit
        self.tidy = tidy            # simplify the assumptions of every path and case first
        self.skipdef = frozenset(skipdef)     # definedness kinds that a lemma about the specified formula covers
        self.undef, self.nodrive, self.numrange = undef, nodrive, numrange
        self.key = None

    # ---- instances
    def instances(self, prog):
        f = prog['funs'][self.key]
        lists = []
        if f.get('cls') is not None and not f.get('static') and not f.get('ctor'):
            lists.append(self.choices(prog, 'this', prog['types'][f['cls']], 0))
        for i, p in enumerate(f['params']):
            lists.append(self.choices(prog, p['n'] or 'p%d' % i, prog['types'][p['t']], i, len(f['params'])))
        out = [[]]
        for l in lists: out = [a + [b] for a in out for b in l]
        if self.insts: out = [o for o in out if self.insts(o)]
        if self.sums: out = [o for o in out if not any(isinstance(a, ASum) for a in o) or len({a.tkey for a in o if isinstance(a, AColor)}) == 1]
        return out

    def choices(self, prog, name, t, i, n=0):
        if name in self.args or i in self.args:
            r = self.args[name] if name in self.args else self.args[i]
            r = r(prog) if callable(r) else r
            return r if isinstance(r, list) else [r]
        types = prog['types']
        d = t
        while d['k'] in ('r', 'p'): d = types[d['e']]
        nm = d.get('n', '')
        if d['k'] == 'c' and nm.startswith(NS):
            s = nm[len(NS):]
            if nm in model.BYCLS: return [AColor(name, model.BYCLS[nm].key, self.spname(name))]
            if s == 'color_base':
                ts = self.types.get(name) or ORDER
                return [AColor(name, k, self.spname(name)) for k in ts] + ([ASum(name, k, self.spname(name)) for k in SUMTYPES] if self.sums else [])
            if s == 'rgb_color_space_definition': return [ASpace('S.' + name)]
            if s == 'white_point': return [AWhite(name)]
        if t['k'] == 'b' or (t['k'] == 'r' and d['k'] == 'b'):
            if d['n'] == 'bool': return [AConst(name, False), AConst(name, True)]
            lo, hi = self.ranges.get(name, self.ranges.get(i, (None, None)))
            if d['n'] in ('float', 'double'): return [ANum(name, lo, hi, special=SPECIAL if lo is None else ())]
            return [ANum(name, lo, hi, True, special=(-1, 0, 1, 2, 3, 4, 5, 255) if lo is None else ())]
        if d['k'] == 'e':
            return [AConst(name, a['v']) for a in prog['enums'][nm]['c']]
        raise Unsupported('no symbolic argument for %s: %s' % (name, t['s']))

    @property
    def frames(self): return not self.bounded

    def spname(self, name):
        return None if self.nospace else ('S' if self.same_space else 'S.' + name)

    def has_this(self, prog):
        f = prog['funs'][self.key]
        return f.get('cls') is not None and not f.get('static') and not f.get('ctor')

    # ---- modular use at a call site
    def apply(self, x, this, args):
        f = x.p['funs'][self.key]
        vs = []
        vals = ([this] if self.has_this(x.p) else []) + list(args)
        pts = ([f['cls']] if self.has_this(x.p) else []) + [p['t'] for p in f['params']]
        for v, ti in zip(vals, pts):
            v = x.val(v)
            if isinstance(v, Ptr):
                if v.null(): return x.run(f, this, args)
                o = x.rd(x.pcell(v))
                if isinstance(o, Obj) and o.abs is None and any(b == NS + 'color_base' for b in x.bases(o.cls)):
                    c = model.view(x, v)
                    if not in_range(x, c): return x.run(f, this, args)
                    vs.append(c)
                    continue
                if isinstance(o, Obj) and o.abs is None and o.cls == 'matrix': v = model.mat_view(x, v)
            vs.append(v)
        if self.helper:
            for i, v in enumerate(vs):
                lo, hi = self.ranges.get(i, (None, None))
                if lo is None: continue
                if not isinstance(v, tm.T): v = tm.lift(v)
                a, b = tm.bounds(v)
                if (a is None or a < lo) and not prover.implied(x.pc, tm.le(tm.const(lo), v)) or (b is None or b > hi) and not prover.implied(x.pc, tm.le(v, tm.const(hi))): return x.run(f, this, args)
        sv = x.frame
        try:
            sp = (self.applied or self.spec)(*vs)
        except Unsupported:
            return x.run(f, this, args)
        cs = cases(sp)
        if self.opaque and all(o.kind == 'color' for _, o in cs): cs = [(TRUE, opaque_out(self, vs, cs))]
        o = None
        for c, oc in cs[:-1]:
            if x.decide(c):
                o = oc
                break
        if o is None: o = cs[-1][1]
        x.frame = None
        try:
            return build(x, o)
        finally:
            x.frame = sv


def build(x, o):
    if o.kind == 'color':
        return Ptr(Cell(model.make(x, o.type, o.c, o.alpha, o.space)))
    if o.kind in ('num', 'bool'):
        return o.v
    if o.kind == 'throw': raise CppThrow(Obj(o.names[0]), o.names[0], True)
    if o.kind == 'null': return NULL
    if o.kind == 'same': return o.p.ptr if isinstance(o.p, (CV, model.MatV)) else o.p
    if o.kind == 'void': return None
    if o.kind == 'matrix': return model.matrix_obj(x, o.rows)
    raise Unsupported('modular ' + o.kind)


def in_range(x, c):
    for (lo, hi), v in zip(TYPES[c.type].ranges, c.c):
        v = tm.lift(v)
        a, b = tm.bounds(v)
        if a is not None and a >= lo and b is not None and b <= hi: continue
        if not (prover.implied(x.pc, tm.le(tm.const(lo), v)) and prover.implied(x.pc, tm.le(v, tm.const(hi)))): return False
    return True


# ---------------------------------------------------------------- opaque specification functions
DEFS = tm.DEFS      # app name -> (formal names, term)


def merge_cases(ct, vs, cs):
    """one color outcome with conditional channels; unspecified channels become uninterpreted functions of the arguments"""
    actual = [a for c in vs if isinstance(c, CV) for a in c.c]
    o = cs[-1][1]
    comps = []
    for i in range(TYPES[o.type].n):
        r = None
        for c, q in reversed(cs):
            assert q.type == o.type and q.space is o.space
            v = q.c[i]
            if v is None:
                nm = 'unspec.%s.%d' % (ct.opaque, i)
                tm.APPB[nm] = TYPES[o.type].ranges[i]
                v = tm.app(nm, *actual)
            r = v if r is None else tm.ite(c, v, r)
        comps.append(r)
    return Out('color', type=o.type, c=comps, alpha=o.alpha, space=o.space)


def named(nm, fn, lo=None, hi=None, n=2, dom=(0, 1)):
    """a named specification function of n numbers: compared as a symbol first, unfolded when that does not settle an obligation"""
    fs = ['%s$%d' % (nm, i) for i in range(n)]
    vs = [tm.var(f, *dom) for f in fs]
    term = tm.lift(fn(*vs))
    DEFS[nm] = (fs, term)
    tm.APPB[nm] = (lo, hi)
    keys = [tm.as_atom(v) for v in vs]
    prover.UNFOLD[nm] = lambda *a: tm.rebuild(term, dict(zip(keys, a)), {})
    return lambda *a: tm.app(nm, *[tm.lift(x) for x in a])


def opaque_out(ct, vs, cs):
    """hide the channel formulas behind named specification functions of the argument channels"""
    nm = ct.opaque
    o = merge_cases(ct, vs, cs)
    cvs = [v for v in vs if isinstance(v, CV)]
    actual = [a for c in cvs for a in c.c]
    comps = []
    for i in range(len(o.c)):
        e = o.c[i]
        if tm.is_const(e) or tm.as_atom(e) is not None and tm.as_atom(e).op == 'v' or any(e is a for a in actual):
            comps.append(e)
            continue
        comps.append(define(ct, nm, vs, cvs, i, o.type, actual))
    r = Out('color', type=o.type, c=comps, alpha=o.alpha, space=o.space)
    return r


def define(ct, nm, vs, cvs, i, tkey, actual):
    spn = '+'.join(dict.fromkeys((c.space.cell.v.tag or '?') if isinstance(c.space, Ptr) and not c.space.null() and isinstance(c.space.cell.v, Obj) else '-' for c in cvs))
    base = '%s.%d' % (nm, i)
    full = base + '@' + spn
    for name in (base, full):
        if name in DEFS: return tm.app(name, *actual)
    fv = []
    formals = []
    for k, c in enumerate(cvs):
        t = TYPES[c.type]
        fs = ['%s$%d.%d' % (nm, k, j) for j in range(t.n)]
        formals += fs
        fv.append(CV(c.type, [tm.var(n, lo, hi) for n, (lo, hi) in zip(fs, t.ranges)], tm.ONE, c.space, c.ptr))
    it = iter(fv)
    args = [next(it) if isinstance(v, CV) else v for v in vs]
    term = merge_cases(ct, args, cases(ct.spec(*args))).c[i]
    used = space_dep(term)
    name = full if used else base
    DEFS[name] = (formals, term)
    tm.APPB[name] = TYPES[tkey].ranges[i]
    keys = [tm.as_atom(tm.var(n, lo, hi)) for c in cvs for n, (lo, hi) in zip(['%s$%d.%d' % (nm, cvs.index(c), j) for j in range(TYPES[c.type].n)], TYPES[c.type].ranges)]

    def unf(*a):
        return tm.rebuild(term, dict(zip(keys, a)), {})
    prover.UNFOLD[name] = unf
    return tm.app(name, *actual)


def space_dep(term):
    for y in tm.subterms(term):
        if y.op == 'v' and y.a[0].startswith('S'): return True
        if y.op == 'app' and '@' in y.a[0]: return True
    return False


# ---------------------------------------------------------------- verification of one instance
class Ob(dict):
    pass


def ob(name, status, back='', detail='', env=None, kind='post'):
    return Ob(name=name, status=status, back=back, detail=detail, env=env, kind=kind)


def show_out(o):
    if o.kind == 'color': return '%s(%s; %s)' % (o.type, ', '.join(tm.show(c) for c in o.c), tm.show(o.alpha))
    if o.kind in ('num', 'bool'): return tm.show(o.v)
    if o.kind == 'throw': return 'throw ' + o.names[0]
    return o.kind


def explore_paths(prog, contracts, ct, inst, loop_hook=None, on_path=None, maxpaths=4000):
    """run the real function on the instance's symbolic arguments; on_path is called while the path state is live"""
    x = VExec(prog, RealD(), contracts, maxpaths)
    x.top = ct.key
    x.top_inline = ct.inline
    f = prog['funs'][ct.key]

    def thunk():
        vals = [a.sym(x) for a in inst]
        sv = x.depth
        views = [a.view(x, v) for a, v in zip(inst, vals)]
        if ct.pre is not None:
            for c in ct.pre(*views): x.assume(c)
        ht = ct.has_this(prog)
        x.frame = nstamp()
        x.writes = {}
        this = vals[0] if ht else None
        args = vals[1:] if ht else vals
        cargs = []
        for a, p in zip(args, f['params']):
            pt = prog['types'][p['t']]
            if pt['k'] == 'r' and isinstance(a, Ptr) and prog['types'][pt['e']]['k'] != 'p': a = x.pcell(a)
            cargs.append(Cell(a) if pt['k'] == 'r' and not isinstance(a, Cell) else a)
        fr = nstamp()
        x.frame = fr
        exc = None
        res = None
        try:
            if f.get('ctor'):
                res = x.construct(f['cls'], ct.key, cargs)
            else:
                res = x.run0(f, this, cargs)
        except CppThrow as e:
            exc = e
        except UB as e:
            return on_path(x, views, vals, ('ub', str(e)))
        x.frame = None
        if isinstance(res, Cell): res = x.rd(res) if prog['types'][f['ret']]['k'] == 'r' and False else res
        return on_path(x, views, vals, ('throw', exc) if exc else ('ret', res))
    n = 0
    for r in x.explore(thunk):
        n += 1
        yield r
    x.npaths = n
    explore_paths.last = x


def verify(prog, contracts, ct, inst, tlimit=60, frames_only=False):
    """list of obligations for one contract instance; where the code compares the addresses of two given colors, also with both being the
    same object (unless the contract has such instances of its own)"""
    pairs = set()
    obs, info = verify1(prog, contracts, ct, inst, tlimit, frames_only, pairs)
    info['alias'] = []
    if not pairs or any(isinstance(a, AAlias) for i in ct.instances(prog) for a in i): return obs, info
    for a, b in sorted(pairs)[:12]:
        i2 = aliased(inst, a, b)
        if i2 is None: continue
        o2, f2 = verify1(prog, contracts, ct, i2, tlimit, frames_only, set())
        obs += o2
        info['alias'].append((i2, o2))
        for k in ('wall', 'paths'): info[k] += f2[k]
        for k in ('used', 'inlined'): info[k] |= f2[k]
    return obs, info


def flat(inst):
    for a in inst:
        if isinstance(a, AList): yield from flat(a.items)
        else: yield a


def aliased(inst, a, b):
    """the instance in which the later of the colors a and b is the very object that is the earlier one"""
    cols = [c for c in flat(inst) if isinstance(c, AColor)]
    two = [(i, c) for i, c in enumerate(cols) if c.name in (a, b)]
    if len(two) != 2 or two[0][1].tkey != two[1][1].tkey: return None
    (i, p), (_, q) = two

    def sub(c):
        if c is q: return AAlias(q.name, p.name, p.tkey, i)
        return AList(c.name, [sub(d) for d in c.items], c.et) if isinstance(c, AList) else c
    return [sub(c) for c in inst]


def verify1(prog, contracts, ct, inst, tlimit, frames_only, pairs):
    obs = []
    t0 = time.time()
    nm = ct.sig.split('(')[0] + ('[%s]' % ';'.join(d for d in (a.desc() for a in inst) if d))
    vac = [0]
    used = set()
    inl = set()

    def on_path(x, views, vals, r):
        used.update(x.used_contracts)
        inl.update(x.inlined)
        if x.aliasq:
            who = {v.cell: n for n, v in x.argv.items() if isinstance(v, Ptr)}
            pairs.update(tuple(sorted((who[p], who[q]))) for p, q in x.aliasq if p in who and q in who)
        pc = list(x.pc)
        writes = dict(x.writes)
        x.writes = {}
        x.frame = None
        vac[0] += 1
        if r[0] == 'ub' and not frames_only:
            obs.append(ob('%s#defined' % nm, 'refuted', detail='undefined behaviour: ' + r[1], env=some_model(pc), kind='ub'))
            return
        if frames_only:
            check_frame(x, nm, pc, writes, vals, inst, obs, ct)
            for v in x.frame_viol:
                obs.append(ob('%s#frame' % nm, 'refuted', detail=v, kind='frame', env=some_model(pc)))
            return
        # definedness
        undef = tm.lift(ct.undef(*views)) if ct.undef else FALSE
        seen = set()
        for dpc, kind, t, line, fn, depth in x.defs:
            if not isinstance(t, T) or kind in ct.skipdef: continue
            if kind == 'div': g = tm.ne(t, tm.ZERO)
            elif kind == 'log': g = tm.lt(tm.ZERO, t)
            elif kind == 'index': g = t
            elif kind == 'exp': g = tm.le(t, tm.const(88))
            elif kind == 'fsqrt':
                k = ('f', t.id)
                if k in dcache: continue
                dcache.add(k)
                obs.append(ob('%s#finite(sqrt in %s)' % (nm, fn), 'unknown', detail='the argument of sqrt can be rounded below zero in %s line %s: %s' % (fn, line, tm.show(t)), kind='def'))
                continue
            else: g = tm.le(tm.ZERO, t)
            if g is TRUE: continue
            k = (g.id, tuple(y.id for y in dpc))
            if k in seen: continue
            seen.add(k)
            kk = (tuple(sorted(y.id for y in dpc)), g.id)
            if kk in dcache: continue
            dcache.add(kk)
            q = prover.prove_split(list(dpc) + ([tm.not_(undef)] if undef is not FALSE else []), g)
            obs.append(ob('%s#finite(%s in %s)' % (nm, kind, fn), q[0], q[1] if q[0] == 'proved' else '', detail='%s in %s line %s: %s' % (kind, fn, line, tm.show(g)), env=q[1] if q[0] != 'proved' else None, kind='def'))
        try:
            spec = ct.spec(*views)
        except Unsupported as e:
            obs.append(ob('%s#spec' % nm, 'unsupported', detail=str(e)))
            return
        done = False
        for c, o in cases(spec):
            if c is FALSE or not prover.feasible(pc, c, 2000): continue
            p2 = pc + ([c] if c is not TRUE else [])
            if ct.tidy:
                p2 = prover.tidy(p2)
                if p2 is None or not prover.feasible(p2, TRUE, 2000): continue
            check(x, nm, p2, r, o, obs, ct, inst)
            if o.kind == 'color' and r[0] == 'ret': check_fresh(x, nm, p2, r[1], vals, obs)
            for pn, want in o.post.items():
                check_post(x, nm, p2, pn, want, inst, vals, obs, ct)
        # frame
        check_frame(x, nm, pc, writes, vals, inst, obs, ct)
        for v in x.frame_viol:
            obs.append(ob('%s#frame' % nm, 'refuted', detail=v, kind='frame', env=some_model(pc)))
    dcache = set()
    err = None
    try:
        for _ in explore_paths(prog, contracts, ct, inst, on_path=on_path):
            if time.time() - t0 > tlimit:
                err = 'time limit'
                break
    except (Unsupported, NeedFork) as e:
        err = 'unsupported: ' + str(e)
    except PathLimit as e:
        err = str(e)
    except tm.TooBig:
        err = 'terms too large'
    except RecursionError:
        err = 'recursion'
    except TimeoutError:
        err = 'time limit'
    if err: obs.append(ob('%s#reach' % nm, 'unsupported', detail=err, kind='reach'))
    if vac[0] == 0 and not err: obs.append(ob('%s#reachable' % nm, 'unsupported', detail='no feasible path', kind='vacuous'))
    return obs, dict(wall=time.time() - t0, used=used, inlined=inl, paths=vac[0])


def some_model(pc):
    if not pc: return {}
    r = prover.z3check(list(pc), 3000, want_model=True)
    return r[1] or {}


def eqob(obs, name, pc, a, b, ct, kind='post'):
    a, b = tm.lift(a), tm.lift(b)
    if a.sort == 'B' or b.sort == 'B':
        r = prover.prove_split(pc, tm.iff(a, b))
    else:
        r = prover.prove_eq(pc, a, b, ct.tol)
    obs.append(ob(name, r[0], r[1] if r[0] == 'proved' else '', detail='' if r[0] == 'proved' else 'code: %s\nspec: %s\nunder: %s' % (tm.show(a)[:1500], tm.show(b)[:1500], '; '.join(tm.show(p) for p in pc)[:1500]), env=r[1] if r[0] != 'proved' and isinstance(r[1], dict) else None, kind=kind))


def bad(obs, name, pc, detail, kind='post', **k):
    obs.append(ob(name, 'refuted', detail=detail + '\nunder: ' + '; '.join(tm.show(p) for p in pc)[:1500], env=some_model(pc), kind=kind))


def check(x, nm, pc, r, o, obs, ct, inst):
    if o.kind == 'any': return
    if o.kind == 'throw':
        if r[0] != 'throw': return bad(obs, nm + '#throws', pc, 'must throw %s, returns' % o.names[0])
        e = r[1]
        if e.tname not in o.names and not any(n in exc_bases(e.tname) for n in o.names): return bad(obs, nm + '#throws', pc, 'must throw %s, throws %s' % (o.names[0], e.tname))
        obs.append(ob(nm + '#throws', 'proved', 'exec'))
        return
    if r[0] == 'throw': return bad(obs, nm + '#returns', pc, 'must not throw, throws ' + r[1].tname)
    v = r[1]
    check_val(x, nm, pc, v, o, obs, ct)


def check_val(x, nm, pc, v, o, obs, ct):
    if o.kind == 'void':
        return
    ref = v if isinstance(v, Cell) else None
    if ref is not None: v = x.rd(v)
    if o.kind == 'null':
        if isinstance(v, Ptr) and v.null(): obs.append(ob(nm + '#null', 'proved', 'exec'))
        else: bad(obs, nm + '#null', pc, 'must return null')
        return
    if o.kind == 'same':
        want = o.p.ptr if isinstance(o.p, (CV, model.MatV)) else o.p
        if isinstance(v, Ptr) and isinstance(want, Ptr) and (v.same(want) or (v.cell is not None and want.cell is not None and v.cell.v is want.cell.v)): obs.append(ob(nm + '#same', 'proved', 'exec'))
        else: bad(obs, nm + '#same', pc, 'must return the given object')
        return
    if o.kind in ('num', 'bool'):
        if isinstance(v, (Ptr, Obj, Vec)): return bad(obs, nm + '#value', pc, 'unexpected result %r' % (v,))
        eqob(obs, nm + '#value', pc, v, o.v, ct)
        return
    if o.kind == 'list':
        if not isinstance(v, Vec): 
            if isinstance(v, Ptr): v = x.rd(x.pcell(v))
        if not isinstance(v, Vec): raise Unsupported('list result %r' % (v,))
        if len(v.c) != len(o.items): return bad(obs, nm + '#size', pc, 'returns %d elements, %d expected' % (len(v.c), len(o.items)))
        obs.append(ob(nm + '#size', 'proved', 'exec'))
        for i, (c, w) in enumerate(zip(v.c, o.items)): check_val(x, '%s#%d' % (nm, i), pc, x.rd(c), w, obs, ct)
        return
    if o.kind in ('white', 'gamma', 'spacev'):
        if not isinstance(v, Ptr): v = Ptr(v) if isinstance(v, Cell) else Ptr(ref if ref is not None else Cell(v))
        if getattr(o, 'same', None) is not None and not (v.cell is not None and (v.cell is o.same.ptr.cell or v.cell.v is o.same.ptr.cell.v)): bad(obs, nm + '#same', pc, 'must return the object itself')
        if v.null(): return bad(obs, nm + '#nonnull', pc, 'returns null')
        if o.kind == 'white':
            for n, a, b in zip(model.WHITE_GET, model.white_view(x, v), o.v): eqob(obs, '%s#%s' % (nm, n[4:]), more(x, pc), a, b, ct)
        elif o.kind == 'spacev':
            vs, w, g = model.space_view(x, v)
            if any(e is None for e in vs): return bad(obs, nm + '#size', pc, 'a matrix is not 3x3')
            names = model.SPACE_GET + ['%s%d%d' % (k, i, j) for k in ('transform', 'inverse') for i in range(3) for j in range(3)]
            for n, a, b in zip(names, vs, o.v): eqob(obs, '%s#%s' % (nm, n), more(x, pc), a, b, ct)
            for what, p, q, s in (('white', w, o.white, o.same_white), ('gamma', g, o.gamma, o.same_gamma)):
                if s is not None:
                    want = s.ptr if isinstance(s, ObjV) else s
                    if isinstance(p, Ptr) and not p.null() and (p.cell is want.cell or p.cell.v is want.cell.v): obs.append(ob('%s#%s' % (nm, what), 'proved', 'exec'))
                    else: bad(obs, '%s#%s' % (nm, what), pc, 'must hold the given ' + what)
                if q is not None: check_val(x, '%s#%s' % (nm, what), more(x, pc), p, q, obs, ct)
        else:
            p = tm.var('value', o.lo, o.hi)
            for n, f in (('gamma_correction', o.fwd), ('inverse_gamma_correction', o.inv)):
                r = x.val(model.callm(x, v, n, p))
                eqob(obs, '%s#%s' % (nm, n), more(x, pc), r, f(p), ct)
        return
    if o.kind == 'matrix':
        if getattr(o, 'same', None) is not None and not (ref is not None and ref is o.same.ptr.cell): bad(obs, nm + '#same', pc, 'must return the object itself')
        try:
            m = model.mat_view(x, v)
        except UB as e:
            return bad(obs, nm + '#defined', pc, 'undefined result: ' + str(e), kind='ub')
        except CppThrow as e:
            return bad(obs, nm + '#size', pc, 'the elements of the result cannot be read: ' + e.tname)
        if (m.n, m.m) != (len(o.rows), len(o.rows[0]) if o.rows else 0): return bad(obs, nm + '#size', pc, 'returns %dx%d, %dx%d expected' % (m.n, m.m, len(o.rows), len(o.rows[0]) if o.rows else 0))
        obs.append(ob(nm + '#size', 'proved', 'exec'))
        for i, r in enumerate(o.rows):
            for j, e in enumerate(r): eqob(obs, '%s#%d,%d' % (nm, i, j), pc, m.rows[i][j], e, ct)
        return
    if o.kind in ('listfn', 'chain'): return check_list(x, nm, pc, v, o, obs, ct)
    if o.kind == 'color':
        if isinstance(v, Ptr) and v.null(): return bad(obs, nm + '#nonnull', pc, 'returns null')
        if isinstance(v, Obj): v = Ptr(Cell(v))
        if not isinstance(v, Ptr): raise Unsupported('color result %r' % (v,))
        x.pc = list(pc)
        try:
            c = model.view(x, v)
        except UB as e:
            return bad(obs, nm + '#defined', pc, 'undefined result: ' + str(e), kind='ub')
        if o.type is not None:
            if c.type != o.type: return bad(obs, nm + '#type', pc, 'returns a %s, %s expected' % (c.type, o.type))
            obs.append(ob(nm + '#type', 'proved', 'exec'))
        if o.c is not None:
            names = TYPES[c.type].names
            if len(c.c) != len(o.c): return bad(obs, nm + '#type', pc, 'component count')
            for i in range(len(c.c)):
                if o.c[i] is not None: eqob(obs, '%s#%s' % (nm, names[i]), pc, c.c[i], o.c[i], ct)
        if o.alpha is not None: eqob(obs, nm + '#alpha', pc, c.alpha, o.alpha, ct)
        if o.space is not None:
            if isinstance(c.space, Ptr) and (c.space.same(o.space) or (c.space.cell is not None and o.space.cell is not None and (c.space.cell.v is o.space.cell.v or derived_same(c.space.cell.v, o.space.cell.v)))): obs.append(ob(nm + '#space', 'proved', 'exec'))
            else: bad(obs, nm + '#space', pc, 'result does not carry the expected RGB color space')
        return
    if o.kind == 'custom':
        return o.check(x, nm, pc, v, obs, ct)
    raise Unsupported('outcome ' + o.kind)


def derived_same(a, b):
    """two spaces that are not inputs and agree in primaries, gamma and white point"""
    return isinstance(a, Obj) and isinstance(b, Obj) and a.abs is not None and b.abs is not None and a.tag == b.tag and '~' in a.tag


def more(x, pc):
    """pc and the decisions made while the result was looked at"""
    have = {p.id for p in pc}
    return list(pc) + [p for p in x.pc if p.id not in have]


def check_list(x, nm, pc, v, o, obs, ct):
    if isinstance(v, Ptr): v = x.rd(x.pcell(v))
    if not isinstance(v, Vec): raise Unsupported('list result %r' % (v,))
    g = v.sym
    if g is None:
        eqob(obs, nm + '#size', pc, tm.const(len(v.c)), o.size, ct)
        items, k = v.c, None
    else:
        if not isinstance(g, loops.Growing) or v.c: raise Unsupported('list result')
        eqob(obs, nm + '#size', pc, g.size, o.size, ct)
        items, k = g.prefix, g.k
    prev = None
    for i, c in enumerate(items):
        e = x.rd(c)
        if o.kind == 'listfn': w = o.head[i] if i < len(o.head) else o.fn(tm.const(i))
        else: w = o.first if i == 0 else o.step(prev)
        check_val(x, '%s#%d' % (nm, i), pc, e, w, obs, ct)
        if o.kind == 'chain': prev = model.view(x, e)
    if g is None: return
    if o.kind == 'listfn':
        if len(g.prefix) < len(o.head): raise Unsupported('list result')
        n = tm.add(k, tm.const(len(g.prefix)))
        p2 = pc + [tm.le(tm.ZERO, k), tm.lt(k, g.count)]
        check_val(x, nm + '#k', p2, x.rd(g.tail), o.fn(n), obs, ct)
    else:
        if g.last is None: raise Unsupported('list result')
        check_val(x, nm + '#next', pc + [tm.le(tm.ZERO, k), tm.lt(k, g.count)], x.rd(g.tail), o.step(model.view(x, x.rd(g.last))), obs, ct)


def check_post(x, nm, pc, pn, want, inst, vals, obs, ct):
    for a, v in zip(inst, vals):
        if a.name == pn:
            check_val(x, nm + '#post.' + pn, pc, v, want, obs, ct)


def reach(x, v, acc):
    """cells and containers reachable from a value"""
    if isinstance(v, Cell):
        if v in acc: return
        acc.add(v)
        reach(x, v.v, acc)
    elif isinstance(v, Ptr):
        if v.cell is not None: reach(x, v.cell, acc)
        if v.arr is not None: reach(x, v.arr, acc)
    elif isinstance(v, Obj):
        for c in v.f.values(): reach(x, c, acc)
    elif isinstance(v, Vec):
        if v in acc: return
        acc.add(v)
        for c in v.c: reach(x, c, acc)


def own_cells(x, v):
    """the mutable state a color owns (its color space is shared by design)"""
    acc = set()
    if isinstance(v, Cell): v = v.v
    if isinstance(v, Ptr): v = v.cell.v if v.cell is not None else None
    if not isinstance(v, Obj): return acc
    for n, c in v.f.items():
        if isinstance(c.v, Ptr): acc.add(c)
        else: reach(x, c, acc)
    return acc


def check_fresh(x, nm, pc, v, vals, obs):
    """a resulting color shares no state with the colors that were given"""
    mine = own_cells(x, v)
    for q in vals:
        if isinstance(q, Vec): qs = [c.v for c in q.c]
        else: qs = [q]
        for q in qs:
            if mine & own_cells(x, q): return bad(obs, nm + '#fresh', pc, 'the result shares state with an input', kind='frame')
    obs.append(ob(nm + '#fresh', 'proved', 'exec', kind='frame'))


def check_frame(x, nm, pc, writes, vals, inst, obs, ct):
    allowed = set()
    for a, v in zip(inst, vals):
        if a.name in ct.modifies: reach(x, v, allowed)
    n = 0
    for c, old in writes.items():
        if c in allowed: continue
        n += 1
        if isinstance(c, Vec):
            if [id(q) for q in c.c] == [id(q) for q in old]: continue
            bad(obs, nm + '#frame', pc, 'a container of an input is changed', kind='frame')
            continue
        new = c.v
        if new is old: continue
        if isinstance(new, (T, int, bool, Fraction)) and isinstance(old, (T, int, bool, Fraction)):
            r = prover.prove_eq(pc, new, old, ct.tol) if tm.lift(new).sort != 'B' else prover.prove(pc, tm.iff(new, old))
            if r[0] != 'proved':
                obs.append(ob(nm + '#frame', r[0], detail='input field %s: %s becomes %s' % (c.name, tm.show(tm.lift(old))[:300], tm.show(tm.lift(new))[:300]), env=r[1] if isinstance(r[1], dict) else None, kind='frame'))
                continue
        elif isinstance(new, Ptr) and isinstance(old, Ptr) and new.same(old): continue
        else:
            bad(obs, nm + '#frame', pc, 'field %s of an input is changed' % c.name, kind='frame')
            continue
        obs.append(ob(nm + '#frame', 'proved', 'nf', kind='frame'))
    if not n: obs.append(ob(nm + '#frame', 'proved', 'exec', kind='frame'))


# ---------------------------------------------------------------- declaring
def contract(sig, *props, **k):
    def deco(fn):
        CONTRACTS[model.norm_sig(sig)] = Contract(sig, props, fn, **k)
        return fn
    return deco


def settle_helpers(prog, by, props=None):
    """internal functions whose contract does not hold on the current code are inlined in their callers instead"""
    for k, c in list(by.items()):
        if not c.helper or props and not set(props) & set(c.props): continue
        try:
            ok = all(o['status'] == 'proved' for inst in c.instances(prog) for o in verify(prog, by, c, inst)[0])
        except Exception: ok = False
        if not ok: del by[k]


def resolve(prog):
    """bind contracts to the functions of the current tree; returns (by key, unresolved)"""
    by, miss = {}, []
    model.ENUM.update({v: k for k, v in model.enum_values(prog).items()})
    for s, c in CONTRACTS.items():
        k = model.find(prog, s)
        if k is None:
            if not c.helper: miss.append(c)
            continue
        c.key = k
        by[k] = c
    return by, miss
