"""Terms of the Real-mode verifier.

A numeric term is kept as a polynomial with rational coefficients over *atoms* (variables, function
applications, if-then-else, min/max, reciprocals).  Everything is hash-consed, so syntactic equality of
normalised terms is object identity.  The normal form is the first of the proof back ends.
"""
from fractions import Fraction
import math

_tab = {}
_ids = [0]


class T:
    __slots__ = ('key', 'id', 'op', 'a', 'sort', '_b', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar, used by the specifications
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return mul(const(-1), s)
    def __pow__(s, n): return powi(s, n)
    def __lt__(s, o): return lt(s, lift(o))
    def __le__(s, o): return le(s, lift(o))
    def __gt__(s, o): return lt(lift(o), s)
    def __ge__(s, o): return le(lift(o), s)
    def __bool__(s):
        if s is TRUE: return True
        if s is FALSE: return False
        raise TypeError('symbolic truth value: ' + show(s))
    def __and__(s, o): return and_(s, lift(o))
    def __or__(s, o): return or_(s, lift(o))
    def __invert__(s): return not_(s)


def _mk(op, a, sort):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.key = key
        t.op = op
        t.a = a
        t.sort = sort
        t._b = None
        _ids[0] += 1
        t.id = _ids[0]
        _tab[key] = t
    return t


# ---------------------------------------------------------------- booleans
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def boolc(b):
    return TRUE if b else FALSE


def lift(x):
    if isinstance(x, T): return x
    if isinstance(x, bool): return boolc(x)
    if isinstance(x, int): return const(x)
    if isinstance(x, Fraction): return const(x)
    if isinstance(x, float): return const(Fraction(repr(x)))
    if isinstance(x, str): return const(Fraction(x))
    raise TypeError(type(x))


def bvar(name): return _mk('bv', (name,), 'B')


def not_(a):
    a = lift(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    if a.op == 'le0': return lt0(neg(a.a[0]))     # not(p<=0) = -p<0
    if a.op == 'lt0': return le0(neg(a.a[0]))
    return _mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = lift(x)
        if x is TRUE: continue
        if x is FALSE: return FALSE
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if not_(y).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def or_(*xs):
    return not_(and_(*[not_(lift(x)) for x in xs]))


def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    a, b = lift(a), lift(b)
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return _mk('iff', (a, b), 'B')


# ---------------------------------------------------------------- polynomials
# term: op 'poly', a = tuple of (monomial, coef) sorted; monomial = tuple of (atom, exp) sorted by id
def _poly(d, sort='R'):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: (len(mc[0]), tuple((x.id, e) for x, e in mc[0])))
    return _mk('poly', tuple(items), sort)


def const(c, sort='R'):
    c = Fraction(c)
    return _poly({(): c} if c else {}, 'R')


def is_const(t):
    return t.op == 'poly' and (len(t.a) == 0 or (len(t.a) == 1 and t.a[0][0] == ()))


def cval(t):
    return t.a[0][1] if t.a else Fraction(0)


ZERO = const(0)
ONE = const(1)


def _at(atom):
    """poly made of one atom"""
    return _poly({((atom, 1),): Fraction(1)})


VARB = {}     # atom -> (lo, hi) declared bounds
INTV = set()  # integer valued variable atoms


def var(name, lo=None, hi=None, integer=False):
    lo, hi = None if lo is None else Fraction(lo), None if hi is None else Fraction(hi)
    # the bounds are part of the identity: normal forms computed under other bounds must not be shared
    a = _mk('v', (name, lo, hi, integer), 'R')
    if lo is not None or hi is not None: VARB[a] = (lo, hi)
    if integer: INTV.add(a)
    return _at(a)


def as_atom(t):
    """the atom if t is exactly one atom, else None"""
    if t.op == 'poly' and len(t.a) == 1 and t.a[0][1] == 1 and len(t.a[0][0]) == 1 and t.a[0][0][0][1] == 1:
        return t.a[0][0][0][0]
    return None


_addc = {}


def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _addc.get(k)
    if r is None:
        d = dict(a.a)
        for m, c in b.a:
            d[m] = d.get(m, 0) + c
        r = _addc[k] = _poly(d)
    return r


def neg(a): return scale(a, Fraction(-1))


def scale(a, k):
    if k == 0: return ZERO
    if k == 1: return a
    return _mk('poly', tuple((m, c * k) for m, c in a.a), 'R')


def sub(a, b): return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for x, e in m1: d[x] = e
    for x, e in m2: d[x] = d.get(x, 0) + e
    return d


class TooBig(Exception):
    pass


LIMIT = [6000]
_mulc = {}


def mul(a, b):
    if is_const(a): return scale(b, cval(a))
    if is_const(b): return scale(a, cval(b))
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulc.get(k)
    if r is not None: return r
    if len(a.a) * len(b.a) > LIMIT[0]: raise TooBig()
    d = {}
    extra = ZERO
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            md = _mmul(m1, m2)
            p = _reduce(md)
            if p is None:
                m = tuple(sorted(((x, e) for x, e in md.items() if e), key=lambda q: q[0].id))
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extra = add(extra, scale(p, c1 * c2))
    r = add(_poly(d), extra)
    _mulc[k] = r
    return r


def _reduce(md):
    """rewrite a monomial dict: sqrt(x)^2 = x, sin^2 = 1-cos^2, inv(x)*x = 1, ind^2=ind; None if irreducible"""
    for x, e in md.items():
        if x.op == 'app' and x.a[0] == 'sqrt' and e >= 2:
            r = dict(md)
            r[x] = e % 2
            q = x.a[1]
            out = _mono(r)
            for _ in range(e // 2): out = mul(out, q)
            return out
        if x.op == 'app' and x.a[0] == 'sin' and e >= 2:
            r = dict(md)
            r[x] = e - 2
            c = app('cos', x.a[1])
            return mul(_mono(r), sub(ONE, mul(c, c)))
        if x.op == 'inv':
            at = as_atom(x.a[0])
            if at is not None and md.get(at, 0) > 0:
                n = min(md[at], e)
                r = dict(md)
                r[at] -= n
                r[x] -= n
                return _mono(r)
            if at is not None and at.op == 'app' and at.a[0] == 'sqrt' and e >= 2:
                r = dict(md)
                r[x] = e - 2
                return mul(_mono(r), inv(at.a[1]))
    return None


def _mono(md):
    md = {x: e for x, e in md.items() if e}
    p = _reduce(md)
    if p is not None: return p
    return _poly({tuple(sorted(md.items(), key=lambda q: q[0].id)): Fraction(1)})


def powi(a, n):
    if isinstance(n, T):
        assert is_const(n)
        n = cval(n)
    if n != int(n): return app('pow', a, const(n))
    n = int(n)
    if n < 0: return inv(powi(a, -n))
    r = ONE
    for _ in range(n): r = mul(r, a)
    return r


def lead(p):
    """coefficient used to normalise p up to a positive factor: of the last monomial"""
    return p.a[-1][1]


def inv(p):
    if is_const(p):
        if not p.a: return _at(_mk('inv', (p,), 'R'))
        return const(1 / cval(p))
    # single monomial: product of inverses of atoms
    if len(p.a) == 1:
        m, c = p.a[0]
        r = const(1 / c)
        for x, e in m:
            if x.op == 'inv':
                q = powi(x.a[0], e)
            else:
                q = powi(_at(_mk('inv', (_at(x),), 'R')), e)
            r = mul(r, q)
        return r
    k = lead(p)
    q = scale(p, 1 / k)
    # common monomial factor
    cm = dict(q.a[0][0])
    for m, c in q.a[1:]:
        md = dict(m)
        for x in list(cm):
            cm[x] = min(cm[x], md.get(x, 0))
    cm = {x: e for x, e in cm.items() if e > 0}
    if cm:
        d = {}
        for m, c in q.a:
            md = dict(m)
            for x, e in cm.items(): md[x] -= e
            d[tuple(sorted(((x, e) for x, e in md.items() if e), key=lambda z: z[0].id))] = c
        rest = _poly(d)
        return scale(mul(inv(_mono(cm)), inv(rest)), 1 / k)
    return scale(_at(_mk('inv', (q,), 'R')), 1 / k)


def div(a, b):
    if a is b and not (is_const(b) and not b.a): return ONE
    if is_const(a) and not a.a: return ZERO if not (is_const(b) and not b.a) else mul(ONE, inv(b))
    # exact multiple: a = k*b
    if a.a and b.a and len(a.a) == len(b.a) and not is_const(b):
        k = a.a[-1][1] / b.a[-1][1]
        if scale(b, k) is a: return const(k)
    return mul(a, inv(b))


# ---------------------------------------------------------------- comparisons
def _posnorm(p):
    return scale(p, 1 / abs(lead(p))) if p.a else p


def le0(p):
    if is_const(p): return boolc(cval(p) <= 0)
    lo, hi = bounds(p)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    return _mk('le0', (_posnorm(p),), 'B')


def lt0(p):
    if is_const(p): return boolc(cval(p) < 0)
    lo, hi = bounds(p)
    if hi is not None and hi < 0: return TRUE
    if lo is not None and lo >= 0: return FALSE
    return _mk('lt0', (_posnorm(p),), 'B')


def le(a, b): return le0(sub(lift(a), lift(b)))
def lt(a, b): return lt0(sub(lift(a), lift(b)))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'B' or b.sort == 'B': return iff(a, b)
    p = sub(a, b)
    if is_const(p): return boolc(cval(p) == 0)
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    return _mk('eq0', (scale(p, 1 / lead(p)),), 'B')


def ne(a, b): return not_(eq(a, b))


# ---------------------------------------------------------------- other atoms
def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        return and_(implies(c, a), implies(not_(c), b))
    if c.op == 'not': return ite(c.a[0], b, a)
    if c.op == 'lt0':                      # keep one orientation: p<0 ? a : b  ->  -p<=0 ? b : a
        return ite(le0(neg(c.a[0])), b, a)
    return _at(_mk('ite', (c, a, b), 'R'))


def fmin(a, b):
    a, b = lift(a), lift(b)
    if a is b: return a
    d = sub(a, b)
    lo, hi = bounds(d)
    if hi is not None and hi <= 0: return a
    if lo is not None and lo >= 0: return b
    if a.id > b.id: a, b = b, a
    return _at(_mk('min', (a, b), 'R'))


def fmax(a, b):
    a, b = lift(a), lift(b)
    if a is b: return a
    d = sub(a, b)
    lo, hi = bounds(d)
    if hi is not None and hi <= 0: return b
    if lo is not None and lo >= 0: return a
    if a.id > b.id: a, b = b, a
    return _at(_mk('max', (a, b), 'R'))


def fabs(a):
    a = lift(a)
    if is_const(a): return const(abs(cval(a)))
    lo, hi = bounds(a)
    if lo is not None and lo >= 0: return a
    if hi is not None and hi <= 0: return neg(a)
    k = lead(a)
    q = scale(a, 1 / k)
    return scale(_at(_mk('abs', (q,), 'R')), abs(k))


def clamp(v, lo, hi):
    """lo if v<lo, hi if v>hi"""
    return fmax(fmin(v, lift(hi)), lift(lo))


APPB = {}    # name -> (lo,hi) or callable(args)->(lo,hi)
PI = Fraction('3.14159265358979323846')


def _exact_sqrt(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)


def app(f, *args):
    args = tuple(lift(x) for x in args)
    if f == 'sqrt':
        x = args[0]
        if is_const(x) and cval(x) >= 0:
            r = _exact_sqrt(cval(x))
            if r is not None: return const(r)
        # perfect square monomial
        if len(x.a) == 1 and x.a[0][1] > 0:
            m, c = x.a[0]
            r = _exact_sqrt(c)
            if r is not None and all(e % 2 == 0 for _, e in m):
                p = const(r)
                for y, e in m: p = mul(p, powi(fabs(_at(y)), e // 2))
                return p
    if f == 'pow':
        x, y = args
        if is_const(y):
            c = cval(y)
            if c.denominator == 1 and 0 <= c <= 16: return powi(x, int(c))
            if c.denominator == 1 and -8 <= c < 0: return inv(powi(x, -int(c)))
            if c == Fraction(1, 2): return app('sqrt', x)
        if is_const(x) and cval(x) == 1: return ONE
        # pow(pow(x,a),b) with constant exponents, x >= 0
        at = as_atom(x)
        if at is not None and at.op == 'app' and at.a[0] == 'pow' and is_const(y) and is_const(at.a[2]):
            lo, _ = bounds(at.a[1])
            if lo is not None and lo >= 0:
                return app('pow', at.a[1], mul(at.a[2], y))
    if f in ('cos',) and args[0].a and lead(args[0]) < 0: return app('cos', neg(args[0]))
    if f in ('sin', 'atan', 'cbrt') and args[0].a and lead(args[0]) < 0: return neg(app(f, neg(args[0])))
    if f in ('sin', 'atan', 'cbrt') and args[0] is ZERO: return ZERO
    if f == 'cbrt':
        lo, _ = bounds(args[0])
        if lo is not None and lo >= 0: return app('pow', args[0], const(Fraction(1, 3)))
    if f == 'cos' and args[0] is ZERO: return ONE
    if f == 'exp' and args[0] is ZERO: return ONE
    if f in ('cos', 'sin'):
        at = as_atom(args[0])
        if at is not None and at.op == 'app' and at.a[0] == 'atan2':
            y, x = at.a[1], at.a[2]
            r = app('sqrt', add(mul(x, x), mul(y, y)))
            return div(x if f == 'cos' else y, r)
    if f in ('floor', 'trunc', 'round', 'ceil') and is_const(args[0]):
        c = cval(args[0])
        if f == 'floor': return const(math.floor(c))
        if f == 'ceil': return const(math.ceil(c))
        if f == 'trunc': return const(math.trunc(c))
        return const(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
    if f in ('floor', 'trunc', 'round', 'ceil') and is_int(args[0]): return args[0]
    if f in ('floor', 'trunc'):
        lo, hi = bounds(args[0])
        if f == 'trunc' and lo is not None and hi is not None and -1 < lo and hi < 1: return ZERO
        if lo is not None and hi is not None and lo >= 0 and math.floor(lo) == math.floor(hi): return const(math.floor(lo))
    if f == 'fmod':
        if all(is_const(x) for x in args) and cval(args[1]) != 0:
            a, b = cval(args[0]), abs(cval(args[1]))
            q = math.trunc(a / b)
            return const(a - q * b)
        if is_const(args[1]):
            m = abs(cval(args[1]))
            lo, hi = bounds(args[0])
            if lo is not None and hi is not None and lo > -m and hi < m: return args[0]
    return _at(_mk('app', (f,) + args, 'R'))


# ---------------------------------------------------------------- bits of symbolic integers
def _bitarg(v):
    """(x, s): v = shr(x, s)"""
    a = as_atom(v)
    if a is not None and a.op == 'app' and a.a[0] == 'shr': return a.a[1], int(cval(a.a[2]))
    return v, 0


def _width(v):
    """number of bits of an integer that is never negative, None if unknown"""
    if not is_int(v): return None
    lo, hi = bounds(v)
    return int(hi).bit_length() if lo is not None and hi is not None and lo >= 0 else None


def shr(v, k):
    """v >> k (arithmetic)"""
    if is_const(v): return const(int(cval(v)) >> k)
    if k == 0: return v
    if v.op == 'poly' and len(v.a) == 1:        # 2^s bits(x, l, n)
        (m, c), = v.a
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'bits' and c.denominator == 1 and c > 0 and int(c) & (int(c) - 1) == 0:
            s, x = int(c).bit_length() - 1, m[0][0]
            if k <= s: return scale(_at(x), Fraction(1, 2 ** k))
            y, l, n = x.a[1], int(cval(x.a[2])), int(cval(x.a[3]))
            return bits(y, l + k - s, n - (k - s)) if k - s < n else ZERO
    x, s = _bitarg(v)
    a = as_atom(x)
    if a is not None and a.op == 'app' and a.a[0] in ('u32', 'bits'):       # known to have no bits above the highest one
        w = 32 if a.a[0] == 'u32' else int(cval(a.a[3]))
        return bits(x, s + k, w - s - k) if s + k < w else ZERO
    w = _width(x)
    if w is not None: return bits(x, s + k, w - s - k) if s + k < w else ZERO
    return _at(_mk('app', ('shr', x, const(s + k)), 'R'))


def bits(v, k, n):
    """(v >> k) & (2^n - 1)"""
    if is_const(v): return const(int(cval(v)) >> k & (1 << n) - 1)
    x, s = _bitarg(v)
    a = as_atom(x)
    if a is not None and a.op == 'app' and a.a[0] == 'u32' and s + k + n <= 32: x = a.a[1]
    if a is not None and a.op == 'app' and a.a[0] == 'bits':
        l, w = int(cval(a.a[2])), int(cval(a.a[3]))
        n = min(n, w - (k + s))
        return bits(a.a[1], l + k + s, n) if n > 0 else ZERO
    w = _width(x)
    if w is not None and w < s + k + n:
        n = w - s - k
        if n <= 0: return ZERO
    return _at(_mk('app', ('bits', x, const(s + k), const(n)), 'R'))


def mask(v, m):
    """v & m for a mask of adjacent bits; None for other masks"""
    if m == 0: return ZERO
    s = (m & -m).bit_length() - 1
    n = (m >> s).bit_length()
    if m >> s != (1 << n) - 1: return None
    return scale(bits(v, s, n), Fraction(2 ** s))


def u32(v): return const(int(cval(v)) % 2 ** 32) if is_const(v) else _at(_mk('app', ('u32', v), 'R'))


APPB['u32'] = (0, 2 ** 32 - 1)
APPB['bits'] = lambda x, k, n: (0, 2 ** int(cval(n)) - 1)
APPEVAL0 = dict(u32=lambda v: int(v) % 2 ** 32, shr=lambda v, k: int(v) >> int(k), bits=lambda v, k, n: int(v) >> int(k) & (1 << int(n)) - 1)


def is_int(t):
    """integer-valued for sure"""
    if t.op != 'poly': return False
    for m, c in t.a:
        if c.denominator != 1: return False
        for x, e in m:
            if not (x in INTV or (x.op == 'app' and x.a[0] in ('floor', 'trunc', 'round', 'ceil', 'bits', 'shr', 'u32'))
                    or (x.op == 'ite' and is_int(x.a[1]) and is_int(x.a[2]))
                    or (x.op in ('min', 'max') and is_int(x.a[0]) and is_int(x.a[1]))
                    or (x.op == 'abs' and is_int(x.a[0]))):
                return False
    return True


# ---------------------------------------------------------------- intervals
def _fl(x, up):
    """rational enclosure of a float computation"""
    if x is None: return None
    f = Fraction(x)
    e = abs(f) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 300)
    return f + e if up else f - e


def _atom_bounds(x):
    if x._b is not None: return x._b
    x._b = _cheap(x)
    r = _atom_bounds0(x)
    x._b = r
    return r


def _cheap(x):
    """bounds visible without looking at arithmetic (stands in while the exact ones are computed)"""
    if x._b is not None: return x._b
    if x.op == 'v': return VARB.get(x, (None, None))
    if x.op in ('min', 'max'):
        bs = []
        for y in x.a:
            if is_const(y): bs.append((cval(y), cval(y)))
            else:
                z = as_atom(y)
                bs.append((None, None) if z is None else _cheap(z))
        los, his = [b[0] for b in bs], [b[1] for b in bs]
        if x.op == 'min': return (None if None in los else min(los), min([h for h in his if h is not None], default=None))
        return (max([l for l in los if l is not None], default=None), None if None in his else max(his))
    if x.op == "app" and isinstance(APPB.get(x.a[0]), tuple): return APPB[x.a[0]]
    return (None, None)


def _mono1(f, lo, hi, dom_lo=None):
    try:
        l = None if lo is None else _fl(f(float(lo)), False)
    except (ValueError, OverflowError):
        l = None
    try:
        h = None if hi is None else _fl(f(float(hi)), True)
    except (ValueError, OverflowError):
        h = None
    return l, h


def _atom_bounds0(x):
    op = x.op
    if op == 'v': return VARB.get(x, (None, None))
    if op == 'ite':
        a, b = bounds(x.a[1]), bounds(x.a[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'min':
        a, b = bounds(x.a[0]), bounds(x.a[1])
        his = [h for h in (a[1], b[1]) if h is not None]
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), min(his) if his else None)
    if op == 'max':
        a, b = bounds(x.a[0]), bounds(x.a[1])
        los = [h for h in (a[0], b[0]) if h is not None]
        return (max(los) if los else None, None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'abs':
        lo, hi = bounds(x.a[0])
        if lo is None or hi is None: return (Fraction(0), None)
        return (Fraction(0), max(abs(lo), abs(hi)))
    if op == 'inv':
        lo, hi = bounds(x.a[0])
        if lo is not None and lo > 0: return (Fraction(0) if hi is None else 1 / hi, 1 / lo)
        if lo is not None and lo == 0: return (Fraction(0) if hi is None else 1 / hi if hi else Fraction(0), None)
        if hi is not None and hi < 0: return (1 / hi, Fraction(0) if lo is None else 1 / lo)
        return (None, None)
    if op == 'app':
        f = x.a[0]
        if f in ('sin', 'cos'): return (Fraction(-1), Fraction(1))
        if f == 'sqrt':
            lo, hi = bounds(x.a[1])
            l, h = _mono1(lambda v: math.sqrt(max(v, 0.0)), lo, hi)
            return (max(l, Fraction(0)) if l is not None else Fraction(0), h)
        if f == 'exp':
            lo, hi = bounds(x.a[1])
            l, h = _mono1(math.exp, lo, hi)
            return (max(l, Fraction(0)) if l is not None else Fraction(0), h)
        if f in ('log', 'log10'):
            lo, hi = bounds(x.a[1])
            return _mono1(math.log if f == 'log' else math.log10, lo if lo is not None and lo > 0 else None, hi if hi is not None and hi > 0 else None)
        if f == 'cbrt':
            lo, hi = bounds(x.a[1])
            return _mono1(lambda v: math.copysign(abs(v) ** (1 / 3), v), lo, hi)
        if f == 'pow':
            lo, hi = bounds(x.a[1])
            if lo is not None and lo >= 0:
                if is_const(x.a[2]) and cval(x.a[2]) > 0:
                    c = float(cval(x.a[2]))
                    l, h = _mono1(lambda v: v ** c, lo, hi)
                    l = max(l, Fraction(0))
                    if lo == 1: l = Fraction(1)
                    if hi == 1: h = Fraction(1)
                    return (l, h)
                return (Fraction(0), None)
            return (None, None)
        if f == 'atan2': return (Fraction('-3.14159266'), Fraction('3.14159266'))
        if f == 'atan': return (Fraction('-1.5707964'), Fraction('1.5707964'))
        if f == 'acos': return (Fraction(0), Fraction('3.14159266'))
        if f == 'asin': return (Fraction('-1.5707964'), Fraction('1.5707964'))
        if f == 'fmod':
            lo, hi = bounds(x.a[1])
            m = None
            if is_const(x.a[2]): m = abs(cval(x.a[2]))
            l = -m if m is not None else None
            h = m
            if lo is not None and lo >= 0: l = Fraction(0)
            if hi is not None and hi <= 0: h = Fraction(0)
            if lo is not None and lo < 0 and (l is None or lo > l): l = lo
            if hi is not None and hi > 0 and (h is None or hi < h): h = hi
            return (l, h)
        if f in ('floor', 'trunc', 'round', 'ceil'):
            lo, hi = bounds(x.a[1])
            g = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                 'round': lambda c: math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2))}[f]
            return (None if lo is None else Fraction(g(lo)), None if hi is None else Fraction(g(hi)))
        b = APPB.get(f)
        if b is not None: return b(*x.a[1:]) if callable(b) else b
        return (None, None)
    return (None, None)


def _pw(b, e):
    lo, hi = b
    if e == 1: return b
    if e % 2 == 0:
        if lo is not None and lo >= 0: return (lo ** e, None if hi is None else hi ** e)
        if hi is not None and hi <= 0: return (hi ** e, None if lo is None else lo ** e)
        return (Fraction(0), None if lo is None or hi is None else max(abs(lo), abs(hi)) ** e)
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def _imul(a, b):
    if None not in a and None not in b:
        p = [x * y for x in a for y in b]
        return (min(p), max(p))
    for p, q in ((a, b), (b, a)):
        if p[0] is not None and p[0] == p[1]:
            c = p[0]
            if c == 0: return (Fraction(0), Fraction(0))
            l, h = (None if v is None else v * c for v in q)
            return (l, h) if c > 0 else (h, l)
    # half-open non-negative
    if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
        return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
    if a == (0, 0) or b == (0, 0): return (Fraction(0), Fraction(0))
    return (None, None)


def bounds(t):
    if t._b is not None: return t._b
    if t.op != 'poly':
        return _atom_bounds(t)
    lo, hi = Fraction(0), Fraction(0)
    for m, c in t.a:
        b = (Fraction(1), Fraction(1))
        for x, e in m:
            b = _imul(b, _pw(_atom_bounds(x), e))
        l, h = b
        if c > 0: l, h = (None if l is None else l * c), (None if h is None else h * c)
        else: l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    t._b = (lo, hi)
    if 2 < len(t.a) <= 60 and (lo is None or hi is None or lo < 0 < hi):
        l, h = _grouped(t)
        if lo is None or l is not None and l > lo: lo = l
        if hi is None or h is not None and h < hi: hi = h
        m_ = _multilinear(t)
        if m_ is not None: lo, hi = m_
        if (lo is None or lo < 0) and not (hi is not None and hi <= 0):
            l = _square(t)
            if l is not None and (lo is None or l > lo): lo = l
        t._b = (lo, hi)
    return t._b


def _multilinear(t):
    """a polynomial of degree one in each of few bounded atoms takes its extremes at the corners"""
    at = {}
    for m, c in t.a:
        for x, e in m:
            if e != 1: return None
            at[x] = 1
    if len(at) > 4 or len(at) == len([1 for m, c in t.a if m]): return None
    bs = [(x, _atom_bounds(x)) for x in at]
    if any(a is None or b is None for _, (a, b) in bs): return None
    vals = []
    for k in range(1 << len(bs)):
        v = {x: b[(k >> i) & 1] for i, (x, b) in enumerate(bs)}
        r = Fraction(0)
        for m, c in t.a:
            for x, e in m: c = c * v[x]
            r += c
        vals.append(r)
    return (min(vals), max(vals))


def _square(t):
    """lower bound of k*s^2 + b*s + c with s linear, k > 0"""
    quad, linear, c0 = {}, {}, Fraction(0)
    for m, c in t.a:
        if not m: c0 = c
        elif len(m) == 1 and m[0][1] == 1: linear[m[0][0]] = c
        elif len(m) == 1 and m[0][1] == 2: quad[(m[0][0], m[0][0])] = c
        elif len(m) == 2 and m[0][1] == m[1][1] == 1: quad[(m[0][0], m[1][0])] = c
        else: return None
    sq = [x for (x, y) in quad if x is y]
    if not sq: return None
    x0 = sq[0]
    k = quad[(x0, x0)]
    if k <= 0: return None
    a = {x0: Fraction(1)}
    for (x, y), c in quad.items():
        if x is not y and x0 in (x, y): a[y if x is x0 else x] = c / (2 * k)
    n = 0
    for x in a:
        for y in a:
            if x.id < y.id or x is y:
                want = k * a[x] * a[y] * (1 if x is y else 2)
                if quad.get((x, y), quad.get((y, x))) != want: return None
                n += 1
    if n != len(quad): return None
    b = linear.get(x0, Fraction(0))
    if {x for x in linear} - set(a) or any(linear.get(x, Fraction(0)) != b * a[x] for x in a): return None
    return c0 - b * b / (4 * k)


def _grouped(t):
    """t = x*q + r with x the atom of most monomials (tighter than term by term)"""
    n = {}
    for m, c in t.a:
        for x, e in m:
            n[x] = n.get(x, 0) + 1
    x = max(n, key=lambda y: (n[y], -y.id))
    if n[x] < 2 or n[x] == len(t.a) and all(len(m) == 1 for m, c in t.a): return (None, None)
    q, r = {}, {}
    for m, c in t.a:
        d = dict(m)
        if x in d:
            d[x] -= 1
            if not d[x]: del d[x]
            k = tuple(sorted(d.items(), key=lambda y: y[0].id))
            q[k] = c
        else: r[m] = c
    q, r = _poly(q), _poly(r)
    a, b = _imul(_atom_bounds(x), bounds(q)), bounds(r)
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


# ---------------------------------------------------------------- traversal
def rebuild(t, sub_, memo):
    """substitute: sub_ maps term/atom -> replacement poly / bool"""
    r = memo.get(t)
    if r is not None: return r
    if t in sub_:
        memo[t] = sub_[t]
        return sub_[t]
    op = t.op
    if op == 'poly':
        changed = False
        parts = []
        for m, c in t.a:
            ch = [(x, e, rebuild(x, sub_, memo)) for x, e in m]
            if any(not (as_atom(r_) is x) for x, e, r_ in ch): changed = True
            parts.append((m, c, ch))
        if not changed: r = t
        else:
            d = {}
            r = ZERO
            for m, c, ch in parts:
                if all(as_atom(r_) is x for x, e, r_ in ch):
                    d[m] = c
                else:
                    p = const(c)
                    for x, e, r_ in ch:
                        p = mul(p, powi(r_, e))
                    r = add(r, p)
            r = add(r, _poly(d))
    elif op in ('v', 'bv', 'true', 'false'):
        r = _at(t) if op == 'v' else t
    elif op == 'ite':
        c = rebuild(t.a[0], sub_, memo)
        if c is TRUE: r = rebuild(t.a[1], sub_, memo)
        elif c is FALSE: r = rebuild(t.a[2], sub_, memo)
        else: r = ite(c, rebuild(t.a[1], sub_, memo), rebuild(t.a[2], sub_, memo))
    elif op == 'min': r = fmin(*[rebuild(x, sub_, memo) for x in t.a])
    elif op == 'max': r = fmax(*[rebuild(x, sub_, memo) for x in t.a])
    elif op == 'abs': r = fabs(rebuild(t.a[0], sub_, memo))
    elif op == 'inv': r = inv(rebuild(t.a[0], sub_, memo))
    elif op == 'app': r = app(t.a[0], *[rebuild(x, sub_, memo) for x in t.a[1:]])
    elif op == 'not': r = not_(rebuild(t.a[0], sub_, memo))
    elif op == 'and': r = and_(*[rebuild(x, sub_, memo) for x in t.a])
    elif op == 'iff': r = iff(*[rebuild(x, sub_, memo) for x in t.a])
    elif op == 'le0': r = le0(rebuild(t.a[0], sub_, memo))
    elif op == 'lt0': r = lt0(rebuild(t.a[0], sub_, memo))
    elif op == 'eq0': r = eq(rebuild(t.a[0], sub_, memo), ZERO)
    else: raise AssertionError(op)
    memo[t] = r
    return r


def subterms(t, seen=None):
    """all atoms/booleans below t (post-order)"""
    seen = {} if seen is None else seen
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            seen[x] = True
            continue
        if x in seen: continue
        stack.append((x, True))
        if x.op == 'poly':
            for m, c in x.a:
                for y, e in m:
                    if y not in seen: stack.append((y, False))
        elif x.op in ('v', 'bv', 'true', 'false'):
            pass
        else:
            for y in x.a:
                if isinstance(y, T) and y not in seen: stack.append((y, False))
    return seen


def clear_den(p, limit=4000):
    """numerator of p after multiplying by every reciprocal's denominator (assumed non-zero)"""
    for _ in range(40):
        best = {}
        for m, c in p.a:
            for x, e in m:
                if x.op == 'inv': best[x] = max(best.get(x, 0), e)
        if not best: return p
        # eliminate the youngest reciprocal first (it may contain older ones)
        x = max(best, key=lambda z: z.id)
        k = best[x]
        den = x.a[0]
        groups = {}
        for m, c in p.a:
            md = dict(m)
            e = md.pop(x, 0)
            groups.setdefault(e, {})[tuple(sorted(md.items(), key=lambda q: q[0].id))] = c
        r = ZERO
        for e, d in groups.items():
            r = add(r, mul(_poly(d), powi(den, k - e)))
        p = r
        if len(p.a) > limit: raise TooBig()
    return p


# ---------------------------------------------------------------- printing / evaluation
def show(t, depth=9):
    if depth == 0: return '…'
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == 'poly':
        if not t.a: return '0'
        out = []
        for m, c in t.a[:12]:
            f = '*'.join(s(x) + ('^%d' % e if e > 1 else '') for x, e in m)
            cs = str(c) if c.denominator == 1 or len(str(c)) < 12 else '%.9g' % float(c)
            out.append(f if c == 1 and f else ('-' + f if c == -1 and f else cs + ('*' + f if f else '')))
        if len(t.a) > 12: out.append('…%d terms' % len(t.a))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'v' or op == 'bv': return str(t.a[0])
    if op == 'app': return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    if op == 'inv': return '1/' + s(t.a[0])
    if op in ('le0', 'lt0', 'eq0'): return '%s %s 0' % (s(t.a[0]), {'le0': '<=', 'lt0': '<', 'eq0': '=='}[op])
    if op in ('true', 'false'): return op
    return '%s(%s)' % (op, ', '.join(s(x) for x in t.a))


APPEVAL = dict(APPEVAL0)


def ev(t, env, memo=None):
    """floating evaluation under env: name -> float/bool"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    op = t.op
    if op == 'poly':
        r = 0.0
        for m, c in t.a:
            p = float(c)
            for x, e in m: p *= ev(x, env, memo) ** e
            r += p
    elif op == 'v' or op == 'bv': r = env[t.a[0]]
    elif op == 'ite': r = ev(t.a[1] if ev(t.a[0], env, memo) else t.a[2], env, memo)
    elif op == 'min' or op == 'max':
        x, y = ev(t.a[0], env, memo), ev(t.a[1], env, memo)
        r = math.nan if x != x or y != y else min(x, y) if op == 'min' else max(x, y)
    elif op == 'abs': r = abs(ev(t.a[0], env, memo))
    elif op == 'inv':
        d = ev(t.a[0], env, memo)
        r = 1.0 / d if d else math.inf
    elif op == 'app': r = apply_fn(t.a[0], [ev(x, env, memo) for x in t.a[1:]])
    elif op == 'true': r = True
    elif op == 'false': r = False
    elif op == 'not': r = not ev(t.a[0], env, memo)
    elif op == 'and': r = all(ev(x, env, memo) for x in t.a)
    elif op == 'iff': r = ev(t.a[0], env, memo) == ev(t.a[1], env, memo)
    elif op == 'le0': r = ev(t.a[0], env, memo) <= 0
    elif op == 'lt0': r = ev(t.a[0], env, memo) < 0
    elif op == 'eq0': r = ev(t.a[0], env, memo) == 0
    else: raise AssertionError(op)
    memo[t] = r
    return r


def apply_fn(f, a):
    try:
        if f == 'sqrt': return math.sqrt(a[0])
        if f == 'pow': return math.pow(a[0], a[1])
        if f == 'fmod': return math.fmod(a[0], a[1])
        if f == 'round': return math.floor(a[0] + 0.5) if a[0] >= 0 else -math.floor(-a[0] + 0.5)
        if f == 'cbrt': return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if f in ('floor', 'ceil', 'trunc'): return getattr(math, f)(a[0])
        if hasattr(math, f): return getattr(math, f)(*a)
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    if f in APPEVAL: return APPEVAL[f](*a)
    d = DEFS.get(f)
    if d is not None:
        env = dict(GENV)
        env.update(zip(d[0], a))
        return ev(d[1], env)
    if f.startswith('unspec.'): return 1.0
    raise KeyError(f)


DEFS = {}
GENV = {}     # environment of the named specification functions (color space parameters)
