"""IEEE-754 domain of the executor: every float is a Z3 floating-point term (NaN, infinities and rounding included).
Exact: literals, casts, +, -, comparisons, fabs, fmin, fmax, floor/ceil/trunc/round.  Products, quotients, fmod and all other library
functions are fresh values that only carry facts every correctly rounded implementation has (listed at `mul`, `div` and `call`); nothing
else is known about them, so a proof never depends on their exact value."""
import struct, math, time
import z3
from . import prover
from .exec import Exec

RM = z3.RNE()
SORT = dict(float=z3.Float32(), double=z3.Float64())
SORT['long double'] = z3.Float64()      # only ever holds values that come from or go to float here


def isfp(v): return isinstance(v, z3.FPRef)


class FpD:
    name = 'ieee'

    def __init__(self):
        self.n = 0
        self.ax = []           # facts about fresh values
        self.exact = []        # the full definition of products and quotients, used when the facts do not decide
        self.havoc = set()     # fresh values without a full definition
        self.cache = {}
        self.memo = {}

    # ---- values
    def fresh(self, sort, what='v'):
        self.n += 1
        return z3.FP('%s!%d' % (what, self.n), sort)

    def const(self, v, ty=None):
        s = SORT[ty or 'float']
        return z3.fpToFP(RM, z3.RealVal(str(v)), s) if not isinstance(v, (int, float)) else z3.FPVal(v, s)

    def flit(self, node, ty):
        sp = node.get('sp')
        s = SORT[ty]
        if sp:
            try:
                from fractions import Fraction
                q = Fraction(sp.rstrip('fFlL').replace("'", ''))
                return z3.simplify(z3.fpToFP(RM, z3.RealVal(str(q)), s))
            except ValueError:
                pass
        return z3.FPVal(float(node['v']), s)

    def same(self, a, b):
        """usual arithmetic conversions are explicit in the syntax tree; literals made by the executor may still be narrower"""
        if a.sort() == b.sort(): return a, b
        w = SORT['double']
        return self.cast(a, w), self.cast(b, w)

    def cast(self, v, s): return v if v.sort() == s else z3.simplify(z3.fpFPToFP(RM, v, s))
    def fcast(self, v, ty): return self.cast(v, SORT[ty])

    def i2f(self, v, ty):
        if isinstance(v, (int, bool)): return z3.FPVal(int(v), SORT[ty])
        r = self.fresh(SORT[ty], 'int')
        self.havoc.add(str(r))
        return r

    def f2i(self, v):
        from .exec import Unsupported
        raise Unsupported('conversion of a float to an integer')

    def isfloat(self, v): return isfp(v)

    # ---- arithmetic
    def lit_(self, v):
        v = z3.simplify(v)
        return v if z3.is_fp_value(v) else None

    def op2(self, f, a, b):
        a, b = self.same(a, b)
        return z3.simplify(f(RM, a, b))

    def add(self, a, b): return self.op2(z3.fpAdd, a, b)
    def sub(self, a, b): return self.op2(z3.fpSub, a, b)
    def neg(self, a): return z3.simplify(z3.fpNeg(a))

    def once(self, key, mk):
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = mk()
        return r

    def mul(self, a, b):
        a, b = self.same(a, b)
        if self.lit_(a) is not None and self.lit_(b) is not None: return z3.simplify(z3.fpMul(RM, a, b))

        def mk():
            r = self.fresh(a.sort(), 'mul')
            z, o = z3.FPVal(0, a.sort()), z3.FPVal(1, a.sort())
            fin = lambda v: z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
            self.ax.append(z3.Implies(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpIsNaN(r)))
            self.ax.append(z3.Implies(z3.And(fin(a), fin(b)), z3.Not(z3.fpIsNaN(r))))
            # rounding is monotone and exact on representable values: |x| <= 1 never enlarges, signs multiply
            for x, y in ((a, b), (b, a)):
                self.ax.append(z3.Implies(z3.And(fin(y), z3.fpLEQ(z, x), z3.fpLEQ(x, o)), z3.And(
                    z3.Implies(z3.fpGEQ(y, z), z3.And(z3.fpLEQ(z, r), z3.fpLEQ(r, y))),
                    z3.Implies(z3.fpLEQ(y, z), z3.And(z3.fpLEQ(y, r), z3.fpLEQ(r, z))))))
            self.ax.append(z3.Implies(z3.And(z3.fpGEQ(a, z), z3.fpGEQ(b, z), fin(a), fin(b)), z3.fpGEQ(r, z)))
            self.exact.append(r == z3.fpMul(RM, a, b))
            return r
        return self.once(('mul', a.sexpr(), b.sexpr()), mk)

    def div(self, a, b):
        a, b = self.same(a, b)
        if self.lit_(a) is not None and self.lit_(b) is not None: return z3.simplify(z3.fpDiv(RM, a, b))

        def mk():
            r = self.fresh(a.sort(), 'div')
            z = z3.FPVal(0, a.sort())
            self.ax.append(z3.Implies(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpIsNaN(r)))
            # 0 <= a <= b, b > 0 and finite: 0 <= a/b <= 1; the sign of a quotient by a positive number is that of the dividend
            fin = lambda v: z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
            self.ax.append(z3.Implies(z3.And(fin(b), z3.fpGT(b, z), z3.fpGEQ(a, z)), z3.fpGEQ(r, z)))
            self.ax.append(z3.Implies(z3.And(fin(b), z3.fpGT(b, z), z3.fpLEQ(a, z)), z3.fpLEQ(r, z)))
            self.ax.append(z3.Implies(z3.And(fin(b), z3.fpGT(b, z), z3.fpGEQ(a, z), z3.fpLEQ(a, b)), z3.fpLEQ(r, z3.FPVal(1, a.sort()))))
            self.exact.append(r == z3.fpDiv(RM, a, b))
            return r
        return self.once(('div', a.sexpr(), b.sexpr()), mk)

    def lt(self, a, b): return z3.simplify(z3.fpLT(*self.same(a, b)))
    def le(self, a, b): return z3.simplify(z3.fpLEQ(*self.same(a, b)))
    def eq(self, a, b):
        if isinstance(a, (bool, z3.BoolRef)): return z3.simplify(z3.BoolVal(a) == b if isinstance(a, bool) else a == b)
        return z3.simplify(z3.fpEQ(*self.same(a, b)))
    def not_(self, a): return (not a) if isinstance(a, bool) else z3.simplify(z3.Not(a))
    def and_(self, *a): return z3.simplify(z3.And(*a)) if a else True
    def or_(self, *a): return z3.simplify(z3.Or(*a)) if a else False

    def ite(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        if isfp(a): a, b = self.same(a, b)
        return z3.simplify(z3.If(c, a, b))

    def classify(self, name, v):
        if 'finite' in name: return z3.simplify(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        return z3.simplify(z3.fpIsNaN(v) if 'nan' in name else z3.fpIsInf(v))

    def call(self, f, a, ty):
        s = SORT[ty]
        a = [self.cast(v, s) for v in a]
        if f == 'fabs': return z3.simplify(z3.fpAbs(a[0]))
        if f in ('fmin', 'fmax'):
            x, y = a
            pick = z3.fpLT(x, y) if f == 'fmin' else z3.fpLT(y, x)
            return z3.simplify(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(pick, x, y))))
        if f in ('floor', 'ceil', 'trunc', 'round'):
            return z3.fpRoundToIntegral(dict(floor=z3.RTN(), ceil=z3.RTP(), trunc=z3.RTZ(), round=z3.RNA())[f], a[0])

        def mk():
            r = self.fresh(s, f)
            self.havoc.add(str(r))
            if f == 'fmod':
                x, y = a
                z = z3.FPVal(0, s)
                bad = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.fpIsInf(x), z3.fpIsZero(y))
                self.ax.append(z3.Implies(bad, z3.fpIsNaN(r)))
                self.ax.append(z3.Implies(z3.Not(bad), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)), z3.fpLT(z3.fpAbs(r), z3.fpAbs(y)),
                               z3.Implies(z3.fpGEQ(x, z), z3.fpGEQ(r, z)), z3.Implies(z3.fpLEQ(x, z), z3.fpLEQ(r, z)),
                               z3.Implies(z3.fpLT(z3.fpAbs(x), z3.fpAbs(y)), r == x))))
            return r
        return self.once((f,) + tuple(v.sexpr() for v in a), mk)

    # ---- logic
    def truth(self, c):
        if isinstance(c, bool): return c
        return True if z3.is_true(c) else False if z3.is_false(c) else None

    def check(self, cs, tms):
        s = z3.Solver()
        s.set('timeout', tms)
        s.add(*[c for c in cs if not isinstance(c, bool)])
        if any(c is False for c in cs): return 'unsat', None
        s.add(*self.ax)
        t0 = time.time()
        r = s.check()
        prover.STATS['z3'] += 1
        prover.STATS['z3_time'] += time.time() - t0
        return str(r), (s.model() if r == z3.sat else None)

    def feasible(self, pc, c):
        key = (tuple(sorted(str(x.get_id()) for x in pc)), c.get_id(), len(self.ax))
        r = self.cache.get(key)
        if r is None: r = self.cache[key] = (self.check(list(pc) + [c], 10000)[0] != 'unsat', list(pc), c)     # the terms stay alive: their ids do not return
        return r[0]

    def prove(self, pc, goal, tms=30000):
        """('proved', None) | ('refuted', model): exact in IEEE arithmetic | ('unknown', model or None): facts about fresh values may be too weak"""
        cs = list(pc) + [z3.Not(goal) if not isinstance(goal, bool) else (not goal)]
        r, m = self.check(cs, tms)
        if r == 'unsat': return 'proved', None
        if r == 'sat' and self.n and self.exact:
            r2, m2 = self.check(cs + self.exact, tms)
            if r2 == 'unsat': return 'proved', None
            if r2 == 'sat': r, m = r2, m2
            else: return 'unknown', m
        if r != 'sat': return 'unknown', None
        if any(str(d) in self.havoc for d in m.decls()): return 'unknown', m
        return 'refuted', m


def value(m, v):
    """Python float of the term v in model m"""
    b = m.eval(z3.fpToIEEEBV(v), model_completion=True)
    b = z3.simplify(b)
    if not z3.is_bv_value(b): return math.nan
    n = b.as_long()
    return struct.unpack('f', struct.pack('I', n))[0] if b.size() == 32 else struct.unpack('d', struct.pack('Q', n))[0]
