"""Discharges Real-mode obligations: polynomial normal form, interval bounds, case splitting, Z3 (QF_NRA),
cvc5 as second opinion.  Answers: ('proved', backend) | ('refuted', model) | ('unknown', reason)."""
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE, not_, and_, sub, ZERO, const, bounds, as_atom, is_const, cval

STATS = {'z3': 0, 'z3_time': 0.0, 'nf': 0, 'interval': 0, 'split': 0, 'cvc5': 0, 'cvc5_time': 0.0}
UNFOLD = {}      # spec function name -> python definition (args -> term)
LEMMAS = {}      # app name -> fn(args, appterm) -> list of boolean terms (axioms on that application)


class Enc:
    """encoding of terms in Z3: applications become fresh constants plus axioms about them"""
    def __init__(self, uf=False):
        self.m = {}
        self.ax = []
        self.uf = uf
        self.apps = []
        self.queue = []

    def enc(self, t):
        r = self.m.get(t)
        if r is not None: return r
        # iterative post-order to avoid deep recursion
        for x in tm.subterms(t):
            if x not in self.m: self.m[x] = self._one(x)
        return self.m[t]

    def _one(self, t):
        op = t.op
        g = self.m
        if op == 'poly':
            if not t.a: return z3.RealVal(0)
            s = []
            for mon, c in t.a:
                fac = []
                if c != 1 or not mon: fac.append(z3.Q(c.numerator, c.denominator))
                for x, e in mon:
                    fac.extend([g[x]] * e)
                p = fac[0]
                for q in fac[1:]: p = p * q
                s.append(p)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == 'v':
            if t in tm.INTV: r = z3.ToReal(z3.Int(t.a[0]))
            else: r = z3.Real(t.a[0])
            self._bd(t, r)
            return r
        if op == 'bv': return z3.Bool(t.a[0])
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'ite': return z3.If(g[t.a[0]], g[t.a[1]], g[t.a[2]])
        if op == 'min': return z3.If(g[t.a[0]] <= g[t.a[1]], g[t.a[0]], g[t.a[1]])
        if op == 'max': return z3.If(g[t.a[0]] >= g[t.a[1]], g[t.a[0]], g[t.a[1]])
        if op == 'abs': return z3.If(g[t.a[0]] >= 0, g[t.a[0]], -g[t.a[0]])
        if op == 'inv':
            r = z3.FreshReal('inv')
            self.ax.append(z3.Or(g[t.a[0]] == 0, r * g[t.a[0]] == 1))
            self._bd(t, r)
            return r
        if op == 'not': return z3.Not(g[t.a[0]])
        if op == 'and': return z3.And(*[g[x] for x in t.a])
        if op == 'iff': return g[t.a[0]] == g[t.a[1]]
        if op == 'le0': return g[t.a[0]] <= 0
        if op == 'lt0': return g[t.a[0]] < 0
        if op == 'eq0': return g[t.a[0]] == 0
        if op == 'app': return self._app(t)
        raise AssertionError(op)

    def _bd(self, t, r):
        lo, hi = bounds(t)
        if lo is not None: self.ax.append(r >= z3.Q(lo.numerator, lo.denominator))
        if hi is not None: self.ax.append(r <= z3.Q(hi.numerator, hi.denominator))

    def _app(self, t):
        f = t.a[0]
        args = [self.m[x] for x in t.a[1:]]
        if f in ('floor', 'trunc', 'round', 'ceil'):
            i = z3.FreshInt(f)
            r = z3.ToReal(i)
            x = args[0]
            if f == 'floor': self.ax += [r <= x, x < r + 1]
            elif f == 'ceil': self.ax += [r >= x, x > r - 1]
            elif f == 'trunc': self.ax += [z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)), z3.Implies(x < 0, z3.And(r >= x, x > r - 1))]
            else: self.ax += [z3.Implies(x >= 0, z3.And(r <= x + z3.Q(1, 2), x + z3.Q(1, 2) < r + 1)), z3.Implies(x < 0, z3.And(r >= x - z3.Q(1, 2), x - z3.Q(1, 2) > r - 1))]
            return r
        if f == 'fmod' and is_const(t.a[2]) and cval(t.a[2]) != 0:
            r = z3.FreshReal('fmod')
            q = z3.FreshInt('q')
            m = z3.Q(cval(t.a[2]).numerator, cval(t.a[2]).denominator)
            x = args[0]
            lo, hi = bounds(t.a[1])
            M = abs(cval(t.a[2]))
            if lo is not None and hi is not None and max(abs(lo), abs(hi)) / M <= 4:
                # few quotients: avoid the integer
                alts = []
                import math
                for k in range(math.trunc(lo / M), math.trunc(hi / M) + 1):
                    alts.append(r == x - k * m)
                self.ax.append(z3.Or(*alts))
            else:
                self.ax.append(r == x - z3.ToReal(q) * m)
            self.ax += [z3.Implies(x >= 0, z3.And(r >= 0, r < m)), z3.Implies(x <= 0, z3.And(r <= 0, r > -m))]
            self._bd(t, r)
            return r
        r = z3.FreshReal(f.replace('.', '_')) if not f.startswith('?') else z3.FreshBool('b')
        self._bd(t, r)
        if f == 'sqrt':
            self.ax += [r >= 0, z3.Or(args[0] < 0, r * r == args[0])]
        elif f == 'exp':
            self.ax += [r > 0]
        elif f == 'pow':
            self.ax += [z3.Implies(args[0] > 0, r > 0), z3.Implies(args[0] == 1, r == 1)]
            if is_const(t.a[2]) and cval(t.a[2]) > 0:
                self.ax += [z3.Implies(args[0] == 0, r == 0)]
                self.ax += [z3.Implies(z3.And(args[0] > 0, args[0] < 1), r < 1), z3.Implies(args[0] > 1, r > 1)]
        elif f == 'cbrt':
            self.ax += [r * r * r == args[0]]
        for l in LEMMAS.get(f, ()):
            for b in l(*t.a[1:]):
                self.queue.append(b)
        self.apps.append((f, t, args, r))
        return r

    def flush(self):
        while self.queue:
            b = self.queue.pop()
            self.ax.append(self.enc(b))

    def congruence(self):
        """Ackermann constraints and monotonicity between applications of one function"""
        by = {}
        for a in self.apps: by.setdefault((a[0], len(a[2])), []).append(a)
        out = []
        for (f, n), xs in by.items():
            if f in ('sqrt', 'cbrt'): pass
            for i in range(len(xs)):
                for j in range(i):
                    a, b = xs[i], xs[j]
                    out.append(z3.Implies(z3.And(*[p == q for p, q in zip(a[2], b[2])]), a[3] == b[3]))
                    if f in ('sqrt', 'exp', 'cbrt', 'log', 'log10', 'atan', 'asin') or (f == 'pow' and a[1].a[2] is b[1].a[2] and is_const(a[1].a[2]) and cval(a[1].a[2]) > 0):
                        p, q = a[2][0], b[2][0]
                        g = z3.And(p >= 0, q >= 0) if f in ('pow', 'sqrt') else z3.BoolVal(True)
                        out.append(z3.Implies(g, (p < q) == (a[3] < b[3])))
        return out


def z3check(fs, timeout=4000, want_model=False, cong=True):
    """check satisfiability of a conjunction of boolean terms"""
    t0 = time.time()
    STATS['z3'] += 1
    e = Enc()
    enc = [e.enc(f) for f in fs]
    e.flush()
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('arith.nl.grobner', False)     # its polynomial arithmetic does not observe the time limit
    s.add(*e.ax)
    s.add(*enc)
    if cong: s.add(*e.congruence())
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_time'] += time.time() - t0
    if r == z3.sat and want_model:
        m = s.model()
        env = {}
        for f in fs:
            for x in tm.subterms(f):
                if x.op == 'v': env[x.a[0]] = _num(m.eval(e.m[x], model_completion=True))
                elif x.op == 'bv': env[x.a[0]] = z3.is_true(m.eval(e.m[x], model_completion=True))
        return 'sat', env
    return str(r), None


def _num(v):
    try:
        if z3.is_algebraic_value(v): v = v.approx(20)
        return float(v.as_fraction())
    except Exception:
        return 0.0


class LinEnc(Enc):
    """linear abstraction: products and function applications become opaque variables within their bounds"""
    def __init__(self):
        super().__init__()
        self.mon = {}
        self.nl = False

    def _one(self, t):
        op = t.op
        if op == 'poly':
            s = []
            for mon, c in t.a:
                if not mon: s.append(z3.Q(c.numerator, c.denominator))
                elif len(mon) == 1 and mon[0][1] == 1: s.append(self.m[mon[0][0]] * z3.Q(c.numerator, c.denominator) if c != 1 else self.m[mon[0][0]])
                else:
                    self.nl = True
                    r = self.mon.get(mon)
                    if r is None:
                        r = self.mon[mon] = z3.FreshReal('m')
                        self._bd(tm._poly({mon: Fraction(1)}), r)
                        if all(e % 2 == 0 for _, e in mon): self.ax.append(r >= 0)
                    s.append(r * z3.Q(c.numerator, c.denominator) if c != 1 else r)
            return z3.Sum(s) if len(s) > 1 else s[0] if s else z3.RealVal(0)
        if op == 'inv' or op == 'app':
            self.nl = True
            if op == 'app' and t.a[0].startswith('?'): return z3.FreshBool('b')
            r = z3.FreshReal('a')
            self._bd(t, r)
            return r
        return super()._one(t)


def linunsat(fs, timeout=300):
    """the linear abstraction is contradictory"""
    t0 = time.time()
    e = LinEnc()
    enc = [e.enc(f) for f in fs]
    if not e.nl: return False
    STATS['z3'] += 1
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.add(*e.ax)
    s.add(*enc)
    try: r = s.check() == z3.unsat
    except z3.Z3Exception: r = False
    STATS['z3_time'] += time.time() - t0
    return r


_feas = {}


def feasible(pc, cond, timeout=400):
    """False only if pc && cond is certainly unsatisfiable"""
    if cond is FALSE: return False
    if cond is TRUE: return True
    key = (frozenset(x.id for x in pc), cond.id)
    r = _feas.get(key)
    if r is None:
        fs = relevant(pc, cond)
        if and_(*fs, cond) is FALSE or linunsat(fs + [cond]): r = False
        elif any(invs(f) for f in fs + [cond]) and (lambda cl: any(f is FALSE for f in cl) or z3check(cl, timeout)[0] == 'unsat')(clear(fs, fs + [cond])): r = False
        else: r = z3check(fs + [cond], timeout)[0] != 'unsat'
        _feas[key] = r
    return r


_vars = {}


def vars_of(t):
    r = _vars.get(t)
    if r is None:
        r = _vars[t] = frozenset(x for x in tm.subterms(t) if x.op in ('v', 'bv'))
    return r


def relevant(pc, goal):
    """cone of influence of the goal's variables (dropping hypotheses is sound for proving)"""
    vs = set(vars_of(goal))
    rest = list(pc)
    out = []
    ch = True
    while ch:
        ch = False
        for x in list(rest):
            v = vars_of(x)
            if not v or v & vs:
                out.append(x)
                rest.remove(x)
                if v - vs:
                    vs |= v
                    ch = True
    return out


def implied(pc, c):
    if c is TRUE: return True
    if c is FALSE: return False
    for x in pc:
        if x is c: return True
    return not feasible(pc, not_(c))


# ---------------------------------------------------------------- equality prover
class Budget:
    def __init__(self, secs, splits=400):
        self.end = time.time() + secs
        self.splits = splits

    def ok(self): return time.time() < self.end and self.splits > 0


def _conds(p):
    """splittable conditions in p, innermost first"""
    out = []
    seen = set()
    for x in tm.subterms(p):
        c = None
        if x.op == 'ite':
            c = x.a[0]
            # split on an atomic comparison inside
            while c.op in ('not', 'and', 'iff'): c = c.a[0]
        elif x.op in ('min', 'max'):
            c = tm.le(x.a[0], x.a[1])
        elif x.op == 'abs':
            c = tm.le0(x.a[0])
        elif x.op == 'app' and x.a[0] == 'fmod': c = None
        if c is not None and c not in seen and c.op not in ('true', 'false'):
            seen.add(c)
            out.append(c)
    return out


def resolve(p, cond, val, extra=()):
    """replace the condition by its truth value everywhere (also inside min/max/abs)"""
    sub_ = {cond: TRUE if val else FALSE}
    n = not_(cond)
    sub_[n] = FALSE if val else TRUE
    if cond.op == 'le0':
        q = cond.a[0]
        sub_[tm.lt0(tm.neg(q))] = FALSE if val else TRUE
        if val:      # q<=0
            sub_[tm.lt0(q)] = sub_.get(tm.lt0(q), None) or tm.lt0(q)
            if sub_[tm.lt0(q)] is tm.lt0(q): del sub_[tm.lt0(q)]
        else:        # q>0
            for k, v in ((tm.lt0(q), FALSE), (tm.le0(tm.neg(q)), TRUE), (tm.eq(q, ZERO), FALSE)):
                sub_[k] = v
    if cond.op == 'lt0':
        q = cond.a[0]
        if val:
            for k, v in ((tm.le0(q), TRUE), (tm.le0(tm.neg(q)), FALSE), (tm.eq(q, ZERO), FALSE)):
                sub_[k] = v
        else:
            sub_[tm.le0(tm.neg(q))] = TRUE
    for k in list(sub_):
        if k in (TRUE, FALSE): del sub_[k]
    for x in tm.subterms(p):
        if x.op in ('min', 'max'):
            le = tm.le(x.a[0], x.a[1])
            ge = tm.le(x.a[1], x.a[0])
            v = sub_.get(le)
            if v is None and ge in sub_: v = not_(sub_[ge]) if sub_[ge] in (FALSE,) else None
            w = sub_.get(ge)
            first = None
            if v is TRUE or w is FALSE: first = True
            elif v is FALSE or w is TRUE: first = False
            if first is not None:
                pick = x.a[0] if (first == (x.op == 'min')) else x.a[1]
                sub_[x] = pick
        elif x.op == 'abs':
            v = sub_.get(tm.le0(x.a[0]))
            w = sub_.get(tm.le0(tm.neg(x.a[0])))
            if v is TRUE or w is FALSE: sub_[x] = tm.neg(x.a[0])
            elif v is FALSE or w is TRUE: sub_[x] = x.a[0]
    # replacements may themselves contain the condition: iterate
    for _ in range(8):
        q = tm.rebuild(p, sub_, {})
        if q is p: return q
        p = q
    return p


def zero_nf(p):
    if not p.a: return True
    try:
        return not tm.clear_den(p).a
    except tm.TooBig:
        return False


ALIGN = {'ite', 'app', 'min', 'max', 'abs', 'inv', 'le0', 'lt0', 'eq0'}


def align(a, b):
    """b with those of its atoms replaced by atoms of a that are the same function of arguments equal as rational expressions (congruence, bottom up)"""
    sa = [x for x in tm.subterms(a) if x.op in ALIGN]
    ina = set(sa)
    sb = [x for x in tm.subterms(b) if x.op in ALIGN and x not in ina]
    if not sb or not sa or len(sb) > 400: return b
    inb = set(tm.subterms(b))
    by = {}
    for x in sa:
        if x in inb: continue
        by.setdefault((x.op, x.a[0] if x.op == 'app' else None, len(x.a)), []).append(x)
    end = time.time() + 20
    m = {}

    def same(p, q):
        if p is q: return True
        if not isinstance(p, T) or not isinstance(q, T): return p == q
        if p.sort == 'B' or q.sort == 'B': return False
        return zero_nf(sub(p, q))
    for y in sorted(sb, key=depth_of):
        if time.time() > end: break
        z = tm.rebuild(tm.lift(tm._at(y)) if y.sort != 'B' else y, m, {}) if m else y
        if y.sort != 'B' and isinstance(z, T) and z.op == 'poly': z = tm.as_atom(z)
        if z is None or not isinstance(z, T) or z.op not in ALIGN: continue
        if z in ina:
            continue
        for x in by.get((z.op, z.a[0] if z.op == 'app' else None, len(z.a)), ()):
            if all(same(p, q) for p, q in zip(x.a, z.a)):
                m[y] = m[z] = tm._at(x) if x.sort != 'B' else x
                break
    return tm.rebuild(b, m, {}) if m else b


def depth_of(t, memo={}):
    r = memo.get(t)
    if r is None:
        if len(memo) > 200000: memo.clear()
        r = 0
        for x in t.a:
            if isinstance(x, T): r = max(r, depth_of(x) + 1)
            elif isinstance(x, tuple):
                for y, e in x[0]: r = max(r, depth_of(y) + 1)
        memo[t] = r
    return r


def small(p, tol):
    if tol is None or tol == 0: return False
    # a difference made only of rounding residue of literals
    lo, hi = bounds(p)
    return lo is not None and hi is not None and max(abs(lo), abs(hi)) <= tol


def unfold(t):
    """one level of unfolding of specification functions"""
    s = {}
    for x in tm.subterms(t):
        if x.op == 'app' and x.a[0] in UNFOLD:
            s[x] = tm.lift(UNFOLD[x.a[0]](*x.a[1:]))
    if not s: return None
    # only outermost ones need replacing; rebuild handles the first hit
    return tm.rebuild(t, s, {})


def unfold1(t):
    u = unfold(t)
    return t if u is None else u


def pinned(pc):
    """variables that the path condition fixes to a constant"""
    out = {}
    for x in flat(pc):
        if x.op != 'eq0': continue
        q = x.a[0]
        if len(q.a) > 2: continue
        at, k, c = None, None, Fraction(0)
        for m, co in q.a:
            if not m: c = co
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'v' and at is None: at, k = m[0][0], co
            else:
                at = None
                break
        if at is not None: out[at] = const(-c / k)
    return out


def linpart(p):
    """p = |f| * (k + c) with k free of constants, scaled to leading coefficient +-1: (k, |f|, c)"""
    c = Fraction(0)
    rest = {}
    for m, v in p.a:
        if m == (): c = v
        else: rest[m] = v
    if not rest: return None, None, None
    k = tm._poly(rest)
    f = abs(tm.lead(k))
    return tm.scale(k, 1 / f), f, c / f


def decided(pc, *ts):
    """terms with the conditions that the path condition states literally replaced by their value"""
    sub_ = {}
    for x in flat(pc):
        sub_[x] = TRUE
        sub_[not_(x)] = FALSE
    ts = list(ts)
    bnd = {}
    for x in flat(pc):
        if x.op in ('le0', 'lt0'):
            k, f, c = linpart(x.a[0])
            if k is not None and (k not in bnd or -c < bnd[k]): bnd[k] = -c      # f*k + c <= 0 with f = +-1 folded into k
    if bnd:
        def atmost(p):
            """p <= 0 follows from one comparison of the path condition"""
            k, f, c = linpart(p)
            return k is not None and k in bnd and bnd[k] + c <= 0
        for x in sorted((x for t in ts for x in tm.subterms(t) if x.op in ('min', 'max')), key=depth_of):
            p, q = x.a
            d = sub(p, q)
            v = None
            if atmost(d): v = p if x.op == 'min' else q
            elif atmost(tm.neg(d)): v = q if x.op == 'min' else p
            if v is not None: sub_[x] = tm.lift(v)
    for _ in range(4):
        n = []
        for t in ts:
            try: n.append(tm.rebuild(t, sub_, {}))
            except tm.TooBig: n.append(t)
        if n == ts: break
        ts = n
    return ts


def outer_apps(t, acc, seen):
    if t in seen: return
    seen.add(t)
    if t.op == 'app' and t.a[0] in UNFOLD:
        acc.setdefault(t, None)
        return
    if t.op == 'poly':
        for m, _ in t.a:
            for x, _e in m: outer_apps(x, acc, seen)
        return
    for y in t.a:
        if isinstance(y, tm.T): outer_apps(y, acc, seen)


_gen = {}


def generalise(ts):
    """replace the outermost specification functions by fresh variables of their range; None if there are none"""
    acc, seen = {}, set()
    for t in ts: outer_apps(t, acc, seen)
    if not acc: return None
    sub_ = {}
    for i, x in enumerate(acc):
        lo, hi = tm.bounds(tm._at(x))
        sub_[x] = tm.var('~%d' % i, lo, hi)
    memo = {}
    return [tm.rebuild(t, sub_, memo) for t in ts]


_EQ = {}


def tidy(pc, rounds=3):
    """the same assumptions with the conditions inside them that the others decide replaced by their value; None: contradictory"""
    fs = [x for x in flat(pc) if x is not TRUE]
    for _ in range(rounds):
        changed = False
        for i, f in enumerate(fs):
            rest = fs[:i] + fs[i + 1:]
            if not any(x.op in ('ite', 'min', 'max', 'abs') for x in tm.subterms(f)): continue
            g = decided(rest, f)[0]
            n = 0
            while n < 12:
                n += 1
                for c in _conds(g)[:8]:
                    if not feasible(rest, c, 1000): v = False
                    elif not feasible(rest, not_(c), 1000): v = True
                    else: continue
                    h = resolve(g, c, v)
                    if h is g: continue
                    g = h
                    break
                else: break
            if g is not f:
                fs[i] = g
                changed = True
            if g is FALSE: return None
        fs = [x for y in fs for x in flat([y]) if x is not TRUE]
        if any(not_(x) in fs for x in fs): return None
        if not changed: break
    return fs


def prove_eq(pc, a, b, tol=Fraction(1, 10 ** 5), budget=None, depth=0):
    if depth < 2: return prove_eq0(pc, a, b, tol, budget, depth)
    k = (tuple(x.id for x in pc), tm.lift(a).id, tm.lift(b).id, tol)
    r = _EQ.get(k)
    if r is None:
        if len(_EQ) > 20000: _EQ.clear()
        r = _EQ[k] = prove_eq0(pc, a, b, tol, budget, depth)
    return r


def prove_eq0(pc, a, b, tol=Fraction(1, 10 ** 5), budget=None, depth=0):
    budget = budget or Budget(30)
    a, b = tm.lift(a), tm.lift(b)
    if a is b:
        STATS['nf'] += 1
        return ('proved', 'nf')
    if depth == 0 and any(x.op == 'ite' for t in (a, b) for x in tm.subterms(t)):
        a, b = decided(pc, a, b)
        if a is b:
            STATS['nf'] += 1
            return ('proved', 'nf')
    if depth == 0:
        b = align(a, b)
        if a is b or zero_nf(sub(a, b)):
            STATS['nf'] += 1
            return ('proved', 'nf')
    pin = pinned(pc)
    if depth == 0:
        g = generalise([a, b] + list(pc))
        if g is not None:
            r = prove_eq(g[2:], g[0], g[1], tol, Budget(10), 1)
            if r[0] == 'proved': return r
    if pin:
        a, b = tm.rebuild(a, pin, {}), tm.rebuild(b, pin, {})
        if a is b:
            STATS['nf'] += 1
            return ('proved', 'nf')
    if depth < 4 and len(a.a) == 1 and len(b.a) == 1 and a.op == b.op == 'poly' and a.a[0][1] == b.a[0][1] and len(a.a[0][0]) == 1 and len(b.a[0][0]) == 1:
        # congruence: the same function of equal arguments
        (x, e), (y, e2) = a.a[0][0][0], b.a[0][0][0]
        if x.op == y.op == 'app' and x.a[0] == y.a[0] and e == e2 and len(x.a) == len(y.a):
            if all(prove_eq(pc, p, q, Fraction(0), Budget(5), max(depth, 1) + 1)[0] == 'proved' for p, q in zip(x.a[1:], y.a[1:])): return ('proved', 'nf')
    r = _prove_eq(pc, sub(a, b), tol, budget, 0)
    lvl = 0
    while r[0] != 'proved' and lvl < 6:
        # unfold specification functions and retry
        u, v = unfold(a), unfold(b)
        if u is None and v is None: break
        a, b = a if u is None else u, b if v is None else v
        lvl += 1
        budget.end = max(budget.end, time.time() + 15)
        budget.splits = max(budget.splits, 200)
        r = _prove_eq(pc, sub(a, b), tol, budget, 0)
    return r


def respc(pc, c, val):
    """path condition under the assumption c == val; None if contradictory"""
    h = c if val else not_(c)
    out = []
    for x in pc:
        y = resolve(x, c, val) if vars_of(x) & vars_of(c) else x
        if y is FALSE: return None
        if y is not TRUE and y is not h: out.append(y)
    out.append(h)
    return out


def fmods(p):
    return [x for x in tm.subterms(p) if x.op == 'app' and x.a[0] == 'fmod' and is_const(x.a[2]) and cval(x.a[2]) != 0]


def elim_fmod(pc, ts):
    """replace the innermost fmod whose argument provably spans few periods; None if there is none"""
    for x in [y for t in ts for y in fmods(t)][:1]:
        m = abs(cval(x.a[2]))
        v = x.a[1]
        M = const(m)
        r = None
        if implied(pc, and_(tm.lt(v, M), tm.lt(tm.neg(M), v))): r = v
        elif implied(pc, and_(tm.lt(v, const(2 * m)), tm.lt(const(-2 * m), v))):
            r = tm.ite(tm.le(M, v), sub(v, M), tm.ite(tm.le(v, tm.neg(M)), tm.add(v, M), v))
        if r is not None:
            return [tm.rebuild(t, {x: r}, {}) for t in ts]
    return None


def unclamp(d):
    """d = k * clamp(E) + r where k*E + r is zero as a rational function: k * clamp(-r/k) + r"""
    for mon, k in d.a:
        if len(mon) != 1 or mon[0][1] != 1 or mon[0][0].op not in ('min', 'max'): continue
        m = mon[0][0]
        rest = sub(d, tm.scale(tm._poly({mon: Fraction(1)}), k))
        if any(x is m for x in tm.subterms(rest)): continue
        lim = []
        e = m
        while e is not None and e.op in ('min', 'max'):
            a, b = e.a
            a, b = (a, b) if is_const(a) else (b, a) if is_const(b) else (None, None)
            if a is None:
                e = None
                break
            lim.append((e.op, a))
            e = as_atom(b) if as_atom(b) is not None else b
            if e.op not in ('min', 'max'):
                e = b
                break
        if e is None or not invs(tm.lift(e)) or not zero_nf(tm.add(tm.scale(tm.lift(e), k), rest)): continue
        q = tm.scale(rest, -1 / k)
        for op, c in reversed(lim): q = (tm.fmin if op == 'min' else tm.fmax)(q, c)
        return tm.add(tm.scale(q, k), rest)
    return None


def _prove_eq(pc, d, tol, budget, depth):
    if not d.a:
        STATS['nf'] += 1
        return ('proved', 'nf')
    if zero_nf(d):
        STATS['nf'] += 1
        return ('proved', 'nf')
    if small(d, tol):
        STATS['interval'] += 1
        return ('proved', 'interval')
    conds = _conds(d)
    if conds and budget.ok():
        # decide what the path condition already decides
        changed = False
        for c in conds[:12]:
            if not feasible(pc, c):
                d = resolve(d, c, False)
                pc = respc(pc, c, False)
                changed = True
                break
            if not feasible(pc, not_(c)):
                d = resolve(d, c, True)
                pc = respc(pc, c, True)
                changed = True
                break
        if changed:
            if pc is None: return ('proved', 'z3')
            return _prove_eq(pc, d, tol, budget, depth + 1)
        e = unclamp(d)
        if e is not None: return _prove_eq(pc, e, tol, budget, depth + 1)
        c = conds[0]
        budget.splits -= 1
        STATS['split'] += 1
        back = 'nf'
        for val in (True, False):
            d2 = resolve(d, c, val)
            if d2 is d:
                break
            p2 = respc(pc, c, val)
            if p2 is None: continue
            r = _prove_eq(p2, d2, tol, budget, depth + 1)
            if r[0] != 'proved': return r
            if r[1] != 'nf': back = r[1]
        else:
            return ('proved', back)
    # leaf
    if not conds and budget.ok():
        e = elim_fmod(pc, [d] + list(pc))
        if e is not None:
            if any(x is FALSE for x in e[1:]): return ('proved', 'z3')
            return _prove_eq([x for x in e[1:] if x is not TRUE], e[0], tol, budget, depth + 1)
    tl = const(tol or 0)
    goal = and_(tm.le(d, tl), tm.le(tm.neg(tl), d))
    return prove(pc, goal, timeout=6000)


def invs(t):
    return [x for x in tm.subterms(t) if x.op == 'inv']


def flat(pc):
    for x in pc:
        if x.op == 'and': yield from x.a
        else: yield x


def clear(pc, fs):
    """multiply comparisons by denominators of known sign"""
    sign = {}
    out = []
    for f in fs:
        sub_ = {}
        for x in tm.subterms(f):
            if x.op in ('le0', 'lt0', 'eq0'):
                p = x.a[0]
                ok = True
                for _ in range(6):
                    den = None
                    for mo, _c in p.a:
                        for y, e in mo:
                            if y.op == 'inv': den = (y, max(e, den[1] if den and den[0] is y else 0))
                        if den: break
                    if den is None: break
                    y = den[0]
                    if y not in sign:
                        q = y.a[0]
                        lo, hi = bounds(q)
                        sg = 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else None
                        if sg is None:
                            base = [h for h in flat(pc) if not any(z.op == 'inv' for z in tm.subterms(h))]
                            if implied(base, tm.lt(ZERO, q)): sg = 1
                            elif implied(base, tm.lt(q, ZERO)): sg = -1
                        sign[y] = sg
                    if sign[y] is None:
                        ok = False
                        break
                    e = max(dict(mo).get(y, 0) for mo, _c in p.a)
                    try:
                        dd = tm.powi(y.a[0], e)
                        if sign[y] < 0 and e % 2: dd = tm.neg(dd)
                        # multiply monomial-wise so that inv(q)*q cancels exactly
                        r = ZERO
                        for mo, c in p.a:
                            k = dict(mo).get(y, 0)
                            rest = tm._poly({tuple(z for z in mo if z[0] is not y): c})
                            f2 = tm.powi(y.a[0], e - k)
                            if sign[y] < 0 and e % 2: f2 = tm.neg(f2)
                            r = tm.add(r, tm.mul(rest, f2))
                        p = r
                    except tm.TooBig:
                        ok = False
                        break
                if ok and p is not x.a[0]:
                    sub_[x] = {'le0': tm.le0, 'lt0': tm.lt0}[x.op](p) if x.op != 'eq0' else tm.eq(p, ZERO)
        out.append(tm.rebuild(f, sub_, {}) if sub_ else f)
    return out


def prove(pc, goal, timeout=8000):
    """pc |= goal"""
    goal = tm.lift(goal)
    if goal is TRUE: return ('proved', 'nf')
    if any(h is FALSE for h in pc): return ('proved', 'nf')
    fs = relevant(pc, goal) if vars_of(goal) else list(pc)
    if any(invs(f) for f in fs + [goal]):
        cl = clear(fs, fs + [goal])
        g2 = cl[-1]
        if g2 is TRUE: return ('proved', 'nf')
        if not any(invs(f) for f in cl):
            r = z3check(cl[:-1] + [not_(g2)], min(timeout, 4000), cong=False)[0] if not any(f is FALSE for f in cl[:-1]) and g2 is not FALSE else ('unsat' if any(f is FALSE for f in cl[:-1]) else '')
            if r == 'unsat': return ('proved', 'z3')
    neg = not_(goal)
    if and_(*fs, neg) is FALSE: return ('proved', 'nf')
    if linunsat(fs + [neg]): return ('proved', 'z3')
    r, m = z3check(fs + [neg], timeout, want_model=True, cong=False)
    if r == 'unsat': return ('proved', 'z3')
    if r == 'sat' and not has_app(fs + [neg]): return full(pc, neg, timeout, m)
    r, m2 = z3check(fs + [neg], timeout, want_model=True, cong=True)
    if r == 'unsat': return ('proved', 'z3')
    # unfold spec functions
    g2 = unfold(goal)
    if g2 is not None:
        return prove([unfold1(x) for x in pc], g2, timeout)
    if any(unfold(x) is not None for x in pc):
        return prove([unfold1(x) for x in pc], goal, timeout)
    if r == 'unknown':
        c = cvc5check(fs + [neg], timeout)
        if c == 'unsat': return ('proved', 'cvc5')
    if r == 'sat': return full(pc, neg, timeout, m2)
    return ('unknown', m or m2)


def full(pc, neg, timeout, m):
    """the relevant part is satisfiable: a model of everything"""
    r, mm = z3check(list(pc) + [neg], timeout, want_model=True)
    if r == 'unsat': return ('proved', 'z3')
    return ('refuted', mm or m)


def has_app(fs):
    return any(x.op == 'app' and x.a[0] not in ('floor', 'trunc', 'round', 'ceil') for f in fs for x in tm.subterms(f))


def cvc5check(fs, timeout):
    t0 = time.time()
    STATS['cvc5'] += 1
    try:
        import cvc5
        e = Enc()
        enc = [e.enc(f) for f in fs]
        e.flush()
        s = z3.Solver()
        s.add(*e.ax)
        s.add(*enc)
        s.add(*e.congruence())
        txt = '(set-logic ALL)\n' + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if o in ('sat', 'unsat', 'unknown'): res = o
        return res
    except Exception:
        return 'unknown'
    finally:
        STATS['cvc5_time'] += time.time() - t0


def prove_split(pc, goal, timeout=8000, budget=None):
    """inequality goals: split on conditions first when plain SMT does not finish"""
    budget = budget or Budget(40, 100)
    goal = tm.lift(goal)
    r = prove(pc, goal, min(timeout, 3000))
    if r[0] != 'unknown': return r

    def go(pc, g):
        if g is TRUE: return ('proved', 'nf')
        cs = _conds(g)
        if not cs or not budget.ok(): return prove(pc, g, timeout)
        c = cs[0]
        budget.splits -= 1
        back = 'nf'
        for val in (True, False):
            h = c if val else not_(c)
            if not feasible(pc, h): continue
            g2 = resolve(g, c, val)
            if g2 is g: return prove(pc, g, timeout)
            r = go(pc + [h], g2)
            if r[0] != 'proved': return r
            if r[1] != 'nf': back = r[1]
        return ('proved', back)
    return go(list(pc), goal)
