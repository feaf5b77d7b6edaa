"""Loops whose number of iterations is symbolic: the invariant is inferred (closed forms of counters, sums, one appended
element per iteration) and its preservation is what executing the body once from an arbitrary iteration establishes.

The state before iteration k is   counter = start + c*k,   accumulator = start + sum of the first k summands,
list = given elements followed by E(0..k-1).  The body is executed from that state with k arbitrary (0 <= k, loop condition
holds) and every other variable it writes arbitrary; the invariant is accepted only if each written variable then has the
closed form of k+1.  Anything else is left to ordinary execution."""
import os
from fractions import Fraction
from . import terms as tm
from . import prover
from .terms import T, TRUE, FALSE
from .exec import *
from . import exec as EX

J = tm.var('loop.j', 0, None, True)       # bound index of a sum
JA = tm.as_atom(J)


# ---------------------------------------------------------------- sums over an index range
def sum_over(e, k, n):
    """sum of e for the index term k = 0..n-1, as a term: linear, index-free factors pulled out"""
    e = tm.lift(e)
    ka = tm.as_atom(k)
    if not dep(e, ka): return tm.mul(e, tm.lift(n))
    r = tm.ZERO
    for m, c in e.a:
        inn, out = {}, {}
        for a, x in m: (inn if dep(a, ka) else out)[a] = x
        q = tm._mono(out) if out else tm.ONE
        if not inn: s = tm.lift(n)
        else:
            s = prefix(tm.rebuild(tm._mono(inn), {ka: J}, {}), tm.lift(n))
        r = tm.add(r, tm.scale(tm.mul(q, s), c))
    return r


def cut(p):
    """(p without its constant, the constant)"""
    c = sum((cf for m, cf in p.a if not m), Fraction(0))
    return tm.sub(p, tm.const(c)), c


def prefix(f, n):
    """sum of f(j) for j = 0..n-1 (n not negative), written with sums of the shape  f(0) + .. + f(m-1)  for an m without constant part,
    so that sums over shifted or reversed indices meet the plain ones"""
    at = set()
    for t in tm.subterms(f):
        if t.op != 'app': continue
        for q in t.a[1:]:
            if not isinstance(q, T) or q.op != 'poly' or not dep(q, JA): continue
            co = [cf for m, cf in q.a if m == ((JA, 1),)]
            rest = tm.sub(q, tm.scale(J, co[0])) if co else None
            at.add((co[0], rest) if co and not dep(rest, JA) else None)
    plain = tm.app('sum', f, n)
    if not at or None in at or len(at) != 1: return plain
    (s, c), = at
    if c is tm.ZERO and s == 1: return upto(f, n, plain)
    if not tm.is_int(c): return plain
    k = cut(c)
    if s == 1 and k[0] is tm.ZERO and k[1] >= 0:
        g = tm.rebuild(f, {JA: tm.sub(J, c)}, {})
        m = tm.add(n, c)
        r = upto(g, m, None)
        return plain if r is None else tm.sub(r, first(g, int(k[1])))
    if s == -1:
        low = cut(tm.add(tm.sub(c, n), tm.ONE))
        if low[0] is not tm.ZERO or low[1] < 0: return plain
        g = tm.rebuild(f, {JA: tm.sub(c, J)}, {})
        r = upto(g, tm.add(c, tm.ONE), None)
        return plain if r is None else tm.sub(r, first(g, int(low[1])))
    return plain


def at(g, i): return tm.rebuild(g, {JA: tm.lift(i)}, {})


def first(g, k):
    r = tm.ZERO
    for i in range(k): r = tm.add(r, at(g, tm.const(i)))
    return r


def upto(g, n, other):
    """g(0) + .. + g(n-1), where n is not negative"""
    m, c = cut(n)
    if c.denominator != 1 or abs(c) > 8: return other
    if m is tm.ZERO: return first(g, int(c)) if c >= 0 else other
    lo = tm.bounds(m)[0]
    if c > 0 and (lo is None or lo < 0): return other
    r = tm.app('sum', g, m)
    for i in range(int(abs(c))):
        if c > 0: r = tm.add(r, at(g, tm.add(m, tm.const(i))))
        else: r = tm.sub(r, at(g, tm.sub(m, tm.const(i + 1))))
    return r


def dep(t, a):
    return a in tm.subterms(t)


class SymList:
    """a list of unknown length n: element k is given by at(k)"""
    def __init__(self, size, make): 
        self.size, self.make = size, make
        self.memo = {}
        self.parts = {}         # cell an element points to -> its numbers

    def elem(self, x, v, i, checked):
        i = tm.lift(i)
        x.defs.append((tuple(x.pc), 'index', tm.and_(tm.le(tm.ZERO, i), tm.lt(i, self.size)), None, 'list', x.depth))
        c = self.memo.get(i.id)
        if c is None: c = self.memo[i.id] = Cell(self.make(i), 'element')
        if isinstance(c.v, Ptr) and c.v.cell in self.parts: x.elems[c.v.cell] = (self, i, self.parts[c.v.cell])
        return c

    def method(self, x, v, short, args):
        if short == 'front': return self.elem(x, v, tm.ZERO, False)
        if short == 'back': return self.elem(x, v, tm.sub(self.size, tm.ONE), False)
        if short in ('begin', 'cbegin', 'data'): return Ptr(arr=v, idx=tm.ZERO)
        if short in ('end', 'cend'): return Ptr(arr=v, idx=self.size)
        raise Unsupported('%s of a list of unknown length' % short)


class Growing:
    """a list inside or after a loop that appends one element per iteration: a known prefix, then count elements"""
    def __init__(self, prefix, count, last=None, tail=None, k=None):
        self.prefix, self.count, self.last, self.tail, self.k = prefix, count, last, tail, k
        self.size = tm.add(tm.const(len(prefix)), count)

    def elem(self, x, v, i, checked):
        i = tm.lift(i)
        n = tm.sub(i, self.size)
        if v.c and tm.is_const(n) and 0 <= tm.cval(n) < len(v.c): return v.c[int(tm.cval(n))]
        if self.last is not None and n is tm.const(-1): return self.last
        if tm.is_const(i) and 0 <= tm.cval(i) < len(self.prefix): return self.prefix[int(tm.cval(i))]
        raise Unsupported('element of a growing list')

    def method(self, x, v, short, args):
        if short in ('push_back', 'emplace_back') and len(args) == 1:
            x.wvec(v)
            v.c = v.c + [Cell(x.copy(args[0]) if isinstance(args[0], Cell) else args[0])]
            return None
        if short == 'back':
            if v.c: return v.c[-1]
            if self.last is not None: return self.last
        if short in ('reserve', 'shrink_to_fit'): return None
        raise Unsupported('%s of a growing list' % short)


# ---------------------------------------------------------------- the body, on all its paths
def run_paths(x, go):
    """outcomes of go() on each feasible path from the current state: (conditions, {cell: value}, {list: appended}, result); the state is restored"""
    sv = (x.decs, x.pos, x.pc, x.frame, x.writes, list(x.cur), x.depth)
    decs, res = [], []
    cp = set(x.D.cpos)
    try:
        while True:
            x.decs, x.pos, x.pc = decs, 0, list(sv[2])
            x.frame = EX.nstamp()
            x.writes = {}
            x.cur = list(sv[5])
            x.depth = sv[6]
            if len(res) > 40: raise Unsupported('paths of a loop body')
            try:
                r = go()
                feas = True
            except Infeasible:
                feas = False
            finally:
                w = x.writes
                vals, vecs = {}, {}
                for c, old in w.items():
                    if isinstance(c, Vec):
                        vecs[c] = list(c.c)
                        c.c = old
                    else:
                        vals[c] = c.v
                        c.v = old
            if feas: res.append((x.pc[len(sv[2]):], vals, vecs, r))
            while decs and not decs[-1][1]: decs.pop()
            if not decs: break
            decs[-1] = [not decs[-1][0], False]
    finally:
        x.decs, x.pos, x.pc, x.frame, x.writes = sv[:5]
        x.cur, x.depth = sv[5], sv[6]
        x.D.cpos = cp
    return res


class NoSummary(Exception):
    pass


def hook(x, s, env, c=None):
    if c is None: return False
    if x.wstamp is not None: raise NeedFork()
    nd = len(x.defs)
    fn = x.fresh_n
    try:
        return summarise(x, s, env, c)
    except (NoSummary, Unsupported, NeedFork, Brk, Cont) as e:
        if os.environ.get("CM_LOOP"): print("loop", s.get("l"), repr(e))
        del x.defs[nd:]
        x.fresh_n = fn
        if isinstance(c, Vec): raise Unsupported('range loop over a list of unknown length (%s)' % e)
        return False


def summarise(x, s, env, c):
    rng = isinstance(c, Vec)
    body = s['body']
    test = None if rng else s.get('cond')
    inc = None if rng else s.get('inc')
    kt = x.fresh('loop.k', 0, None, True)
    byref = rng and x.types[s['var']['t']]['k'] == 'r'

    def cond(): 
        if test is None: return None
        v = x.cond(test, env)
        if isinstance(v, bool): v = tm.boolc(v)
        if not isinstance(v, T) or v.sort != 'B': raise NoSummary('loop condition')
        return v

    def go():
        if test is not None:
            v = cond()
            x.assume(v)
        if rng:
            q = c.sym.elem(x, c, kt, False)
            env.v[s['var']['id']] = q if byref else Cell(x.copy(q), s['var']['n'])
        try:
            x.st(body, env)
        except Cont:
            pass
        except (Brk, Ret):
            raise NoSummary('early exit')
        except CppThrow:
            raise NoSummary('throw in a loop')
        if inc is not None: x.ev(inc, env)
        return None

    def attempt(state):
        """run the body with the written cells set to `state` (cell -> value) and lists to growing form"""
        sv = {q: q.v for q in state[0]}
        svv = {v: (v.c, v.sym) for v in state[1]}
        pc0 = list(x.pc)
        nd = len(x.defs)
        try:
            for q, v in state[0].items(): q.v = v
            for v, g in state[1].items():
                v.sym = g
                v.c = []
            if rng: x.pc = pc0 + [tm.lt(kt, tm.lift(c.sym.size))]
            return run_paths(x, go), nd
        finally:
            x.pc = pc0
            for q, v in sv.items(): q.v = v
            for v, (cc, sy) in svv.items(): v.c, v.sym = cc, sy

    # which variables does the body write?
    W, L = {}, {}
    for _ in range(8):
        paths, nd = attempt((W, L))
        del x.defs[nd:]
        new = False
        for pc, vals, vecs, r in paths:
            for q in vals:
                if q in W: continue
                old = x.rd(q)
                if isinstance(old, Ptr) and isinstance(old.idx, T) and isinstance(vals[q], Ptr) and vals[q].arr is old.arr:
                    W[q] = Ptr(arr=old.arr, idx=x.fresh('loop.h', integer=True))
                    new = True
                    continue
                if isinstance(old, bool) or not isinstance(old, (int, T)) or isinstance(old, T) and old.sort == 'B': raise NoSummary('loop changes a %s' % type(old).__name__)
                if not isinstance(vals[q], (int, T)): raise NoSummary('loop variable')
                i = isinstance(old, int) or tm.is_int(old)
                W[q] = x.fresh('loop.h', 0 if i and nonneg(old) else None, integer=i)
                new = True
            for v in vecs:
                if v in L: continue
                if v.sym is not None: raise NoSummary('list')
                L[v] = Growing(list(v.c), kt, Cell(havoc(x, v)) if v.c else None)
                new = True
        if not new: break
    else: raise NoSummary('loop state')
    if not paths: raise NoSummary('no path through the loop body')
    # counters
    count = {}
    for q, h in W.items():
        ds = {tm.sub(num(vals.get(q, h)), num(h)) for pc, vals, vecs, r in paths}
        if len(ds) == 1:
            d = ds.pop()
            if tm.is_const(d) and tm.cval(d).denominator == 1: count[q] = d
    if any(isinstance(h, Ptr) and q not in count for q, h in W.items()): raise NoSummary('iterator')
    W = {q: h if q in count else x.fresh('loop.v', integer=tm.is_int(h)) for q, h in W.items()}
    st = dict(W)
    def moved(v, d): return Ptr(arr=v.arr, idx=tm.add(tm.lift(v.idx), d)) if isinstance(v, Ptr) else tm.add(tm.lift(v), d)
    for q, d in count.items(): st[q] = moved(x.rd(q), tm.mul(d, kt))
    paths, nd = attempt((st, L))
    for pc, vals, vecs, r in paths:
        for q in vals:
            if q not in W: raise NoSummary('loop state')
        for v in vecs:
            if v not in L: raise NoSummary('loop state')
    hav = {tm.as_atom(num(h)) for q, h in W.items() if q not in count}

    def combine(get):
        r = get(paths[-1])
        for p in reversed(paths[:-1]): r = x.mite(tm.and_(*p[0]) if p[0] else True, get(p), r)
        return tm.lift(r)
    acc = {}
    for q, h in W.items():
        if q in count:
            for p in paths:
                if tm.sub(num(p[1].get(q, st[q])), num(st[q])) is not count[q]: raise NoSummary('counter')
            continue
        post = combine(lambda p: tm.lift(p[1].get(q, h)))
        e = tm.sub(post, h)
        if not any(dep(e, a) for a in hav): acc[q] = ('sum', e)
        elif not any(dep(post, a) for a in hav): acc[q] = ('last', post)
        else: raise NoSummary('recurrence')
    # number of iterations
    if rng: N = tm.lift(c.sym.size)
    else:
        svc = {q: q.v for q in st}
        try:
            for q, v in st.items(): q.v = v
            t = cond()
        finally:
            for q, v in svc.items(): q.v = v
        N = iterations(x, t, kt)
    ka = tm.as_atom(kt)
    for v in L:
        es = [p[2].get(v) for p in paths]
        if any(e is None or len(e) != 1 for e in es): raise NoSummary('appends')
        if len(es) != 1: raise NoSummary('appends on several paths')
    # the definedness conditions met in the body hold for every iteration below N
    x.defs[nd:] = [((*d[0], tm.lt(kt, N)), *d[1:]) for d in x.defs[nd:]]
    for q, d in count.items(): x.wr(q, moved(x.rd(q), tm.mul(d, N)))
    for q, (kind, e) in acc.items():
        if kind == 'sum': x.wr(q, tm.add(tm.lift(x.rd(q)), sum_over(e, kt, N)))
        else:
            last = tm.rebuild(e, {ka: tm.sub(N, tm.ONE)}, {})
            x.wr(q, tm.ite(tm.lt(tm.ZERO, N), last, tm.lift(x.rd(q))))
    for v, g in L.items():
        x.wvec(v)
        tail = paths[0][2][v][0]
        if g.last is not None: same_state(x, x.rd(g.last), x.rd(tail))
        n = Growing(g.prefix, N, g.last, tail, kt)
        v.c, v.sym = [], n
    return True


def iterations(x, t, k):
    """the number of iterations of a loop that runs while t(k)"""
    op = t.op
    neq = False
    if op in ('lt0', 'le0'): p = t.a[0]
    elif op == 'not' and t.a[0].op == 'eq0':
        p = t.a[0].a[0]
        neq = True
    else: raise NoSummary('loop condition')
    ka = tm.as_atom(k)
    co, rest = Fraction(0), tm.ZERO
    for m, cf in p.a:
        d = dict(m)
        if ka in d:
            if d != {ka: 1}: raise NoSummary('loop condition')
            co = cf
        elif any(dep(a, ka) for a in d): raise NoSummary('loop condition')
        else: rest = tm.add(rest, tm.scale(tm._mono(d) if d else tm.ONE, cf))
    if neq and co == -1: p, co, rest = tm.neg(p), Fraction(1), tm.neg(rest)
    # runs while co*k + rest < 0 (or <= 0)
    if co != 1 or not all(cf.denominator == 1 and all(tm.is_int(tm._at(a)) for a, _ in m) for m, cf in rest.a): raise NoSummary('loop step')
    d0 = tm.neg(rest)
    if op == 'le0': d0 = tm.add(d0, tm.ONE)
    if neq:
        if not prover.implied(x.pc, tm.le(tm.ZERO, d0)): raise NoSummary('loop condition')
        return d0
    if prover.implied(x.pc, tm.le(tm.ZERO, d0)): return d0
    return tm.fmax(d0, tm.ZERO)


def havoc(x, v):
    """an arbitrary element of a list of colors: same class and color space as the list's last element"""
    from . import model
    o = x.rd(v.c[-1])
    if not isinstance(o, Ptr) or o.null(): return o
    w = model.view(x, o)
    x.fresh_n += 1
    return model.sym_color(x, w.type, 'prev#%d' % x.fresh_n, w.space)


def num(v): return tm.lift(v.idx) if isinstance(v, Ptr) else tm.lift(v)


def nonneg(v):
    lo = tm.bounds(tm.lift(v))[0]
    return lo is not None and lo >= 0


def same_state(x, a, b):
    """the appended element is of the class and color space the arbitrary last element was taken to have"""
    from . import model
    if not isinstance(a, Ptr): return
    if not isinstance(b, Ptr) or b.null(): raise NoSummary('element')
    u, w = model.view(x, a), model.view(x, b)
    if u.type != w.type or not (isinstance(w.space, Ptr) and (w.space.same(u.space) or w.space.cell is not None and u.space.cell is not None and w.space.cell.v is u.space.cell.v)): raise NoSummary('element class')
