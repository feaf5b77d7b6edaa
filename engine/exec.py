"""Symbolic executor over the extracted AST (strongest-postcondition generation, one path at a time).

Values: scalars are Python ints/bools (concrete integers), terms (symbolic), or domain floats; objects are Obj,
containers Vec, pointers Ptr, callables Func.  Exploration re-executes a function with a decision prefix, so state
is plain mutable Python data; conditional expressions and scalar calls are merged into if-then-else terms.
"""
import re
import sys
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE
from . import prover
from . import program

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    pass


class UB(Exception):
    pass


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, val, tname, ptr):
        self.val, self.tname, self.ptr = val, tname, ptr


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class _Un:
    def __repr__(self): return 'UNINIT'


UNINIT = _Un()
_stamp = [0]


def nstamp():
    _stamp[0] += 1
    return _stamp[0]


class Cell:
    __slots__ = ('v', 'stamp', 'name')

    def __init__(self, v=UNINIT, name=None):
        self.v = v
        self.stamp = nstamp()
        self.name = name


class Obj:
    __slots__ = ('cls', 'f', 'stamp', 'tag', 'abs')

    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.stamp = nstamp()
        self.tag = None
        self.abs = None          # abstract object: method name -> value provider

    def __repr__(self): return '<%s>' % self.cls


class Vec:
    __slots__ = ('c', 'kind', 'et', 'stamp', 'sym')

    def __init__(self, kind, et, cells=None):
        self.kind, self.et = kind, et
        self.c = cells if cells is not None else []
        self.stamp = nstamp()
        self.sym = None


class Ptr:
    """pointer to a cell, or into a Vec (arr, idx)"""
    __slots__ = ('cell', 'arr', 'idx')

    def __init__(self, cell=None, arr=None, idx=0):
        self.cell, self.arr, self.idx = cell, arr, idx

    def null(self): return self.cell is None and self.arr is None

    def same(self, o):
        if self.arr is not None or o.arr is not None: return self.arr is o.arr and self.idx == o.idx
        return self.cell is o.cell

    def __repr__(self): return 'Ptr(%r)' % (self.cell.v if self.cell else (self.arr, self.idx))


NULL = Ptr()


def changes(e):
    """an expression that changes a variable"""
    if isinstance(e, list): return any(changes(c) for c in e)
    if not isinstance(e, dict): return False
    if e.get('k') in ('UnaryOperator',) and e.get('op') in ('++', '--') or e.get('k') == 'CompoundAssignOperator' or e.get('k') == 'BinaryOperator' and e.get('op') == '=': return True
    if e.get('k') == 'CXXOperatorCallExpr': return True
    return any(changes(c) for c in e.values() if isinstance(c, (dict, list)))


class Func:
    __slots__ = ('node', 'caps', 'this', 'fn', 'py', 'tu')

    def __init__(self, node=None, caps=None, this=None, fn=None, py=None):
        self.node, self.caps, self.this, self.fn, self.py = node, caps, this, fn, py


def age(v, seen):
    """stamp 0 on everything reachable: state of static storage"""
    if id(v) in seen: return
    seen.add(id(v))
    if isinstance(v, Cell):
        v.stamp = 0
        age(v.v, seen)
    elif isinstance(v, Obj):
        v.stamp = 0
        for c in v.f.values(): age(c, seen)
    elif isinstance(v, Vec):
        v.stamp = 0
        for c in v.c: age(c, seen)
    elif isinstance(v, Ptr) and v.cell is not None: age(v.cell, seen)


class Env:
    __slots__ = ('v', 'this', 'statics')

    def __init__(self, this=None, v=None):
        self.v = v if v is not None else {}
        self.this = this


_TA = re.compile(r'<[^<>]*>')


def strip_t(n):
    n = n.replace('operator<=', 'operator%LE').replace('operator>=', 'operator%GE').replace('operator<<', 'operator%SL').replace('operator>>', 'operator%SR').replace('operator->', 'operator%AR').replace('operator<', 'operator%LT').replace('operator>', 'operator%GT')
    while True:
        m = _TA.sub('', n)
        if m == n: break
        n = m
    return n.replace('%LE', '<=').replace('%GE', '>=').replace('%SL', '<<').replace('%SR', '>>').replace('%AR', '->').replace('%LT', '<').replace('%GT', '>').replace('std::__cxx11::', 'std::')


# ------------------------------------------------------------------------------------ domains
class RealD:
    name = 'real'

    def __init__(self):
        self.pos = set()       # terms whose float value is certainly not negative (no cancellation)
        self.cpos = set()      # the same, under the current path condition
        self.x = None

    def nn(self, v):
        """2: never negative, 1: not negative under the path condition, 0: not known"""
        if not isinstance(v, T): return 2 if v >= 0 else 0
        if v.id in self.pos: return 2
        lo = tm.bounds(v)[0]
        if lo is not None and lo >= 0: return 2
        if v.id in self.cpos or tm.as_atom(v) is not None and self.known(tm.ZERO, v): return 1
        return 0

    def known(self, a, b):
        if self.x is None: return False
        g = tm.le(a, b)
        return any(g is p or p.op == 'and' and g in p.a for p in self.x.pc)

    def mark(self, r, ok):
        if ok and isinstance(r, T): (self.cpos if ok == 1 and ok is not True else self.pos).add(r.id)
        return r

    def lit(self, node):
        sp = node.get('sp')
        if sp:
            s = sp.rstrip('fFlL').replace("'", '')
            try:
                return tm.const(Fraction(s))
            except ValueError:
                pass
        return tm.const(Fraction(node['v']))

    def const(self, v, ty=None): return tm.const(Fraction(v) if not isinstance(v, float) else Fraction(repr(v)))
    def add(self, a, b): return self.mark(tm.add(a, b), min(self.nn(a), self.nn(b)))
    def sub(self, a, b):
        r = tm.sub(a, b)
        if (tm.is_const(a) or tm.as_atom(a) is not None) and (tm.is_const(b) or tm.as_atom(b) is not None) and self.known(b, a): self.mark(r, 1)
        return r
    def mul(self, a, b): return self.mark(tm.mul(a, b), 2 if a is b else min(self.nn(a), self.nn(b)))
    def div(self, a, b): return self.mark(tm.div(a, b), min(self.nn(a), self.nn(b)))
    def neg(self, a): return tm.neg(a)
    def lt(self, a, b): return tm.lt(a, b)
    def le(self, a, b): return tm.le(a, b)
    def eq(self, a, b): return tm.eq(a, b)
    def not_(self, a): return tm.not_(a)
    def and_(self, *a): return tm.and_(*a)
    def or_(self, *a): return tm.or_(*a)
    def ite(self, c, a, b): return tm.ite(c, tm.lift(a), tm.lift(b))
    def isfloat(self, v): return isinstance(v, T)
    def fcast(self, v, ty): return v
    def i2f(self, v, ty): return tm.lift(v) if not isinstance(v, bool) else tm.const(int(v))
    def f2i(self, v):
        if tm.is_const(v):
            import math
            return math.trunc(tm.cval(v))
        return tm.app('trunc', v)

    def call(self, f, a):
        if f == 'fabs': return tm.fabs(a[0])
        if f == 'fmin': return tm.fmin(*a)
        if f == 'fmax': return tm.fmax(*a)
        if f == 'hypot': return tm.app('sqrt', tm.add(tm.mul(a[0], a[0]), tm.mul(a[1], a[1])))
        r = tm.app(f, *a)
        if f == 'pow': self.mark(r, (2 if tm.cval(a[1]) % 2 == 0 else self.nn(a[0])) if isinstance(a[1], T) and tm.is_const(a[1]) else 0)
        return r

    def truth(self, c): return True if c is TRUE else False if c is FALSE else None
    def feasible(self, pc, c): return prover.feasible(pc, c)


MATH = {}
for b in ('pow', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'fmin', 'fmax', 'fmod', 'cbrt', 'hypot', 'exp2', 'log2'):
    for p in ('', 'std::'):
        for s in ('', 'f', 'l'): MATH[p + b + s] = b
MATH['abs'] = MATH['std::abs'] = 'fabs'


# ------------------------------------------------------------------------------------ executor
class Exec:
    def __init__(self, prog, dom=None, contracts=None, maxpaths=3000):
        self.p = prog
        self.types = prog['types']
        self.D = dom or RealD()
        if isinstance(self.D, RealD): self.D.x = self
        self.contracts = contracts or {}
        self.maxpaths = maxpaths
        self.top = None            # function under verification (its own contract is not used on itself)
        self.bynorm = {}
        self.clsmethods = {}
        self.vt = {}
        for k, f in prog['funs'].items():
            if f.get('cls') is not None and f.get('ovr'):
                for o in f['ovr']: self.vt.setdefault(o, {})[self.cname(f['cls'])] = k
        self.recn = {}
        for r in prog['recs'].values():
            if r.get('f') is not None or r['n'] not in self.recn: self.recn.setdefault(r['n'], r)
        self._bases = {}
        self.reset()
        self.loop_hook = None
        self.trace_calls = set()
        self.used_contracts = set()
        self.inlined = set()
        self.frame = None
        self.max_unroll = 200

    def reset(self):
        self.pc = []
        if isinstance(self.D, RealD): self.D.cpos = set()
        self.defs = []          # definedness side conditions: (pc, kind, term, line)
        self.globals = {}
        self.fresh_n = 0
        self.writes = {}
        self.wstamp = None
        self.depth = 0
        self.statics = {}
        self.cur = []
        self.wlog = None
        self.elems = {}         # objects that are elements of a list of unknown length: cell -> (list, index, numbers)
        self.aliasq = set()     # pairs of given objects whose addresses were compared

    # -------------------------------------------------------------- types
    def ty(self, n): return self.types[n['t']]
    def tyi(self, i): return self.types[i]

    def cname(self, ti):
        t = self.types[ti]
        while t['k'] in ('r', 'p'): t = self.types[t['e']]
        return t.get('n', t['s'])

    def isflt(self, t): return t['k'] == 'b' and t['n'] in ('float', 'double', 'long double')
    def isint(self, t): return t['k'] == 'b' and 'w' in t and t['n'] != 'bool'
    def isbool(self, t): return t['k'] == 'b' and t['n'] == 'bool'
    def isscalar(self, t): return t['k'] == 'e' or (t['k'] == 'b' and t['n'] != 'void')

    def deref(self, t):
        while t['k'] == 'r': t = self.types[t['e']]
        return t

    def bases(self, cls):
        r = self._bases.get(cls)
        if r is None:
            r = [cls]
            rec = self.recn.get(cls)
            for b in (rec or {}).get('b') or []:
                r += self.bases(self.types[b]['n'])
            self._bases[cls] = r
        return r

    # -------------------------------------------------------------- exploration
    def explore(self, thunk):
        """yield thunk()'s outcome for each feasible path"""
        decs = []
        n = 0
        while True:
            self.reset()
            self.decs, self.pos = decs, 0
            n += 1
            if n > self.maxpaths: raise PathLimit('more than %d paths' % self.maxpaths)
            try:
                yield thunk()
            except Infeasible:
                pass
            while decs and not decs[-1][1]: decs.pop()
            if not decs: return
            decs[-1] = [not decs[-1][0], False]

    def decide(self, c):
        if isinstance(c, bool): return c
        tv = self.D.truth(c)
        if tv is not None: return tv
        if self.pos < len(self.decs):
            ch = self.decs[self.pos][0]
        else:
            nc = self.D.not_(c)
            a = self.D.feasible(self.pc, c)
            b = self.D.feasible(self.pc, nc) if a else True
            if a and b: self.decs.append([True, True])
            elif a: self.decs.append([True, False])
            else: self.decs.append([False, False])
            ch = self.decs[-1][0]
        self.pos += 1
        x = c if ch else self.D.not_(c)
        if not any(x is y for y in self.pc): self.pc.append(x)
        return ch

    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        tv = self.D.truth(c)
        if tv is True: return
        if tv is False: raise Infeasible()
        if not any(c is y for y in self.pc): self.pc.append(c)

    def merged(self, thunk):
        """run thunk on all its paths and merge scalar results into one term; fall back to forking"""
        sv = (self.decs, self.pos, self.pc, self.wstamp, self.writes, self.fresh_n, list(self.cur))
        st0 = _stamp[0]
        decs = []
        res = []
        ndef = len(self.defs)
        cp = set(self.D.cpos) if isinstance(self.D, RealD) else None
        ok = True
        try:
            n = 0
            while True:
                self.decs, self.pos, self.pc = decs, 0, list(sv[2])
                self.wstamp = st0
                self.writes = {}
                n += 1
                if n > 64: raise NeedFork()
                v = thunk()
                if not (isinstance(v, (bool, int)) or self.D.isfloat(v) or self.isb(v)): raise NeedFork()
                res.append((self.pc[len(sv[2]):], v))
                while decs and not decs[-1][1]: decs.pop()
                if not decs: break
                decs[-1] = [not decs[-1][0], False]
        except (NeedFork, CppThrow, UB, Infeasible):
            ok = False
        finally:
            cur = self.cur
            self.decs, self.pos, self.pc, self.wstamp, self.writes = sv[:5]
            self.cur = sv[6]
            if cp is not None: self.D.cpos = cp
        if not ok:
            del self.defs[ndef:]
            self.fresh_n = sv[5]
            return thunk()
        r = res[-1][1]
        for conds, v in reversed(res[:-1]):
            r = self.mite(self.D.and_(*conds) if conds else True, v, r)
        return r

    def isb(self, v):
        return isinstance(v, T) or (not isinstance(v, (Obj, Vec, Ptr, Func, str, Cell)) and v is not None and hasattr(v, 'sexpr'))

    def mite(self, c, a, b):
        if c is True: return a
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) == type(b) and a == b: return a
        if isinstance(a, bool) or isinstance(b, bool):
            A = self.tob(a)
            B = self.tob(b)
            return self.D.or_(self.D.and_(c, A), self.D.and_(self.D.not_(c), B))
        return self.D.ite(c, a, b)

    def tob(self, a):
        if isinstance(a, bool) and isinstance(self.D, RealD): return tm.boolc(a)
        return a

    def fresh(self, hint, lo=None, hi=None, integer=False):
        self.fresh_n += 1
        return tm.var('%s#%d' % (hint, self.fresh_n), lo, hi, integer)

    # -------------------------------------------------------------- cells
    def wr(self, cell, v):
        if self.wstamp is not None and cell.stamp <= self.wstamp: raise NeedFork()
        if cell.stamp == 0 and self.frame is not None: raise Unsupported('writes state of static storage (%s)' % cell.name)
        if self.frame is not None and cell.stamp <= self.frame and cell not in self.writes: self.writes[cell] = cell.v
        if self.wlog is not None: self.wlog.append((cell, cell.v))
        cell.v = v

    def wvec(self, vec):
        if self.wstamp is not None and vec.stamp <= self.wstamp: raise NeedFork()
        if vec.stamp == 0 and self.frame is not None: raise Unsupported('writes state of static storage')
        if self.frame is not None and vec.stamp <= self.frame and vec not in self.writes: self.writes[vec] = list(vec.c)

    def rd(self, cell):
        v = cell.v
        if v is UNINIT: raise UB('read of uninitialised memory%s' % (' (%s)' % cell.name if cell.name else ''))
        if isinstance(v, LazyV):
            v = cell.v = v.make()
        return v

    def val(self, x):
        return self.rd(x) if isinstance(x, Cell) else x

    def cellof(self, x):
        return x if isinstance(x, Cell) else Cell(x)

    def pcell(self, p):
        """cell a pointer points at"""
        if isinstance(p, Cell): p = self.rd(p)
        if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
        if p.arr is not None:
            i = p.idx
            if p.arr.sym is not None and hasattr(p.arr.sym, 'elem'): return p.arr.sym.elem(self, p.arr, tm.lift(i), False)
            if not isinstance(i, int): raise Unsupported('symbolic array index')
            if i < 0 or i >= len(p.arr.c): raise UB('pointer out of bounds')
            return p.arr.c[i]
        if p.cell is None: raise UB('null pointer dereference')
        return p.cell

    # -------------------------------------------------------------- values
    def zero(self, ti):
        t = self.types[ti]
        if self.isflt(t): return self.D.const(0, t['n'])
        if self.isbool(t): return False
        if t['k'] == 'b' or t['k'] == 'e': return 0
        if t['k'] == 'p': return NULL
        if t['k'] == 'a': return Vec('carray', t['e'], [Cell(self.zero(t['e'])) for _ in range(t['n'])])
        if t['k'] == 'c': return self.default_obj(ti)
        raise Unsupported('zero of ' + t['s'])

    def uninit(self, ti):
        t = self.types[ti]
        if t['k'] == 'a': return Vec('carray', t['e'], [Cell(self.uninit(t['e'])) for _ in range(t['n'])])
        if t['k'] == 'c':
            if strip_t(t['n']) == 'std::array': return Vec('array', t['a'][0], [Cell(self.uninit(t['a'][0])) for _ in range(t['a'][1]['i'])])
            return self.default_obj(ti, False)
        return UNINIT

    def default_obj(self, ti, zero=True):
        t = self.types[ti]
        n = strip_t(t['n'])
        if n == 'std::vector': return Vec('vector', t['a'][0])
        if n == 'std::array':
            return Vec('array', t['a'][0], [Cell(self.zero(t['a'][0]) if zero else self.uninit(t['a'][0])) for _ in range(t['a'][1]['i'])])
        if n == 'std::function': return Func()
        if n == 'std::basic_string': return ''
        if n in ('std::shared_ptr', 'std::unique_ptr'): return NULL
        o = Obj(t['n'])
        if n in ('std::pair', 'std::tuple'):
            ts = [x for x in t['a'] if isinstance(x, int)]
            for nm, x in zip(('first', 'second') if n == 'std::pair' else ['e%d' % i for i in range(9)], ts): o.f[nm] = Cell(self.zero(x))
            return o
        # default constructor of a class in the repository
        rec = self.recn.get(t['n'])
        if rec is None: return o
        k = self.find_ctor(t['n'], lambda f: len(f['params']) == 0)
        if k: return self.construct(ti, k, [])
        self.init_fields(o, t['n'], zero)
        return o

    def find_ctor(self, cls, pred):
        for k, f in self.p['funs'].items():
            if f.get('ctor') and f.get('cls') is not None and self.types[f['cls']].get('n') == cls and not f.get('impl') and pred(f): return k

    def init_fields(self, o, cls, zero=False, given=()):
        rec = self.recn.get(cls)
        if rec is None or rec.get('f') is None: return
        for b in rec.get('b') or []: self.init_fields(o, self.types[b]['n'], zero, given)
        for f in rec['f']:
            if f['n'] in o.f: continue
            if f.get('init') is not None:
                o.f[f['n']] = Cell(UNINIT, f['n'])
                e = Env(this=Ptr(Cell(o)))
                o.f[f['n']] = Cell(self.initval(f['init'], f['t'], e), f['n'])
            elif zero and self.types[f['t']]['k'] != 'r': o.f[f['n']] = Cell(self.zero(f['t']), f['n'])
            else: o.f[f['n']] = Cell(self.uninit(f['t']), f['n'])

    def copy(self, v):
        """copy construction"""
        if isinstance(v, Cell): v = self.rd(v)
        if isinstance(v, Obj):
            if v.abs is not None: return self.abs_copy(v)
            k = self.find_ctor(v.cls, lambda f: f.get('copy') and not f.get('dflt'))
            if k:
                ti = self.p['funs'][k]['cls']
                return self.construct(ti, k, [Cell(v)])
            o = Obj(v.cls)
            o.tag = v.tag
            for n, c in v.f.items(): o.f[n] = Cell(self.copy(c.v) if isinstance(c.v, (Obj, Vec)) else c.v, n)
            return o
        if isinstance(v, Vec):
            if v.kind == 'iter': return v
            w = Vec(v.kind, v.et, [Cell(self.copy(c.v) if isinstance(c.v, (Obj, Vec)) else c.v) for c in v.c])
            w.sym = v.sym
            return w
        return v

    def assign_obj(self, cell, v):
        """implicit (memberwise) assignment into an existing object"""
        if isinstance(v, Cell): v = self.rd(v)
        old = cell.v
        if isinstance(old, Vec) and isinstance(v, Vec):
            new = self.copy(v)
            self.wvec(old)
            if old.kind in ('array', 'carray'):
                for a, b in zip(old.c, new.c): self.wr(a, b.v)
            else:
                old.c = new.c
                old.sym = new.sym
            return
        if isinstance(old, Obj) and isinstance(v, Obj) and old is not v and old.abs is None:
            for n, c in list(v.f.items()):
                if n in old.f:
                    if isinstance(old.f[n].v, (Obj, Vec)): self.assign_obj(old.f[n], c.v)
                    else: self.wr(old.f[n], c.v)
            return
        self.wr(cell, self.copy(v))

    # -------------------------------------------------------------- functions
    def resolve_virtual(self, fref, objcls):
        k = fref['u']
        if not fref.get('virt'): return k
        ov = self.vt.get(k)
        seen = set()
        # walk overrides transitively
        cand = {}
        todo = [k]
        while todo:
            x = todo.pop()
            for c, kk in self.vt.get(x, {}).items():
                if kk not in seen:
                    seen.add(kk)
                    cand[c] = kk
                    todo.append(kk)
        f = self.p['funs'].get(k)
        own = self.types[f['cls']]['n'] if f and f.get('cls') is not None else None
        for b in self.bases(objcls):
            if b in cand: return cand[b]
            if own is not None and b == own: return k
        return k

    def call_key(self, key, this, args, nodeline=0):
        """args: values or cells as the parameter types want; returns value (or Cell for reference results)"""
        f = self.p['funs'].get(key)
        if f is None: raise Unsupported('no body for ' + key)
        ct = self.contracts.get(key)
        if ct is not None and ct.modular and not self.no_contract(key, ct):
            self.used_contracts.add(key)
            return ct.apply(self, this, args)
        return self.run(f, this, args)

    def no_contract(self, key, ct):
        return self.top is not None and (self.top == key or ct.name in self.top_inline)

    top_inline = frozenset()

    def run(self, f, this, args):
        rt = self.types[f['ret']]
        if self.isscalar(rt) and all(self.isscalar(self.types[p['t']]) for p in f['params']) and not f.get('ctor') and self.depth > 0 \
                and f.get('merge', True) and (this is None or True):
            # scalar function: try to merge its paths
            if self.has_branch(f):
                return self.merged(lambda: self.run0(f, this, args))
        return self.run0(f, this, args)

    _hb = {}

    def has_branch(self, f):
        r = self._hb.get(f['u'])
        if r is None:
            r = self._hb[f['u']] = _contains(f['body'], ('IfStmt', 'SwitchStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'))
        return r

    def run0(self, f, this, args):
        self.inlined.add(f['u'])
        env = Env(this)
        self.bind(env, f['params'], args)
        self.depth += 1
        self.cur.append(f)
        if self.depth > 120: raise Unsupported('recursion too deep')
        try:
            self.st(f['body'], env)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.cur.pop()
        if self.types[f['ret']].get('n') != 'void' and not f.get('ctor') and not f.get('dtor'):
            raise UB('control reaches the end of a non-void function')
        return None

    def bind(self, env, params, args):
        if len(args) != len(params): raise Unsupported('argument count')
        for p, a in zip(params, args):
            t = self.types[p['t']]
            if t['k'] == 'r':
                env.v[p['id']] = a if isinstance(a, Cell) else Cell(a, p['n'])
            else:
                if isinstance(a, Cell): a = self.copy(a) if isinstance(a.v, (Obj, Vec)) else self.rd(a)
                env.v[p['id']] = Cell(a, p['n'])

    def construct(self, ti, key, args, obj=None):
        f = self.p['funs'].get(key)
        t = self.types[ti]
        if f is None:
            raise Unsupported('constructor without body: ' + key)
        o = obj or Obj(t['n'])
        this = Ptr(Cell(o))
        env = Env(this)
        self.bind(env, f['params'], args)
        self.inlined.add(key)
        inits = f.get('inits') or []
        self.depth += 1
        self.cur.append(f)
        try:
            if any(i.get('d') for i in inits):
                for i in inits:
                    e = i['e']
                    self.ctor_into(o, e, env)
            else:
                for i in inits:
                    if 'b' in i: self.ctor_into(o, i['e'], env)
                    elif 'm' in i:
                        ft = self.ftype(t['n'], i['m'])
                        o.f[i['m']] = Cell(UNINIT, i['m'])
                        o.f[i['m']] = Cell(self.initval(i['e'], ft, env), i['m']) if self.types[ft]['k'] != 'r' else self.cellof(self.ev(i['e'], env))
                self.init_fields(o, t['n'])
            try:
                self.st(f['body'], env)
            except Ret:
                pass
        finally:
            self.depth -= 1
            self.cur.pop()
        return o

    def abs_copy(self, src):
        """a new object made from an abstract one by its copy constructor"""
        from . import model
        if src.cls == model.NS + 'rgb_color_space_definition': return model.space_copy(self, src)
        raise Unsupported('copy of an abstract %s' % src.cls)

    def ctor_into(self, o, e, env):
        while e['k'] in ('Cast', 'MaterializeTemporaryExpr'): e = e['c'][0]
        if e['k'] == 'CXXConstructExpr':
            fr = e['f']
            if fr['u'] in self.p['funs'] and not (fr.get('dflt') and (fr.get('copy') or fr.get('move'))):
                args = self.args(e['c'], self.p['funs'][fr['u']]['params'], env)
                self.construct(e['t'], fr['u'], args, o)
            elif fr.get('copy') or fr.get('move'):
                src = self.val(self.ev(e['c'][0], env))
                for n, c in src.f.items():
                    if n in self.allfields(self.types[e['t']]['n']): o.f[n] = Cell(self.copy(c.v), n)
            else:
                self.init_fields(o, self.types[e['t']]['n'])
            return
        if e['k'] == 'CXXInheritedCtorInitExpr': raise Unsupported('inherited constructor')
        v = self.ev(e, env)
        if isinstance(v, Obj):
            o.f.update(v.f)
            return
        raise Unsupported('base initialiser ' + e['k'])

    def allfields(self, cls):
        r = []
        for b in self.bases(cls): r += [f['n'] for f in (self.recn.get(b) or {}).get('f') or []]
        return r

    def ftype(self, cls, m):
        for b in self.bases(cls):
            for f in (self.recn.get(b) or {}).get('f') or []:
                if f['n'] == m: return f['t']
        raise Unsupported('field ' + m)

    def args(self, nodes, params, env):
        out = []
        for i, n in enumerate(nodes):
            v = self.ev(n, env)
            if params is not None and i < len(params) and self.types[params[i]['t']]['k'] != 'r':
                if isinstance(v, Cell): v = self.copy(v)
            out.append(v)
        return out

    def call_func(self, fn, args, key=None):
        """call a Func value (lambda, std::function, function pointer)"""
        if isinstance(fn, Cell): fn = self.rd(fn)
        if isinstance(fn, Ptr): fn = self.rd(self.pcell(fn))
        if not isinstance(fn, Func): raise Unsupported('call of %r' % (fn,))
        if fn.py is not None: return fn.py(self, args)
        if fn.fn is not None: return self.call_key(fn.fn, fn.this, args)
        if fn.node is None: raise CppThrow(None, 'std::bad_function_call', False)
        n = fn.node
        if n.get('body') is None:
            g = n.get('gens') or []
            g = [q for q in g if q['u'] == key] or [q for q in g if len(q['params']) == len(args)]
            if len(g) != 1: raise Unsupported('generic lambda')
            n = g[0]

        def go():
            env = Env(fn.this)
            for cid, c in fn.caps.items(): env.v[cid] = c
            self.bind(env, n['params'], args)
            self.depth += 1
            self.cur.append({'u': 'lambda@%d' % n['l'], 'n': 'lambda', 'ret': n['ret']})
            try:
                self.st(n['body'], env)
            except Ret as r:
                return r.v
            finally:
                self.depth -= 1
                self.cur.pop()
            return None
        rt = self.types[n['ret']]
        if self.isscalar(rt) and all(self.isscalar(self.types[p['t']]) for p in n['params']):
            return self.merged(go)
        return go()

    # -------------------------------------------------------------- statements
    def st(self, s, env):
        if s is None: return
        m = getattr(self, 's_' + s['k'], None)
        if m is not None: return m(s, env)
        if 't' in s:
            self.ev(s, env)
            return
        raise Unsupported('statement %s (line %s)' % (s['k'], s.get('l')))

    def s_CompoundStmt(self, s, env):
        for c in s['c']: self.st(c, env)

    def s_NullStmt(self, s, env): pass
    def s_AttributedStmt(self, s, env): self.st(s['c'][-1], env)

    def static_cell(self, d, init):
        """a variable of static storage: as old as the program, so that a write to it is noticed"""
        sv = self.frame, self.wstamp
        self.frame = self.wstamp = None
        try:
            c = Cell(init(), d['n'])
        finally:
            self.frame, self.wstamp = sv
        age(c, set())
        return c

    def s_DeclStmt(self, s, env):
        for d in s['d']:
            if d.get('unsup'): raise Unsupported('structured binding')
            t = self.types[d['t']]
            if d.get('sl'):
                c = self.statics.get(d['id'])
                if c is None:
                    c = self.static_cell(d, lambda: self.initval(d['init'], d['t'], env) if d.get('init') else self.zero(d['t']))
                    self.statics[d['id']] = c
                env.v[d['id']] = c
                continue
            if t['k'] == 'r':
                v = self.ev(d['init'], env)
                env.v[d['id']] = v if isinstance(v, Cell) else Cell(v, d['n'])
            elif d.get('init') is not None:
                env.v[d['id']] = c = Cell(UNINIT, d['n'])
                c.v = self.initval(d['init'], d['t'], env)
            else:
                env.v[d['id']] = Cell(self.uninit(d['t']), d['n'])

    def initval(self, e, ti, env):
        """value to initialise an object of type ti from expression e"""
        t = self.types[ti]
        if e['k'] == 'InitListExpr' and t['k'] in ('a', 'c'): return self.initlist(e, ti, env)
        v = self.ev(e, env)
        if t['k'] == 'r': return v
        if isinstance(v, Cell):
            if t['k'] == 'p' and isinstance(v.v, Vec): return Ptr(arr=v.v)
            return self.copy(v)
        return v

    def initlist(self, e, ti, env):
        t = self.types[ti]
        if t['k'] == 'a':
            n = t.get('n', len(e['c']))
            cells = [Cell(self.initval(x, t['e'], env)) for x in e['c']]
            while len(cells) < n: cells.append(Cell(self.zero(t['e'])))
            return Vec('carray', t['e'], cells)
        if t['k'] == 'c' and strip_t(t['n']) == 'std::array':
            et = t['a'][0]
            n = t['a'][1]['i']
            inner = e['c'][0] if e['c'] else None
            items = inner['c'] if inner is not None and inner['k'] == 'InitListExpr' and self.types[inner['t']]['k'] == 'a' else e['c']
            cells = [Cell(self.initval(x, et, env)) for x in items if x['k'] != 'ImplicitValueInitExpr']
            while len(cells) < n: cells.append(Cell(self.zero(et)))
            return Vec('array', et, cells)
        if t['k'] == 'c':
            rec = self.recn.get(t['n'])
            if len(e['c']) == 1 and self.types[e['c'][0]['t']]['k'] == 'c' and self.types[e['c'][0]['t']]['n'] == t['n']: return self.initval(e['c'][0], ti, env)
            if rec is None or rec.get('f') is None: raise Unsupported('init list for ' + t['s'])
            o = Obj(t['n'])
            fs = rec['f']
            bs = rec.get('b') or []
            if bs: raise Unsupported('aggregate with bases')
            for f, x in zip(fs, e['c']): o.f[f['n']] = Cell(self.initval(x, f['t'], env), f['n'])
            for f in fs:
                if f['n'] not in o.f: o.f[f['n']] = Cell(self.initval(f['init'], f['t'], env) if f.get('init') else self.zero(f['t']), f['n'])
            return o
        if len(e['c']) == 1: return self.initval(e['c'][0], ti, env)
        if not e['c']: return self.zero(ti)
        raise Unsupported('init list')

    def s_ReturnStmt(self, s, env):
        e = s['c'][0] if s['c'] else None
        if e is None: raise Ret(None)
        v = self.ev(e, env)
        f = self.cur[-1] if self.cur else None
        rt = self.types[f['ret']] if f else None
        if isinstance(v, Cell) and not (rt and rt['k'] == 'r'): v = self.copy(v)
        raise Ret(v)

    def cond(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, Cell): v = self.rd(v)
        if isinstance(v, Ptr): return not v.null()
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        return v

    def s_IfStmt(self, s, env):
        if s.get('init'): self.st(s['init'], env)
        if s.get('cv'): self.st(s['cv'], env)
        c = self.cond(s['cond'], env)
        if self.decide(c): self.st(s['then'], env)
        elif s.get('else') is not None: self.st(s['else'], env)

    def loop(self, test, body, inc, env, s):
        n = 0
        while True:
            if test is not None:
                log = self.wlog = [] if self.loop_hook is not None and self.wlog is None and changes(test) else self.wlog
                c = self.cond(test, env)
                if not isinstance(c, bool) and self.loop_hook is not None:
                    if log:     # the condition itself writes: summarise from the state before it, and evaluate it once more at the end
                        self.wlog = None
                        new = [(q, q.v) for q, _ in log]
                        for q, v in reversed(log): q.v = v
                        if self.loop_hook(self, s, env, c):
                            c = self.cond(test, env)
                            self.assume(self.D.not_(c) if isinstance(c, T) else not c)
                            return
                        for q, v in new: q.v = v
                    elif self.loop_hook(self, s, env, c): return
                if log is not None: self.wlog = None
                if not self.decide(c): return
            try:
                self.st(body, env)
            except Brk:
                return
            except Cont:
                pass
            if inc is not None: self.ev(inc, env)
            n += 1
            if n > self.max_unroll: raise Unsupported('loop at line %s does not terminate within %d iterations' % (s.get('l'), self.max_unroll))

    def s_ForStmt(self, s, env):
        if s.get('init'): self.st(s['init'], env)
        if self.loop_hook is not None and self.loop_hook(self, s, env): return
        self.loop(s.get('cond'), s['body'], s.get('inc'), env, s)

    def s_WhileStmt(self, s, env):
        if self.loop_hook is not None and self.loop_hook(self, s, env): return
        self.loop(s['cond'], s['body'], None, env, s)

    def s_DoStmt(self, s, env):
        n = 0
        while True:
            try:
                self.st(s['body'], env)
            except Brk:
                return
            except Cont:
                pass
            if not self.decide(self.cond(s['cond'], env)): return
            n += 1
            if n > self.max_unroll: raise Unsupported('loop bound')

    def s_CXXForRangeStmt(self, s, env):
        r = self.ev(s['range'], env)
        v = self.val(r)
        if isinstance(v, Vec) and v.sym is not None:
            if self.loop_hook is not None and self.loop_hook(self, s, env, v): return
            raise Unsupported('range loop over a symbolic container')
        from . import stdlib
        if isinstance(v, (str, stdlib.SymStr)): v = stdlib.method(self, 'begin', None, v, None, [], s, env).arr
        if not isinstance(v, Vec): raise Unsupported('range loop over %r' % (v,))
        byref = self.types[s['var']['t']]['k'] == 'r'
        n = len(v.c)
        for i in range(n):
            if i >= len(v.c): raise UB('container changed during iteration')
            c = v.c[i]
            env.v[s['var']['id']] = c if byref else Cell(self.copy(c), s['var']['n'])
            try:
                self.st(s['body'], env)
            except Brk:
                return
            except Cont:
                pass

    def s_BreakStmt(self, s, env): raise Brk()
    def s_ContinueStmt(self, s, env): raise Cont()

    def s_SwitchStmt(self, s, env):
        if s.get('init'): self.st(s['init'], env)
        v = self.ev(s['cond'], env)
        v = self.val(v)
        body = s['body']['c'] if s['body']['k'] == 'CompoundStmt' else [s['body']]
        flat = []      # (labels, stmt)
        for b in body:
            labels = []
            while b is not None and b['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append(b.get('v') if b['k'] == 'CaseStmt' else 'default')
                b = b['sub']
            flat.append((labels, b))
        start = None
        if isinstance(v, int):
            for i, (ls, b) in enumerate(flat):
                if any(l == v for l in ls if l != 'default'):
                    start = i
                    break
        else:
            for i, (ls, b) in enumerate(flat):
                for l in ls:
                    if l != 'default' and start is None and self.decide(self.D.eq(v, tm.const(l))): start = i
                if start is not None: break
        if start is None:
            for i, (ls, b) in enumerate(flat):
                if 'default' in ls: start = i
        if start is None: return
        try:
            for ls, b in flat[start:]: self.st(b, env)
        except Brk:
            pass

    def s_CXXTryStmt(self, s, env):
        try:
            self.st(s['body'], env)
        except CppThrow as e:
            for h in s['h']:
                if h['t'] == -1:
                    m = True
                else:
                    t = self.types[h['t']]
                    t = self.deref(t)
                    isp = t['k'] == 'p'
                    if isp: t = self.types[t['e']]
                    m = isp == e.ptr and t.get('n') in exc_bases(e.tname)
                if m:
                    if 'id' in h: env.v[h['id']] = Cell(e.val)
                    self.st(h['body'], env)
                    return
            raise

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s (line %s)' % (e['k'], e.get('l')))
        return m(e, env)

    def rv(self, e, env):
        return self.val(self.ev(e, env))

    def e_IntegerLiteral(self, e, env): return int(e['v'])
    def e_CharacterLiteral(self, e, env): return int(e['v'])
    def e_FloatingLiteral(self, e, env):
        return self.D.lit(e) if isinstance(self.D, RealD) else self.D.flit(e, self.ty(e)['n'])

    def e_CXXBoolLiteralExpr(self, e, env): return bool(e['v'])
    def e_StringLiteral(self, e, env): return e['v']
    def e_CXXNullPtrLiteralExpr(self, e, env): return NULL
    def e_GNUNullExpr(self, e, env): return NULL
    def e_PredefinedExpr(self, e, env): return ''

    def e_ImplicitValueInitExpr(self, e, env): return self.zero(e['t'])
    def e_CXXScalarValueInitExpr(self, e, env): return self.zero(e['t'])

    def e_InitListExpr(self, e, env):
        t = self.ty(e)
        if t['k'] in ('a', 'c'): return self.initlist(e, e['t'], env)
        if not e['c']: return self.zero(e['t'])
        return self.ev(e['c'][0], env)

    def e_CXXThisExpr(self, e, env):
        if env.this is None: raise Unsupported('this')
        return env.this

    def e_DeclRefExpr(self, e, env):
        d = e['d']
        k = d['dk']
        if k == 'e': return d['v']
        if k == 'l':
            c = env.v.get(d['id'])
            if c is None:
                c = self.statics.get(d['id'])
                if c is None: raise Unsupported('variable %s not in scope' % d['n'])
            return c
        if k == 'g':
            c = self.globals.get(d['u'])
            if c is None:
                g = self.p['vars'].get(d['u'])
                if d['n'].startswith('std::') and d['n'].endswith('::npos'): return Cell(2 ** 64 - 1)
                if g is None or d['n'].startswith(('std::', '__')) and not g.get('init'): raise Unsupported('global ' + d['n'])
                if d['u'] in program.written(self.p): raise Unsupported('global variable %s, which functions write' % d['n'])
                c = self.globals[d['u']] = self.static_cell(d, lambda: self.initval(g['init'], g['t'], Env()) if g.get('init') else self.zero(g['t']))
            return c
        if k == 'f': return Func(fn=d['u'])
        raise Unsupported('reference to ' + str(d.get('n')))

    def e_MemberExpr(self, e, env):
        b = self.ev(e['c'][0], env)
        if e['arrow']: b = self.pcell(b)
        d = e['d']
        if d['dk'] == 'f':
            return ('bm', b, d, bool(e.get('q')))
        if d['dk'] == 'g' or d['dk'] == 'e': return self.e_DeclRefExpr(e, env)
        o = self.val(b)
        if not isinstance(o, Obj): raise Unsupported('member %s of %r' % (d['n'], o))
        c = o.f.get(d['n'])
        if c is None:
            if o.abs is not None: raise Unsupported('field %s of abstract %s' % (d['n'], o.cls))
            raise Unsupported('no field %s in %s' % (d['n'], o.cls))
        return c

    def e_MaterializeTemporaryExpr(self, e, env):
        v = self.ev(e['c'][0], env)
        return v if isinstance(v, Cell) else Cell(v)

    def e_ArraySubscriptExpr(self, e, env):
        a, i = self.rv(e['c'][0], env), self.rv(e['c'][1], env)
        if isinstance(i, Ptr): a, i = i, a
        if isinstance(a, str):
            return Cell(ord(a[i]) if i < len(a) else 0)
        return self.pcell(self.padd(a, i))

    def padd(self, p, i):
        if isinstance(i, T):
            if tm.is_const(i): i = int(tm.cval(i))
            elif p.arr is None or p.arr.sym is None: raise Unsupported('symbolic index')
        if isinstance(p.idx, T): return Ptr(arr=p.arr, idx=tm.add(p.idx, tm.lift(i)))
        if p.arr is None:
            if i == 0: return p
            raise UB('pointer arithmetic outside an object')
        return Ptr(arr=p.arr, idx=p.idx + i)

    def e_ConditionalOperator(self, e, env):
        c = self.cond(e['c'][0], env)
        if isinstance(c, bool): return self.ev(e['c'][1 if c else 2], env)
        tv = self.D.truth(c)
        if tv is not None: return self.ev(e['c'][1 if tv else 2], env)
        if self.isscalar(self.ty(e)) and not e.get('lv'):
            def go():
                return self.rv(e['c'][1 if self.decide(c) else 2], env)
            return self.merged(go)
        return self.ev(e['c'][1 if self.decide(c) else 2], env)

    def num(self, v, t):
        """operand as a domain value of arithmetic type t"""
        if self.isflt(t):
            if isinstance(v, bool) or isinstance(v, int): return self.D.i2f(v, t['n'])
            return v
        return v

    def e_BinaryOperator(self, e, env):
        op = e['op']
        if op == '=':
            r = self.rv(e['c'][1], env)
            l = self.ev(e['c'][0], env)
            if isinstance(r, (Obj, Vec)): self.assign_obj(l, r)
            else: self.wr(l, r)
            return l
        if op == ',':
            self.ev(e['c'][0], env)
            return self.ev(e['c'][1], env)
        if op in ('&&', '||'):
            a = self.cond(e['c'][0], env)
            if not isinstance(a, bool):
                tv = self.D.truth(a)
                if tv is not None: a = tv
            if isinstance(a, bool):
                if a == (op == '||'): return a
                return self.cond(e['c'][1], env)

            def go():
                if self.decide(a) == (op == '||'): return op == '||'
                return self.cond(e['c'][1], env)
            return self.merged(go)
        a, b = self.rv(e['c'][0], env), self.rv(e['c'][1], env)
        return self.binop(op, a, b, self.ty(e), self.types[e['c'][0]['t']], e)

    def binop(self, op, a, b, t, ot, e):
        D = self.D
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('==', '!='):
                if isinstance(a, int): a = NULL
                if isinstance(b, int): b = NULL
                if isinstance(a.idx, T) and a.arr is b.arr and a.arr is not None: r = self.D.eq(a.idx, tm.lift(b.idx))
                else: r = a.same(b) or self.alias(a, b)
                if isinstance(r, T): return r if op == '==' else self.D.not_(r)
                return r == (op == '==')
            if op == '+': return self.padd(a, b) if isinstance(a, Ptr) else self.padd(b, a)
            if op == '-' and not isinstance(b, Ptr): return self.padd(a, -b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr and a.arr is not None:
                if isinstance(a.idx, T) or isinstance(b.idx, T):
                    i, j = tm.lift(a.idx), tm.lift(b.idx)
                    return {'-': tm.sub, '<': self.D.lt, '<=': self.D.le, '>': lambda p, q: self.D.lt(q, p), '>=': lambda p, q: self.D.le(q, p)}[op](i, j)
                if op == '-': return a.idx - b.idx
                if op == '<': return a.idx < b.idx
                if op == '>': return a.idx > b.idx
                if op == '<=': return a.idx <= b.idx
                if op == '>=': return a.idx >= b.idx
            raise Unsupported('pointer operation ' + op)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(a, int) and isinstance(b, int):
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            if self.isbool(ot) or (self.isb(a) and getattr(a, 'sort', None) == 'B'):
                r = D.eq(self.tob(a), self.tob(b))
                return r if op == '==' else D.not_(r)
            if self.isflt(ot): a, b = self.num(a, ot), self.num(b, ot)
            else: a, b = tm.lift(a), tm.lift(b)
            if op == '<': return D.lt(a, b)
            if op == '>': return D.lt(b, a)
            if op == '<=': return D.le(a, b)
            if op == '>=': return D.le(b, a)
            r = D.eq(a, b)
            return r if op == '==' else D.not_(r)
        if self.isflt(t):
            a, b = self.num(a, t), self.num(b, t)
            if op == '+': return D.add(a, b)
            if op == '-': return D.sub(a, b)
            if op == '*': return D.mul(a, b)
            if op == '/':
                self.need('div', b, e)
                return D.div(a, b)
            raise Unsupported(op)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if op in ('/', '%'):
                if b == 0: raise UB('integer division by zero')
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                r = q if op == '/' else a - q * b
            else:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b,
                     '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
            return self.wrap(r, t)
        a, b = tm.lift(a), tm.lift(b)
        if op == '+': return self.wrapt(tm.add(a, b), t)
        if op == '-': return self.wrapt(tm.sub(a, b), t)
        if op == '*': return self.wrapt(tm.mul(a, b), t)
        if op in ('>>', '/', '%', '&') and tm.is_const(b) and tm.cval(b) >= 0:
            n = int(tm.cval(b))
            if op == '>>':
                q = self.digits(a, n)
                return q[0] if q else tm.shr(a, n)
            if op == '&' and n & (n + 1) == 0 or op in '/%' and n > 1 and n & (n - 1) == 0:
                q = self.digits(a, n.bit_length() - (op != '&'))
                if q: return q[0] if op == '/' else q[1]
            r = tm.mask(a, n) if op == '&' else None
            if r is not None: return r
            lo = tm.bounds(a)[0]
            if op in '/%' and n > 1 and n & (n - 1) == 0 and lo is not None and lo >= 0 and tm.is_int(a):
                return tm.shr(a, n.bit_length() - 1) if op == '/' else tm.bits(a, 0, n.bit_length() - 1)
        if op == '&' and tm.is_const(a): return self.binop(op, b, a, t, ot, e)
        if op == '/': return tm.app('trunc', tm.div(a, b))
        if op == '%': return tm.sub(a, tm.mul(b, tm.app('trunc', tm.div(a, b))))
        raise Unsupported('integer operator ' + op)

    def digits(self, a, k):
        """(quotient, rest) of a sum of digits times powers of two by 2^k, where the path shows the lower digits to be in range"""
        if a.op != 'poly' or len(a.a) < 2 or k == 0: return None
        m, low, hi = 2 ** k, {}, Fraction(0)
        for mono, c in a.a:
            if c.denominator != 1 or c < 0: return None
            if int(c) % m == 0: continue
            if not mono: b = Fraction(1)
            else:
                t = tm._poly({mono: Fraction(1)})
                if not tm.is_int(t): return None
                l, b = tm.bounds(t)
                if l is None or l < 0 or b is None or hi + c * b >= m:
                    b = next((Fraction(v) for v in (9, 15) if hi + c * v < m and prover.implied(self.pc, tm.and_(tm.le(tm.ZERO, t), tm.le(t, tm.const(v))))), None)
                    if b is None: return None
            hi += c * b
            low[mono] = c
        if hi >= m or len(low) == len(a.a): return None
        if not all(tm.is_int(tm._poly({mono: Fraction(1)})) for mono, c in a.a if mono): return None
        return tm._poly({mono: c / m for mono, c in a.a if mono not in low}), tm._poly(low)

    def whole(self, v, most=16):
        """a symbolic integer of a small range as a number: one path for each of its values"""
        if not isinstance(v, T) or not tm.is_int(v): return v
        lo, hi = tm.bounds(v)
        if lo is None or hi is None or hi - lo > most: return v
        for n in range(int(lo), int(hi)):
            if self.decide(tm.eq(v, tm.const(n))): return n
        return int(hi)

    def alias(self, a, b):
        """may two pointers to different model cells be equal?  Elements of a list of unknown length may; two given colors are taken as
        different, and the pair is recorded so that the contract is also verified with one color standing for both"""
        p, q = a.cell, b.cell
        if p is None or q is None: return False
        m, n = self.elems.get(p), self.elems.get(q)
        if m is not None and n is not None and m[0] is n[0]:
            if self.decide(self.D.eq(m[1], n[1])): return True
            u, v = sorted((m[1].id, n[1].id))
            if not self.decide(tm.eq(tm.var('same.%d.%d' % (u, v), 0, 1, True), tm.ONE)): return False
            for x, y in zip(m[2], n[2]): self.assume(self.D.eq(x, y) if isinstance(x, T) else x is y)
            return True
        self.aliasq.add((p, q))
        return False

    def wrapt(self, v, t):
        """symbolic integers are mathematical; unsigned results must be provably non-negative"""
        if tm.is_const(v): return self.wrap(int(tm.cval(v)), t)
        if 'w' in t and not t['sg']:
            lo, hi = tm.bounds(v)
            if lo is None or lo < 0:
                if not prover.implied(self.pc, tm.le(tm.ZERO, v)): raise Unsupported('possible unsigned wrap')
        return v

    def wrap(self, r, t):
        if 'w' not in t: return r
        w = t['w']
        if t['sg']:
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)): raise UB('signed integer overflow')
            return r
        return r % (1 << w)

    def need(self, kind, v, e):
        self.defs.append((tuple(self.pc), kind, v, e.get('l') if isinstance(e, dict) else e, self.cur[-1]['n'] if self.cur else '', self.depth))

    def e_CompoundAssignOperator(self, e, env):
        r = self.rv(e['c'][1], env)
        l = self.ev(e['c'][0], env)
        op = e['op'][:-1]
        cur = self.rd(l)
        if isinstance(cur, Ptr):
            self.wr(l, self.padd(cur, r if op == '+' else -r))
            return l
        ct = self.types[e['ct']]
        lt = self.types[e['c'][0]['t']]
        a = self.conv(cur, lt, self.types[e['clt']])
        v = self.binop(op, a, r, ct, ct, e)
        v = self.conv(v, ct, lt)
        self.wr(l, v)
        return l

    def conv(self, v, f, t):
        """arithmetic conversion between types"""
        if self.isflt(t):
            if self.isflt(f): return self.D.fcast(v, t['n'])
            if isinstance(v, (int, bool)): return self.D.i2f(v, t['n'])
            if self.isbool(f): return self.mite(v, self.D.const(1, t['n']), self.D.const(0, t['n']))
            return self.D.i2f(v, t['n'])
        if self.isbool(t):
            if isinstance(v, bool): return v
            if isinstance(v, int): return v != 0
            if isinstance(v, Ptr): return not v.null()
            if isinstance(v, Func): return v.node is not None or v.fn is not None or v.py is not None
            return self.D.not_(self.D.eq(v, self.D.const(0, f.get('n'))))
        if self.isint(t):
            if self.isflt(f): return self.fint(v, t)
            if isinstance(v, bool): return int(v)
            if isinstance(v, int):
                if self.isint(t) and not t['sg']: return v % (1 << t['w'])
                w = t['w']
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)): v = (v + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
                return v
            if isinstance(v, T) and v.sort == 'B': return tm.ite(v, tm.ONE, tm.ZERO)
            if isinstance(v, T) and t.get('w', 64) < 32: return self.narrow(v, f, t)
            if isinstance(v, T) and not t['sg']:
                if t['w'] == 32 and tm.is_int(v) and not tm.is_const(v) and (tm.bounds(v)[0] is None or tm.bounds(v)[0] < 0) and not prover.implied(self.pc, tm.le(tm.ZERO, v)): return tm.u32(v)
                return self.wrapt(v, t)
            if isinstance(v, T) and t['sg'] and t['w'] == 32:
                a = tm.as_atom(v)
                if a is not None and a.op == 'app' and a.a[0] == 'u32': return a.a[1]
            return v
        return v

    def narrow(self, v, f, t):
        """a symbolic integer in fewer than 32 bits: unchanged where it fits, otherwise some value of the type congruent to it"""
        w = t['w']
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['sg'] else (0, (1 << w) - 1)
        if 'w' in f and f['w'] < 32 and (f['w'] < w and (t['sg'] or not f['sg']) or f['w'] == w and f['sg'] == t['sg']): return v
        a, b = tm.bounds(v)
        if a is not None and a >= lo and b is not None and b <= hi: return v
        at = tm.as_atom(v)
        if not t['sg'] and (at is not None and at.op == 'app' and at.a[0] in ('bits', 'shr', 'u32')): return tm.bits(v, 0, w)
        q = None if t['sg'] else self.digits(v, w)
        if q: return q[1]
        fits = tm.and_(tm.le(tm.const(lo), v), tm.le(v, tm.const(hi)))
        if self.decide(fits): return v
        k = self.fresh('wraps', None, None, True)
        r = tm.sub(v, tm.scale(k, 1 << w))
        self.assume(tm.and_(tm.le(tm.const(lo), r), tm.le(r, tm.const(hi))))
        return r

    def fint(self, v, t):
        return self.D.f2i(v)

    def e_UnaryOperator(self, e, env):
        op = e['op']
        if op == '*': return self.pcell(self.rv(e['c'][0], env))
        if op == '&':
            v = self.ev(e['c'][0], env)
            if isinstance(v, Func): return v
            if isinstance(v, tuple): return Func(fn=v[2]['u'])
            if isinstance(v, Cell):
                return Ptr(v)
            raise Unsupported('address of rvalue')
        if op in ('++', '--'):
            c = self.ev(e['c'][0], env)
            old = self.rd(c)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr): new = self.padd(old, d)
            elif isinstance(old, int): new = self.wrap(old + d, self.ty(e))
            else: new = self.D.add(old, self.D.const(d, self.ty(e).get('n')))
            self.wr(c, new)
            return old if e['post'] else c
        if op == '!':
            v = self.cond(e['c'][0], env)
            return (not v) if isinstance(v, bool) else self.D.not_(v)
        v = self.rv(e['c'][0], env)
        if op == '-':
            if isinstance(v, int): return self.wrap(-v, self.ty(e))
            return self.D.neg(v)
        if op == '+': return v
        if op == '~': return self.wrap(~v, self.ty(e))
        if op == '__extension__': return v
        raise Unsupported('unary ' + op)

    def e_Cast(self, e, env):
        ck = e['ck']
        x = e['c'][0]
        if ck == 'LValueToRValue':
            y = x
            while y['k'] == 'ParenExpr': y = y['c'][0]
            if y['k'] == 'ConditionalOperator' and self.isscalar(self.ty(y)):       # the value of one of two variables
                c = self.cond(y['c'][0], env)
                tv = c if isinstance(c, bool) else self.D.truth(c)

                def one(b):
                    v = self.ev(y['c'][1 if b else 2], env)
                    return self.rd(v) if isinstance(v, Cell) else v
                if tv is not None: return one(tv)
                return self.merged(lambda: one(self.decide(c)))
            v = self.ev(x, env)
            return self.rd(v) if isinstance(v, Cell) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'BitCast', 'LValueBitCast'):
            v = self.ev(x, env)
            if e.get('lv') or not isinstance(v, Cell) or ck in ('FunctionToPointerDecay',): 
                if ck == 'DerivedToBase' and not e.get('lv') and isinstance(v, Obj): raise Unsupported('slicing')
                return v
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x, env)
            if isinstance(v, Cell): v = self.rd(v)
            if isinstance(v, str): return v
            return Ptr(arr=v)
        if ck == 'ToVoid':
            self.ev(x, env)
            return None
        if ck == 'NullToPointer': return NULL
        if ck == 'Dynamic':
            p = self.rv(x, env)
            t = self.ty(e)
            if isinstance(p, Ptr):
                if p.null(): return NULL
                o = self.rd(self.pcell(p))
                return p if self.types[t['e']]['n'] in self.bases(o.cls) else NULL
            raise Unsupported('dynamic_cast')
        if ck == 'UserDefinedConversion':
            return self.ev(x, env)
        v = self.rv(x, env)
        t, f = self.ty(e), self.ty(x)
        if ck in ('FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if t['k'] == 'e': return v
            return self.conv(v, f, t)
        if ck in ('PointerToIntegral', 'IntegralToPointer'): raise Unsupported(ck)
        raise Unsupported('cast ' + ck)

    def e_CXXFunctionalCastExpr(self, e, env): return self.e_Cast(e, env)

    def e_CXXStdInitializerListExpr(self, e, env):
        v = self.rv(e['c'][0], env)
        return v if isinstance(v, Vec) else self.pcellarr(v)

    def pcellarr(self, p): return p.arr

    def e_LambdaExpr(self, e, env):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'): this = env.this
            elif c['byref']:
                caps[c['id']] = env.v[c['id']] if c['id'] in env.v else self.cellof(self.ev(c['ini'], env))
            else:
                src = env.v.get(c['id'])
                if src is not None: caps[c['id']] = Cell(self.copy(src), c['n'])
                else: caps[c['id']] = Cell(self.copy(self.ev(c['ini'], env)), c['n'])
        return Func(node=e, caps=caps, this=this)

    def e_CXXNewExpr(self, e, env):
        at = e['at']
        if e['arr']:
            n = self.rv(e['sz'], env) if e.get('sz') else None
            if not isinstance(n, int): raise Unsupported('new[] of symbolic size')
            if n < 0: raise UB('negative array size')
            cells = []
            if e.get('init') and e['init']['k'] == 'InitListExpr':
                cells = [Cell(self.initval(x, at, env)) for x in e['init']['c']]
                while len(cells) < n: cells.append(Cell(self.zero(at)))
            elif e.get('init'): cells = [Cell(self.zero(at)) for _ in range(n)]
            else: cells = [Cell(self.uninit(at)) for _ in range(n)]
            return Ptr(arr=Vec('heap', at, cells))
        v = self.initval(e['init'], at, env) if e.get('init') else self.uninit(at)
        return Ptr(Cell(v))

    def e_CXXDeleteExpr(self, e, env):
        p = self.rv(e['c'][0], env)
        if isinstance(p, Ptr) and not p.null():
            if p.cell is not None:
                if self.wstamp is not None and p.cell.stamp <= self.wstamp: raise NeedFork()
                if self.frame is not None and p.cell.stamp <= self.frame: self.wr(p.cell, UNINIT)
                else: p.cell.v = UNINIT
        return None

    def e_CXXThrowExpr(self, e, env):
        if not e['c'] or e['c'][0] is None: raise Unsupported('rethrow')
        x = e['c'][0]
        t = self.types[x['t']]
        isp = t['k'] == 'p'
        v = self.ev(x, env)
        if isp: t = self.types[t['e']]
        raise CppThrow(v, t.get('n', t['s']), isp)

    def e_CXXConstructExpr(self, e, env):
        fr = e['f']
        t = self.ty(e)
        while t['k'] == 'a': raise Unsupported('array construction')
        n = strip_t(t['n'])
        if (fr.get('copy') or fr.get('move')) and len(e['c']) == 1:
            src = self.ev(e['c'][0], env)
            if not isinstance(src, Cell):
                return src            # elided temporary
            if fr.get('dflt') or n.startswith('std::') or fr['u'] not in self.p['funs']:
                v = self.copy(src) if not (isinstance(src.v, Obj) and src.v.cls != t['n'] and n not in ('std::function',) and not n.startswith('std::')) else self.slice(src.v, t['n'])
                if n == 'std::function' and isinstance(v, Func): return v
                return v
        if fr['u'] in self.p['funs'] and self.p['funs'][fr['u']]['root']:
            f = self.p['funs'][fr['u']]
            if not (fr.get('impl') and not f.get('inits')) or True:
                args = self.args(e['c'], f['params'], env)
                if fr.get('copy') and len(args) == 1 and isinstance(args[0], Cell) and isinstance(args[0].v, Obj) and args[0].v.abs is not None: return self.abs_copy(args[0].v)
                ct = self.contracts.get(fr['u'])
                if ct is not None and ct.modular and not self.no_contract(fr['u'], ct):
                    return ct.apply(self, None, args)
                return self.construct(e['t'], fr['u'], args)
        rec = self.recn.get(t['n'])
        if rec is not None and not rec.get('sys') and fr.get('dflt') and not e['c']:
            o = Obj(t['n'])
            self.init_fields(o, t['n'], bool(e.get('zi')))
            return o
        from . import stdlib
        return stdlib.construct(self, n, t, e, env)

    def slice(self, v, cls):
        o = Obj(cls)
        k = self.find_ctor(cls, lambda f: f.get('copy') and not f.get('dflt'))
        if k: return self.construct(self.p['funs'][k]['cls'], k, [Cell(v)])
        for n in self.allfields(cls):
            if n in v.f: o.f[n] = Cell(self.copy(v.f[n].v), n)
        return o

    def e_CXXMemberCallExpr(self, e, env):
        cal = e['c'][0]
        while cal['k'] == 'Cast': cal = cal['c'][0]
        if cal['k'] != 'MemberExpr': raise Unsupported('member call through pointer')
        bm = self.ev(cal, env)
        _, b, d, qual = bm
        obj = self.val(b)
        if isinstance(b, Cell) and obj is not b.v: b = Cell(obj)
        name = strip_t(d['n'])
        if isinstance(obj, Obj) and obj.abs is not None:
            return self.abscall(obj, d, e, env)
        if isinstance(obj, Obj) and not name.startswith('std::') and not name.startswith('__gnu'):
            key = d['u'] if qual else self.resolve_virtual(d, obj.cls)
            f = self.p['funs'].get(key)
            if f is None:
                if d.get('dtor'): return None
                if name.split('::')[-1].startswith('~'): return None
                if d.get('asg'):
                    self.assign_obj(b, self.ev(e['c'][1], env))
                    return b
                raise Unsupported('no body: ' + d['n'])
            args = self.args(e['c'][1:], f['params'], env)
            return self.call_key(key, Ptr(b if isinstance(b, Cell) else Cell(b)), args, e.get('l'))
        from . import stdlib
        return stdlib.method(self, name, b, obj, d, e['c'][1:], e, env)

    def abscall(self, obj, d, e, env):
        n = d['n'].split('::')[-1]
        h = obj.abs.get(n)
        if h is None:
            raise Unsupported('abstract %s::%s' % (obj.cls, n))
        args = [self.ev(x, env) for x in e['c'][1:]]
        return h(self, obj, args)

    def e_CXXOperatorCallExpr(self, e, env):
        fr = e.get('f')
        if fr is None: raise Unsupported('operator call')
        name = strip_t(fr['n'])
        short = name.split('::')[-1]
        key = fr['u']
        f = self.p['funs'].get(key)
        a = e['c'][1:]
        closure = short == 'operator()' and ('(anonymous' in fr['n'] or '(lambda' in fr['n'])      # run through the closure, which holds the captures
        if f is not None and f['root'] and not closure:
            if f.get('cls') is not None and not fr.get('static'):
                b = self.ev(a[0], env)
                o = self.val(b)
                if isinstance(o, Obj) and o.abs is not None:
                    h = o.abs.get(short)
                    if h is None: raise Unsupported('abstract operator')
                    return h(self, o, [self.ev(x, env) for x in a[1:]])
                key = self.resolve_virtual(fr, o.cls) if isinstance(o, Obj) else key
                f = self.p['funs'][key]
                args = self.args(a[1:], f['params'], env)
                return self.call_key(key, Ptr(b if isinstance(b, Cell) else Cell(b)), args)
            args = self.args(a, f['params'], env)
            return self.call_key(key, None, args)
        if short == 'operator()':
            fn = self.ev(a[0], env)
            fv = self.val(fn)
            if isinstance(fv, Func):
                args = [self.ev(x, env) for x in a[1:]]
                ft = self.types[a[0]['t']]
                return self.call_func(fv, args, fr['u'])
        if short == 'operator=' and fr.get('asg'):
            r = self.ev(a[1], env)
            l = self.ev(a[0], env)
            v = self.val(r)
            if isinstance(v, (Obj, Vec)) and isinstance(l.v, (Obj, Vec)): self.assign_obj(l, v)
            else: self.wr(l, self.copy(v))
            return l
        from . import stdlib
        return stdlib.operator(self, name, short, a, e, env)

    def e_CallExpr(self, e, env):
        fr = e.get('f')
        if fr is None:
            fn = self.rv(e['c'][0], env)
            return self.call_func(fn, [self.ev(x, env) for x in e['c'][1:]])
        name = strip_t(fr['n'])
        key = fr['u']
        f = self.p['funs'].get(key)
        if f is not None and f['root']:
            cal = e['c'][0]
            args = self.args(e['c'][1:], f['params'], env)
            return self.call_key(key, None, args, e.get('l'))
        if name in MATH:
            return self.mathcall(MATH[name], name, e, env)
        from . import stdlib
        return stdlib.call(self, name, e, env)

    def mathcall(self, m, name, e, env):
        a = [self.rv(x, env) for x in e['c'][1:]]
        t = self.ty(e)
        if self.isint(t):            # int abs(int)
            v = a[0]
            if isinstance(v, int): return abs(v)
            return tm.fabs(v)
        a = [self.num(v, self.types[x['t']]) if self.isflt(self.types[x['t']]) else self.D.i2f(v, t['n']) for v, x in zip(a, e['c'][1:])]
        if m == 'sqrt':
            if not isinstance(self.D, RealD) or not self.D.nn(a[0]): self.need('sqrt', a[0], e)
            if isinstance(self.D, RealD) and not self.D.nn(a[0]) and tm.le(tm.ZERO, a[0]) not in self.pc: self.need('fsqrt', a[0], e)
        if m == 'exp': self.need('exp', a[0], e)
        if m == 'fmod': self.need('div', a[1], e)
        if m == 'pow': self.need('pow', a[0], e) if not (isinstance(a[1], T) and tm.is_const(a[1]) and tm.cval(a[1]).denominator == 1 and tm.cval(a[1]) >= 0) else None
        if m in ('log', 'log10'): self.need('log', a[0], e)
        if not isinstance(self.D, RealD): return self.D.call(m, a, t['n'])
        return self.D.call(m, a)


class LazyV:
    __slots__ = ('make',)

    def __init__(self, make): self.make = make


EXC = {'std::out_of_range': ['std::out_of_range', 'std::logic_error', 'std::exception'],
       'std::invalid_argument': ['std::invalid_argument', 'std::logic_error', 'std::exception'],
       'std::domain_error': ['std::domain_error', 'std::logic_error', 'std::exception'],
       'std::length_error': ['std::length_error', 'std::logic_error', 'std::exception'],
       'std::logic_error': ['std::logic_error', 'std::exception'],
       'std::runtime_error': ['std::runtime_error', 'std::exception']}


def exc_bases(n): return EXC.get(n, [n])


def _contains(n, kinds):
    if isinstance(n, dict):
        if n.get('k') in kinds: return True
        return any(_contains(v, kinds) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list): return any(_contains(v, kinds) for v in n if isinstance(v, (dict, list)))
    return False
