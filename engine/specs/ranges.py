"""C01: every component and alpha stays inside the range of its color type, for every 32-bit float (IEEE semantics, NaN and infinities
included).  For each color type and operation the real code is run on an arbitrary valid color (built by the real constructor from
arbitrary channel values, so any state the invariant admits) and arbitrary arguments; the class invariant is the obligation."""
import math, random, struct, os
import z3
from .. import fp, model
from .. import contract as C
from ..exec import Exec, Ptr, Cell, Obj, Vec, NULL, CppThrow, UB, Unsupported, NeedFork, PathLimit, nstamp
from ..model import TYPES, ORDER
from ..run import lemma

P = 'C01'
SUM = 'sum, then '
f32 = fp.SORT['float']


class FpExec(Exec):
    def reset(self):
        super().reset()
        self.D.ax = []
        self.D.memo = {}
        self.D.n = 0
        self.D.exact = []
        self.D.havoc = set()

    def space(self):
        """an RGB color space about whose gamma nothing is known"""
        s = Obj(model.NS + 'rgb_color_space_definition')
        g = Obj(model.NS + 'gamma')
        g.abs = {n: (lambda x, o, a: unknown(x)) for n in ('gamma_correction', 'inverse_gamma_correction')}
        s.abs = {'get_gamma_curve': lambda x, o, a: Ptr(Cell(g))}
        return Ptr(Cell(s))


def unknown(x):
    r = x.D.fresh(f32, 'gamma')
    x.D.havoc.add(str(r))
    return r


def inside(v, lo, hi):
    return z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLEQ(z3.FPVal(float(lo), f32), v), z3.fpLEQ(v, z3.FPVal(float(hi), f32)))


def flat(o, seen, path=''):
    """the literal fields of an object: limits and other fixed state"""
    r = {}
    if id(o) in seen: return r
    seen.add(id(o))
    if isinstance(o, Obj):
        for n, c in o.f.items():
            v = c.v
            if isinstance(v, (Obj,)): r.update(flat(v, seen, path + n + '.'))
            elif isinstance(v, (int, bool)) or fp.isfp(v) and z3.is_fp_value(v): r[path + n] = str(v)
            elif isinstance(v, Vec): r[path + n + '#size'] = str(len(v.c))
    return r


def arg(x, n): return z3.FP(n, f32)


def valid(x, t, name, space):
    """an arbitrary valid color: the constructor stores every in-range value, so this is every state of the invariant"""
    vs = [arg(x, '%s.%d' % (name, i)) for i in range(t.n)]
    a = arg(x, name + '.a')
    for v, (lo, hi) in zip(vs, t.ranges): x.assume(inside(v, lo, hi))
    x.assume(inside(a, 0, t.amax))
    return Ptr(Cell(model.make(x, t.key, vs, a, space)))


def check(x, t, p, nm, obs, before=None, ranges=True):
    v = model.view(x, p)
    D = x.D
    goals = [('%s#%s' % (nm, n), q, lo, hi) for n, q, (lo, hi) in zip(t.names, v.c, t.ranges)] if len(v.c) == t.n else []
    if len(v.c) != t.n: obs.append(C.ob(nm + '#components', 'refuted', detail='%d components' % len(v.c)))
    goals.append((nm + '#alpha', v.alpha, 0, t.amax))
    for n, q, lo, hi in goals:
        r, m = D.prove(x.pc, inside(q, lo, hi))
        env = None
        if m is not None:
            env = {str(d): fp.value(m, z3.FP(str(d), f32)) for d in m.decls() if '!' not in d.name()}
        obs.append(C.ob(n, r, 'z3-fp', '%s is in %g..%g for every input' % (n.split('#')[1], lo, hi), env))
    if before is not None:
        o = x.rd(x.pcell(p))
        after = flat(o, set())
        diff = [k for k in before if k in after and before[k] != after[k]]
        obs.append(C.ob(nm + '#limits', 'refuted' if diff else 'proved', 'exec', 'limits and size of the color are unchanged' + (': ' + ', '.join(diff) if diff else '')))


def unit(prog, t, op, body):
    nm = '%s::%s' % (t.short, op)
    obs = []
    x = FpExec(prog, fp.FpD(), {}, 500)

    def thunk():
        try:
            body(x, nm, obs)
        except CppThrow as e:
            obs.append(C.ob(nm + '#throws', 'refuted', detail='throws ' + str(e)))
        except UB as e:
            obs.append(C.ob(nm + '#defined', 'refuted', detail='undefined behaviour: ' + str(e)))
    try:
        n = sum(1 for _ in x.explore(thunk))
        if not obs: obs.append(C.ob(nm + '#reachable', 'unsupported', detail='no feasible path'))
    except (Unsupported, NeedFork, PathLimit, RecursionError) as e:
        obs.append(C.ob(nm + '#reach', 'unsupported', detail='%s: %s' % (type(e).__name__, e)))
    except (AttributeError, TypeError, z3.Z3Exception) as e:          # a value of the real domain where a float term is needed
        obs.append(C.ob(nm + '#reach', 'unsupported', detail='outside the IEEE domain: %r' % e))
    return obs


def call(x, key, p, args):
    """call a method with reference parameters bound to the cells of their arguments"""
    f = x.p['funs'][key]
    a = [Cell(v) if x.types[q['t']]['k'] == 'r' and not isinstance(v, Cell) else v for v, q in zip(args, f['params'])]
    return x.run0(f, p, a)


def method(x, p, name, n, pred=None):
    """the method of the object's class with that name and number of parameters"""
    o = x.rd(x.pcell(p))
    for b in x.bases(o.cls):
        for k, f in x.p['funs'].items():
            if f.get('cls') is not None and not f.get('ctor') and x.types[f['cls']].get('n') == b and f['n'].split('::')[-1] == name and len(f['params']) == n and (pred is None or pred(f)): return k
    raise Unsupported('no method %s::%s/%d' % (o.cls, name, n))


def ops(t):
    """operation -> body"""
    def ctor(space):
        def go(x, nm, obs):
            vs = [arg(x, 'v%d' % i) for i in range(t.n)]
            p = Ptr(Cell(model.make(x, t.key, vs, arg(x, 'alpha'), NULL)))
            check(x, t, p, nm, obs)
        return go

    def ctor1(x, nm, obs):
        k = model.ctor_key(x, t.cls, 1)
        p = Ptr(Cell(x.construct(x.p['funs'][k]['cls'], k, [arg(x, 'v0'), arg(x, 'alpha'), NULL])))
        check(x, t, p, nm, obs)

    def sum_(x, space):
        p, q = valid(x, t, 'this', space), valid(x, t, 'other', NULL)
        r = call(x, method(x, p, 'operator+', 1), p, [x.pcell(q)])
        return r if isinstance(r, Ptr) else Ptr(Cell(r))

    def mut(name, args, space=False, start=None):
        def go(x, nm, obs):
            sp = x.space() if space else NULL
            p = start(x, sp) if start else valid(x, t, 'this', sp)
            before = flat(x.rd(x.pcell(p)), set())
            vals = [arg(x, a) if isinstance(a, str) else a for a in args]
            call(x, method(x, p, name, len(args)), p, vals)
            check(x, t, p, nm, obs, before)
        return go

    def plus(x, nm, obs, start=None):
        p, q = start(x, NULL) if start else valid(x, t, 'this', NULL), valid(x, t, 'third' if start else 'other', NULL)
        r = call(x, method(x, p, 'operator+', 1), p, [x.pcell(q)])
        v = model.view(x, r)
        for n, w, (lo, hi) in list(zip(t.names, v.c, t.ranges)) + [('alpha', v.alpha, (0, t.amax))]:
            s, m = x.D.prove(x.pc, inside(w, lo, hi))
            env = {str(d): fp.value(m, z3.FP(str(d), f32)) for d in m.decls() if '!' not in d.name()} if m is not None else None
            obs.append(C.ob('%s#%s' % (nm, n), s, 'z3-fp', '%s is in %g..%g for every input' % (n, lo, hi), env))
    r = [('ctor', ctor(None))]
    if t.key in ('rgb_true', 'rgb_deep'): r.append(('ctor(value)', ctor1))
    for n in t.names: r.append((n + '(float)', mut(n, ['v'])))
    r.append(('alpha(float)', mut('alpha', ['v'])))
    for i in range(t.n): r.append(('set_component(float,%d)' % i, mut('set_component', ['v', i])))
    r.append(('operator+', plus))
    r.append(('alpha_multiply', mut('alpha_multiply', [])))
    r.append(('alpha_divide', mut('alpha_divide', [])))
    for n in ('do_gamma_correction', 'do_inverse_gamma_correction'): r.append((n, mut(n, [], True)))
    # the color_base that adding two colors returns keeps the invariant as well
    for i in range(t.n): r.append((SUM + 'set_component(float,%d)' % i, mut('set_component', ['v', i], start=sum_)))
    r.append((SUM + 'alpha(float)', mut('alpha', ['v'], start=sum_)))
    r.append((SUM + 'alpha_multiply', mut('alpha_multiply', [], start=sum_)))
    r.append((SUM + 'alpha_divide', mut('alpha_divide', [], start=sum_)))
    r.append((SUM + 'operator+', lambda x, nm, obs: plus(x, nm, obs, sum_)))
    for n in ('do_gamma_correction', 'do_inverse_gamma_correction'): r.append((SUM + n, mut(n, [], True, sum_)))
    return r


# ------------------------------------------------------------------ concrete counterpart, run on the compiled code
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 359.0, 359.5, 360.0, 361.0, -0.5, -360.0, -1e-30, 1e-42, -1e-42, 255.0, 256.0, 100.0, 128.0, -128.0, -129.0, 1e10, -1e10, 3.4028234663852886e38, -3.4028234663852886e38, math.inf, -math.inf, math.nan, 1.0000001, 0.99999994]


def tok(v): return 'nan' if v != v else 'inf' if v == math.inf else '-inf' if v == -math.inf else float(v).hex()


def rnd_float(r):
    if r.random() < 0.5: return r.choice(SPECIAL)
    if r.random() < 0.3: return struct.unpack('f', struct.pack('I', r.getrandbits(32)))[0]
    return r.uniform(-800, 800)


def bounded(t, op):
    """the compiled code on the solver's inputs and on sampled ones (special floats included)"""
    def go(ctx, drv, seed):
        from ..replay import parse as pr, Crash
        r = random.Random('%s %s %s' % (seed, t.key, op))
        rng = list(t.ranges) + [(0, t.amax)]
        code, extra = probe(t, op)
        n = 0
        todo = [o['env'] for o in getattr(ctx, 'open_obs', ()) if o.get('env')] + [None] * (40 if ctx.scale == 1 else 400) * (8 if getattr(ctx, 'open_obs', None) else 1)
        for env in todo:
            sp = r.randrange(6) if 'gamma' in op else -1

            def get(name, lo=None, hi=None):
                if env is not None and name in env: return f32c(env[name])
                if lo is None: return f32c(rnd_float(r))
                return f32c(r.choice([lo, hi, r.uniform(float(lo), float(hi)), r.uniform(float(lo), float(hi))]))

            def color(pre):
                vs = [get('%s.%d' % (pre, i), lo, hi) for i, (lo, hi) in enumerate(t.ranges)]
                return vs + [get(pre + '.a', 0, t.amax)]
            if op == 'ctor': vs = [get('v%d' % i) for i in range(t.n)] + [get('alpha')]
            else: vs = color('this')
            toks = ['C', str(ORDER.index(t.key))] + [tok(v) for v in vs] + [str(sp)]
            show = '%s(%s)' % (t.short, ', '.join(num(tok(v)) for v in vs))
            for e in (['C'] if op.startswith(SUM) else []) + extra:
                if e == 'C':
                    w = color('other' if ' + ' not in show else 'third')
                    toks += ['C', str(ORDER.index(t.key))] + [tok(v) for v in w] + ['-1']
                    show += ' + %s(%s)' % (t.short, ', '.join(num(tok(v)) for v in w))
                elif isinstance(e, str):
                    v = get(e)
                    toks.append(tok(v))
                    show += ' %s=%s' % (e, num(tok(v)))
                else: toks.append(str(e))
            try:
                res, post = pr(drv.ask('B %d %s' % (code, ' '.join(toks))))
            except Crash as e:
                return n, dict(why='%s::%s crashes: %s' % (t.short, op, str(e)[-600:]), inst=show, env={})
            n += 1
            if res.kind != 'color': return n, dict(why='%s::%s: %r' % (t.short, op, res), inst=show, env={})
            for nme, v, (lo, up) in list(zip(t.names, res.c, t.ranges)) + [('alpha', res.alpha, (0, t.amax))]:
                if not (float(lo) <= v <= float(up)):
                    return n, dict(why='%s::%s leaves %s = %r, outside %g..%g' % (t.short, op, nme, v, lo, up), inst=show, env={})
        return n, None
    return go


def num(h):
    return h if h in ('nan', 'inf', '-inf') else '%.9g' % float.fromhex(h)


def f32c(v):
    try: return struct.unpack('f', struct.pack('f', float(v)))[0]
    except OverflowError: return math.copysign(math.inf, v)


def probe(t, op):
    """driver command B: code and further arguments"""
    if op.startswith(SUM):
        c, e = probe(t, op[len(SUM):])
        return c + 100, e
    if op == 'ctor': return 0, []
    if op == 'ctor(value)': return 1, ['v0', 'alpha']
    if op == 'alpha(float)': return 3, ['v']
    if op.startswith('set_component'): return 4, [int(op.split(',')[1].rstrip(')')), 'v']
    if op == 'operator+': return 5, ['C']
    if op == 'alpha_multiply': return 6, []
    if op == 'alpha_divide': return 7, []
    if op == 'do_gamma_correction': return 8, []
    if op == 'do_inverse_gamma_correction': return 9, []
    return 2, [t.names.index(op[:-len('(float)')]), 'v']


for k in ORDER:
    for op, body in ops(TYPES[k]):
        lemma('%s::%s stays in range' % (TYPES[k].short, op), P, tlimit=120, bounded=bounded(TYPES[k], op))((lambda t, op, body: lambda ctx: unit(ctx.prog, t, op, body))(TYPES[k], op, body))
