"""Models of the standard-library pieces the code uses (trusted: assumed contracts on dependencies)."""
from .exec import *
from . import terms as tm


def iters(x, v):
    return v


def _vec(x, v):
    v = x.val(v)
    if not isinstance(v, Vec): raise Unsupported('not a container: %r' % (v,))
    return v


def construct(x, n, t, e, env):
    c = e['c']
    if n in ('std::vector', 'std::initializer_list'):
        et = t['a'][0]
        c = [y for y in c if not (isinstance(x.types[y['t']], dict) and strip_t(x.types[y['t']].get('n', '')) in ('std::allocator',))]
        if not c: return Vec('vector', et)
        a = [x.rv(y, env) for y in c]
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Vec):
                w = Vec('vector', et, [Cell(x.copy(q.v) if isinstance(q.v, (Obj, Vec)) else q.v) for q in v.c])
                w.sym = v.sym
                return w
            if isinstance(v, int):
                if v < 0 or v > 100000: raise Unsupported('vector size')
                return Vec('vector', et, [Cell(x.zero(et)) for _ in range(v)])
            if isinstance(v, T): raise Unsupported('vector of symbolic size')
        if len(a) == 2:
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
                return Vec('vector', et, [Cell(x.copy(q) if isinstance(q.v, (Obj, Vec)) else x.rd(q)) for q in rng(a[0], a[1])])
            if isinstance(a[0], Vec) and a[0].sym is not None: raise Unsupported('symbolic range')
            if isinstance(a[0], int):
                return Vec('vector', et, [Cell(x.copy(a[1]) if isinstance(a[1], (Obj, Vec)) else a[1]) for _ in range(a[0])])
            if isinstance(a[0], T): raise Unsupported('vector of symbolic size')
        raise Unsupported('vector constructor')
    if n == 'std::array': return x.uninit(e['t']) if not e.get('zi') else x.zero(e['t'])
    if n == 'std::function':
        if not c: return Func()
        v = x.rv(c[0], env)
        if isinstance(v, Ptr) and v.null(): return Func()
        if isinstance(v, Func): return v
        raise Unsupported('std::function from %r' % (v,))
    if n == 'std::basic_string':
        if not c: return ''
        v = x.rv(c[0], env)
        if isinstance(v, str):
            cc = [y for y in c[1:] if strip_t(x.types[y['t']].get('n', '')) != 'std::allocator']
            if cc:
                k = x.rv(cc[0], env)
                if isinstance(k, int):
                    if k < 0: raise CppThrow(None, 'std::length_error', False)
                    if k > len(v) + 1: raise UB('std::string(ptr, n) reads past the end of the literal')
                    return v[:k]
                if isinstance(k, T):
                    if x.decide(tm.lt(tm.const(len(v) + 1), k)): raise UB('std::string(ptr, n) reads past the end of the literal')
                    if x.decide(tm.lt(k, tm.ZERO)): raise CppThrow(None, 'std::length_error', False)
                    return v
            return v
        if isinstance(v, (SymStr,)):
            if v.cstr or len([y for y in c[1:] if strip_t(x.types[y['t']].get('n', '')) != 'std::allocator' and y.get('k') != 'dflt']): raise Unsupported('string from parts of a string')
            return v
        if isinstance(v, Ptr) and v.null(): raise UB('std::string from null')
        raise Unsupported('string constructor')
    if n in ('std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::runtime_error', 'std::domain_error', 'std::length_error', 'std::exception'):
        for y in c: x.ev(y, env)
        return Obj(n)
    if n in ('std::shared_ptr', 'std::unique_ptr'):
        if not c: return NULL
        return x.rv(c[0], env)
    if n in ('std::pair', 'std::tuple'):
        o = Obj(t['n'])
        if not c: return x.default_obj(e['t'])
        a = [x.ev(y, env) for y in c]
        if len(a) == 1 and isinstance(x.val(a[0]), Obj): return x.copy(a[0])
        ts = [z for z in t['a'] if isinstance(z, int)]
        for nm, v, tt in zip(('first', 'second') if n == 'std::pair' else ['e%d' % i for i in range(9)], a, ts): o.f[nm] = Cell(x.copy(v) if isinstance(v, Cell) else v)
        return o
    if n == '__gnu_cxx::__normal_iterator': return x.rv(c[0], env) if c else NULL
    if n == 'std::allocator': return Obj(n)
    if n == 'std::basic_regex':
        o = Obj('std::regex')
        v = x.rv(c[0], env)
        if isinstance(v, Obj): return v
        if not isinstance(v, str): raise Unsupported('regular expression')
        o.tag = v
        if len(c) > 1:
            fl = rx_flags(c[1])
            if not fl <= {'ECMAScript', 'icase', 'optimize', 'nosubs'}: raise Unsupported('flags of a regular expression %r' % (fl,))
            o.abs = 'icase' if 'icase' in fl else None
        else: o.abs = None
        return o
    if t.get('lambda') or n == '':
        return x.rv(c[0], env)
    if len(c) == 0: return x.default_obj(e['t'])
    raise Unsupported('constructor of ' + n)


def rx_flags(e):
    """the names of the flags in an expression"""
    r = set()
    if isinstance(e, dict):
        if 'd' in e: r.add(e['d'].get('n', '?').split('::')[-1])
        elif e.get('k', '').endswith('Literal'): r.add('?')
        for v in e.get('c', ()): r |= rx_flags(v)
    return r - {'operator|'}


class RoCell(Cell):
    """a character of a string: reading only"""
    __slots__ = ('_v',)

    def __init__(self, v):
        self._v, self.stamp, self.name = v, nstamp(), None

    def ro(self, v): raise Unsupported('writing single characters of a string')
    v = property(lambda self: self._v, ro)


from .strings import SymStr
from . import strings as st


def rng(a, b):
    if a.arr is None and b.arr is None: return []
    if a.arr is not b.arr: raise UB('iterators of different containers')
    if a.arr.sym is not None: raise Unsupported('symbolic range')
    if not 0 <= a.idx <= b.idx <= len(a.arr.c): raise UB('bad iterator range')
    return a.arr.c[a.idx:b.idx]


def at(x, v, i, checked):
    if isinstance(i, T):
        if tm.is_const(i): i = int(tm.cval(i))
        else:
            if v.sym is not None: return v.sym.elem(x, v, i, checked)
            # symbolic index into a concrete container: case split
            for k in range(len(v.c)):
                if x.decide(tm.eq(i, tm.const(k))): return v.c[k]
            if checked: raise CppThrow(None, 'std::out_of_range', False)
            raise UB('container index out of bounds')
    if v.sym is not None: return v.sym.elem(x, v, i, checked)
    if not 0 <= i < len(v.c):
        if checked: raise CppThrow(None, 'std::out_of_range', False)
        raise UB('container index %s out of bounds (size %d)' % (i, len(v.c)))
    return v.c[i]


def method(x, name, b, obj, d, argn, e, env):
    short = name.split('::')[-1]
    if short.startswith('~'): return None
    cls = name[:-len(short) - 2]
    if isinstance(obj, Func):
        if short == 'operator bool': return obj.node is not None or obj.fn is not None or obj.py is not None
        if short == 'operator()': return x.call_func(obj, [x.ev(y, env) for y in argn])
        if short in ('target',):
            return FnTarget(obj)
        if short == 'target_type': return Obj('std::type_info')
        raise Unsupported(name)
    if isinstance(obj, Vec):
        v = obj
        if v.kind == 'iter': raise Unsupported(name)
        if short == 'operator=':
            x.assign_obj(b, x.ev(argn[0], env))
            return b
        if short == 'size': return tm.add(tm.lift(v.sym.size), tm.const(len(v.c))) if v.sym is not None else len(v.c)
        if short == 'empty':
            if v.sym is not None: return x.D.eq(tm.add(tm.lift(v.sym.size), tm.const(len(v.c))), tm.ZERO)
            return len(v.c) == 0
        if short in ('operator[]', 'at'):
            i = x.rv(argn[0], env)
            return at(x, v, i, short == 'at')
        if v.sym is not None: return v.sym.method(x, v, short, [x.ev(y, env) for y in argn])
        if short in ('begin', 'cbegin', 'data'): return Ptr(arr=v, idx=0)
        if short in ('end', 'cend'): return Ptr(arr=v, idx=len(v.c))
        if short in ('front', 'back'):
            if not v.c: raise UB('front()/back() of an empty container')
            return v.c[0 if short == 'front' else -1]
        if short == 'reserve' or short == 'shrink_to_fit':
            for y in argn: x.ev(y, env)
            return None
        if short in ('push_back', 'emplace_back'):
            a = [x.ev(y, env) for y in argn]
            x.wvec(v)
            if not a: val = x.zero(v.et)
            elif len(a) == 1:
                val = x.copy(a[0]) if isinstance(a[0], Cell) else a[0]
            else: raise Unsupported('emplace_back')
            v.c = v.c + [Cell(val)]
            return v.c[-1] if short == 'emplace_back' else None
        if short == 'pop_back':
            if not v.c: raise UB('pop_back of an empty vector')
            x.wvec(v)
            v.c = v.c[:-1]
            return None
        if short == 'clear':
            x.wvec(v)
            v.c = []
            return None
        if short in ('resize', 'assign'):
            a = [x.rv(y, env) for y in argn]
            x.wvec(v)
            if isinstance(a[0], T): raise Unsupported('resize to a symbolic size')
            if short == 'assign':
                if isinstance(a[0], Ptr): v.c = [Cell(x.copy(q)) for q in rng(a[0], a[1])]
                elif isinstance(a[0], Vec): v.c = [Cell(x.copy(q)) for q in a[0].c]
                else: v.c = [Cell(x.copy(a[1]) if isinstance(a[1], (Obj, Vec)) else a[1]) for _ in range(a[0])]
                return None
            n = a[0]
            if n < 0 or n > 100000: raise CppThrow(None, 'std::length_error', False)
            c = v.c[:n]
            while len(c) < n: c.append(Cell(x.zero(v.et) if len(a) < 2 else (x.copy(a[1]) if isinstance(a[1], (Obj, Vec)) else a[1])))
            v.c = c
            return None
        if short == 'fill':
            a = x.rv(argn[0], env)
            for q in v.c: x.wr(q, x.copy(a) if isinstance(a, (Obj, Vec)) else a)
            return None
        if short == 'erase':
            a = [x.rv(y, env) for y in argn]
            x.wvec(v)
            i = a[0].idx
            j = a[1].idx if len(a) > 1 else i + 1
            if a[0].arr is not v or not 0 <= i <= j <= len(v.c): raise UB('erase with a bad iterator')
            v.c = v.c[:i] + v.c[j:]
            return Ptr(arr=v, idx=i)
        if short == 'insert':
            a = [x.rv(y, env) for y in argn]
            x.wvec(v)
            i = a[0].idx
            if len(a) == 2: new = [Cell(x.copy(a[1]) if isinstance(a[1], (Obj, Vec)) else a[1])]
            elif isinstance(a[1], Ptr): new = [Cell(x.copy(q)) for q in rng(a[1], a[2])]
            else: raise Unsupported('insert')
            v.c = v.c[:i] + new + v.c[i:]
            return Ptr(arr=v, idx=i)
        if short == 'swap':
            o = x.rv(argn[0], env)
            x.wvec(v), x.wvec(o)
            v.c, o.c = o.c, v.c
            return None
        raise Unsupported(name)
    if isinstance(obj, (str, SymStr)):
        sym = isinstance(obj, SymStr)
        ch = obj.chars if sym else [ord(q) for q in obj]
        more = obj.more if sym else 0
        whole = not isinstance(more, T) and not more
        if short in ('c_str', 'data'): return SymStr(ch, more, True) if sym else obj
        if short in ('size', 'length'): return obj.size() if sym else len(obj)
        if short == 'empty': return len(ch) == 0 if whole or ch else tm.eq(tm.lift(obj.size()), tm.ZERO)
        if short in ('operator[]', 'at', 'front', 'back'):
            i = x.whole(x.rv(argn[0], env)) if argn else 0 if short == 'front' else len(ch) - 1
            if short == 'back' and not whole: raise Unsupported('the unknown rest of a string')
            if isinstance(i, int):
                if 0 <= i < len(ch): return RoCell(ch[i])
                if not whole: raise Unsupported('the unknown rest of a string')
                if short == 'at': raise CppThrow(None, 'std::out_of_range', False)
                if i == len(ch) and short == 'operator[]': return RoCell(0)
                raise UB('string index')
            raise Unsupported('symbolic string index')
        if short in ('substr', 'erase'):
            a = [x.whole(x.rv(y, env)) for y in argn]
            if any(not isinstance(q, int) for q in a): raise Unsupported(name)
            i = a[0] if a else 0
            if i > len(ch):
                if not whole: raise Unsupported('the unknown rest of a string')
                raise CppThrow(None, 'std::out_of_range', False)
            n = a[1] if len(a) > 1 else 2 ** 64 - 1
            if n < 0: n += 2 ** 64
            if short == 'erase':
                if not whole and i + n > len(ch): raise Unsupported('the unknown rest of a string')
                r = SymStr(ch[:i] + ch[i + n:], more)
                x.wr(b, r)
                return b
            if whole or i + n <= len(ch): r, mo = ch[i:i + n], 0
            elif n >= 2 ** 62: r, mo = ch[i:], more
            else: raise Unsupported('the unknown rest of a string')
            return SymStr(r, mo) if sym else obj[i:i + n]
        if short in ('find', 'find_first_not_of', 'find_first_of', 'rfind', 'find_last_of'):
            a = [x.whole(x.rv(y, env)) for y in argn]
            if not whole: raise Unsupported('the unknown rest of a string')
            k0 = a[1] if len(a) > 1 and 'r' != short[0] and 'last' not in short else 0
            if isinstance(a[0], int): cs = [a[0]]
            elif isinstance(a[0], str) and (len(a[0]) == 1 or '_of' in short): cs = [ord(q) for q in a[0]]
            else: raise Unsupported(name)
            if not isinstance(k0, int): raise Unsupported(name)
            ks = range(k0, len(ch))
            if short[0] == 'r' or 'last' in short: ks = reversed(ks)
            for k in ks:
                if st.test(x, st.inset(ch[k], [(q, q) for q in cs])) != ('not' in short): return k
            return 2 ** 64 - 1
        if short in ('begin', 'end', 'cbegin', 'cend'):
            if not whole: raise Unsupported('the unknown rest of a string')
            if sym:
                if not hasattr(obj, 'vec'): obj.vec = Vec('vector', None, [RoCell(q) for q in ch])
                vv = obj.vec
            else: vv = Vec('vector', None, [RoCell(q) for q in ch])
            return Ptr(arr=vv, idx=0 if 'begin' in short else len(ch))
        if short in ('operator=', 'assign'):
            v = x.rv(argn[0], env)
            if len(argn) == 1 and isinstance(v, (str, SymStr)) and not getattr(v, 'cstr', False):
                x.wr(b, v)
                return b
        raise Unsupported(name)
    if isinstance(obj, Ptr):
        if short == 'get': return obj
        if short == 'base': return obj
        if short == 'operator bool': return not obj.null()
        if short == 'release':
            x.wr(b, NULL)
            return obj
        if short == 'reset':
            a = [x.rv(y, env) for y in argn]
            x.wr(b, a[0] if a else NULL)
            return None
        raise Unsupported(name)
    if isinstance(obj, Obj) and obj.cls == 'std::type_info':
        if short in ('name', 'hash_code'): return 0
    if short == 'what': return ''
    raise Unsupported('method ' + name)


class FnTarget:
    """result of std::function::target<>(): only meaningful for plain function pointers"""
    def __init__(self, f): self.f = f


def operator(x, name, short, a, e, env):
    v0 = x.ev(a[0], env)
    o0 = x.val(v0) if not (isinstance(v0, Cell) and v0.v is UNINIT) else v0.v
    if short == 'operator[]':
        if isinstance(o0, Vec): return at(x, o0, x.rv(a[1], env), False)
        if isinstance(o0, Ptr): return x.pcell(x.padd(o0, x.rv(a[1], env)))
        if isinstance(o0, (str, SymStr)): return method(x, 'operator[]', v0, o0, None, a[1:], e, env)
    if isinstance(o0, Ptr):
        if short == 'operator*' and len(a) == 1: return x.pcell(o0)
        if short == 'operator->': return o0
        if short in ('operator++', 'operator--'):
            n = x.padd(o0, 1 if short == 'operator++' else -1)
            x.wr(v0, n)
            return o0 if len(a) == 2 else v0
        if short in ('operator+', 'operator-', 'operator+=', 'operator-='):
            o1 = x.rv(a[1], env)
            if isinstance(o1, Ptr): return x.binop('-', o0, o1, None, None, e)
            r = x.padd(o0, o1 if '+' in short else -o1)
            if short.endswith('='):
                x.wr(v0, r)
                return v0
            return r
        if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            o1 = x.rv(a[1], env)
            return x.binop(short[8:], o0, o1, None, None, e)
        if short == 'operator=':
            r = x.rv(a[1], env)
            x.wr(v0, r)
            return v0
    if short in ('operator==', 'operator!=') and isinstance(o0, Vec):
        o1 = x.rv(a[1], env)
        r = veq(x, o0, o1)
        if short == 'operator==': return r
        return (not r) if isinstance(r, bool) else x.D.not_(r)
    if short in ('operator==', 'operator!=') and isinstance(o0, Func):
        r = not (o0.node is not None or o0.fn is not None or o0.py is not None)
        return r == (short == 'operator==')
    if short == 'operator=' :
        r = x.ev(a[1], env)
        rv = x.val(r)
        if isinstance(o0, Func) or isinstance(rv, Func):
            if isinstance(rv, Ptr) and rv.null(): rv = Func()
            x.wr(v0, rv)
            return v0
        if isinstance(rv, (Vec,)):
            if isinstance(v0.v, Vec):
                if rv.kind == 'initlist' or rv is not v0.v: x.assign_obj(v0, rv)
                return v0
        if isinstance(rv, (str, SymStr)):
            x.wr(v0, rv)
            return v0
        raise Unsupported(name)
    if isinstance(o0, (str, SymStr)) or short in ('operator+', 'operator+=', 'operator<<'):
        o1 = x.rv(a[1], env) if len(a) > 1 else None
        if short in ('operator+', 'operator+=') and isinstance(o0, (str, SymStr)):
            if isinstance(o0, str) and isinstance(o1, str): r = o0 + o1
            else:
                u = SymStr([ord(q) for q in o0]) if isinstance(o0, str) else o0
                v = SymStr([ord(q) for q in o1]) if isinstance(o1, str) else SymStr([o1]) if isinstance(o1, (int, T)) else o1
                if not isinstance(v, SymStr): raise Unsupported(name)
                whole = not isinstance(u.more, T) and not u.more
                r = SymStr(u.chars + v.chars, v.more) if whole else SymStr(u.chars, tm.add(u.more, tm.lift(v.size())))
            if short == 'operator+': return r
            x.wr(v0, r)
            return v0
        if short == 'operator+' and isinstance(o0, (int, T)) and isinstance(o1, (str, SymStr)):
            v = SymStr([ord(q) for q in o1]) if isinstance(o1, str) else o1
            return SymStr([o0] + v.chars, v.more)
        if short in ('operator==', 'operator!=') and isinstance(o0, (str, SymStr)) and isinstance(o1, (str, SymStr)):
            p, q = st.chars_of(o0), st.chars_of(o1)
            r = tm.FALSE if len(p) != len(q) else tm.and_(*[tm.eq(st.C(i), st.C(j)) for i, j in zip(p, q)])
            if short == 'operator!=': r = tm.not_(r)
            return True if r is tm.TRUE else False if r is tm.FALSE else r
        if short == 'operator==' and isinstance(o0, str) and isinstance(o1, str): return o0 == o1
    raise Unsupported('operator ' + name)


def veq(x, a, b):
    if a.sym is not None or b.sym is not None: raise Unsupported('comparison of symbolic containers')
    if len(a.c) != len(b.c): return False
    r = []
    for p, q in zip(a.c, b.c):
        u, v = x.rd(p), x.rd(q)
        if isinstance(u, Vec): s = veq(x, u, v)
        elif isinstance(u, Ptr): s = u.same(v)
        elif isinstance(u, int) and isinstance(v, int): s = u == v
        else: s = x.D.eq(u, v)
        if s is False: return False
        if s is not True: r.append(s)
    if not r: return True
    return x.D.and_(*r)


def call(x, name, e, env):
    a = e['c'][1:]
    D = x.D
    short = name.split('::')[-1]
    if name in ('std::min', 'std::max', 'std::fmin', 'std::fmax'):
        t = x.deref(x.ty(e))
        if len(a) == 1:
            v = x.rv(a[0], env)
            if isinstance(v, Vec):
                vals = [x.rd(c) for c in v.c]
                r = vals[0]
                for w in vals[1:]: r = mm(x, short, r, w)
                return r
        c1, c2 = x.ev(a[0], env), x.ev(a[1], env)
        if len(a) == 3: raise Unsupported('std::min with comparator')
        v1, v2 = x.val(c1), x.val(c2)
        return mm(x, short, v1, v2)
    if name in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::__addressof'):
        v = x.ev(a[0], env)
        if short in ('addressof', '__addressof'): return Ptr(v)
        return v
    if name == 'std::swap':
        c1, c2 = x.ev(a[0], env), x.ev(a[1], env)
        v1, v2 = c1.v, c2.v
        x.wr(c1, v2)
        x.wr(c2, v1)
        return None
    if name in ('std::begin', 'std::cbegin', 'std::end', 'std::cend'):
        v = x.rv(a[0], env)
        if isinstance(v, Vec): return Ptr(arr=v, idx=0 if 'begin' in short else len(v.c))
    if name in ('std::isnan', 'isnan', 'std::isinf', 'isinf', 'std::isfinite', 'isfinite', '__builtin_isnan'):
        v = x.rv(a[0], env)
        if isinstance(D, RealD): return 'finite' in name
        return D.classify(short, v)
    if name == 'std::signbit' or name == 'signbit':
        v = x.rv(a[0], env)
        return D.lt(v, D.const(0, 'float'))
    if name in ('std::regex_match', 'std::regex_search'):
        s, rx = x.rv(a[0], env), x.rv(a[1], env)
        if not isinstance(s, (str, SymStr)) or not isinstance(rx, Obj): raise Unsupported(name)
        if getattr(s, 'cstr', False): raise Unsupported(name)
        return st.match(x, s, rx, short == 'regex_search')
    if short in ('sscanf', 'sscanf_s'):
        v = [x.rv(y, env) for y in a]
        if not isinstance(v[0], (str, SymStr)) or not isinstance(v[1], str): raise Unsupported(name)
        return st.sscanf(x, v[0], v[1], v[2:])
    if short in st.CLASSES and len(a) == 1:
        r = st.inset(x.rv(a[0], env), st.CLASSES[short])
        return 1 if r is tm.TRUE else 0 if r is tm.FALSE else tm.ite(r, tm.ONE, tm.ZERO)
    if short in ('toupper', 'tolower') and len(a) == 1:
        v = x.rv(a[0], env)
        if isinstance(v, int): return ord(chr(v).upper() if short == 'toupper' else chr(v).lower()) if 0 <= v < 128 else v
        return tm.ite(st.inset(v, st.LOWR if short == 'toupper' else st.UPR), tm.add(v, tm.const(-32 if short == 'toupper' else 32)), v)
    if short in ('stoi', 'stol', 'stoul', 'stoll', 'stoull', 'strtol', 'strtoul', 'strtoll', 'strtoull'):
        v = [x.rv(y, env) for y in a]
        base = v[2] if len(v) > 2 else 10
        if len(v) > 1 and not (isinstance(v[1], int) or v[1].null()): raise Unsupported(name)
        if not isinstance(v[0], (str, SymStr)): raise Unsupported(name)
        ch = st.chars_of(v[0])
        if len(ch) > 8: raise Unsupported('long numbers')
        r = st.scan(x, ch, 0, None, base)
        if r is None:
            if short[:3] == 'str': return 0
            raise CppThrow(Obj('std::invalid_argument'), 'std::invalid_argument', False)
        if short == 'stoi' and x.decide(tm.lt(tm.const(2 ** 31 - 1), r[0])): raise CppThrow(Obj('std::out_of_range'), 'std::out_of_range', False)
        return st.int_of(r[0])
    if name in ('std::to_string',):
        v = x.rv(a[0], env)
        return str(v) if isinstance(v, int) else '?'
    if name in ('std::sort', 'std::stable_sort'):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        cells = rng(p, q)
        cmpf = x.ev(a[2], env) if len(a) > 2 else None
        # insertion sort on values; comparisons may fork
        vals = [x.rd(c) for c in cells]
        out = []
        for v in vals:
            i = len(out)
            while i > 0:
                u = out[i - 1]
                lt = x.call_func(cmpf, [Cell(v), Cell(u)]) if cmpf is not None else less(x, v, u)
                if not x.decide(lt): break
                i -= 1
            out.insert(i, v)
        for c, v in zip(cells, out): x.wr(c, v)
        return None
    if name in ('std::accumulate',):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        acc = x.rv(a[2], env)
        f = x.ev(a[3], env) if len(a) > 3 else None
        for c in rng(p, q):
            acc = x.call_func(f, [acc, c]) if f is not None else x.binop('+', acc, x.rd(c), x.ty(e), x.ty(e), e)
        return acc
    if name in ('std::for_each',):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        f = x.ev(a[2], env)
        for c in rng(p, q): x.call_func(f, [c])
        return f
    if name in ('std::transform',):
        p, q, o = x.rv(a[0], env), x.rv(a[1], env), x.rv(a[2], env)
        if len(a) == 4:
            f = x.ev(a[3], env)
            for i, c in enumerate(rng(p, q)): out(x, o, i, x.val(x.call_func(f, [c])))
        else:
            f = x.ev(a[4], env)
            p2 = o
            o = x.rv(a[3], env)
            for i, c in enumerate(rng(p, q)): out(x, o, i, x.val(x.call_func(f, [c, x.pcell(x.padd(p2, i))])))
        return x.padd(o, len(rng(p, q))) if isinstance(o, Ptr) else o
    if name in ('std::copy',):
        p, q, o = x.rv(a[0], env), x.rv(a[1], env), x.rv(a[2], env)
        for i, c in enumerate(rng(p, q)): out(x, o, i, x.copy(c))
        return o
    if name in ('std::fill',):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        v = x.rv(a[2], env)
        for c in rng(p, q): x.wr(c, v)
        return None
    if name in ('std::inner_product',):
        p, q, p2, acc = [x.rv(y, env) for y in a[:4]]
        for i, c in enumerate(rng(p, q)):
            acc = D.add(acc, D.mul(x.rd(c), x.rd(x.pcell(x.padd(p2, i)))))
        return acc
    if name in ('std::min_element', 'std::max_element'):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        cs = rng(p, q)
        if not cs: return q
        b = 0
        for i in range(1, len(cs)):
            u, v = x.rd(cs[i]), x.rd(cs[b])
            if x.decide(less(x, u, v) if 'min' in name else less(x, v, u)): b = i
        return Ptr(arr=p.arr, idx=p.idx + b)
    if name in ('std::all_of', 'std::any_of', 'std::none_of', 'std::find_if', 'std::count_if'):
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        f = x.ev(a[2], env)
        n = 0
        for i, c in enumerate(rng(p, q)):
            r = x.decide(x.call_func(f, [c]))
            if short == 'all_of' and not r: return False
            if short == 'any_of' and r: return True
            if short == 'none_of' and r: return False
            if short == 'find_if' and r: return Ptr(arr=p.arr, idx=p.idx + i)
            n += r
        return {'all_of': True, 'any_of': False, 'none_of': True, 'find_if': q, 'count_if': n}[short]
    if name in ('std::equal',):
        p, q, o = x.rv(a[0], env), x.rv(a[1], env), x.rv(a[2], env)
        r = []
        for i, c in enumerate(rng(p, q)):
            u, v = x.rd(c), x.rd(x.pcell(x.padd(o, i)))
            r.append(D.eq(u, v) if not isinstance(u, int) else u == v)
        if any(y is False for y in r): return False
        r = [y for y in r if y is not True]
        return D.and_(*r) if r else True
    if name == 'std::distance':
        p, q = x.rv(a[0], env), x.rv(a[1], env)
        return q.idx - p.idx
    if name in ('std::next', 'std::prev'):
        p = x.rv(a[0], env)
        n = x.rv(a[1], env) if len(a) > 1 else 1
        return x.padd(p, n if short == 'next' else -n)
    if name in ('std::back_inserter',):
        return ('back', x.rv(a[0], env))
    if name in ('std::make_pair',):
        o = Obj('std::pair')
        for nm, y in zip(('first', 'second'), a): o.f[nm] = Cell(x.copy(x.ev(y, env)))
        return o
    if name == 'std::make_unique' or name == 'std::make_shared': raise Unsupported(name)
    if name == 'std::numeric_limits::infinity': raise Unsupported('infinity')
    if name == 'std::numeric_limits::epsilon': return D.const('1.1920929e-07', x.ty(e)['n'])
    if name == 'std::numeric_limits::max' or name == 'std::numeric_limits::min':
        raise Unsupported(name)
    if name == 'std::regex_match':
        from . import strings
        return strings.regex_match(x, x.rv(a[0], env), x.rv(a[1], env))
    if name in ('sscanf', 'std::sscanf'):
        from . import strings
        return strings.sscanf(x, [x.rv(y, env) for y in a])
    if name in ('std::strtol', 'strtol', 'std::strtoul', 'strtoul', 'std::stoi', 'std::stoul', 'std::stol', 'isxdigit', 'std::isxdigit', 'std::isdigit', 'isdigit'):
        from . import strings
        return strings.conv(x, short, [x.ev(y, env) for y in a])
    # a std:: algorithm whose body the extractor could see
    fr = e['f']
    f = x.p['funs'].get(fr['u'])
    if f is not None and f.get('body') is not None:
        return x.call_key(fr['u'], None, x.args(a, f['params'], env))
    raise Unsupported('call of ' + name)


def mm(x, short, v1, v2):
    if isinstance(v1, int) and isinstance(v2, int):
        return min(v1, v2) if 'min' in short else max(v1, v2)
    if not isinstance(x.D, RealD):
        # std::min(a,b) = b<a ? b : a ; std::max(a,b) = a<b ? b : a
        if short == 'min': return x.D.ite(x.D.lt(v2, v1), v2, v1)
        if short == 'max': return x.D.ite(x.D.lt(v1, v2), v2, v1)
    v1, v2 = tm.lift(v1), tm.lift(v2)
    return tm.fmin(v1, v2) if 'min' in short else tm.fmax(v1, v2)


def less(x, u, v):
    if isinstance(u, int) and isinstance(v, int): return u < v
    if isinstance(u, Obj): raise Unsupported('operator< on objects in sort')
    return x.D.lt(u, v)


def out(x, o, i, v):
    if isinstance(o, tuple) and o[0] == 'back':
        x.wvec(o[1])
        o[1].c = o[1].c + [Cell(v)]
    else:
        x.wr(x.pcell(x.padd(o, i)), v)
