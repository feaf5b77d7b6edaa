"""Abstract view of the library's objects: color types with their ranges, symbolic colors built by the real
constructors, observation through the public getters, abstract RGB color spaces."""
from fractions import Fraction
from . import terms as tm
from .terms import T
from .exec import *

NS = 'color_space::'


class CType:
    def __init__(self, key, cls, enum, comps, amax=1, hue=None):
        self.key, self.cls, self.enum = key, NS + cls, enum
        self.names = [c[0] for c in comps]
        self.ranges = [(Fraction(c[1]), Fraction(c[2])) for c in comps]
        self.amax = amax
        self.hue = hue           # hue channel that wraps
        self.n = len(comps)
        self.short = cls


def _u(*names): return [(n, 0, 1) for n in names]


_l = [CType('rgb_true', 'rgb_truecolor', 'RGB_TRUE', [('red', 0, 255), ('green', 0, 255), ('blue', 0, 255)], 255),
      CType('rgb_deep', 'rgb_deepcolor', 'RGB_DEEP', _u('red', 'green', 'blue')),
      CType('grey_true', 'grey_truecolor', 'GREY_TRUE', [('grey', 0, 255)], 255),
      CType('grey_deep', 'grey_deepcolor', 'GREY_DEEP', _u('grey')),
      CType('cmyk', 'cmyk', 'CMYK', _u('cyan', 'magenta', 'yellow', 'black')),
      CType('hsi', 'hsi', 'HSI', [('hue', 0, 359)] + _u('saturation', 'intensity'), hue=0),
      CType('hsv', 'hsv', 'HSV', [('hue', 0, 359)] + _u('saturation', 'value'), hue=0),
      CType('hsl', 'hsl', 'HSL', [('hue', 0, 359)] + _u('saturation', 'lightness'), hue=0),
      CType('hcy', 'hcy', 'HCY', [('hue', 0, 359)] + _u('chroma', 'luma'), hue=0),
      CType('xyz', 'xyz', 'XYZ', [('x', 0, 100), ('y', 0, 100), ('z', 0, 100)]),
      CType('xyy', 'xyy', 'XYY', [('x', 0, 100), ('y', 0, 100), ('Y', 0, 100)]),
      CType('cieluv', 'cieluv', 'CIELUV', [('L', 0, 100), ('u', -100, 100), ('v', -100, 100)]),
      CType('lab', 'lab', 'LAB', [('luminance', 0, 100), ('a', -128, 128), ('b', -128, 128)]),
      CType('lch_ab', 'lch_ab', 'LCH_AB', [('luminance', 0, 100), ('chroma', 0, 100), ('hue', 0, 359)]),
      CType('lch_uv', 'lch_uv', 'LCH_UV', [('luminance', 0, 100), ('chroma', 0, 100), ('hue', 0, 359)])]
TYPES = {c.key: c for c in _l}
BYCLS = {c.cls: c for c in _l}
ORDER = [c.key for c in _l]


def enum_values(prog):
    e = prog['enums'].get('color_type') or next(v for k, v in prog['enums'].items() if k.split('::')[-1] == 'color_type')
    d = e.get('v') or e.get('c')
    if isinstance(d, dict): return dict(d)
    return {a[0]: a[1] for a in d} if d and isinstance(d[0], (list, tuple)) else {a['n']: a['v'] for a in d}


ENUM = {}       # value -> enumerator of color_type


# ---------------------------------------------------------------- lookup
def norm_sig(s):
    return s.replace('&', '').replace('const ', '').replace(' ', '')


def isconst(key): return key.rstrip().endswith(('const', '#1'))


class Index:
    def __init__(self, prog):
        from . import program
        self.sig = {}
        self.name = {}
        for k, f in prog['funs'].items():
            if not f.get('root'): continue
            s = program.sig(prog, f)
            n = norm_sig(s)
            const = isconst(k)
            if n in self.sig:      # overloads that differ in const only
                other = self.sig[n]
                if const: self.sig.setdefault(n + '~const', k)
                elif isconst(other): self.sig[n], self.sig[n + '~const'] = k, other
            else: self.sig[n] = k
            self.name.setdefault(s.split('(')[0], []).append(k)


def index(prog):
    r = prog.get('_index')
    if r is None: r = prog['_index'] = Index(prog)
    return r


def find(prog, s):
    return index(prog).sig.get(norm_sig(s))


_mk = {}


def method_key(x, cls, name, n):
    key = (id(x.p), cls, name, n)
    r = _mk.get(key)
    if r is None:
        for b in x.bases(cls):
            for k, f in x.p['funs'].items():
                if f.get('cls') is not None and not f.get('ctor') and x.types[f['cls']].get('n') == b and f['n'].split('::')[-1] == name and len(f['params']) == n:
                    r = k
                    break
            if r: break
        _mk[key] = r
    if r is None: raise Unsupported('no method %s::%s/%d' % (cls, name, n))
    return r


def callm(x, p, name, *args):
    """call a public method of the object p points at"""
    c = x.pcell(p) if isinstance(p, Ptr) else p
    o = x.rd(c)
    if o.abs is not None: return o.abs[name](x, o, list(args))
    k = method_key(x, o.cls, name, len(args))
    f = x.p['funs'][k]
    r = x.run(f, Ptr(c), list(args))
    if isinstance(r, Cell): r = x.rd(r)
    return r


class CV:
    """view of a color object"""
    __slots__ = ('type', 'c', 'alpha', 'space', 'ptr')

    def __init__(self, type, c, alpha, space, ptr=None):
        self.type, self.c, self.alpha, self.space, self.ptr = type, c, alpha, space, ptr

    def __getattr__(self, n):
        t = TYPES[object.__getattribute__(self, 'type')]
        if n in t.names: return self.c[t.names.index(n)]
        raise AttributeError(n)

    def __repr__(self): return '%s(%s; %s)' % (self.type, ', '.join(tm.show(tm.lift(c)) for c in self.c), tm.show(tm.lift(self.alpha)))


def type_of(x, o):
    ev = x.p.get('_enum')
    if ev is None: ev = x.p['_enum'] = {v: k for k, v in enum_values(x.p).items()}
    return ev


def view(x, p, quiet=True):
    """observe a color through its public interface"""
    sv = x.depth
    c = x.pcell(p) if isinstance(p, Ptr) else (p if isinstance(p, Cell) else Cell(p))
    o = x.rd(c)
    if not isinstance(o, Obj): raise Unsupported('not a color: %r' % (o,))
    x.depth += 1
    fr, x.frame = x.frame, None
    try:
        t = callm(x, c, 'get_color_type')
        if isinstance(t, T): raise Unsupported('symbolic color type')
        en = type_of(x, o).get(t)
        key = next((k for k, v in TYPES.items() if v.enum == en), en)
        vec = callm(x, c, 'get_component_vector')
        comps = [x.rd(q) for q in vec.c]
        a = callm(x, c, 'alpha')
        sp = callm(x, c, 'get_rgb_color_space')
    finally:
        x.depth = sv
        x.frame = fr
    return CV(key, comps, a, sp, Ptr(c))


_ck = {}


def ctor_key(x, cls, n, floats=True):
    key = (id(x.p), cls, n)
    r = _ck.get(key)
    if r is None:
        for k, f in x.p['funs'].items():
            if f.get('ctor') and f.get('cls') is not None and x.types[f['cls']].get('n') == cls and len(f['params']) == n + 2:
                ts = [x.types[p['t']] for p in f['params']]
                if all(x.isflt(t) for t in ts[:-1]) and ts[-1]['k'] == 'p': r = k
        _ck[key] = r
    if r is None: raise Unsupported('no constructor of %s with %d channels' % (cls, n))
    return r


def make(x, tkey, comps, alpha, space):
    """construct a color with the real constructor; returns the object"""
    t = TYPES[tkey]
    k = ctor_key(x, t.cls, t.n)
    return x.construct(x.p['funs'][k]['cls'], k, list(comps) + [alpha, space])


def sym_color(x, tkey, name, space):
    t = TYPES[tkey]
    comps = [tm.var('%s.%d' % (name, i), lo, hi) for i, (lo, hi) in enumerate(t.ranges)]
    a = tm.var(name + '.a', 0, t.amax)
    o = make(x, tkey, comps, a, space)
    return Ptr(Cell(o, name))


# ---------------------------------------------------------------- abstract RGB color spaces
SPACES = {}      # name -> True; gamma evaluators are looked up at evaluation time


def gamma_app(sp, inv, v):
    f = ('igam@' if inv else 'gam@') + sp
    return tm.app(f, v)


def matrix_obj(x, rows):
    """a real matrix<float> object holding the given terms (built through its public interface)"""
    cls = 'matrix'
    n, m = len(rows), len(rows[0])
    v = Vec('vector', None, [Cell(e) for r in rows for e in r])
    key = None
    for k, f in x.p['funs'].items():
        if f.get('ctor') and f.get('cls') is not None and x.types[f['cls']].get('n') == cls and len(f['params']) == 2 and x.isint(x.types[f['params'][0]['t']]) and x.isint(x.types[f['params'][1]['t']]):
            key = k
            break
    if key is None: raise Unsupported('matrix constructor')
    f = x.p['funs'][key]
    o = x.construct(f['cls'], key, [n, m])
    for i in range(n):
        for j in range(m):
            c = callm_cell(x, o, 'operator()', i, j)
            x.wr(c, rows[i][j])
    return o


def make_obj(x, sig, *args):
    """a real object, built by the given constructor; a pointer to it"""
    k = find(x.p, sig)
    if k is None: raise Unsupported('no constructor ' + sig)
    f = x.p['funs'][k]
    sv = x.frame
    x.frame = None
    try:
        return Ptr(Cell(x.construct(f['cls'], k, [Cell(a) if x.types[p['t']]['k'] == 'r' and not isinstance(a, Cell) else a for a, p in zip(args, f['params'])])))
    finally:
        x.frame = sv


def default_obj(x, cls):
    """a default constructed object of a class of the library; a pointer to it"""
    for k, f in x.p['funs'].items():
        if f.get('cls') is not None and x.types[f['cls']].get('n') == NS + cls:
            sv = x.frame
            x.frame = None
            try: return Ptr(Cell(x.zero(f['cls'])))
            finally: x.frame = sv
    raise Unsupported('no class ' + cls)


def vals(v):
    """elements of a std::array / std::vector value"""
    if isinstance(v, Cell): v = v.v
    if not isinstance(v, Vec): raise Unsupported('array expected')
    return [c.v for c in v.c]


WHITE_GET = ['get_tristimulus_x', 'get_tristimulus_y', 'get_tristimulus_z', 'get_chromaticity_x', 'get_chromaticity_y', 'get_chromaticity_z']


def white_view(x, p):
    """the six values of a white point, read through its public interface"""
    return [callm(x, p, n) for n in WHITE_GET]


SPACE_GET = ['get_%s_%s' % (c, k) for c in ('red', 'green', 'blue') for k in 'xyz']


def space_view(x, p):
    """(chromaticities and matrices, white point, gamma) of a color space, read through its public interface"""
    v = [callm(x, p, n) for n in SPACE_GET]
    for n in ('get_transform_matrix', 'get_inverse_transform_matrix'):
        m = mat_view(x, callm(x, p, n))
        v += [e for r in m.rows for e in r] if (m.n, m.m) == (3, 3) else [None] * 9
    return v, callm(x, p, 'get_white_point'), callm(x, p, 'get_gamma_curve')


class MatV:
    """view of a matrix"""
    def __init__(self, rows, ptr=None): self.rows, self.ptr = rows, ptr

    @property
    def n(self): return len(self.rows)

    @property
    def m(self): return len(self.rows[0]) if self.rows else 0


def cint(x, v):
    if isinstance(v, Cell): v = x.rd(v)
    if isinstance(v, tm.T):
        if not tm.is_const(v): raise Unsupported('symbolic dimension')
        v = tm.cval(v)
    return int(v)


def mat_view(x, p):
    """rows of a matrix, read through its public interface"""
    if isinstance(p, Cell): p = Ptr(p)
    if isinstance(p, Obj): p = Ptr(Cell(p))
    sv, nd, w = x.frame, len(x.defs), len(x.writes) if getattr(x, 'writes', None) is not None else 0
    x.frame = None
    try:
        n, m = cint(x, callm(x, p, 'rows')), cint(x, callm(x, p, 'columns'))
        return MatV([[x.rd(c) if isinstance(c, Cell) else c for c in (callm(x, p, 'operator()', i, j) for j in range(m))] for i in range(n)], p)
    finally:
        x.frame = sv
        del x.defs[nd:]


def callm_cell(x, o, name, *args):
    for k, f in x.p['funs'].items():
        if f.get('cls') is not None and x.types[f['cls']].get('n') == o.cls and f['n'].split('::')[-1] == name and len(f['params']) == len(args) and x.types[f['ret']]['k'] == 'r' and not f.get('const'):
            return x.run(f, Ptr(Cell(o)), list(args))
    raise Unsupported(name)


def white_abs(x, name):
    o = Obj(NS + 'white_point')
    X = tm.var(name + '.X', Fraction(1, 20), 5)
    Y = tm.var(name + '.Y', Fraction(1, 20), 5)
    Z = tm.var(name + '.Z', Fraction(1, 20), 5)
    s = tm.add(tm.add(X, Y), Z)
    cx, cy = tm.div(X, s), tm.div(Y, s)
    o.tag = name
    o.abs = {'get_tristimulus_x': lambda x, o, a: X, 'get_tristimulus_y': lambda x, o, a: Y, 'get_tristimulus_z': lambda x, o, a: Z,
             'get_chromaticity_x': lambda x, o, a: cx, 'get_chromaticity_y': lambda x, o, a: cy,
             'get_chromaticity_z': lambda x, o, a: tm.sub(tm.ONE, tm.add(cx, cy)),
             'get_tristimulus': lambda x, o, a: Vec('array', None, [Cell(X), Cell(Y), Cell(Z)]),
             'get_chromaticity_coordinate': lambda x, o, a: Vec('array', None, [Cell(cx), Cell(cy)])}
    return o


def white_terms(name):
    return [tm.var(name + '.' + k, Fraction(1, 20), 5) for k in 'XYZ']


def space_terms(name):
    return ([[tm.var('%s.m%d%d' % (name, i, j)) for j in range(3)] for i in range(3)],
            [[tm.var('%s.n%d%d' % (name, i, j)) for j in range(3)] for i in range(3)])


def base_tag(tag): return tag.split('~')[0]


def derived(tag, wtag):
    """the space with the primaries and gamma of `tag` and the white point `wtag`"""
    return '%s~%s' % (base_tag(tag), wtag)


def white_tag(tag): return tag.split('~')[1] if '~' in tag else tag + '.w'


def space_abs(x, name):
    """abstract rgb_color_space_definition: arbitrary matrices, white point and gamma"""
    g = Obj(NS + 'gamma')
    g.tag = name
    g.abs = {'gamma_correction': lambda x, o, a: gamma_app(name, False, x.val(a[0])),
             'inverse_gamma_correction': lambda x, o, a: gamma_app(name, True, x.val(a[0]))}
    return Ptr(Cell(space_fill(Obj(NS + 'rgb_color_space_definition'), x, name, Ptr(Cell(white_abs(x, name + '.w'))), Ptr(Cell(g)), False), name))


def space_copy(x, src):
    """contract of the copy constructor: a new space, indistinguishable from its source"""
    o = Obj(NS + 'rgb_color_space_definition')
    return space_fill(o, x, src.tag, src.abs['get_white_point'](x, src, []), src.abs['get_gamma_curve'](x, src, []), True)


def space_fill(o, x, name, w, gp, own):
    o.tag = name
    M, N = space_terms(name)

    def mat(which):
        def h(x, o, a):
            sv = x.frame
            x.frame = None
            try:
                return Cell(matrix_obj(x, M if which == 'M' else N))
            finally:
                x.frame = sv
        return h

    def set_white(x, o, a):
        if not own:
            x.frame_viol.append('set_white_point called on the input color space')
            return None
        p = x.val(a[0])
        v = x.rd(x.pcell(p))
        if v.abs is None or v.tag is None: raise Unsupported('set_white_point of a concrete white point')
        space_fill(o, x, derived(name, v.tag), p, gp, True)

    def set_gamma(x, o, a):
        if own: raise Unsupported('set_gamma_curve')
        x.frame_viol.append('set_gamma_curve called on the input color space')
    o.abs = {'get_transform_matrix': mat('M'), 'get_inverse_transform_matrix': mat('N'),
             'get_white_point': lambda x, o, a: w, 'get_gamma_curve': lambda x, o, a: gp,
             'set_white_point': set_white, 'set_gamma_curve': set_gamma}
    bn = base_tag(name)
    for i, n in enumerate(('red', 'green', 'blue')):
        cx, cy = tm.var('%s.%sx' % (bn, n), Fraction(1, 100), 1), tm.var('%s.%sy' % (bn, n), Fraction(1, 100), 1)
        o.abs['get_%s_x' % n] = (lambda cx: lambda x, o, a: cx)(cx)
        o.abs['get_%s_y' % n] = (lambda cy: lambda x, o, a: cy)(cy)
        o.abs['get_%s_z' % n] = (lambda cx, cy: lambda x, o, a: tm.sub(tm.ONE, tm.add(cx, cy)))(cx, cy)
        o.abs['get_%s_chromaticity_coordinate' % n] = (lambda cx, cy: lambda x, o, a: Vec('array', None, [Cell(cx), Cell(cy), Cell(tm.sub(tm.ONE, tm.add(cx, cy)))]))(cx, cy)
    return o
