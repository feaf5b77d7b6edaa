"""Runs the extractor over /repo's current sources and loads the result."""
import os, sys, json, glob, hashlib, subprocess, fcntl, pickle, gzip
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CM_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build')
HARNESS = os.path.join(HERE, 'harness.h')
CXX = 'clang++-18'
SHIM = os.path.join(HERE, 'shim')
FLAGS = ['-std=c++14', '-fms-extensions', '-Wno-nonportable-include-path', '-isystem', SHIM,
         '-include', 'msvc_compat.h', '-I' + REPO + '/ColorMagic', '-w']


class ToolError(Exception):
    pass


def repo_files():
    out = []
    for d in ('', 'manipulation/', 'spaces/', 'utils/'):
        for e in ('*.cpp', '*.h', '*.hpp', '*.inl'):
            out += glob.glob(REPO + '/ColorMagic/' + d + e)
    return sorted(out)


def sources():
    return [f for f in repo_files() if f.endswith('.cpp')]


def digest(*extra):
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    for e in extra:
        h.update(e if isinstance(e, bytes) else open(e, 'rb').read())
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def plugin():
    src = os.path.join(HERE, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(CACHE, 'cmx-%s.so' % h)
    with Lock('plugin'):
        if not os.path.exists(so):
            tmp = so + '.tmp%d' % os.getpid()
            r = subprocess.run([CXX, '-std=c++17', '-O0', '-fPIC', '-shared', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp],
                               capture_output=True, text=True)
            if r.returncode: raise ToolError('extractor does not build: ' + r.stderr[-2000:])
            os.rename(tmp, so)
    return so


def _run(so, src, out):
    r = subprocess.run([CXX] + FLAGS + ['-fsyntax-only', '-fplugin=' + so, '-Xclang', '-plugin', '-Xclang', 'cmx',
                                        '-Xclang', '-plugin-arg-cmx', '-Xclang', 'out=' + out,
                                        '-Xclang', '-plugin-arg-cmx', '-Xclang', 'root=' + REPO + '/', '-Xclang', '-plugin-arg-cmx', '-Xclang', 'also=' + HARNESS, src], capture_output=True, text=True)
    return r.returncode == 0 and os.path.exists(out), r.stderr


INST = '''
#include "utils/matrix.h"
template class ::matrix<float>;
'''


def extract():
    so = plugin()
    key = digest(os.path.join(HERE, 'extractor', 'extract.cpp'), __file__, HARNESS)
    out = os.path.join(CACHE, 'ast-%s.pkl' % key)
    with Lock('ast-' + key):
        if os.path.exists(out):
            try:
                return pickle.load(open(out, 'rb'))
            except Exception:
                os.unlink(out)
        d = os.path.join(CACHE, 'tmp-%s-%d' % (key, os.getpid()))
        os.makedirs(d, exist_ok=True)
        srcs = sources()
        inst = ''
        mh = REPO + '/ColorMagic/utils/matrix.h'
        if os.path.exists(mh): inst = '#include "%s"\ntemplate class ::matrix<float>;\n' % mh
        u = os.path.join(d, 'unity.cpp')
        hs = ''.join('#include "%s"\n' % f for f in repo_files() if f.endswith('.h') and os.path.basename(f) not in ('stdafx.h', 'targetver.h'))
        for more in (hs + '#include "%s"\n' % HARNESS, hs, ''):       # headers that no source includes, client code
            open(u, 'w').write(''.join('#include "%s"\n' % s for s in srcs) + more + inst)
            ok, err = _run(so, u, os.path.join(d, 'u.json'))
            if ok: break
        tus = []
        if ok:
            tus = [json.load(open(os.path.join(d, 'u.json')))]
        else:
            i = os.path.join(d, 'inst.cpp')
            open(i, 'w').write(hs + inst)
            if not _run(so, i, os.path.join(d, 'i.json'))[0]: open(i, 'w').write(inst)
            jobs = [(s, os.path.join(d, '%d.json' % n)) for n, s in enumerate(srcs + [i])]
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda j: _run(so, *j), jobs))
            bad = [(j[0], r[1]) for j, r in zip(jobs, rs) if not r[0]]
            if bad: raise ToolError('source does not compile: %s\n%s' % (bad[0][0], bad[0][1][-3000:]))
            tus = [json.load(open(j[1])) for j in jobs]
        prog = merge(tus)
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
        tmp = out + '.tmp%d' % os.getpid()
        pickle.dump(prog, open(tmp, 'wb'), protocol=4)
        os.rename(tmp, out)
        # keep only a few cached extractions
        old = sorted(glob.glob(os.path.join(CACHE, 'ast-*.pkl')), key=os.path.getmtime)[:-6]
        for o in old:
            try: os.unlink(o)
            except OSError: pass
        return prog


def merge(tus):
    types, tindex = [], {}
    funs, recs, gvars, enums = {}, {}, {}, {}
    for n, tu in enumerate(tus):
        mp = {}

        def tid(i):
            if i is None or i < 0: return -1
            if i in mp: return mp[i]
            t = tu['types'][i]
            k = (t['s'], t.get('u', ''), t['k'])
            if t.get('lambda') or 'lambda' in t['s']: k = k + (n, i)
            if k in tindex:
                mp[i] = tindex[k]
                return mp[i]
            g = len(types)
            tindex[k] = g
            mp[i] = g
            types.append(None)
            t = dict(t)
            if 'e' in t: t['e'] = tid(t['e'])
            if 'r' in t and t['k'] == 'f': t['r'] = tid(t['r'])
            if 'p' in t: t['p'] = [tid(x) for x in t['p']]
            if 'a' in t: t['a'] = [x if not isinstance(x, int) else tid(x) for x in t['a']]
            types[g] = t
            return g

        single = len(tus) == 1
        for i in range(len(tu['types'])): tid(i)

        def walk(o):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k in ('t', 'ct', 'clt', 'at', 'ret', 'cls', 'b') and isinstance(v, int) and not isinstance(v, bool): o[k] = tid(v)
                    elif k == 'id' and n: o[k] = v + n * 10000000
                    elif isinstance(v, (dict, list)): walk(v)
            elif isinstance(o, list):
                for v in o:
                    if isinstance(v, (dict, list)): walk(v)
        for f in tu['funs']:
            if f['u'] in funs and '#L' not in f['u']: continue
            walk(f)
            if '#L' in f['u'] and n: f['u'] = f['u']
            funs[f['u']] = f
        for r in tu['recs']:
            if r['u'] in recs and recs[r['u']].get('f') is not None: continue
            walk(r)
            if 'b' in r: r['b'] = [tid(x) for x in r['b']]
            recs[r['u']] = r
        for v in tu['vars']:
            if v['u'] in gvars: continue
            walk(v)
            gvars[v['u']] = v
        for e in tu['enums']: enums[e['n']] = e
    return {'types': types, 'funs': funs, 'recs': recs, 'vars': gvars, 'enums': enums}


_written = {}


def written(prog):
    """global variables that some function assigns to"""
    r = _written.get(id(prog))
    if r is not None: return r
    r = set()

    def base(e):
        while isinstance(e, dict) and e.get('k') in ('MemberExpr', 'ArraySubscriptExpr', 'Cast', 'ParenExpr', 'MaterializeTemporaryExpr') and e.get('c'): e = e['c'][0]
        if isinstance(e, dict) and e.get('k') == 'DeclRefExpr' and e.get('d', {}).get('dk') == 'g': r.add(e['d']['u'])

    def walk(e):
        if isinstance(e, dict):
            k = e.get('k')
            c = e.get('c') or []
            if k in ('BinaryOperator', 'CompoundAssignOperator') and c and str(e.get('op', '')).endswith('=') and e.get('op') not in ('==', '!=', '<=', '>='): base(c[0])
            elif k == 'UnaryOperator' and c and str(e.get('op', ''))[:2] in ('++', '--'): base(c[0])
            elif k == 'CXXOperatorCallExpr' and len(c) > 1 and str(e.get('op', '')).endswith('=') and e.get('op') not in ('==', '!=', '<=', '>='): base(c[1])
            for v in e.values():
                if isinstance(v, (dict, list)): walk(v)
        elif isinstance(e, list):
            for v in e: walk(v)
    for f in prog['funs'].values(): walk(f.get('body'))
    _written[id(prog)] = r
    return r


def short(s):
    for a in ('class ', 'struct ', 'enum ', 'const ', ' const'): s = s.replace(a, '')
    s = s.replace('std::allocator', 'A')
    import re
    s = re.sub(r', A<[^<>]*>', '', s)
    s = re.sub(r'\b(color_space|color_manipulation|color)::', '', s)
    return s.replace(' *', '*').replace(' &', '&').strip()


def sig(prog, f):
    n = f['n']
    for p in ('color_space::', 'color_manipulation::', 'color::'):
        if n.startswith(p): n = n[len(p):]
    return n + '(' + ','.join(short(prog['types'][p['t']]['s']) for p in f['params']) + ')'
