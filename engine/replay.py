"""Concrete side: runs the real code (compiled from /repo's current sources with sanitizers) on concrete arguments of a
contract instance and compares the observed outcome with the contract's specification evaluated on the same numbers."""
from fractions import Fraction
import os, subprocess, math, random, struct, glob, select, time
from concurrent.futures import ThreadPoolExecutor
from . import terms as tm, model, program
from .model import TYPES, ORDER
from .program import CXX, FLAGS, CACHE, SHIM, Lock, ToolError, digest, sources, REPO

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1', '-O0']

PRE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <set>
#include <stdexcept>
#include <iostream>
#include <cmath>
#include <type_traits>
%(includes)s
using namespace color_space;
typedef color_space::color_base CB;
static FILE* OUT;
static std::vector<rgb_color_space_definition*> SP;
static std::vector<const CB*> INPUTS;
struct Tok { std::vector<std::string> t; size_t i = 0; const std::string& s() { return t.at(i++); } long n() { return strtol(s().c_str(), 0, 10); } float f() { return strtof(s().c_str(), 0); } };
static rgb_color_space_definition* space(long k) { return k < 0 ? nullptr : SP.at(k); }
template <class T, size_t N, size_t... I> T* mk(const std::array<float, N>& c, float a, rgb_color_space_definition* s, std::index_sequence<I...>) { return new T(c[I]..., a, s); }
template <class T, size_t N> T* rdc(Tok& t) { std::array<float, N> c; for (auto& v : c) v = t.f(); float a = t.f(); auto s = space(t.n()); return mk<T, N>(c, a, s, std::make_index_sequence<N>()); }
static CB* rdcolor(Tok& t) {
  auto h = t.s(); if (h == "N") return nullptr; if (h == "A") return const_cast<CB*>(INPUTS.at(t.n())); long k = t.n(); CB* r = nullptr;
  switch (k) {
%(cases)s
  default: abort(); }
  if (h == "D") { CB* z = nullptr; Tok zt; zt.t.assign(12, "0"); zt.t.push_back("-1"); switch (k) {
%(zcases)s
  default: abort(); }
    r = new CB(*r + *z); }
  INPUTS.push_back(r); return r;
}
template <class T, class = void> struct Rd;
template <> struct Rd<float> { static float get(Tok& t) { return t.f(); } };
template <> struct Rd<double> { static double get(Tok& t) { return t.f(); } };
template <class T> struct Rd<T, std::enable_if_t<std::is_integral<T>::value>> { static T get(Tok& t) { return (T)t.n(); } };
template <class T> struct Rd<T, std::enable_if_t<std::is_enum<T>::value>> { static T get(Tok& t) { return (T)t.n(); } };
template <class T> struct Rd<T*, std::enable_if_t<std::is_base_of<CB, T>::value>> { static T* get(Tok& t) { CB* b = rdcolor(t); T* p = dynamic_cast<T*>(b); if (b && !p) abort(); return p; } };
template <> struct Rd<white_point*> { static white_point* get(Tok& t) { auto h = t.s(); if (h == "of") return space(t.n())->get_white_point(); if (h == "v") { float a = t.f(), b = t.f(), c = t.f(), d = t.f(), e = t.f(); return new white_point(a, b, c, d, e); } float x = t.f(), y = t.f(), z = t.f(); return new white_point(x, y, z); } };
template <class T> struct Rd<std::vector<T>> { static std::vector<T> get(Tok& t) { long n = t.n(); std::vector<T> v; for (long i = 0; i < n; i++) v.push_back(Rd<T>::get(t)); return v; } };
template <class T> struct Rd<std::vector<T>*> { static std::vector<T>* get(Tok& t) { return new std::vector<T>(Rd<std::vector<T>>::get(t)); } };
template <class T, size_t N> struct Rd<std::array<T, N>> { static std::array<T, N> get(Tok& t) { std::array<T, N> v; for (auto& x : v) x = Rd<T>::get(t); return v; } };
template <> struct Rd<std::string> { static std::string get(Tok& t) { std::string h = t.s(), r; for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; } };
template <> struct Rd<std::function<float(float, float)>> { static std::function<float(float, float)> get(Tok& t) { t.n(); return [](float s, float d) { return 0.9f * s * s - 0.7f * s * d + 0.8f * d - 0.1f; }; } };
template <> struct Rd<matrix<float>> { static matrix<float> get(Tok& t) { long r = t.n(), c = t.n(); matrix<float> m(r, c); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) m(i, j) = t.f(); return m; } };
template <> struct Rd<matrix<float>*> { static matrix<float>* get(Tok& t) { return new matrix<float>(Rd<matrix<float>>::get(t)); } };
static std::function<float(float)> gfun(long k) { if (k < 0) return nullptr; return [k](float v) { return (k + 1) * 0.37f * v + 0.011f * (k * k + 1); }; }
template <> struct Rd<std::function<float(float)>> { static std::function<float(float)> get(Tok& t) { return gfun(t.n()); } };
template <> struct Rd<gamma_part*> { static gamma_part* get(Tok& t) { float b = t.f(); long k = t.n(); return new gamma_part(gfun(k), b); } };
template <> struct Rd<color_space::gamma*> { static color_space::gamma* get(Tok& t) { if (t.s() == "of") return space(t.n())->get_gamma_curve(); auto a = Rd<std::vector<gamma_part*>>::get(t); auto b = Rd<std::vector<gamma_part*>>::get(t); return new color_space::gamma(a, b); } };
template <> struct Rd<rgb_color_space_definition*> { static rgb_color_space_definition* get(Tok& t) { auto h = t.s(); if (h != "d") return space(strtol(h.c_str(), 0, 10)); float c[6]; for (auto& x : c) x = t.f(); auto w = Rd<white_point*>::get(t); auto g = new color_space::gamma(); return new rgb_color_space_definition(c[0], c[1], c[2], c[3], c[4], c[5], w, g); } };
template <> struct Rd<white_point_presets*> { static white_point_presets* get(Tok&) { return new white_point_presets(); } };
template <> struct Rd<gamma_presets*> { static gamma_presets* get(Tok&) { return new gamma_presets(); } };
template <> struct Rd<predefined_color*> { static predefined_color* get(Tok& t) { long h = t.n(); auto s = space(t.n()); return new predefined_color((HexcodeColors)h, s); } };
template <> struct Rd<rgb_color_space_definition_presets*> { static rgb_color_space_definition_presets* get(Tok&) { return new rgb_color_space_definition_presets(); } };
%(extra)s
static void put(float v) { if (std::isnan(v)) fprintf(OUT, " nan"); else fprintf(OUT, " %%a", (double)v); }
static void show(float v) { fprintf(OUT, " F"); put(v); }
static void show(double v) { fprintf(OUT, " F"); put((float)v); }
static void show(bool v) { fprintf(OUT, " B %%d", v ? 1 : 0); }
static void show(int v) { fprintf(OUT, " I %%d", v); }
static void show(unsigned v) { fprintf(OUT, " I %%u", v); }
static void show(unsigned long v) { fprintf(OUT, " I %%lu", v); }
static void show(color_type v) { fprintf(OUT, " I %%d", (int)v); }
static void showc(const CB* cc) {
  CB* c = const_cast<CB*>(cc);
  fprintf(OUT, " C %%d", (int)c->get_color_type());
  auto v = c->get_component_vector(); fprintf(OUT, " %%d", (int)v.size()); for (auto x : v) put(x);
  put(c->alpha()); long k = -2; auto s = c->get_rgb_color_space(); if (!s) k = -1; for (size_t i = 0; i < SP.size(); i++) if (SP[i] == s) k = i;
  fprintf(OUT, " %%ld", k);
  if (k == -2) { auto w = s->get_white_point(); put(w->get_tristimulus_x()); put(w->get_tristimulus_y()); put(w->get_tristimulus_z()); put(s->get_red_x()); put(s->get_red_y()); put(s->get_green_x()); put(s->get_green_y()); put(s->get_blue_x()); put(s->get_blue_y()); }
}
static void show(const CB* c) { if (!c) { fprintf(OUT, " N"); return; } for (size_t i = 0; i < INPUTS.size(); i++) if (INPUTS[i] == c) fprintf(OUT, " S %%d", (int)i); showc(c); }
static void show(const CB& c) { for (size_t i = 0; i < INPUTS.size(); i++) if (INPUTS[i] == &c) fprintf(OUT, " S %%d", (int)i); showc(&c); }
static void show(white_point* w) { if (!w) { fprintf(OUT, " N"); return; } fprintf(OUT, " W"); put(w->get_tristimulus_x()); put(w->get_tristimulus_y()); put(w->get_tristimulus_z()); put(w->get_chromaticity_x()); put(w->get_chromaticity_y()); put(w->get_chromaticity_z()); }
static void show(matrix<float> m) { fprintf(OUT, " M %%d %%d", m.rows(), m.columns()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.columns(); j++) put(m(i, j)); }
static void show(matrix<float>* m) { show(*m); }
static void showq(rgb_color_space_definition* s);
static void show(rgb_color_space_definition* s) { if (!s) { fprintf(OUT, " N"); return; } long k = -2; for (size_t i = 0; i < SP.size(); i++) if (SP[i] == s) k = i; fprintf(OUT, " P %%ld", k); if (k == -2) showq(s); }
static void show(white_point& w) { show(&w); }
static void show(color_space::gamma* g) { if (!g) { fprintf(OUT, " N"); return; } fprintf(OUT, " Y"); static const float P[] = {%(probes)s}; for (float p : P) put(g->gamma_correction(p)); for (float p : P) put(g->inverse_gamma_correction(p)); }
static void show(color_space::gamma& g) { show(&g); }
static void show(gamma_part* g) { fprintf(OUT, " L 2"); show(g->get_upper_border()); if (!g->get_gamma_function()) fprintf(OUT, " N"); else show(g->get_gamma_function()(0.625f)); }
static void show(gamma_part& g) { show(&g); }
static void showq(rgb_color_space_definition* s) { fprintf(OUT, " Q");
  put(s->get_red_x()); put(s->get_red_y()); put(s->get_red_z()); put(s->get_green_x()); put(s->get_green_y()); put(s->get_green_z()); put(s->get_blue_x()); put(s->get_blue_y()); put(s->get_blue_z());
  auto m = s->get_transform_matrix(); auto n = s->get_inverse_transform_matrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) put(m(i, j)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) put(n(i, j));
  show(s->get_white_point()); show(s->get_gamma_curve()); }
static void show(std::string s) { fprintf(OUT, " T x"); for (unsigned char ch : s) fprintf(OUT, "%%02x", ch); }
template <class T> void show(const std::vector<T>& v) { fprintf(OUT, " L %%d", (int)v.size()); for (auto& x : v) show(x); }
template <class T> void show(std::vector<T>* v) { if (!v) fprintf(OUT, " N"); else show(*v); }
template <class T, size_t N> void show(const std::array<T, N>& v) { fprintf(OUT, " L %%d", (int)N); for (auto& x : v) show(x); }
template <class F> auto call(F f, int) -> std::enable_if_t<!std::is_void<decltype(f())>::value> { decltype(auto) r = f(); fprintf(OUT, "R"); show(r); }
template <class F> auto call(F f, int) -> std::enable_if_t<std::is_void<decltype(f())>::value> { f(); fprintf(OUT, "R V"); }
static std::set<void*> LEAK;
#define GUARD(stmt) try { stmt; } \
  catch (std::out_of_range* e) { fprintf(OUT, "X std::out_of_range"); } catch (std::invalid_argument* e) { fprintf(OUT, "X std::invalid_argument"); } \
  catch (std::exception* e) { fprintf(OUT, "X std::exception"); } \
  catch (std::out_of_range& e) { fprintf(OUT, "X std::out_of_range"); } catch (std::invalid_argument& e) { fprintf(OUT, "X std::invalid_argument"); } \
  catch (std::length_error& e) { fprintf(OUT, "X std::length_error"); } catch (std::bad_alloc& e) { fprintf(OUT, "X std::bad_alloc"); } \
  catch (std::exception& e) { fprintf(OUT, "X std::exception"); } catch (...) { fprintf(OUT, "X unknown"); }
'''

MAIN = r'''
static CB* single(long k, float v, float a) { switch (k) {
%(singles)s
  default: abort(); } }
static void setter(long k, int i, CB* c, float v) { switch (k * 16 + i) {
%(setters)s
  default: abort(); } }
int main() {
  OUT = stdout;
  { color_space::rgb_color_space_definition_presets p;
%(spaces)s
  }
  std::string line;
  while (std::getline(std::cin, line)) {
    Tok t; { size_t i = 0; while (i < line.size()) { size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size(); if (j > i) t.t.push_back(line.substr(i, j - i)); i = j + 1; } }
    INPUTS.clear();
    std::string cmd = t.s();
    if (cmd == "SP" || cmd == "SW") { auto s = space(t.n()); if (cmd == "SW") { float x = t.f(), y = t.f(), z = t.f(); s = new rgb_color_space_definition(*s); s->set_white_point(new white_point(x, y, z)); } auto m = s->get_transform_matrix(); auto n = s->get_inverse_transform_matrix();
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) put(m(i, j));
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) put(n(i, j));
      auto w = s->get_white_point(); put(w->get_tristimulus_x()); put(w->get_tristimulus_y()); put(w->get_tristimulus_z());
      put(s->get_red_x()); put(s->get_red_y()); put(s->get_green_x()); put(s->get_green_y()); put(s->get_blue_x()); put(s->get_blue_y()); }
    else if (cmd == "G") { auto s = space(t.n()); bool inv = t.n(); float v = t.f(); GUARD(put(inv ? s->get_gamma_curve()->inverse_gamma_correction(v) : s->get_gamma_curve()->gamma_correction(v))) }
    else if (cmd == "F") { long k = t.n(); switch (k) {
%(calls)s
      default: fprintf(OUT, "?"); }
      fprintf(OUT, " |"); for (auto c : INPUTS) showc(c); }
    else if (cmd == "B") { long op = t.n(); CB* c = rdcolor(t); long k = strtol(t.t.at(3).c_str(), 0, 10); CB* d = nullptr; CB* d0 = nullptr; if (op >= 100) { op -= 100; d0 = rdcolor(t); } int i = 0; float v = 0, w = 0;
      if (op == 1) { v = t.f(); w = t.f(); } else if (op == 2 || op == 4) { i = t.n(); v = t.f(); } else if (op == 3) v = t.f(); else if (op == 5) d = rdcolor(t);
      GUARD({ if (d0) c = new CB(*c + *d0); if (op == 1) c = single(k, v, w); else if (op == 2) setter(k, i, c, v); else if (op == 3) c->alpha(v); else if (op == 4) c->set_component(v, i); else if (op == 6) c->alpha_multiply(); else if (op == 7) c->alpha_divide(); else if (op == 8) c->do_gamma_correction(); else if (op == 9) c->do_inverse_gamma_correction();
        if (op == 5) { auto q = *c + *d; fprintf(OUT, "R"); showc(&q); } else { fprintf(OUT, "R"); showc(c); } }) }
    else fprintf(OUT, "?");
    fputc('\n', OUT); fflush(OUT);
  }
}
'''

SPACE_PRESETS = ['sRGB', 'adobeRGB', 'appleRGB', 'rommRGB', 'cieRGB', 'bruceRGB']


PROBES = [0, 0.0005, 0.0015, 0.0018, 0.0019, 0.002, 0.0022, 0.0025, 0.003, 0.0032, 0.0035, 0.005, 0.01, 0.015, 0.0175, 0.018, 0.0181, 0.0185, 0.02, 0.025, 0.03, 0.031, 0.0315, 0.035, 0.04, 0.041, 0.045,
          0.05, 0.06, 0.07, 0.08, 0.082, 0.085, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.9, 1, 1.25, 2, -0.25]
SELF = ('white_point', 'gamma', 'matrix', 'rgb_color_space_definition', 'gamma_part')


def cxxtype(prog, t):
    """C++ spelling of the value to read for a parameter type; None if the driver cannot read it"""
    s = t['s']
    k = t['k']
    if k == 'r': return cxxtype(prog, prog['types'][t['e']])
    s = s.replace('const ', '').replace(' const', '')
    base = t
    d = 0
    while base['k'] == 'p':
        base = prog['types'][base['e']]
        d += 1
    n = base.get('n', '')
    if base['k'] == 'b':
        return s if d == 0 and n != 'void' else None
    if base['k'] == 'e': return s if d == 0 else None
    if base['k'] == 'c':
        short = n[len(model.NS):] if n.startswith(model.NS) else n
        if n in model.BYCLS or short == 'color_base': return n + '*'
        if short in ('rgb_color_space_definition', 'white_point', 'gamma', 'gamma_part', 'white_point_presets', 'gamma_presets', 'rgb_color_space_definition_presets'): return (n + '*') if d <= 1 else None
        if n == 'predefined_color': return (n + '*') if d <= 1 else None
        if n == 'matrix': return s if d <= 1 else None
        if n == 'std::basic_string' : return 'std::string'
        if n == 'std::function' and d == 0 and 'float (float)' in s: return 'std::function<float(float)>'
        if n == 'std::function' and d == 0 and 'float (float, float)' in s: return 'std::function<float(float, float)>'
        if n in ('std::vector', 'std::array'):
            el = base['a'][0]
            el = prog['types'][el] if isinstance(el, int) else None
            if el is None or cxxtype(prog, el) is None: return None
            e = cxxtype(prog, el)
            if n == 'std::vector': return 'std::vector<%s>%s' % (e, '*' * d)
            return 'std::array<%s,%d>' % (e, base['a'][1]['i'])
    return None


class Source:
    """generates the driver"""
    def __init__(self, prog, by):
        self.prog, self.by = prog, by
        self.ids = {}
        calls = []
        for n, (k, ct) in enumerate(sorted(by.items())):
            c = self.call(k, ct)
            if c is None: continue
            self.ids[k] = n
            calls.append('      case %d: %s break;' % (n, c))
        inc = [f for f in program.repo_files() if f.endswith('.h') and '/targetver' not in f and 'stdafx' not in f] + [program.HARNESS]
        cs = ['  case %d: r = rdc<%s, %d>(t); break;' % (i, TYPES[k].cls, TYPES[k].n) for i, k in enumerate(ORDER)]
        zs = ['  case %d: zt.i = %d; z = rdc<%s, %d>(zt); break;' % (i, 11 - TYPES[k].n, TYPES[k].cls, TYPES[k].n) for i, k in enumerate(ORDER)]
        extra = open(os.path.join(program.HERE, 'driver_extra.inc')).read() if os.path.exists(os.path.join(program.HERE, 'driver_extra.inc')) else ''
        names = {f['n']: 1 for f in prog['funs'].values() if len(f['params']) == 1}
        setters = ['  case %d: static_cast<%s*>(c)->%s(v); break;' % (i * 16 + j, TYPES[k].cls, m) for i, k in enumerate(ORDER) for j, m in enumerate(TYPES[k].names) if TYPES[k].cls + '::' + m in names]
        singles = ['  case %d: return new %s(v, a, nullptr);' % (ORDER.index(k), TYPES[k].cls) for k in ('rgb_true', 'rgb_deep')]
        pres = ''.join('    SP.push_back(p.%s());\n' % p for p in SPACE_PRESETS)
        self.text = PRE % dict(probes=', '.join('%.9gf' % p if '.' in '%.9g' % p else '%d.f' % p for p in PROBES), includes='\n'.join('#include "%s"' % i for i in inc), cases='\n'.join(cs), zcases='\n'.join(zs), extra=extra) + MAIN % dict(setters='\n'.join(setters), singles='\n'.join(singles), spaces=pres, calls='\n'.join(calls))

    def call(self, k, ct):
        f = self.prog['funs'][k]
        if getattr(ct, 'nodrive', False): return None
        T = self.prog['types']
        args, rd = [], []
        if ct.has_this(self.prog):
            ty = cxxtype(self.prog, T[f['cls']])
            if ty is None: return None
            if not ty.endswith('*'): ty += '*'
            rd.append('auto self = Rd<%s>::get(t);' % ty)
        for i, p in enumerate(f['params']):
            ty = cxxtype(self.prog, T[p['t']])
            if ty is None: return None
            pt = T[p['t']]
            if ty == 'matrix<float>' and pt['k'] == 'r' and rd and rd[0].startswith('auto self = Rd<matrix<float>*>'):
                rd.append('matrix<float> v%d; bool s%d = t.t.at(t.i) == "S"; if (s%d) t.s(); else v%d = Rd<matrix<float>>::get(t); auto& a%d = s%d ? *self : v%d;' % ((i,) * 7))
            else: rd.append('auto a%d = Rd<%s>::get(t);' % (i, ty))
            want_ref = pt['k'] == 'r'
            src = T[pt['e']] if want_ref else pt
            isptr = ty.endswith('*')
            if src['k'] == 'p' or not isptr: args.append('a%d' % i)
            else: args.append('*a%d' % i)
        a = ', '.join(args)
        nm = f['n'].split('::')[-1]
        if f.get('ctor'):
            e = 'return new %s(%s);' % (self.cls(f), a)
        elif f.get('static') or f.get('cls') is None:
            e = 'return %s(%s);' % (nm if nm.startswith('operator') else f['n'], a)
        else:
            e = 'return self->%s(%s);' % (nm, a)
        rt = self.prog['types'][f['ret']]
        rr = rt
        ref = ' -> decltype(auto)'
        tail = ''
        if ct.has_this(self.prog):
            cn = self.prog['types'][f['cls']].get('n', '').split('::')[-1]
            if cn in SELF: tail = ' fprintf(OUT, " #"); %s' % ('showq(self);' if cn == 'rgb_color_space_definition' else 'show(*self);')
        return '{ %s GUARD(call([&]()%s { %s }, 0))%s }' % (' '.join(rd), ref, e, tail)

    def cls(self, f):
        t = self.prog['types'][f['cls']]
        return t['s']


def build(prog, by):
    """compile library + driver; returns (path, ids)"""
    src = Source(prog, by)
    key = digest(src.text.encode(), ' '.join(FLAGS + SAN).encode(), os.path.join(SHIM, 'msvc_compat.h'))
    exe = os.path.join(CACHE, 'drv-' + key)
    with Lock('drv-' + key):
        if not os.path.exists(exe):
            d = exe + '.d%d' % os.getpid()
            os.makedirs(d, exist_ok=True)
            main = os.path.join(d, 'driver.cpp')
            open(main, 'w').write(src.text)
            jobs = [(s, os.path.join(d, '%d.o' % i)) for i, s in enumerate(sources() + [main])]
            def one(j):
                return subprocess.run([CXX] + FLAGS + SAN + ['-fno-access-control', '-c', j[0], '-o', j[1]], capture_output=True, text=True)
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
            for j, r in zip(jobs, rs):
                if r.returncode: raise ToolError('driver does not build: %s\n%s' % (j[0], r.stderr[-4000:]))
            r = subprocess.run([CXX] + SAN + [j[1] for j in jobs] + ['-o', os.path.join(d, 'drv')], capture_output=True, text=True)
            if r.returncode: raise ToolError('driver does not link: ' + r.stderr[-3000:])
            os.rename(os.path.join(d, 'drv'), exe)
            for f in os.listdir(d): os.unlink(os.path.join(d, f))
            os.rmdir(d)
            old = sorted(glob.glob(os.path.join(CACHE, 'drv-*')), key=os.path.getmtime)
            old = [o for o in old if '.' not in os.path.basename(o)][:-4]
            for o in old:
                try: os.unlink(o)
                except OSError: pass
    return exe, src.ids


class Crash(Exception):
    pass


class Driver:
    def __init__(self, prog, by):
        self.prog, self.by = prog, by
        self.exe, self.ids = build(prog, by)
        self.p = None
        self.spc = {}
        self.gcache = {}

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
        self.err = open(os.path.join(CACHE, 'drv-err-%d' % os.getpid()), 'w+b')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None
            self.err.close()
            try: os.unlink(self.err.name)
            except OSError: pass

    def ask(self, line, timeout=10):
        if self.p is None: self.start()
        try:
            self.p.stdin.write((line + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        buf = b''
        fd = self.p.stdout.fileno()
        while not buf.endswith(b'\n'):
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.close()
                raise Crash('no answer within %d s' % timeout)
            b = os.read(fd, 65536)
            if not b:
                self.p.wait()
                self.err.seek(0)
                e = self.err.read().decode(errors='replace')
                code = self.p.returncode
                self.close()
                raise Crash('exit %s\n%s' % (code, e[:3000]))
            buf += b
        return buf.decode().split()

    def space(self, k):
        if k not in self.spc: self.spc[k] = [num(x) for x in self.ask('SP %d' % k)]
        return self.spc[k]

    def gam(self, k, inv, v):
        if v != v: return v
        key = (k, inv, v)
        if key not in self.gcache:
            a = self.ask('G %d %d %s' % (k, int(inv), float(v).hex()))
            self.gcache[key] = num(a[0]) if a and a[0] != 'X' else math.nan
        return self.gcache[key]

    def bind(self, env, spaces, whites=()):
        """space parameters -> env and gamma evaluators"""
        for name, k in spaces.items():
            d = self.space(k)
            for i in range(3):
                for j in range(3):
                    env['%s.m%d%d' % (name, i, j)] = d[3 * i + j]
                    env['%s.n%d%d' % (name, i, j)] = d[9 + 3 * i + j]
            for i, c in enumerate('XYZ'): env[name + '.w.' + c] = d[18 + i]
            for i, n in enumerate(('red', 'green', 'blue')):
                env['%s.%sx' % (name, n)] = d[21 + 2 * i]
                env['%s.%sy' % (name, n)] = d[22 + 2 * i]
            tm.APPEVAL['gam@' + name] = (lambda k: lambda v: self.gam(k, False, f32(v)))(k)
            tm.APPEVAL['igam@' + name] = (lambda k: lambda v: self.gam(k, True, f32(v)))(k)
        for name, k in spaces.items():
            for w in whites:
                d = [num(x) for x in self.ask('SW %d %s' % (k, ' '.join(float(env[w + '.' + c]).hex() for c in 'XYZ')))]
                for i in range(3):
                    for j in range(3):
                        env['%s~%s.m%d%d' % (name, w, i, j)] = d[3 * i + j]
                        env['%s~%s.n%d%d' % (name, w, i, j)] = d[9 + 3 * i + j]
        tm.GENV.update(env)

    def call(self, ct, inst, env, spaces):
        toks = ' '.join(a.token(env, spaces) for a in inst)
        a = self.ask('F %d %s' % (self.ids[ct.key], toks))
        return parse(a)


def num(s):
    if s in ('nan', '-nan'): return math.nan
    if s == 'inf': return math.inf
    if s == '-inf': return -math.inf
    return float.fromhex(s)


def f32(v):
    try: return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError: return math.copysign(math.inf, v)


class Res:
    """parsed outcome"""
    def __init__(self, kind, **k):
        self.kind = kind
        self.same = None
        self.__dict__.update(k)

    def __repr__(self):
        if self.kind == 'color': return '%s(%s; alpha %.9g%s)' % (self.type, ', '.join('%.9g' % c for c in self.c), self.alpha, '' if self.space >= -1 else '; foreign space')
        if self.kind == 'num': return '%.9g' % self.v
        if self.kind == 'throw': return 'throws ' + self.name
        if self.kind == 'list': return '[%s]' % ', '.join(map(repr, self.items))
        if self.kind in ('matrix', 'white'): return '%s%r' % (self.kind, self.v)
        if self.kind in ('bool', 'text'): return repr(self.v)
        return self.kind


def parse(a):
    i = [0]

    def nx():
        i[0] += 1
        return a[i[0] - 1]

    def val():
        k = nx()
        if k == 'F': return Res('num', v=num(nx()))
        if k == 'I': return Res('num', v=float(nx()))
        if k == 'B': return Res('bool', v=nx() == '1')
        if k == 'N': return Res('null')
        if k == 'V': return Res('void')
        if k == 'W': return Res('white', v=[num(nx()) for _ in range(6)])
        if k == 'T': return Res('text', v=bytes.fromhex(nx()[1:]).decode('latin1'))
        if k == 'P':
            v = int(nx())
            return val() if v == -2 else Res('space', v=v)
        if k == 'Y': return Res('gamma', v=[num(nx()) for _ in range(2 * len(PROBES))])
        if k == 'Q':
            v = [num(nx()) for _ in range(27)]
            return Res('spacev', v=v, white=val(), gamma=val())
        if k == 'M':
            r, c = int(nx()), int(nx())
            return Res('matrix', rows=r, cols=c, v=[[num(nx()) for _ in range(c)] for _ in range(r)])
        if k == 'L': return Res('list', items=[val() for _ in range(int(nx()))])
        same = None
        if k == 'S':
            same = int(nx())
            k = nx()
        if k == 'C':
            en = int(nx())
            n = int(nx())
            c = [num(nx()) for _ in range(n)]
            al = num(nx())
            sp = int(nx())
            new = [num(nx()) for _ in range(9)] if sp == -2 else None
            key = next((x for x in ORDER if TYPES[x].enum == model.ENUM.get(en)), str(en))
            return Res('color', type=key, c=c, alpha=al, space=sp, same=same, new=new)
        raise ToolError('driver answer ' + ' '.join(a))
    k = nx()
    if k == 'R': r = val()
    elif k == 'X': r = Res('throw', name=nx())
    else: raise ToolError('driver answer ' + ' '.join(a))
    post = []
    r.this = None
    if i[0] < len(a) and a[i[0]] == '#':
        i[0] += 1
        r.this = val()
    if i[0] < len(a) and a[i[0]] == '|':
        i[0] += 1
        while i[0] < len(a): post.append(val())
    return r, post


# ---------------------------------------------------------------- comparing with the specification
class SpecEval:
    """the specification of one instance, evaluated on numbers"""
    def __init__(self, prog, ct, inst, by=None):
        from . import contract as C
        self.ct, self.inst = ct, inst
        x = C.VExec(prog, C.RealD(), {k: c for k, c in (by or {}).items() if c.modular and c.scope}, 100)
        box = {}

        def thunk():
            vals = [a.sym(x) for a in inst]
            views = [a.view(x, v) for a, v in zip(inst, vals)]
            box['views'], box['vals'] = views, vals
            box['pre'] = [tm.lift(c) for c in ct.pre(*views)] if ct.pre else []
            for c in box['pre']: x.assume(c)
            box['cases'] = C.cases(ct.spec(*views))
            box['undef'] = tm.lift(ct.undef(*views)) if ct.undef else tm.FALSE
        self.boxes = []         # one per path of the code that builds and observes the arguments
        for _ in x.explore(thunk): self.boxes.append((list(x.pc), dict(box)))
        if not self.boxes: raise Unsupported('no path through the arguments')
        self.use(self.boxes[-1][1])
        # colors among the inputs in driver order
        self.colors = []
        for a in inst: self._colors(a)

    def use(self, box):
        self.views, self.vals, self.cases, self.pre, self.undef = box['views'], box['vals'], box['cases'], box['pre'], box['undef']

    def pick(self, env):
        if len(self.boxes) < 2: return
        for pc, b in self.boxes:
            m = {}
            try:
                if all(tm.ev(c, env, m) for c in pc): return self.use(b)
            except (KeyError, ArithmeticError, ValueError): pass
        self.use(self.boxes[-1][1])

    def _colors(self, a):
        from . import contract as C
        if isinstance(a, C.AColor): self.colors.append(a)
        elif isinstance(a, C.AList):
            for i in a.items: self._colors(i)

    def ok_pre(self, env):
        self.pick(env)
        m = {}
        try:
            return all(tm.ev(p, env, m) for p in self.pre)
        except (KeyError, ArithmeticError): return True

    def outcome(self, env):
        self.pick(env)
        m = {}
        for c, o in self.cases:
            if tm.ev(c, env, m): return o, m
        return self.cases[-1][1], m


def evalout(o, env, m):
    """numbers of an outcome, in a structure comparable with Res"""
    if getattr(o, 'alt', None) is not None: return evalout(o.alt, env, m)
    if o.kind == 'color': return ('color', o.type, [None if c is None else safe(c, env, m) for c in o.c] if o.c is not None else None, None if o.alpha is None else safe(o.alpha, env, m), o.space)
    if o.kind in ('num', 'bool'): return (o.kind, safe(o.v, env, m))
    if o.kind == 'list': return ('list', [evalout(i, env, m) for i in o.items])
    if o.kind == 'white': return ('white', [safe(e, env, m) for e in o.v])
    if o.kind == 'gamma': return ('gamma', [None if o.lo is not None and p < o.lo or o.hi is not None and p > o.hi else safe(f(tm.const(Fraction(repr(float(p)))) if p != int(p) else tm.const(p)), env, m) for f in (o.fwd, o.inv) for p in PROBES])
    if o.kind == 'spacev': return ('spacev', [safe(e, env, m) for e in o.v], None if o.white is None else evalout(o.white, env, m), None if o.gamma is None else evalout(o.gamma, env, m))
    if o.kind == 'matrix': return ('matrix', [[safe(e, env, m) for e in r] for r in o.rows])
    if o.kind == 'listfn':
        n = max(0, min(2000, int(round(tm.ev(o.size, env, m)))))
        return ('list', [evalout(o.head[i] if i < len(o.head) else o.fn(tm.const(i)), env, m) for i in range(n)])
    if o.kind == 'throw': return ('throw', o.names)
    if o.kind == 'same': return ('same', o.p)
    return (o.kind,)


def safe(t, env, m):
    t = tm.lift(t)
    try:
        v = tm.ev(t, env, m)
        if isinstance(v, complex): return math.nan
        return v
    except (ZeroDivisionError, OverflowError, ValueError):
        return math.nan


def tol_of(v, rng=None):
    if rng is not None:
        return float(rng[1] - rng[0]) * 4e-4
    return 1e-3 + 1e-3 * abs(v)


def perturbed(se, env, rnd):
    """environments close to env: the code computes in float32 and may fall on either side of a comparison"""
    vs = [v for a in se.inst for v in a.vars]
    outs = [env]
    def mk(f):
        e = dict(env)
        for n, lo, hi, _h in vs:
            x = f(n, env[n])
            if lo is not None: x = max(float(lo), x)
            if hi is not None: x = min(float(hi), x)
            e[n] = x
        return e
    for s in (1e-6, 3e-5):
        for _ in range(6):
            outs.append(mk(lambda n, x: x + s * (abs(x) + 0.02) * rnd.uniform(-1, 1)))
    for n, lo, hi, _h in vs[:12]:
        for s in (2e-5, -2e-5):
            outs.append(mk(lambda k, x: x + s * (abs(x) + 0.02) if k == n else x))
    return outs


def hull(alts, get):
    vs = [get(a) for a in alts]
    if any(v is None for v in vs): return None
    if any(isinstance(v, bool) for v in vs): return set(bool(v) for v in vs)
    if any(v != v or abs(v) == math.inf for v in vs): return None
    return min(vs), max(vs)


def same_shape(a, b):
    if a[0] != b[0]: return False
    if a[0] == 'list': return len(a[1]) == len(b[1]) and all(same_shape(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'color': return a[1] == b[1]
    if a[0] == 'matrix': return [len(r) for r in a[1]] == [len(r) for r in b[1]]
    return True


def matches(res, want, se, spaces, tolf=1.0, names=None):
    """None if res is compatible with one of the outcomes `want` (evaluated at perturbed points); else a description"""
    why = None
    groups = []
    for w in want:
        for g in groups:
            if same_shape(g[0], w):
                g.append(w)
                break
        else: groups.append([w])
    for g in groups:
        why = compare(res, g, se, spaces, tolf)
        if why is None: return None
    return why


def compare(res, g, se, spaces, tolf):
    k = g[0][0]
    if k == 'any': return None
    if k == 'throw':
        if res.kind != 'throw': return 'must throw %s, gives %r' % (g[0][1][0], res)
        from .contract import exc_bases
        if res.name in g[0][1] or any(n in exc_bases(res.name) for n in g[0][1]): return None
        return 'must throw %s, throws %s' % (g[0][1][0], res.name)
    if res.kind == 'throw': return 'must not throw, throws ' + res.name
    if k == 'void': return None
    if k == 'null': return None if res.kind == 'null' else 'must return null, gives %r' % res
    if k == 'same':
        if res.kind == 'color' and res.same is not None: return None
        if res.kind == 'space':
            w = g[0][1]
            return None if res.v == spaces.get(getattr(w.cell.v, 'tag', None), -2) else 'must return the given color space'
        return 'must return the given object, gives %r' % res
    if k in ('num', 'bool'):
        if res.kind not in ('num', 'bool'): return 'number expected, gives %r' % res
        h = hull(g, lambda w: w[1])
        if h is None: return None
        v = res.v
        if isinstance(h, set): return None if bool(v) in h else 'expected %s, gives %r' % (h, res)
        m, nr = max(abs(h[0]), abs(h[1])), getattr(se.ct, 'numrange', None)
        t = tolf * (max(tol_of(m, nr), tol_of(m)) if nr is not None else tol_of(m))
        return None if h[0] - t <= v <= h[1] + t else 'expected %s, gives %r' % (rng(h), res)
    if k in ('white', 'gamma', 'spacev'):
        if res.kind != k: return '%s expected, gives %r' % (k, res)
        for i, v in enumerate(res.v):
            h = hull(g, lambda w: w[1][i])
            if h is None: continue
            t = tolf * ((3e-4 + 3e-3 * max(abs(h[0]), abs(h[1]))) if k == 'spacev' else 2e-5 + 1e-4 * max(abs(h[0]), abs(h[1])))
            if not (h[0] - t <= v <= h[1] + t):
                if k == 'gamma': return '%s(%.9g) expected %s, is %.9g' % ('gamma_correction' if i < len(PROBES) else 'inverse_gamma_correction', PROBES[i % len(PROBES)], rng(h), v)
                return '%s: value %d expected %s, is %.9g' % (k, i, rng(h), v)
        if k == 'spacev':
            for j, q in ((2, res.white), (3, res.gamma)):
                w = None if g[0][j] is None else compare(q, [x[j] for x in g], se, spaces, tolf)
                if w: return w
        return None
    if k == 'matrix':
        if res.kind != 'matrix': return 'matrix expected, gives %r' % res
        want = (len(g[0][1]), len(g[0][1][0]) if g[0][1] else 0)
        if (res.rows, res.cols) != want: return '%dx%d matrix expected, gives %dx%d' % (want + (res.rows, res.cols))
        for i in range(want[0]):
            for j in range(want[1]):
                h = hull(g, lambda w: w[1][i][j])
                if h is None: continue
                t = tolf * tol_of(max(abs(h[0]), abs(h[1])))
                if not (h[0] - t <= res.v[i][j] <= h[1] + t): return 'element (%d, %d) expected %s, is %.9g' % (i, j, rng(h), res.v[i][j])
        return None
    if k == 'list':
        if res.kind != 'list': return 'list expected, gives %r' % res
        if len(res.items) != len(g[0][1]): return '%d elements expected, gives %d' % (len(g[0][1]), len(res.items))
        for i, r in enumerate(res.items):
            w = compare(r, [x[1][i] for x in g], se, spaces, tolf)
            if w: return 'element %d: %s' % (i, w)
        return None
    if k == 'color':
        if res.kind != 'color': return 'a color expected, gives %r' % res
        if g[0][1] is not None and res.type != g[0][1]: return 'a %s expected, gives %r' % (g[0][1], res)
        t = TYPES[res.type]
        if g[0][2] is not None:
            weak = illcond(t, g, res)
            for i in range(len(res.c)):
                h = hull(g, lambda w: w[2][i])
                if h is None or i in weak: continue
                if h[1] - h[0] > float(t.ranges[i][1] - t.ranges[i][0]) / 10: continue     # ill-conditioned: tiny changes of the input move the result widely
                v = res.c[i]
                tl = tolf * tol_of(v, t.ranges[i])
                ok = h[0] - tl <= v <= h[1] + tl
                if not ok and t.names[i] == 'hue' and (h[1] - h[0] > 180 or min(abs(v - h[0]), abs(v - h[1])) > 350): ok = True
                if not ok: return '%s expected %s, gives %r' % (t.names[i], rng(h), res)
        h = hull(g, lambda w: w[3])
        if h is not None:
            tl = tolf * tol_of(res.alpha, (0, t.amax))
            if not (h[0] - tl <= res.alpha <= h[1] + tl): return 'alpha expected %s, gives %r' % (rng(h), res)
        sp = g[0][4]
        if sp is not None:
            from .exec import Ptr
            want = -1
            if isinstance(sp, Ptr) and not sp.null(): want = spaces.get(sp.cell.v.tag, -2)
            if want == -2 and res.space == -2 and '~' in (sp.cell.v.tag or ''):
                a, b = sp.cell.v.tag.split('~')
                exp = [tm.GENV.get('%s.%s' % (b, c)) for c in 'XYZ'] + [tm.GENV.get('%s.%s%s' % (a, n, c)) for n in ('red', 'green', 'blue') for c in 'xy']
                if any(p is not None and abs(p - q) > 1e-4 * (1 + abs(p)) for p, q in zip(exp, res.new)): return 'color space of the result: expected white point and primaries %r, are %r' % (exp, res.new)
            if res.space != want: return 'color space of the result: expected #%d, is #%d' % (want, res.space)
        return None
    return None


CHROMA = {'hsi': 1, 'hsv': 1, 'hsl': 1, 'hcy': 1, 'lch_ab': 1, 'lch_uv': 1}


def illcond(t, g, res):
    """channels that float32 cannot determine at this point: the hue of (nearly) achromatic colors, the chromaticity and saturation of (nearly) black"""
    out = set()
    k = t.key
    if k in CHROMA:
        i = CHROMA[k]
        lim = float(t.ranges[i][1]) * 0.02
        if all(w[2][i] is None or w[2][i] != w[2][i] or abs(w[2][i]) <= lim for w in g): out.add(t.names.index('hue'))
    dark = {'hsi': 2, 'hsv': 2, 'hsl': 2, 'xyy': 2, 'lch_uv': 0, 'lch_ab': 0, 'cieluv': 0}
    if k in dark:
        j = dark[k]
        hi = float(t.ranges[j][1]) if k != 'xyy' else 1.0
        vs = [w[2][j] for w in g if w[2][j] is not None]
        if any(abs(v) <= hi * 1e-3 or (k == 'hsl' and v >= 0.999) for v in vs): out |= {i for i in range(t.n) if i != j}
    return out


def rng(h): return '%.6g' % h[0] if abs(h[1] - h[0]) < 1e-9 else '%.6g..%.6g' % h


def run_one(drv, se, env, spaces, rnd, tolf=1.0, frames_only=False):
    """None if the real code agrees with the contract on env; else a description (real code outcome against spec)"""
    ct, inst = se.ct, se.inst
    env = dict(env)
    # float32 values of the inputs
    for a in inst:
        for n, lo, hi, _h in a.vars:
            if n in env: env[n] = f32(env[n])
    drv.bind(env, spaces, [a.name for a in inst if type(a).__name__ == 'AWhite'])
    if not se.ok_pre(env): return None
    # a large factor amplifies the rounding of what it is multiplied with
    big = max([abs(env[n]) for a in inst if type(a).__name__ == 'ANum' for n, lo, hi, _h in a.vars if n in env] + [0])
    if se.colors and big > 20: tolf *= big / 20
    try:
        se.pick(env)
        if tm.ev(se.undef, env): undef = True
        else: undef = False
    except Exception: undef = False
    try:
        res, post = drv.call(ct, inst, env, spaces)
    except Crash as e:
        return 'the real code crashes: %s' % str(e)[:1500]
    # frame
    for a, q in zip(se.colors, post):
        if a.name in ct.modifies: continue
        for (n, lo, hi, _h), v in zip(a.vars, list(q.c) + [q.alpha]):
            if v != v or abs(v - env[n]) > 1e-4 * (1 + abs(env[n])): return 'input %s changed to %r' % (a.name, q)
        want = spaces.get(a.space, -1) if a.space else -1
        if q.space != want: return 'color space of input %s changed' % a.name
    if frames_only: return None
    alts = []
    drvenv = perturbed(se, env, rnd)
    cust = None
    for e in drvenv:
        tm.GENV.update(e)
        o, m = se.outcome(e)
        if o.kind == 'custom' and getattr(o, 'alt', None) is None:
            if o.conc is None: return None
            cust = o
            break
        alts.append((evalout(o, e, m), o, e))
    tm.GENV.update(env)
    if cust is not None:
        return cust.conc(res, post, env, se, spaces)
    if undef: return None
    w = matches(res, [a[0] for a in alts], se, spaces, tolf)
    if w: return w
    # state of by-reference arguments
    o = alts[0][1]
    if res.this is not None:
        ws = [al[1].post.get('this') for al in alts]
        if all(x is None for x in ws) and hasattr(inst[0], 'state'): ws = [inst[0].state(se.views[0])] * len(alts)
        if all(x is not None for x in ws):
            w = matches(res.this, [evalout(x, al[2], {}) for x, al in zip(ws, alts)], se, spaces, tolf)
            if w: return 'afterwards the object: ' + w
    for pn, want in o.post.items():
        for a, q in zip(se.colors, post):
            if a.name == pn:
                ws = [evalout(al[1].post[pn], al[2], {}) for al in alts if pn in al[1].post]
                w = matches(q, ws, se, spaces, tolf)
                if w: return 'afterwards %s: %s' % (pn, w)
    return None


def sample_env(se, rnd, style):
    env = {}
    for a in se.inst:
        if hasattr(a, 'draw'):
            env.update(a.draw(rnd))
            continue
        sp = getattr(a, 'special', ())
        for n, lo, hi, hue in a.vars:
            l = float(lo) if lo is not None else -3.0
            h = float(hi) if hi is not None else 3.0
            r = rnd.random()
            if sp and r < 0.5: v = float(rnd.choice(list(sp)))
            elif style == 0 or r < 0.25: v = rnd.choice([l, h, (l + h) / 2, l + (h - l) * 0.25])
            elif hue and r < 0.5: v = rnd.choice([0, 60, 120, 180, 240, 300, 359, 30, 90, 200])
            elif r < 0.4 and env: # repeat an earlier value of the same range
                v = rnd.choice(list(env.values()))
                v = min(h, max(l, v))
            else: v = rnd.uniform(l, h)
            if getattr(a, 'integer', False): v = round(v)
            env[n] = float(v)
    return env


def spaces_for(inst, rnd):
    names = []
    for a in inst:
        for s in a.spaces():
            if s not in names: names.append(s)
    return dict(zip(names, rnd.sample(range(len(SPACE_PRESETS)), len(names))))   # different names are different objects


def robust_failure(drv, se, env, sp, rnd, tolf, frames_only=False):
    """every obligation is discharged and yet a concrete run disagrees: believed only if it happens all around the point (not an effect of machine rounding)"""
    k = 0
    for _ in range(10):
        e = dict(env)
        for a in se.inst:
            if getattr(a, 'integer', False): continue
            for n, lo, hi, h in a.vars:
                if lo is None or hi is None or n not in e: continue
                r = float(hi) - float(lo)
                if r <= 0: continue
                e[n] = f32(min(max(e[n] + r * 0.01 * rnd.uniform(-1, 1), float(lo) + 0.002 * r), float(hi) - 0.002 * r))
        if run_one(drv, se, e, sp, rnd, tolf, frames_only): k += 1
    return k >= 5


def search(drv, se, seed, n, tolf=1.0, tlimit=20, first=(), robust=False, frames_only=False):
    """concrete check on n sampled inputs: (tested, failure or None)"""
    rnd = random.Random(seed)
    t0 = time.time()
    done = 0
    envs = list(first)
    for i in range(n + len(envs)):
        if time.time() - t0 > tlimit: break
        env = dict(envs[i]) if i < len(envs) else sample_env(se, rnd, 0 if i % 4 == 0 else 1)
        base = sample_env(se, rnd, 1)
        for k, v in base.items(): env.setdefault(k, v)
        sp = spaces_for(se.inst, rnd)
        w = run_one(drv, se, env, sp, rnd, tolf, frames_only)
        done += 1
        if w and robust and not robust_failure(drv, se, env, sp, rnd, tolf, frames_only): continue
        if w:
            return done, dict(why=w, env={k: env[k] for k in env if k in base}, spaces=sp)
    return done, None
