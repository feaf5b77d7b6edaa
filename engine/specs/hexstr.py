"""Contract of colors made from strings (C05)."""
from .. import terms as tm
from ..contract import *
from ..strings import SymStr, inset, inside, hexval, HEXR
from .base import reg


class AString(Arg):
    """every string of n characters; with `more`: every string of n or more characters"""
    integer = True

    def __init__(self, name, n, more=False):
        self.name, self.n, self.more = name, n, more
        self.vars = [('%s.%d' % (name, i), -128, 127, False) for i in range(n)] + ([(name + '.more', 0, 2 ** 62, False)] if more else [])

    def sym(self, x):
        v = [tm.var(n, lo, hi, True) for n, lo, hi, _ in self.vars]
        self.v = SymStr(v[:self.n], v[self.n] if self.more else 0)
        return self.v

    def view(self, x, v): return self.v
    def desc(self): return 'every string of %s%d characters' % ('at least ' if self.more else '', self.n)

    def text(self, env):
        b = [int(env[v[0]]) % 256 for v in self.vars[:self.n]]
        if self.more: b += [65 + k % 6 for k in range(int(env[self.name + '.more']) % 40)]
        return bytes(b)

    def token(self, env, sp): return 'x' + self.text(env).hex()
    def concrete(self, env): return repr(self.text(env))[1:]

    def draw(self, rnd):
        """valid codes and codes with one or two characters changed"""
        c = [ord(rnd.choice('0123456789abcdefABCDEF')) for _ in range(self.n)]
        if c and rnd.random() < (0.9 if self.n in (7, 9) else 0.3): c[0] = 35
        for _ in range(rnd.choice((0, 0, 0, 1, 1, 2)) if c else 0): c[rnd.randrange(len(c))] = rnd.choice([35, 35, 103, 71, 120, 88, 32, 43, 45, 0, 47, 58, 64, 96, 10, rnd.randint(-128, 127)])
        e = {'%s.%d' % (self.name, i): float(v) for i, v in enumerate(c)}
        if self.more: e[self.name + '.more'] = float(rnd.choice((0, 1, 5, 30)))
        return e


def spec(s, space):
    bad = Throw('invalid_argument')
    if not isinstance(s.more, int) or s.more: return bad                 # 10 or more characters
    ch = [tm.lift(c) for c in s.chars]
    n = len(ch)
    if n not in (6, 7, 8, 9): return bad
    hash_ = tm.FALSE
    if n in (7, 9): hash_, ch = tm.eq(ch[0], tm.const(35)), ch[1:]
    ok = tm.and_(*[inset(c, HEXR) for c in ch])
    if n in (7, 9): ok = tm.and_(hash_, ok)
    v = [hexval(c) for c in ch]
    b = [tm.add(tm.scale(v[i], 16), v[i + 1]) for i in range(0, len(v), 2)]
    return [(ok, Color('rgb_true', b[-3:], b[0] if len(b) == 4 else 255, space)), (tm.TRUE, bad)]


reg('rgb_truecolor::rgb_truecolor(std::basic_string<char>,rgb_color_space_definition*)', ['C05', 'C02'], spec, args={0: [AString('hex', n) for n in range(10)] + [AString('hex', 10, True)]}, samples=200)
