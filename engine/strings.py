"""Strings with symbolic characters: std::string of a known length (or of a length bounded from below), std::regex, sscanf and number parsing."""
import re
from . import terms as tm
from .terms import T


def Unsup(m):
    from .exec import Unsupported
    return Unsupported(m)


class SymStr:
    """a string that begins with the characters `chars` (ints or terms) and goes on for `more` characters nothing is known about (0: this is all of it)"""
    def __init__(self, chars, more=0, cstr=False):
        self.chars, self.more, self.cstr = chars, more, cstr

    def size(self): return len(self.chars) if self.more == 0 and not isinstance(self.more, T) else tm.add(tm.const(len(self.chars)), tm.lift(self.more))
    def full(self):
        if isinstance(self.more, T) or self.more: raise Unsup('the unknown rest of a string')
        return self.chars


def C(c): return tm.const(c) if isinstance(c, int) else c


def inside(c, lo, hi):
    if isinstance(c, int): return tm.TRUE if lo <= c <= hi else tm.FALSE
    return tm.and_(tm.le(tm.const(lo), c), tm.le(c, tm.const(hi)))


def inset(c, rs):
    r = tm.FALSE
    for a, b in merge(rs): r = tm.or_(r, inside(c, a, b))
    return r


def merge(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return out


HEXR = [(48, 57), (65, 70), (97, 102)]
SPACER = [(9, 13), (32, 32)]
DIGR = [(48, 57)]
WORDR = [(48, 57), (65, 90), (95, 95), (97, 122)]
UPR, LOWR = [(65, 90)], [(97, 122)]
CLASSES = {'isxdigit': HEXR, 'isdigit': DIGR, 'isspace': SPACER, 'isalpha': UPR + LOWR, 'isalnum': DIGR + UPR + LOWR, 'isupper': UPR, 'islower': LOWR}
NAMED = {'xdigit': HEXR, 'digit': DIGR, 'space': SPACER, 'alpha': UPR + LOWR, 'alnum': DIGR + UPR + LOWR, 'upper': UPR, 'lower': LOWR, 'w': WORDR, 'd': DIGR, 's': SPACER}


def hexval(c):
    """the value of a character that is a hexadecimal digit"""
    if isinstance(c, int): return int(chr(c), 16)
    return tm.ite(tm.le(c, tm.const(57)), tm.sub(c, tm.const(48)), tm.ite(tm.le(c, tm.const(70)), tm.sub(c, tm.const(55)), tm.sub(c, tm.const(87))))


# ---------------------------------------------------------------- regular expressions (ECMAScript subset) as nondeterministic automata
ALL = [(-128, 127)]


def compl(rs):
    out, p = [], -128
    for a, b in merge(rs):
        if a > p: out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= 127: out.append((p, 127))
    return out


class Regex:
    def __init__(self, src, icase=False):
        self.s, self.i, self.icase = src, 0, icase
        self.eps, self.tr, self.n = [], [], 0
        a, b = self.alt()
        if self.i < len(self.s): raise Unsup('regular expression ' + src)
        self.start, self.end = a, b

    def st(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, kind=None): self.eps.append((a, b, kind))
    def peek(self): return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        parts = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            parts.append(self.seq())
        if len(parts) == 1: return parts[0]
        a, b = self.st(), self.st()
        for p, q in parts: self.e(a, p), self.e(q, b)
        return a, b

    def seq(self):
        a = b = self.st()
        while self.peek() is not None and self.peek() not in '|)':
            p, q = self.rep()
            self.e(b, p)
            b = q
        return a, b

    def rep(self):
        i0 = self.i
        p, q = self.atom()
        i1 = self.i
        c = self.peek()
        if c is None: return p, q
        if c in '*+?':
            self.i += 1
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
        elif c == '{':
            m = re.match(r'\{(\d+)(,(\d*))?\}', self.s[self.i:])
            if not m: raise Unsup('regular expression ' + self.s)
            self.i += m.end()
            lo = int(m.group(1))
            hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
        else: return p, q
        if self.peek() == '?': self.i += 1      # lazy: the same language
        end = self.i

        def again():
            self.i = i0
            r = self.atom()
            self.i = end
            return r
        if (hi if hi is not None else lo) > 40: raise Unsup('large repetition')
        a = b = self.st()
        for k in range(lo):
            u, v = (p, q) if k == 0 else again()
            self.e(b, u)
            b = v
        if hi is None:
            u, v = (p, q) if lo == 0 else again()
            z = self.st()
            self.e(b, z), self.e(z, u), self.e(v, z)
            b = z
        else:
            z = self.st()
            self.e(b, z)
            for k in range(hi - lo):
                u, v = (p, q) if lo == 0 and k == 0 else again()
                self.e(b, u)
                b = v
                self.e(b, z)
            b = z
        return a, b

    def cls(self, rs):
        if self.icase:
            ex = []
            for lo, hi in rs:
                for a, b, d in ((65, 90, 32), (97, 122, -32)):
                    u, v = max(lo, a), min(hi, b)
                    if u <= v: ex.append((u + d, v + d))
            rs = rs + ex
        a, b = self.st(), self.st()
        self.tr.append((a, b, merge(rs)))
        return a, b

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        if c in 'dws': return NAMED[c]
        if c in 'DWS': return compl(NAMED[c.lower()])
        if c in 'ntrfv': return [(ord(eval("'\\%s'" % c)),) * 2]
        if c.isalnum(): raise Unsup('regular expression ' + self.s)
        return [(ord(c), ord(c))]

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == '(':
            if self.s[self.i:self.i + 2] == '?:': self.i += 2
            elif self.peek() == '?': raise Unsup('regular expression ' + self.s)
            r = self.alt()
            if self.peek() != ')': raise Unsup('regular expression ' + self.s)
            self.i += 1
            return r
        if c in '^$':
            a, b = self.st(), self.st()
            self.e(a, b, c)
            return a, b
        if c == '.': return self.cls(compl([(10, 10), (13, 13)]))
        if c == '\\':
            if self.peek() in 'bB': raise Unsup('word boundary')
            return self.cls(self.esc())
        if c == '[':
            neg = self.peek() == '^'
            if neg: self.i += 1
            rs = []
            while self.peek() != ']':
                if self.peek() is None: raise Unsup('regular expression ' + self.s)
                m = re.match(r'\[:(\w+):\]', self.s[self.i:])
                if m:
                    self.i += m.end()
                    rs += NAMED[m.group(1)]
                    continue
                d = self.s[self.i]
                self.i += 1
                if d == '\\':
                    q = self.esc()
                    if len(q) > 1 or q[0][0] != q[0][1]:
                        rs += q
                        continue
                    lo = q[0][0]
                else: lo = ord(d)
                if self.peek() == '-' and self.s[self.i + 1:self.i + 2] not in (']', ''):
                    self.i += 1
                    d = self.s[self.i]
                    self.i += 1
                    hi = ord(d) if d != '\\' else self.esc()[0][0]
                    rs.append((lo, hi))
                else: rs.append((lo, lo))
            self.i += 1
            r = self.cls(rs)
            if neg:
                a, b, q = self.tr[-1]
                self.tr[-1] = (a, b, compl(q))
            return r
        if c in '*+?{})': raise Unsup('regular expression ' + self.s)
        return self.cls([(ord(c), ord(c))])

    def closure(self, S, first, last):
        work = list(S)
        while work:
            s = work.pop()
            for a, b, k in self.eps:
                if a != s: continue
                if k == '^' and not first: continue
                if k == '$' and not last: continue
                nf = tm.or_(S.get(b, tm.FALSE), S[s])
                if nf is not S.get(b):
                    S[b] = nf
                    work.append(b)
        return S

    def loops(self):
        """whether it can take in any number of characters"""
        nx = {}
        for a, b, _ in self.eps + self.tr: nx.setdefault(a, set()).add(b)
        for a, b, _ in self.tr:
            seen, work = {b}, [b]
            while work:
                for q in nx.get(work.pop(), ()):
                    if q not in seen:
                        seen.add(q)
                        work.append(q)
            if a in seen: return True
        return False

    def run(self, chars, search):
        """the condition under which the characters match"""
        n = len(chars)
        S = self.closure({self.start: tm.TRUE}, True, n == 0)
        hit = S.get(self.end, tm.FALSE) if search or n == 0 else tm.FALSE
        for i, c in enumerate(chars):
            N = {}
            for a, b, rs in self.tr:
                if a in S:
                    f = tm.and_(S[a], inset(c, rs))
                    if f is not tm.FALSE: N[b] = tm.or_(N.get(b, tm.FALSE), f)
            if search and i + 1 <= n: N[self.start] = tm.TRUE
            S = self.closure(N, False, i + 1 == n)
            if search: hit = tm.or_(hit, S.get(self.end, tm.FALSE))
        if not search: hit = S.get(self.end, tm.FALSE)
        return hit


NREST = [0]


def match(x, s, rx, search):
    if isinstance(s, str): s = SymStr([ord(c) for c in s])
    r = Regex(rx.tag, getattr(rx, 'abs', None) == 'icase')
    if isinstance(s.more, T) or s.more:
        if r.loops() and x.decide(tm.lt(tm.const(1000), tm.lift(s.size()))):
            from .exec import UB
            raise UB('std::regex recurses as deep as the string is long, which is not bounded here')
        NREST[0] += 1
        return tm.bvar('regex.%d' % NREST[0])       # either way: the rest is unknown
    f = r.run(s.chars, search)
    return True if f is tm.TRUE else False if f is tm.FALSE else f


# ---------------------------------------------------------------- numbers
def chars_of(s):
    if isinstance(s, str): return [ord(c) for c in s]
    return s.full()


def test(x, c):
    return x.decide(c) if not (c is tm.TRUE or c is tm.FALSE) else c is tm.TRUE


def scan(x, ch, i, width, base=16):
    """digits from position i on: (value term, next position) or None; leading spaces, signs and prefixes are out of reach"""
    if base != 16: raise Unsup('number base')
    if i >= len(ch): return None
    c = ch[i]
    if test(x, inset(c, SPACER + [(43, 43), (45, 45)])): raise Unsup('spaces and signs before a number')
    v, k = tm.ZERO, i
    while k < len(ch) and (width is None or k - i < width) and test(x, inset(ch[k], HEXR)):
        v = tm.add(tm.scale(v, 16), tm.lift(hexval(ch[k])))
        k += 1
    if k == i: return None
    if k == i + 1 and k < len(ch) and (width is None or width > 1) and test(x, inside(ch[i], 48, 48)) and test(x, inset(ch[k], [(88, 88), (120, 120)])): raise Unsup('0x prefix')
    return v, k


def sscanf(x, s, fmt, ptrs):
    ch = chars_of(s)
    i = n = k = 0
    while k < len(fmt):
        m = re.match(r'%(0?\d*)([xXd%])', fmt[k:])
        if m and m.group(2) in 'xX':
            w = int(m.group(1)) if m.group(1) else None
            if w == 0: w = None
            if i >= len(ch) and n == 0: return -1
            r = scan(x, ch, i, w)
            if r is None: return n
            v, i = r
            x.wr(x.pcell(ptrs[n]), int(tm.cval(v)) if tm.is_const(v) else v)
            n += 1
            k += m.end()
        elif m or fmt[k] == '%' or fmt[k].isspace(): raise Unsup('scanf format ' + fmt)
        else:
            if i >= len(ch): return n if n else -1
            if not test(x, inside(ch[i], ord(fmt[k]), ord(fmt[k]))): return n
            i += 1
            k += 1
    return n


def int_of(v): return int(tm.cval(v)) if tm.is_const(v) else v
