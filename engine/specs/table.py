"""Contracts of the predefined colors (C27) and of colors made from 0xAARRGGBB codes."""
from .. import terms as tm
from ..contract import *
from ..run import lemma
from .base import reg
from . import conv

# the published values (.NET KnownColor, CSS color names)
TABLE = dict(l.split() for l in """AliceBlue FFF0F8FF, AntiqueWhite FFFAEBD7, Aqua FF00FFFF, Aquamarine FF7FFFD4, Azure FFF0FFFF, Beige FFF5F5DC, Bisque FFFFE4C4, Black FF000000
BlanchedAlmond FFFFEBCD, Blue FF0000FF, BlueViolet FF8A2BE2, Brown FFA52A2A, BurlyWood FFDEB887, CadetBlue FF5F9EA0, Chartreuse FF7FFF00
Chocolate FFD2691E, Coral FFFF7F50, CornflowerBlue FF6495ED, Cornsilk FFFFF8DC, Crimson FFDC143C, Cyan FF00FFFF, DarkBlue FF00008B, DarkCyan FF008B8B
DarkGoldenrod FFB8860B, DarkGray FFA9A9A9, DarkGreen FF006400, DarkKhaki FFBDB76B, DarkMagenta FF8B008B, DarkOliveGreen FF556B2F, DarkOrange FFFF8C00
DarkOrchid FF9932CC, DarkRed FF8B0000, DarkSalmon FFE9967A, DarkSeaGreen FF8FBC8F, DarkSlateBlue FF483D8B, DarkSlateGray FF2F4F4F
DarkTurquoise FF00CED1, DarkViolet FF9400D3, DeepPink FFFF1493, DeepSkyBlue FF00BFFF, DimGray FF696969, DodgerBlue FF1E90FF, Firebrick FFB22222
FloralWhite FFFFFAF0, ForestGreen FF228B22, Fuchsia FFFF00FF, Gainsboro FFDCDCDC, GhostWhite FFF8F8FF, Gold FFFFD700, Goldenrod FFDAA520
Gray FF808080, Green FF008000, GreenYellow FFADFF2F, Honeydew FFF0FFF0, HotPink FFFF69B4, IndianRed FFCD5C5C, Indigo FF4B0082, Ivory FFFFFFF0
Khaki FFF0E68C, Lavender FFE6E6FA, LavenderBlush FFFFF0F5, LawnGreen FF7CFC00, LemonChiffon FFFFFACD, LightBlue FFADD8E6, LightCoral FFF08080
LightCyan FFE0FFFF, LightGoldenrodYellow FFFAFAD2, LightGreen FF90EE90, LightGray FFD3D3D3, LightPink FFFFB6C1, LightSalmon FFFFA07A
LightSeaGreen FF20B2AA, LightSkyBlue FF87CEFA, LightSlateGray FF778899, LightSteelBlue FFB0C4DE, LightYellow FFFFFFE0, Lime FF00FF00
LimeGreen FF32CD32, Linen FFFAF0E6, Magenta FFFF00FF, Maroon FF800000, MediumAquamarine FF66CDAA, MediumBlue FF0000CD, MediumOrchid FFBA55D3
MediumPurple FF9370DB, MediumSeaGreen FF3CB371, MediumSlateBlue FF7B68EE, MediumSpringGreen FF00FA9A, MediumTurquoise FF48D1CC
MediumVioletRed FFC71585, MidnightBlue FF191970, MintCream FFF5FFFA, MistyRose FFFFE4E1, Moccasin FFFFE4B5, NavajoWhite FFFFDEAD, Navy FF000080
OldLace FFFDF5E6, Olive FF808000, OliveDrab FF6B8E23, Orange FFFFA500, OrangeRed FFFF4500, Orchid FFDA70D6, PaleGoldenrod FFEEE8AA, PaleGreen FF98FB98
PaleTurquoise FFAFEEEE, PaleVioletRed FFDB7093, PapayaWhip FFFFEFD5, PeachPuff FFFFDAB9, Peru FFCD853F, Pink FFFFC0CB, Plum FFDDA0DD
PowderBlue FFB0E0E6, Purple FF800080, Red FFFF0000, RosyBrown FFBC8F8F, RoyalBlue FF4169E1, SaddleBrown FF8B4513, Salmon FFFA8072, SandyBrown FFF4A460
SeaGreen FF2E8B57, SeaShell FFFFF5EE, Sienna FFA0522D, Silver FFC0C0C0, SkyBlue FF87CEEB, SlateBlue FF6A5ACD, SlateGray FF708090, Snow FFFFFAFA
SpringGreen FF00FF7F, SteelBlue FF4682B4, Tan FFD2B48C, Teal FF008080, Thistle FFD8BFD8, Tomato FFFF6347, Transparent 00FFFFFF, Turquoise FF40E0D0
Violet FFEE82EE, Wheat FFF5DEB3, White FFFFFFFF, WhiteSmoke FFF5F5F5, Yellow FFFFFF00, YellowGreen FF9ACD32""".replace(',', '\n').split('\n'))


def code(h): return [tm.bits(h, 16, 8), tm.bits(h, 8, 8), tm.bits(h, 0, 8)], tm.bits(h, 24, 8)


def of_code(h, s):
    h = tm.lift(h)
    c, a = code(h)
    return Color('rgb_true', c, a, s)


HEX = ANum('hex', -2 ** 31, 2 ** 31 - 1, True, special=(0, -1, 0x01020304, 0x7f80ff00, -0x7f80ff01))
reg('rgb_truecolor::rgb_truecolor(int,rgb_color_space_definition*)', ['C27', 'C02'], of_code, args={0: HEX})


class APredef(Arg):
    """a predefined color: one of the table, or any code"""
    def __init__(self, name, entry):
        self.name, self.entry = name, entry
        self.vars = [] if entry else [(name + '.hex', 0, 2 ** 32 - 1, True)]

    def spaces(self): return [self.name + '.space']
    def hex(self, x=None):
        if not self.entry: return tm.var(*self.vars[0])
        return tm.const(CODES[self.entry])

    def sym(self, x):
        self.sp = x.space_obj(self.name + '.space')
        codes(x.p)
        h = self.hex()
        return model.make_obj(x, 'predefined_color::predefined_color(HexcodeColors,rgb_color_space_definition*)', int(tm.cval(h)) if tm.is_const(h) else h, self.sp)

    def view(self, x, v):
        h = tm.const(int(TABLE[self.entry], 16)) if self.entry else self.hex()      # what is published, not what the code says
        c, a = code(h)
        return ObjV(v, c=CV('rgb_true', c, a, self.sp, v))

    def desc(self): return self.entry or 'any code'
    def token(self, env, sp): return '%d %d' % (CODES[self.entry] if self.entry else int(env[self.vars[0][0]]), sp[self.name + '.space'])
    def concrete(self, env): return 'predefined_color(%s)' % (self.entry or '0x%08X' % int(env[self.vars[0][0]]))


CODES = {}


def codes(prog):
    """the enumerators of the current code"""
    if not CODES: CODES.update((c['n'], int(c['v']) % 2 ** 32) for c in prog['enums'].get('HexcodeColors', {'c': []})['c'])
    return CODES


def held(c):
    """the color itself (not a copy)"""
    o = conv.as_out(c)
    return Out('custom', check=lambda x, n, pc, v, obs, ct: check_val(x, n, pc, v, o, obs, ct), conc=None, alt=o)


P = 'predefined_color::'
ENTRIES = [APredef('this', n) for n in TABLE]
ANY = APredef('this', None)
reg(P + 'get_rgb_true()', ['C27'], lambda t: held(t.c), args={'this': [ANY] + ENTRIES})
for k in ('rgb_deep', 'grey_true', 'grey_deep', 'cmyk', 'hsv', 'hsl', 'xyz', 'xyy', 'lab'):
    reg(P + 'get_%s()' % k, ['C27'], (lambda k: lambda t: conv.conv_out(t.c, k))(k), args={'this': ANY})


@lemma('every predefined color has its published code', 'C27')
def _(ctx):
    c = codes(ctx.prog)
    obs = [ob(n, 'proved' if c.get(n) == int(v, 16) else 'refuted', 'exec', 'HexcodeColors::%s is %s, published %s' % (n, '0x%08X' % c[n] if n in c else 'missing', v)) for n, v in TABLE.items()]
    obs += [ob(n, 'unknown', '', 'not in the published table') for n in c if n not in TABLE]
    return obs
