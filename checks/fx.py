"""fixed-point probes"""
from sa.probe import *

FPRE = '#include "num/fixed-point.hpp"\nusing namespace num;\n'
VF = "abstract interpretation of the compiler's IR (gated value-flow / value numbering, exact integers with intervals) against an independent definition"
# rep (per target), bits, integer digits, fractional digits
W = {"desktop": {8: "signed char", 16: "short", 32: "int", 64: "long long"}, "avr": {8: "signed char", 16: "int", 32: "long", 64: "long long"}}
FORMATS = [(8, 3, None), (8, 7, None), (8, 0, None), (16, 8, None), (16, 15, None), (16, 0, None), (16, 4, 4), (32, 15, None), (32, 31, None), (32, 0, None), (32, 16, None), (32, 8, 8)]
# no products and quotients: there is no wider type for them
WIDE = [(64, 31, None), (64, 40, 20), (64, 63, None)]
MOREWIDE = [(64, 1, None), (64, 15, None), (64, 16, None), (64, 47, None), (64, 62, None), (64, 8, 8)]
MORE = [(8, i, None) for i in (1, 2, 4, 5, 6)] + [(16, i, None) for i in range(1, 15) if i != 8] + [(32, i, None) for i in range(1, 31) if i not in (15, 16)] + [(8, 2, 2), (16, 3, 7), (32, 5, 20)]


def formats(th):
    return FORMATS + WIDE + (MORE + MOREWIDE if th else [])


class Fmt:
    def __init__(self, target, bits, i, f):
        self.T = W[target][bits]
        self.bits, self.i = bits, i
        self.f = bits - 1 - i if f is None else f
        self.F = "fixed_point<%s,%d%s>" % (self.T, i, "" if f is None else ",%d" % f)
        self.tag = "%d_%d_%d" % (bits, i, self.f)
        self.d = " (fixed_point<%d-bit,%d,%d>)" % (bits, i, self.f)
        self.min, self.max = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.lim = "(-%dLL-1)" % self.max, "%dLL" % self.max

    def raw(self, v, src):
        return "%s const %s(%s::construct, %s);" % (self.F, v, self.F, src)

    def fits(self, e):
        return "(%s)>=%s && (%s)<=%s" % (e, self.lim[0], e, self.lim[1])


def run(ctx, name, gen):
    """gen(target, fmt) -> probes"""
    th = True                               # cheap enough for both tiers
    out = []
    for t in ("desktop", "avr"):
        pr = [p for f in formats(th) for p in gen(t, Fmt(t, *f)) if p]
        out += [Suite("%s%d" % (name, i // 60), FPRE, pr[i:i + 60], target=t) for i in range(0, len(pr), 60)]
    ctx.run_suites(out)
