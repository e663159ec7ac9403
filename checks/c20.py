from .bq import *

META = dict(
    title="Pre-warping and decibel conversions are exact closed forms for all types",
    statement="Pre-warping maps a corner frequency f at sampling frequency fs to tan(pi f / fs). Power and voltage ratios convert to decibel as ten and twenty times their decimal logarithm, and the factor belonging to a number of decibel is the ratio, at least one, with a level of that magnitude; integer and mixed argument types give the same values as floating-point ones.",
    over=["inputs"],
    text="all arguments, in all combinations of int, float and double the functions accept",
    why="Integer divisions and narrowing conversions are exact for the round numbers a test would use.",
    files=["include/dsp/filter-design.hpp", "include/num/constants.hpp"],
    mechanism=[("prewarp(), dbP(), dbV(), dbP_factor(), dbV_factor()", "include/dsp/filter-design.hpp"), ("pi", "include/num/constants.hpp")],
    how="the value returned is compared with the closed form; conversions to integer or to a narrower type are visible operations in the domain",
    note="real-number semantics; arguments of the logarithm taken to be positive; desktop",
    technique=VF)

FPRE = '#include "dsp/filter-design.hpp"\nusing namespace dsp;\n'


def check(ctx):
    pr = []
    tt = ("int", "float", "double", "short")

    def com(*a):
        return "double" if "double" in a else "float"
    PI = "3.14159265358979323846264338327950288L"
    for a in tt:
        for b in tt:
            T = com(a, b)
            pr.append(Probe("prewarp_%s_%s" % (a, b), [S("f", a), S("fs", b), OUT("o", T, 1)], "o[0]=prewarp(f,fs);", "using T=%s; o[0]=__builtin_tan(T(%s)*T(f)/T(fs));" % (T, PI), "prewarp(%s,%s)" % (a, b)))
            for nm, k in (("dbP", 10), ("dbV", 20)):
                pr.append(Probe("%s_%s_%s" % (nm, a, b), [S("x", a), S("y", b), OUT("o", T, 1)], "o[0]=%s(x,y);" % nm, "using T=%s; o[0]=%d*__builtin_log10(T(x)/T(y));" % (T, k), "%s(%s,%s)" % (nm, a, b)))
        T = com(a)
        for nm, k in (("dbP_factor", 10), ("dbV_factor", 20)):
            pr.append(Probe("%s_%s" % (nm, a), [S("x", a), OUT("o", T, 1)], "o[0]=%s(x);" % nm, "using T=%s; T const u=T(x)<0?-T(x):T(x); o[0]=__builtin_exp(u/%d*__builtin_log(T(10)));" % (T, k), "%s(%s)" % (nm, a)))
    for nm, k in (("P", 10), ("V", 20)):
        pr.append(Probe("inv_" + nm, [S("x", "double"), OUT("o", "double", 1)], "o[0]=db%s(db%s_factor(x),1);" % (nm, nm), "o[0]= x<0?-x:x;", "db%s(db%s_factor(x),1) is the magnitude of x" % (nm, nm)))
        pr.append(Probe("mul_" + nm, [S("x", "double"), S("y", "double"), S("z", "double"), OUT("o", "double", 1)], "o[0]=db%s(x,y)-db%s(x,y*1.0);" % (nm, nm), "o[0]=0;", "db%s() is a function" % nm))
    pr.append(Probe("pvq", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "o[0]=dbV(x,y)-2*dbP(x,y);", "o[0]=0;", "a voltage level is twice a power level"))
    ctx.run_suites([Suite("db", FPRE, pr)])
    cp = [Probe("pi_%s" % T, [OUT("o", T, 1)], "o[0]=num::pi<%s>;" % T, "o[0]=%s(%s);" % (T, PI), "pi (%s)" % T) for T in ("float", "double")]
    ctx.run_suites([Suite("const", '#include "num/constants.hpp"\n', cp, target=t) for t in T2])
    pr = [Probe("pi_%s" % T, [OUT("o", T, 1)], "o[0]=num::pi<%s>-%s(%s);" % (T, T, PI), "o[0]=0;", "pi (%s)" % T) for T in ("float", "double")]
    ctx.run_suites([Suite("constx", '#include "num/constants.hpp"\n', pr)])
    return ctx.finish(META)
