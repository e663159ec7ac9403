from .bq import *

META = dict(
    title="One-pole designs have their pole and unit gain where they belong",
    statement="For every corner and sampling frequency, the low-pass design has its pole at exp(-2 pi f/fs) and unit gain at zero frequency, the high-pass design its pole at -exp(-2 pi (1/2 - f/fs)) and unit gain at half the sampling frequency. A filter made from a design starts cleared with exactly its coefficients.",
    over=["inputs", "configurations"],
    text="low-pass and high-pass, all frequencies, in double, float, integer and mixed types",
    why="No test covers the designs; truncated arithmetic or a corner off by a factor still gives a plausible low-pass filter.",
    files=["include/dsp/onepole-design.hpp", "include/dsp/onepole.hpp"],
    mechanism=[("onepole_design_method<...>::design()", "include/dsp/onepole-design.hpp"), ("onepole_design(), make_onepole()", "include/dsp/onepole-design.hpp")],
    how="the coefficients, and the response of the resulting filter at zero and half the sampling frequency, are compared with their definition",
    note="real-number semantics; desktop (the designs need <cmath>)",
    technique=VF)

PRE = '#include "dsp/onepole-design.hpp"\nusing namespace dsp;\n'


def check(ctx):
    pr = []
    for kind in ("low_pass", "high_pass"):
        R = "FilterResponse::" + kind
        lp = kind == "low_pass"
        for tag, T, ty in (("d", "double", ("double", "double")), ("f", "float", ("float", "float")), ("i", "float", ("int", "int")), ("m", "double", ("int", "double")), ("n", "double", ("double", "float")), ("u", "float", ("unsigned", "short")), ("l", "float", ("float", "long"))):
            U = "using T=%s; T const PI=T(3.14159265358979323846264338327950288L); " % T
            args = [S("fc", ty[0]), S("fsmp", ty[1])]
            d = "%s design (%s)" % (kind, ", ".join(ty))
            E = U + "T const f=fc,fs=fsmp; T const e=%s; T const a1=%s; " % (("__builtin_exp(-2*PI*f/fs)", "-e") if lp else ("__builtin_exp(-2*PI*(T(0.5)-f/fs))", "e"))
            D = "auto const k=onepole_design<%s>(fc,fsmp); static_assert(sizeof(k.b.b0)==sizeof(T),\"\"); " % R
            mk = U + D + "auto q=make_onepole(k); "

            def add(nm, more, code, spec, what):
                pr.append(Probe("%s_%s_%s" % (nm, kind, tag), args + more, code, E + spec, what + " " + d))
            add("coef", [OUT("c", T, 2)], U + D + "c[0]=k.b.b0;c[1]=k.a.a1;", "c[0]=1-e;c[1]=a1;", "coefficients of a")
            add("make", [OUT("c", T, 3)], mk + "c[0]=q.coeff_b().b0;c[1]=q.coeff_a().a1;c[2]=q.state().v1;", "c[0]=1-e;c[1]=a1;c[2]=0;", "filter made from a")
            add("gain", [OUT("c", T, 2)], mk + "auto const r=response(q,T(%s)); c[0]=r.real();c[1]=r.imag();" % ("0" if lp else "0.5"), "c[0]=1;c[1]=0;", "gain of a")
            add("step", [IN("x", T, 2), OUT("y", T, 2)], mk + "y[0]=q.step(x[0]); y[1]=q.step(x[1]);", "y[0]=(1-e)*x[0]; y[1]=(1-e)*x[1]-a1*y[0];", "samples through a")
    for T in ("double", "float"):
        pr.append(Probe("mk_%s" % T, [IN("k", T, 2), OUT("c", T, 3)], "onepole_designs::OnePoleCoeffT<%s> const d{{k[0]},{k[1]}}; auto q=make_onepole(d); c[0]=q.coeff_b().b0;c[1]=q.coeff_a().a1;c[2]=q.state().v1;" % T, "c[0]=k[0];c[1]=k[1];c[2]=0;", "make_onepole() (%s)" % T))
    ctx.run_suites([Suite("onepoledesign", PRE, pr)])
    return ctx.finish(META)
