from .bq import *

META = dict(
    title="Bi-quad designs are the bilinear transforms of their analog prototypes",
    statement="For every filter type, gain, corner frequency, sampling frequency and Q, the designed coefficients are those of the second-order analog prototype of that type, bilinearly transformed with the corner frequency pre-warped, normalised to a0 = 1. Shelving and peak filters boost for a positive and cut by the inverse filter for a negative gain, by the voltage ratio of its magnitude; a bi-quad made from a design, and the ready-made low-pass and high-pass filter, start cleared and filter with exactly its coefficients.",
    over=["inputs", "configurations"],
    text="the seven filter types, all gains (either sign), frequencies and Q; parameters in double, float, integer and mixed types",
    why="Sample points of a response do not distinguish nearby wrong coefficients, and boost and cut take different paths.",
    files=["include/dsp/biquad-design.hpp", "include/dsp/filter-design.hpp", "include/dsp/filter.hpp"],
    mechanism=[("biquad_design_method<...>::design()", "include/dsp/biquad-design.hpp"), ("biquad_design(), make_biquad()", "include/dsp/biquad-design.hpp"), ("Lpf, Hpf", "include/dsp/filter.hpp"), ("prewarp(), dbV_factor()", "include/dsp/filter-design.hpp")],
    how="each coefficient is compared, as a rational function in tan(pi f/fs), Q and the gain factor, with the bilinear transform of the analog prototype",
    note="real-number semantics; desktop (the designs need <cmath>); prototypes as in the source the library cites (N. Redmon, biquad)",
    technique=VF)

DPRE = '#include "dsp/biquad-design.hpp"\nusing namespace dsp;\n'
# (numerator, denominator) n2 s^2 + n1 s + n0; shelves and peak: boost, the cut is the reciprocal
PROTO = {
    "low_pass": ("0", "0", "1", "1", "1/Q", "1"), "high_pass": ("1", "0", "0", "1", "1/Q", "1"), "band_pass": ("0", "1/Q", "0", "1", "1/Q", "1"),
    "band_stop": ("1", "0", "1", "1", "1/Q", "1"), "low_shelf": ("1", "__builtin_sqrt(2*V)", "V", "1", "__builtin_sqrt(T(2))", "1"),
    "high_shelf": ("V", "__builtin_sqrt(2*V)", "1", "1", "__builtin_sqrt(T(2))", "1"), "peak_band_eq": ("1", "V/Q", "1", "1", "1/Q", "1"),
}
BIL = ("T const n2=%s,n1=%s,n0=%s,d2=%s,d1=%s,d0=%s; T const A0=d2+d1*K+d0*K*K; c[0]=(n2+n1*K+n0*K*K)/A0; c[1]=2*(n0*K*K-n2)/A0; c[2]=(n2-n1*K+n0*K*K)/A0; c[3]=2*(d0*K*K-d2)/A0; c[4]=(d2-d1*K+d0*K*K)/A0;")


def spec(kind, T, par="T const g=dbg,f=fc,fs=fsmp,Q=q;"):
    p = PROTO[kind]
    s = "using T=%s; T const PI=T(3.14159265358979323846264338327950288L); %s T const K=__builtin_tan(PI*f/fs); " % (T, par)
    if kind in ("low_shelf", "high_shelf", "peak_band_eq"):
        s += "T const V=__builtin_exp((g<0?-g:g)/20*__builtin_log(T(10))); if(g<0) { %s } else { %s }" % (BIL % (p[3:] + p[:3]), BIL % p)
    else:
        s += BIL % p
    return s


def check(ctx):
    pr = []
    for kind in PROTO:
        R = "FilterResponse::" + kind
        D = "{ auto const & ca=%s.a; auto const & cb=%s.b; c[0]=cb.b0;c[1]=cb.b1;c[2]=cb.b2;c[3]=ca.a1;c[4]=ca.a2; }"
        for tag, T, ty in (("d", "double", ("double",) * 4), ("f", "float", ("float",) * 4), ("i", "double", ("int", "int", "int", "double")), ("m", "double", ("double", "float", "int", "float")),
                           ("l", "float", ("int", "int", "int", "int")), ("s", "double", ("double", "double", "long", "int")), ("u", "double", ("short", "unsigned", "unsigned", "double"))):
            args = [S("dbg", ty[0]), S("fc", ty[1]), S("fsmp", ty[2]), S("q", ty[3])]
            d = " design (%s)" % ", ".join(ty)
            pr.append(Probe("design_%s_%s" % (kind, tag), args + [OUT("c", T, 5)], "auto const r=biquad_design<%s>(dbg,fc,fsmp,q); static_assert(sizeof(r.b.b0)==sizeof(%s),\"\");" % (R, T) + D % ("r", "r"), spec(kind, T), kind + d))
            pr.append(Probe("make_%s_%s" % (kind, tag), args + [OUT("c", T, 5), OUT("w", T, 2)], "auto q_=make_biquad(biquad_design<%s>(dbg,fc,fsmp,q));" % R + coef("q_", 0) + state("q_", 0), spec(kind, T) + " w[0]=w[1]=0;", "bi-quad made from a " + kind + d))
    # an independent consequence: pole-zero form of the whole design at the corner frequency and at the band edges is implied by the coefficients
    for T in ("double", "float"):
        pr.append(Probe("make_%s" % T, [IN("b", T, 3), IN("a", T, 2), OUT("c", T, 5), OUT("w", T, 2)],
                        "biquad_designs::BiquadCoeffT<%s> const k{{b[0],b[1],b[2]},{a[0],a[1]}}; auto q=make_biquad(k);" % T + coef("q", 0) + state("q", 0), "for(int i=0;i<3;++i) c[i]=b[i]; c[3]=a[0];c[4]=a[1];w[0]=w[1]=0;", "make_biquad() (%s)" % T))
    fl = []
    for T in ("double", "float"):
        for F, kind in (("Lpf", "low_pass"), ("Hpf", "high_pass")):
            fl.append(Probe("%s_%s" % (F, T), [S("f3", T), S("fsmp", T), S("q", T), IN("x", T, 3), OUT("y", T, 3)],
                            "%s<%s> f(f3,fsmp,q); for(int i=0;i<3;++i) y[i]=f(x[i]);" % (F, T),
                            "%s c[5]; { T1 } T v1=0,v2=0; for(int i=0;i<3;++i) { T const w=x[i]-c[3]*v1-c[4]*v2; y[i]=c[0]*w+c[1]*v1+c[2]*v2; v2=v1; v1=w; }".replace("{ T1 }", spec(kind, T, "T const f=f3,fs=fsmp,Q=q;").replace("using T=%s;" % T, "")).replace("%s c[5];", "using T=%s; T c[5];" % T, 1),
                            "%s<%s> over three samples" % (F, T)))
    ctx.run_suites([Suite("design", DPRE, pr), Suite("filter", '#include "dsp/filter.hpp"\nusing namespace dsp;\n', fl)])
    return ctx.finish(META)
