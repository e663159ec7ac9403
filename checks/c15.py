from .bq import *

META = dict(
    title="The frequency response is the transfer function on the unit circle",
    statement="At a frequency given as fraction of the sampling frequency, the response of a bi-quad is its transfer function evaluated at that point of the unit circle, that of a cascade is the product over its sections, and neither depends on or changes the filter state. In particular the response at zero frequency is the gain for constant input and that at half the sampling frequency the gain for alternating input.",
    over=["inputs"],
    text="all coefficients and all frequencies, cascades of 0 to 4, 6 and 8 sections, double and float, desktop and AVR",
    why="The existing tests never evaluate a response; a wrong sign of the exponent only shows in the phase, a wrong factor only away from zero frequency.",
    files=["include/dsp/biquad.hpp", "include/dsp/biquad-cascade.hpp", "include/std/complex.hpp", "include/num/constants.hpp"],
    mechanism=[("response()", "include/dsp/biquad.hpp"), ("response()", "include/dsp/biquad-cascade.hpp")],
    how="real and imaginary part are compared, as rational functions of the coefficients and of sine and cosine of the angle (whose addition laws the domain knows), with the transfer function",
    note="real-number semantics; the denominator is taken to be non-zero",
    technique=VF)

H = "{ T const w=2*PI*f; T const c1=__builtin_cos(w),s1=-__builtin_sin(w),c2=__builtin_cos(2*w),s2=-__builtin_sin(2*w); T const nr=%s+%s*c1+%s*c2, ni=%s*s1+%s*s2, dr=1+%s*c1+%s*c2, di=%s*s1+%s*s2, dd=dr*dr+di*di; hr=(nr*dr+ni*di)/dd; hi=(ni*dr-nr*di)/dd; }"


def h(b0, b1, b2, a1, a2):
    return H % (b0, b1, b2, b1, b2, a1, a2, a1, a2)


def check(ctx):
    for t in T2:
        pr, pc = [], []
        for T in ("double", "float"):
            d = " (%s)" % T
            U = "using T=%s; T const PI=T(3.14159265358979323846264338327950288L); " % T
            ab = [IN("b", T, 3), IN("a", T, 2)]

            def add(nm, args, code, spec, what, l=pr, **k):
                l.append(Probe("%s_%s" % (nm, T), args, U + code, U + spec, what + d, **k))
            o2 = OUT("o", T, 2)
            sp = "T hr,hi; " + h("b[0]", "b[1]", "b[2]", "a[0]", "a[1]") + "o[0]=hr;o[1]=hi;"
            add("resp", ab + [S("f", T), o2], bq(T) + "auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();", sp, "response()")
            add("resp_run", ab + [S("f", T), IN("x", T, 2), o2, OUT("w", T, 2)], bq(T) + "q.step(x[0]); q.step_df2_transposed(x[1]); auto const s0=q.state(); auto const r=response(q,f); o[0]=r.real();o[1]=r.imag(); auto const s1=q.state(); w[0]=s1.v1-s0.v1; w[1]=s1.v2-s0.v2;",
                sp + "w[0]=w[1]=0;", "response() of a running filter")
            add("dc", ab + [o2], bq(T) + "auto const r=response(q,0); o[0]=r.real();o[1]=r.imag();", "o[0]=(b[0]+b[1]+b[2])/(1+a[0]+a[1]); o[1]=0;", "response() at zero frequency is the gain for constant input")
            add("nyq", ab + [o2], bq(T) + "auto const r=response(q,T(0.5)); o[0]=r.real();o[1]=r.imag();", "o[0]=(b[0]-b[1]+b[2])/(1-a[0]+a[1]); o[1]=0;", "response() at half the sampling frequency is the gain for alternating input")
            add("neg", ab + [S("f", T), o2], bq(T) + "auto const r=response(q,-f); o[0]=r.real();o[1]=r.imag();", sp + "o[1]=-o[1];", "the response at negative frequencies is conjugate")
            add("fir", [IN("b", T, 3), S("f", T), o2], "BiQuadT<T> q({b[0],b[1],b[2]}); auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();", "T hr,hi; " + h("b[0]", "b[1]", "b[2]", "0", "0") + "o[0]=hr;o[1]=hi;", "response() of a FIR section")
            for n in list(range(0, 5 if ctx.tier == "thorough" else 4)) + ([6, 8] if T == "double" else []):
                mkc = "BiQuadCascadeT<T,%d> q;" % max(n, 4) + "".join("q.append(BiQuadT<T>({c[%d],c[%d],c[%d]},{c[%d],c[%d]}));" % tuple(range(5 * i, 5 * i + 5)) for i in range(n))
                add("casc%d" % n, [IN("c", T, 5 * n + 1), S("f", T), o2], mkc + "auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();",
                    "T hr,hi,pr=1,pi=0; " + "".join(h(*["c[%d]" % j for j in range(5 * i, 5 * i + 5)]) + "{ T const u=pr*hr-pi*hi; pi=pr*hi+pi*hr; pr=u; }" for i in range(n)) + "o[0]=pr;o[1]=pi;",
                    "response() of a cascade of %d sections" % n, pc)
            add("casc_run", [IN("c", T, 5), S("f", T), IN("x", T, 1), o2, OUT("y", T, 1)], "BiQuadCascadeT<T,4> q(BiQuadT<T>({c[0],c[1],c[2]},{c[3],c[4]})); step(q,x[0]); (void)response(q,f); auto const r=response(q,f); o[0]=r.real();o[1]=r.imag(); y[0]=step(q,x[0]);",
                "T hr,hi; " + h(*["c[%d]" % j for j in range(5)]) + "o[0]=hr;o[1]=hi; T w0=x[0]; T w1=x[0]-c[3]*w0; y[0]=c[0]*w1+c[1]*w0;", "response() of a running cascade", pc)
            two = [IN("b", T, 3), IN("a", T, 2), IN("c", T, 5), S("f", T), S("g", T), OUT("o", T, 2)]
            mk2 = bq(T) + "BiQuadT<T> p({c[0],c[1],c[2]},{c[3],c[4]}); (void)response(q,f); (void)response(p,f); (void)response(q,g); "
            for nm, act, w in (("swap", "q.swap(p);", 1), ("assign", "q=p;", 1), ("copy", "BiQuadT<T> rr(q); p=rr; (void)response(p,g); q=p;", 0), ("reset", "q.step(f); q.reset();", 0)):
                add("resp_" + nm, two, mk2 + act + " auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();", "T hr,hi; " + (h(*["c[%d]" % j for j in range(5)]) if w else h("b[0]", "b[1]", "b[2]", "a[0]", "a[1]")) + "o[0]=hr;o[1]=hi;", "response() after " + act)
            mkc = "BiQuadCascadeT<T,4> q;" + "".join("BiQuadT<T> s%d({c[%d],c[%d],c[%d]},{c[%d],c[%d]});" % tuple([i] + list(range(5 * i, 5 * i + 5))) for i in range(3)) + "q.append(s0); q.append(s1); (void)response(q,f); (void)is_stable(q); "
            for nm, act, keep in (("replace", "q.replace(0,s2);", "21"), ("remove", "q.remove(0);", "1"), ("insert", "q.insert(1,s2);", "021"), ("clear", "q.clear(); q.append(s2);", "2"), ("assign", "BiQuadCascadeT<T,4> z; z.append(s2); (void)response(z,f); q=z;", "2"), ("swapin", "q.begin()->swap(s2);", "21")):
                add("casc_" + nm, [IN("c", T, 15), S("f", T), OUT("o", T, 2)], mkc + act + " auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();",
                    "T hr,hi,pr=1,pi=0; " + "".join(h(*["c[%d]" % j for j in range(5 * int(i), 5 * int(i) + 5)]) + "{ T const u=pr*hr-pi*hi; pi=pr*hi+pi*hr; pr=u; }" for i in keep) + "o[0]=pr;o[1]=pi;", "response() of a cascade after " + act, pc)
        ctx.run_suites([Suite("bqresp", BPRE, pr, target=t), Suite("casresp", CPRE, pc, target=t)])
    ctx.witnesses(CPRE, [
        ("const_section", "BiQuadT<double> const q({1,2,3},{4,5}); auto const r=response(q,0.1); auto const s=response(q,1); (void)r; (void)s;", True, "response of a constant section"),
        ("const_cascade", "BiQuadCascadeT<double,3> const q{}; auto const r=response(q,0.1); (void)r; bool const b=is_stable(q); (void)b;", True, "response and stability of a constant cascade"),
        ("temporary", "auto const r=response(BiQuadT<double>({1,2,3},{4,5}),0.1); auto const s=response(BiQuadCascadeT<double,3>{},0.1); (void)r; (void)s; bool const b=is_stable(BiQuadCascadeT<double,3>{}); (void)b;", True, "response of temporaries"),
    ], ("desktop", "gcc"))
    return ctx.finish(META)
