from .bq import *

META = dict(
    title="A bi-quad computes its difference equation, in every form",
    statement="Fed a sequence of samples from a cleared state, a bi-quad section returns for every sample y = b0 x + b1 x' + b2 x'' - a1 y' - a2 y'' of the two previous inputs and outputs. The default, direct form 2 and transposed direct form 2 steps agree on it, for every arithmetic and coefficient type.",
    over=["inputs", "histories"],
    text="all coefficients and all sample sequences of up to 12 (thorough: 24) samples, in double, float, complex, integer and mixed types, and of 300 (1100) samples in double; any number of samples for given coefficients; desktop and AVR",
    why="Tests feed a handful of constant samples to simple gains; a wrong tap, sign or state update that cancels for them passes.",
    files=["include/dsp/biquad.hpp"],
    mechanism=[("step, step_df2, step_df2_transposed", "include/dsp/biquad.hpp: BiQuadT")],
    how="the outputs of an unrolled sample sequence are compared, as polynomials in all coefficients and samples, with the difference equation",
    note="real-number semantics; sequence length enumerated (the state has two elements, so the recursion repeats from the third sample on)",
    technique=VF)

CX = "#include <complex>\n"


def check(ctx):
    n = 24 if ctx.tier == "thorough" else 12
    spec = ("T x1=T(0),x2=T(0),y1=T(0),y2=T(0); for(int i=0;i<%d;++i){ T const v=X(i); T const r=B(0)*v+B(1)*x1+B(2)*x2-A(0)*y1-A(1)*y2; OUT(i,r); x2=x1;x1=v;y2=y1;y1=r; }")
    for t in T2:
        pr = []
        for T in ("double", "float"):
            d = " (%s)" % T
            args = [IN("b", T, 3), IN("a", T, 2), IN("x", T, n), OUT("y", T, n)]
            sp = ("using T=%s;\n#undef X\n#undef A\n#undef B\n#undef OUT\n#define X(i) x[i]\n#define A(i) a[i]\n#define B(i) b[i]\n#define OUT(i,r) y[i]=r\n" % T) + spec % n
            for f in FORMS:
                pr.append(Probe("%s_%s" % (f, T), args, bq(T) + "for(int i=0;i<%d;++i) y[i]=q.%s(x[i]);" % (n, f), sp, "%s() on %d samples" % (f, n) + d))
            if T == "double":
                L = 1100 if ctx.tier == "thorough" else 300
                spl = ("using T=%s;\n#undef X\n#undef A\n#undef B\n#undef OUT\n#define X(i) x[i]\n#define A(i) a[i]\n#define B(i) b[i]\n#define OUT(i,r) y[i]=r\n" % T) + spec % L
                for f in FORMS:
                    pr.append(Probe("long_%s" % f, [IN("b", T, 3), IN("a", T, 2), IN("x", T, L), OUT("y", T, L)], bq(T) + "for(int i=0;i<%d;++i) y[i]=q.%s(x[i]);" % (L, f), spl, "%s() on %d samples" % (f, L) + d))
            # from the state two earlier samples leave behind: any form may start; the default form continues df2
            pr.append(Probe("mix_%s" % T, args, bq(T) + "for(int i=0;i<%d;++i) y[i]= i%%2 ? q.step_df2(x[i]) : q.step(x[i]);" % n, sp, "the default form continues direct form 2" + d))
            pr.append(Probe("bonly_%s" % T, [IN("b", T, 3), IN("x", T, 4), OUT("y", T, 12)],
                            "".join("{ BiQuadT<%s> q({b[0],b[1],b[2]}); for(int i=0;i<4;++i) y[%d+i]=q.%s(x[i]); }" % (T, 4 * k, f) for k, f in enumerate(FORMS)),
                            "%s z[6]={0,0,x[0],x[1],x[2],x[3]}; for(int k=0;k<3;++k) for(int i=0;i<4;++i) y[4*k+i]=b[0]*z[i+2]+b[1]*z[i+1]+b[2]*z[i];" % T, "a section with b-coefficients only is a FIR filter" + d))
        if t == "desktop":
            T, S_ = "double", "float"
            sp = "using T=double;\n#undef X\n#undef A\n#undef B\n#undef OUT\n#define X(i) x[i]\n#define A(i) T(a[i])\n#define B(i) T(b[i])\n#define OUT(i,r) y[i]=r\n" + spec % n
            for f in FORMS:
                pr.append(Probe("%s_df" % f, [IN("b", S_, 3), IN("a", S_, 2), IN("x", T, n), OUT("y", T, n)], bq(T, S_=S_) + "for(int i=0;i<%d;++i) y[i]=q.%s(x[i]);" % (n, f), sp,
                                "%s() on %d samples (double, float coefficients)" % (f, n)))
            m = 4
            sp = ("using T=std::complex<double>;\n#undef X\n#undef A\n#undef B\n#undef OUT\n#define X(i) T(x[2*(i)],x[2*(i)+1])\n#define A(i) T(a[2*(i)],a[2*(i)+1])\n#define B(i) T(b[2*(i)],b[2*(i)+1])\n"
                  "#define OUT(i,r) { y[2*(i)]=(r).real(); y[2*(i)+1]=(r).imag(); }\n" + spec % m)
            for f in FORMS:
                pr.append(Probe("%s_cx" % f, [IN("b", T, 6), IN("a", T, 4), IN("x", T, 2 * m), OUT("y", T, 2 * m)],
                                "using T=std::complex<double>; BiQuadT<T> q({T(b[0],b[1]),T(b[2],b[3]),T(b[4],b[5])},{T(a[0],a[1]),T(a[2],a[3])});"
                                "for(int i=0;i<%d;++i) { T const r=q.%s(T(x[2*i],x[2*i+1])); y[2*i]=r.real(); y[2*i+1]=r.imag(); }" % (m, f), sp, "%s() on %d samples (complex<double>)" % (f, m)))
        lt = []
        for T in ("double", "float"):
            for f in FORMS:
                lt.append(Probe("later_%s_%s" % (f, T), [OUT("o", T, 4)], "using T=%s; %s %s BiQuadT<T> q(s1); T x0=T(1.5), x1=0, x2=0, y0=0, y1=0, y2=0; " % (T, LCO, LSEC) + history.later_code("q", "y2=y1; y1=q.%s(x0)" % f) +
                                "x1=x2=x0; for(int i=0;i<4;++i) { x0=T(i)-T(2.25); y0=q.%s(x0); o[i]=y0-%s; x2=x1;x1=x0;y2=y1;y1=y0; }" % (f, df("b_", "a_", "x", "y")), "for(int i=0;i<4;++i) o[i]=0;",
                                "%s() after any number of samples (%s)" % (f, T)))
        ctx.run_suites([Suite("later", BPRE + history.DECL, lt, target=t)])
        # integers: values small enough for the intermediate results to be representable
        I_, lim, m = ("int", 9, 3) if t == "desktop" else ("long", 9, 3)
        sp = ("using T=%s;\n#undef X\n#undef A\n#undef B\n#undef OUT\n#define X(i) x[i]\n#define A(i) a[i]\n#define B(i) b[i]\n#define OUT(i,r) y[i]=r\n" % I_) + spec % m
        for f in FORMS:
            pr.append(Probe("%s_int" % f, [IN("b", I_, 3, lo=-lim, hi=lim), IN("a", I_, 2, lo=-lim, hi=lim), IN("x", I_, m, lo=-99, hi=99), OUT("y", I_, m)],
                            bq(I_) + "for(int i=0;i<%d;++i) y[i]=q.%s(x[i]);" % (m, f), sp, "%s() on %d samples (%s)" % (f, m, I_)))
        ctx.run_suites([Suite("biquad", (CX if t == "desktop" else "") + BPRE, pr, target=t)])
    return ctx.finish(META)
