from .bq import *

META = dict(
    title="Poles, zeros, ZPK construction and stability agree with the coefficients",
    statement="The poles and zeros of a bi-quad are the roots of its denominator and numerator, complex pairs being conjugate, and a section constructed from zeros, poles and gain has exactly those. It is reported stable if and only if neither pole lies outside the unit circle; in a cascade, if and only if every section in it is stable.",
    over=["inputs"],
    text="all coefficients, all real and conjugate root pairs, in double and float, desktop and AVR; the boundary cases (double roots, roots on the unit circle) included",
    why="Real, double and complex roots, and roots on either side of the unit circle, take different paths; tests sample one or two of them.",
    files=["include/dsp/biquad.hpp", "include/dsp/biquad-cascade.hpp", "include/std/complex.hpp"],
    mechanism=[("solve(), poles(), zeros(), is_stable(), to_coeff()", "include/dsp/biquad.hpp"), ("is_stable()", "include/dsp/biquad-cascade.hpp"), ("complex square root and magnitude", "include/std/complex.hpp")],
    how="sum and product of the returned roots are reduced (with sqrt(e)^2 = e, by sign of the discriminant) and compared with the coefficients of the polynomial; stability is compared with the condition on the magnitudes of its roots",
    note="real-number semantics; the leading coefficient is taken to be non-zero",
    technique=VF)

ROOTS = "T r0=R.s0.real(), i0=R.s0.imag(), r1=R.s1.real(), i1=R.s1.imag(); o[0]=r0+r1; o[1]=i0+i1; o[2]=r0*r1-i0*i1; o[3]=r0*i1+i0*r1;"
WANT = "o[0]=-(%s); o[1]=0; o[2]=%s; o[3]=0;"
# both roots of x^2 + p x + q within the unit circle
INSIDE = ("bool %s; { T const D=(%s)*(%s)-4*(%s); if(D<=0) %s= (%s)<=1; else { T const r=__builtin_sqrt(D); T const u=(-(%s)+r)/2, v=(-(%s)-r)/2; %s= u*u<=1 && v*v<=1; } }")


def inside(v, p, q):
    return INSIDE % (v, p, p, q, v, q, p, p, v)


def check(ctx):
    for t in T2:
        pr = []
        for T in ("double", "float"):
            d = " (%s)" % T
            U = "using T=%s; " % T
            ab = [IN("b", T, 3), IN("a", T, 2)]

            def add(nm, args, code, spec, what, **k):
                pr.append(Probe("%s_%s" % (nm, T), args, U + code, U + spec, what + d, **k))
            o4 = OUT("o", T, 4)
            add("solve", [S("a", T), S("b", T), S("c", T), o4], "auto const R=solve(a,b,c);" + ROOTS, WANT % ("b/a", "c/a"), "solve() yields the roots of a quadratic polynomial")
            add("solvem", [S("b", T), S("c", T), o4], "auto const R=solve(T(1),b,c);" + ROOTS, WANT % ("b", "c"), "solve() yields the roots of a monic polynomial")
            add("poles", ab + [o4], bq(T) + "auto const R=q.poles();" + ROOTS, WANT % ("a[0]", "a[1]"), "poles() are the roots of the denominator")
            add("zeros", ab + [o4], bq(T) + "auto const R=q.zeros();" + ROOTS, WANT % ("b[1]/b[0]", "b[2]/b[0]"), "zeros() are the roots of the numerator")
            add("poles_b", [IN("b", T, 3), OUT("o", T, 4)], "BiQuadT<T> q({b[0],b[1],b[2]}); auto const R=q.poles(); o[0]=R.s0.real();o[1]=R.s0.imag();o[2]=R.s1.real();o[3]=R.s1.imag();",
                "o[0]=o[1]=o[2]=o[3]=0;", "the poles of a FIR section are at the origin")
            # ZPK: conjugate pairs and real pairs
            kinds = {"c": ("{Cx(%s[0],%s[1]),Cx(%s[0],-%s[1])}", "2*%s[0]", "%s[0]*%s[0]+%s[1]*%s[1]"), "r": ("{Cx(%s[0],0),Cx(%s[1],0)}", "%s[0]+%s[1]", "%s[0]*%s[1]")}

            def f(s, v):
                return s.replace("%s", v)
            for kz in kinds:
                for kp in kinds:
                    z, p = kinds[kz], kinds[kp]
                    args = [IN("z", T, 2), IN("p", T, 2), S("k", T)]
                    mkq = "using Cx=BiQuadT<T>::Complex; BiQuadT<T> q(BiQuadT<T>::Solution%s,BiQuadT<T>::Solution%s,k);" % (f(z[0], "z"), f(p[0], "p"))
                    add("zpk_%s%s" % (kz, kp), args + [OUT("c", T, 5), OUT("w", T, 2)], mkq + coef("q", 0) + state("q", 0),
                        "c[0]=k; c[1]=-k*(%s); c[2]=k*(%s); c[3]=-(%s); c[4]=%s; w[0]=w[1]=0;" % (f(z[1], "z"), f(z[2], "z"), f(p[1], "p"), f(p[2], "p")), "construction from zeros, poles and gain")
                    add("zpkp_%s%s" % (kz, kp), args + [o4], mkq + "auto const R=q.poles();" + ROOTS, WANT % ("-(%s)" % f(p[1], "p"), f(p[2], "p")), "poles() of a section constructed from zeros, poles and gain")
                    add("zpkz_%s%s" % (kz, kp), args + [o4], mkq + "auto const R=q.zeros();" + ROOTS, WANT % ("-(%s)" % f(z[1], "z"), f(z[2], "z")), "zeros() of a section constructed from zeros, poles and gain")
            add("roundtrip", ab + [OUT("c", T, 5)], bq(T) + "BiQuadT<T> p(q.zeros(),q.poles(),b[0]);" + coef("p", 0), "c[0]=b[0];c[1]=b[1];c[2]=b[2];c[3]=a[0];c[4]=a[1];",
                "zeros, poles and gain of a section reproduce it")
            add("stable", ab + [OUT("o", "int", 1)], bq(T) + "o[0]= q.is_stable()?1:0;", inside("s", "a[0]", "a[1]") + "o[0]=s?1:0;", "is_stable()")
            add("stable_b", [IN("b", T, 3), OUT("o", "int", 1)], "BiQuadT<T> q({b[0],b[1],b[2]}); o[0]= q.is_stable()?1:0;", "o[0]=1;", "is_stable() of a FIR section")
            add("stable_run", ab + [OUT("o", "int", 1), IN("x", T, 2)], bq(T) + "q.step(x[0]);q.step(x[1]); o[0]= q.is_stable()?1:0;", inside("s", "a[0]", "a[1]") + "o[0]=s?1:0;", "is_stable() does not depend on the state")
            # what is asked of a section follows its coefficients, whatever was asked before they came
            two = [IN("b", T, 3), IN("a", T, 2), IN("b2", T, 3), IN("a2", T, 2)]
            sv = inside("s", "a[0]", "a[1]") + inside("s2", "a2[0]", "a2[1]")
            ask = "(void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)p.poles(); (void)p.zeros(); (void)p.is_stable(); "
            for nm, act, want in (("swap", "q.swap(p);", "s2s"), ("swapf", "std20::swap(q,p);", "s2s"), ("assign", "q=p;", "s2s2"), ("copy", "BiQuadT<T> r(q); p=r;", "ss"), ("fresh", "q=BiQuadT<T>({b2[0],b2[1],b2[2]},{a2[0],a2[1]});", "s2s2")):
                w = ("s2" if want.startswith("s2") else "s", "s2" if want.endswith("s2") else "s")
                add("stable_" + nm, two + [OUT("o", "int", 2)], bq(T) + bq(T, "p", "b2", "a2") + ask + act + " o[0]=q.is_stable()?1:0; o[1]=p.is_stable()?1:0;", sv + "o[0]=%s?1:0; o[1]=%s?1:0;" % w, "is_stable() after %s" % act)
                add("roots_" + nm, two + [OUT("o", T, 4)], bq(T) + bq(T, "p", "b2", "a2") + ask + act + " auto const R=q.poles();" + ROOTS, WANT % (("a2[0]", "a2[1]") if w[0] == "s2" else ("a[0]", "a[1]")), "poles() after %s" % act)
        ctx.run_suites([Suite("bqroots", BPRE, pr, target=t)])
        pr = []
        for T in ("double",):
            U = "using T=%s; " % T
            for n in (0, 1, 2, 3):
                mkc = "BiQuadCascadeT<T,4> q;" + "".join("q.append(BiQuadT<T>({b[0],b[1],b[2]},{a[%d],a[%d]}));" % (2 * i, 2 * i + 1) for i in range(n))
                pr.append(Probe("cstable_%d" % n, [IN("b", T, 3), IN("a", T, 2 * n + 2), OUT("o", "int", 1)], U + mkc + "o[0]= is_stable(q)?1:0;",
                                U + "bool all=true;" + "".join(inside("s%d" % i, "a[%d]" % (2 * i), "a[%d]" % (2 * i + 1)) + "all=all&&s%d;" % i for i in range(n)) + "o[0]=all?1:0;",
                                "is_stable() of a cascade of %d sections" % n))
            mkc = "BiQuadCascadeT<T,4> q;" + "".join("BiQuadT<T> s%d({b[0],b[1],b[2]},{a[%d],a[%d]});" % (i, 2 * i, 2 * i + 1) for i in range(3)) + "q.append(s0); q.append(s1); (void)is_stable(q); (void)response(q,T(0.25)); "
            for nm, act, keep in (("replace", "q.replace(0,s2);", "21"), ("remove", "q.remove(0);", "1"), ("removelast", "q.remove(1);", "0"), ("insert", "q.insert(0,s2);", "201"), ("append", "q.append(s2);", "012"), ("clear", "q.clear(); (void)is_stable(q); q.append(s2);", "2"),
                                  ("assign", "BiQuadCascadeT<T,4> z; z.append(s2); (void)is_stable(z); q=z;", "2"), ("swapin", "q.begin()->swap(s2);", "21"), ("reset", "step(q,T(1)); reset(q);", "01")):
                pr.append(Probe("cstable_%s" % nm, [IN("b", T, 3), IN("a", T, 6), OUT("o", "int", 1)], U + mkc + act + " o[0]= is_stable(q)?1:0;",
                                U + "bool all=true;" + "".join(inside("s%s" % i, "a[2*%s]" % i, "a[2*%s+1]" % i) + "all=all&&s%s;" % i for i in keep) + "o[0]=all?1:0;", "is_stable() of a cascade after " + act))
        ctx.run_suites([Suite("cascadestable", CPRE, pr, target=t)])
    return ctx.finish(META)
