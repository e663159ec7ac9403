from .bq import *

META = dict(
    title="A cascade filters by its sections in series, in order",
    statement="Each step of a cascade passes the sample through every section once, first to last, each by the requested form, and returns the output of the last; an empty cascade passes samples through. Resetting a cascade clears the state of each of its sections and nothing else.",
    over=["histories", "inputs"],
    text="cascades of 0 to 4 and of 9 sections, all coefficients, sequences of 10 (thorough: 16) samples and one of 300 (1000), any number for given coefficients, the three forms, double and float, desktop and AVR",
    why="Processing order and per-section state cannot be told apart with identical sections or a single sample, as in the tests.",
    files=["include/dsp/biquad-cascade.hpp", "include/dsp/biquad.hpp"],
    mechanism=[("step(), step_df2(), step_df2_transposed(), reset()", "include/dsp/biquad-cascade.hpp")],
    how="outputs and the states of all sections after an unrolled sample sequence are compared with an independent definition of sections in series",
    note="real-number semantics; number of sections and samples enumerated",
    technique=VF)

D2 = "T step(T x){ T const w=x-a1*v1-a2*v2; T const r=b0*w+b1*v1+b2*v2; v2=v1; v1=w; return r; }"
D2T = "T step(T x){ T const r=b0*x+v1; v1=b1*x-a1*r+v2; v2=b2*x-a2*r; return r; }"


def check(ctx):
    m = 8 if ctx.tier == "thorough" else 5
    for t in T2:
        pr = []
        for T in ("double", "float"):
            for n in [0, 1, 2, 3, 4] + ([9] if T == "double" else []):
                U = "using T=%s; " % T
                mkc = "BiQuadCascadeT<T,%d> q;" % max(n, 4) + "".join("q.append(BiQuadT<T>({c[%d],c[%d],c[%d]},{c[%d],c[%d]}));" % tuple(range(5 * i, 5 * i + 5)) for i in range(n))
                args = [IN("c", T, 5 * n + 1), IN("x", T, 2 * m), OUT("y", T, 2 * m), OUT("w", T, 2 * n + 1)]
                st = "".join("{ auto const s=q.state(%d); w[%d]=s.v1; w[%d]=s.v2; }" % (i, 2 * i, 2 * i + 1) for i in range(n)) + "w[%d]=0;" % (2 * n)

                def sp(d, reset):
                    s = "struct Q{ T b0,b1,b2,a1,a2,v1,v2; %s };" % d
                    s += "Q q[%d]={%s};" % (n + 1, ",".join("{%s,0,0}" % ",".join("c[%d]" % k for k in range(5 * i, 5 * i + 5)) for i in range(n)))
                    s += "for(int i=0;i<%d;++i) { T v=x[i]; for(int k=0;k<%d;++k) v=q[k].step(v); y[i]=v; }" % (m, n)
                    if reset:
                        s += "for(int k=0;k<%d;++k) q[k].v1=q[k].v2=0;" % n
                    s += "for(int i=%d;i<%d;++i) { T v=x[i]; for(int k=0;k<%d;++k) v=q[k].step(v); y[i]=v; }" % (m, 2 * m, n)
                    return U + s + "for(int k=0;k<%d;++k) { w[2*k]=q[k].v1; w[2*k+1]=q[k].v2; } w[%d]=0;" % (n, 2 * n)
                for f, d in (("step", D2), ("step_df2", D2), ("step_df2_transposed", D2T)):
                    dd = " of a cascade of %d section(s) (%s)" % (n, T)
                    run = "for(int i=%d;i<%d;++i) y[i]=" + f + "(q,x[i]);"
                    pr.append(Probe("%s_%d_%s" % (f, n, T), args, U + mkc + run % (0, 2 * m) + st, sp(d, False), f + "()" + dd))
                    pr.append(Probe("%s_r%d_%s" % (f, n, T), args, U + mkc + run % (0, m) + "reset(q);" + run % (m, 2 * m) + st, sp(d, True), f + "() and reset()" + dd))
                # reset leaves the coefficients
                if n:
                    pr.append(Probe("reset_%d_%s" % (n, T), [IN("c", T, 5 * n), IN("x", T, 2), OUT("d", T, 5 * n), OUT("k", "int", 1)], U + mkc + "step(q,x[0]); step_df2_transposed(q,x[1]); reset(q); k[0]=q.size();" +
                                    "".join("{ auto const ca=q.coeff_a(%d); auto const cb=q.coeff_b(%d); d[%d]=cb.b0;d[%d]=cb.b1;d[%d]=cb.b2;d[%d]=ca.a1;d[%d]=ca.a2; }" % ((i, i) + tuple(range(5 * i, 5 * i + 5))) for i in range(n)),
                                    "for(int i=0;i<%d;++i) d[i]=c[i]; k[0]=%d;" % (5 * n, n), "reset() of a cascade of %d section(s) keeps its coefficients (%s)" % (n, T)))
        # a long run: nothing happens after some number of samples
        L = 1000 if ctx.tier == "thorough" else 300
        for f, d in (("step", D2), ("step_df2_transposed", D2T)):
            pr.append(Probe("long_" + f, [IN("c", "double", 10), IN("x", "double", L), OUT("y", "double", L)],
                            "using T=double; BiQuadCascadeT<T,2> q; q.append(BiQuadT<T>({c[0],c[1],c[2]},{c[3],c[4]})); q.append(BiQuadT<T>({c[5],c[6],c[7]},{c[8],c[9]})); for(int i=0;i<%d;++i) y[i]=%s(q,x[i]);" % (L, f),
                            "using T=double; struct Q{ T b0,b1,b2,a1,a2,v1,v2; %s }; Q p={c[0],c[1],c[2],c[3],c[4],0,0},q={c[5],c[6],c[7],c[8],c[9],0,0}; for(int i=0;i<%d;++i) y[i]=q.step(p.step(x[i]));" % (d, L),
                            "%s() of a cascade on %d samples" % (f, L)))
        lt = []
        for f in ("step", "step_df2", "step_df2_transposed"):
            for T in ("double", "float"):
                pre = "using T=%s; %s %s BiQuadCascadeT<T,3> q; q.append(s1); q.append(s2); q.append(s1); auto p1=s1, p2=s2, p3=s1; " % (T, LCO, LSEC)
                st = "{ T const v=p3.%s(p2.%s(p1.%s(%%s))), w=%s(q,%%s); o[%%d]=w-v; }" % (f, f, f, f)
                lt.append(Probe("later_%s_%s" % (f, T), [OUT("o", T, 4)], pre + history.later_code("q", st % ("T(1.5)", "T(1.5)", 0)) + "".join(st % ("T(%d.25)" % (3 - 2 * i), "T(%d.25)" % (3 - 2 * i), i) for i in range(4)), "for(int i=0;i<4;++i) o[i]=0;",
                                "%s() of a cascade after any number of samples (%s)" % (f, T)))
                lt.append(Probe("later_reset_%s_%s" % (f, T), [OUT("o", T, 4)], pre + history.later_code("q", "%s(q,T(1.5)); reset(q)" % f) + "%s(q,T(1)); reset(q);" % f + "".join(st % ("T(%d.25)" % (3 - 2 * i), "T(%d.25)" % (3 - 2 * i), i) for i in range(4)), "for(int i=0;i<4;++i) o[i]=0;",
                                "%s() of a cascade after any number of samples and resets (%s)" % (f, T)))
        ctx.run_suites([Suite("later", CPRE + history.DECL, lt, target=t)])
        # sections removed from a cascade take no part
        for T in ("double",):
            pr.append(Probe("shrunk", [IN("c", T, 10), IN("x", T, 3), OUT("y", T, 3)], "using T=double; BiQuadCascadeT<T,3> q(BiQuadT<T>({c[0],c[1],c[2]},{c[3],c[4]}),BiQuadT<T>({c[5],c[6],c[7]},{c[8],c[9]})); q.remove(1); for(int i=0;i<3;++i) y[i]=step(q,x[i]);",
                            "double v1=0,v2=0; for(int i=0;i<3;++i) { double const w=x[i]-c[3]*v1-c[4]*v2; y[i]=c[0]*w+c[1]*v1+c[2]*v2; v2=v1; v1=w; }", "a removed section takes no part"))
            pr.append(Probe("keep", [IN("c", T, 10), IN("x", T, 3), OUT("y", T, 3)], "using T=double; BiQuadCascadeT<T,3> q(BiQuadT<T>({c[0],c[1],c[2]},{c[3],c[4]})); y[0]=step(q,x[0]); q.append(BiQuadT<T>({c[5],c[6],c[7]},{c[8],c[9]})); y[1]=step(q,x[1]); y[2]=step(q,x[2]);",
                            "struct Q{ double b0,b1,b2,a1,a2,v1,v2; double step(double x){ double const w=x-a1*v1-a2*v2; double const r=b0*w+b1*v1+b2*v2; v2=v1; v1=w; return r; } } p={c[0],c[1],c[2],c[3],c[4],0,0},q={c[5],c[6],c[7],c[8],c[9],0,0};"
                            "y[0]=p.step(x[0]); y[1]=q.step(p.step(x[1])); y[2]=q.step(p.step(x[2]));", "a section added to a running cascade starts cleared, the others go on"))
        ctx.run_suites([Suite("cstep", CPRE, pr, target=t)])
    return ctx.finish(META)
