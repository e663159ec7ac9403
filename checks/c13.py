from .bq import *

META = dict(
    title="A bi-quad keeps exactly its coefficients and filter state",
    statement="A bi-quad stores the coefficients it was constructed with and starts cleared; only stepping changes its state, by the textbook update of the form used. Reset restores the cleared state without touching coefficients, copies evolve independently, swap exchanges two filters completely, and observers modify nothing.",
    over=["histories", "inputs"],
    text="all coefficients, all samples, all orders of the enumerated operations, any number of repetitions of one for given coefficients, double/float/mixed/complex sections, desktop and AVR",
    why="Forgetting one delay element in reset or one coefficient in swap shows only after particular histories.",
    files=["include/dsp/biquad.hpp", "include/std/utility.hpp"],
    mechanism=[("reset(), swap(), constructors, coeff_a(), coeff_b(), state()", "include/dsp/biquad.hpp: BiQuadT"), ("swap()", "include/std/utility.hpp")],
    how="coefficients, state and subsequent outputs after each operation sequence are compared with an independent definition of the section (state equations of direct form 2 and of its transposed form)",
    note="real-number semantics; operation sequences enumerated",
    technique=VF)

D2 = "{ T const w=x-a[0]*v1-a[1]*v2; r=b[0]*w+b[1]*v1+b[2]*v2; v2=v1; v1=w; }"
D2T = "{ T const t=x; r=b[0]*t+v1; v1=b[1]*t-a[0]*r+v2; v2=b[2]*t-a[1]*r; }"


def check(ctx):
    n = 12 if ctx.tier == "thorough" else 8
    for t in T2:
        pr = []
        for T, S_ in (("double", None), ("float", None)) + ((("double", "float"),) if t == "desktop" else ()):
            C = S_ or T
            d = " (%s%s)" % (T, "," + S_ if S_ else "")
            tag = "%s_%s" % (T, S_ or "")
            BT = "BiQuadT<%s%s>" % (T, "," + S_ if S_ else "")
            ab = [IN("b", C, 3), IN("a", C, 2)]
            two = ab + [IN("b2", C, 3), IN("a2", C, 2)]
            mk1, mk2 = bq(T, S_=S_), bq(T, "p", "b2", "a2", S_)
            cs = "for(int k=0;k<3;++k) c[k]=b[k]; c[3]=a[0]; c[4]=a[1];"
            x = [IN("x", T, n)]
            c, w, y = OUT("c", C, 5), OUT("w", T, 2), OUT("y", T, n)

            def add(nm, args, code, spec, what, **k):
                pr.append(Probe(nm + tag, args, code, "using T=%s; " % T + spec, what + d, **k))
            add("default_", [OUT("c", C, 5), OUT("w", T, 2), IN("x", T, 2), OUT("y", T, 2)], BT + " q;" + coef("q", 0) + state("q", 0) + "y[0]=q.step(x[0]);q.reset();y[1]=q.step_df2_transposed(x[1]);",
                "for(int i=0;i<5;++i) c[i]=0; w[0]=w[1]=0; y[0]=y[1]=0;", "a default-constructed section is silent")
            add("ctorb_", [IN("b", C, 3), c, w], BT + " q({b[0],b[1],b[2]});" + coef("q", 0) + state("q", 0), "for(int i=0;i<3;++i) c[i]=b[i]; c[3]=c[4]=0; w[0]=w[1]=0;", "construction from b-coefficients")
            add("ctorba_", ab + [c, w], mk1 + coef("q", 0) + state("q", 0), cs + "w[0]=w[1]=0;", "construction from b- and a-coefficients")
            for f, st in (("step", D2), ("step_df2", D2), ("step_df2_transposed", D2T)):
                add("state_%s_" % f, ab + x + [y, OUT("w", T, 2 * n), c], mk1 + "for(int i=0;i<%d;++i) { y[i]=q.%s(x[i]); auto const s=q.state(); w[2*i]=s.v1; w[2*i+1]=s.v2; }" % (n, f) + coef("q", 0),
                    "T v1=0,v2=0,r=0; for(int i=0;i<%d;++i) { T const x_=x[i]; { T const x=x_; %s } y[i]=r; w[2*i]=v1; w[2*i+1]=v2; } %s" % (n, st, cs), "state after %s()" % f)
                add("reset_%s_" % f, ab + x + [y, w, c], mk1 + "for(int i=0;i<%d;++i) q.%s(x[i]); q.reset();" % (n, f) + state("q", 0) + coef("q", 0) + "for(int i=0;i<%d;++i) y[i]=q.%s(x[i]);" % (n, f),
                    "T v1=0,v2=0,r=0; for(int i=0;i<%d;++i) { T const x_=x[i]; { T const x=x_; %s } y[i]=r; } w[0]=w[1]=0; %s" % (n, st, cs), "reset() after %d times %s() starts over" % (n, f))
                add("copy_%s_" % f, ab + x + [OUT("y", T, 2 * n)], mk1 + "q.%s(x[0]); %s p(q); for(int i=1;i<%d;++i) y[i]=q.%s(x[i]); for(int i=1;i<%d;++i) y[%d+i]=p.%s(x[i]); y[0]=y[%d]=0;" % (f, BT, n, f, n, n, f, n),
                    "T v1=0,v2=0,r=0; for(int i=0;i<%d;++i) { T const x_=x[i]; { T const x=x_; %s } y[i]=y[%d+i]= i? r:0; }" % (n, st, n), "a copy continues from the same state, independently")
            add("assign_", two + x + [y, c, w], mk1 + mk2 + "q.step(x[0]); p.step(x[1]); p=q; y[0]=p.step(x[2]); y[1]=q.step(x[3]); y[2]=y[3]=0;%s" % (" for(int i=4;i<%d;++i) y[i]=0;" % n) + coef("p", 0) + state("p", 0),
                "T v1=0,v2=0,r=0; {T const X=x[0];{T const x=X;%s}} T u1=v1,u2=v2; {T const X=x[2];{T const x=X;%s}} y[0]=r; w[0]=v1;w[1]=v2; v1=u1;v2=u2; {T const X=x[3];{T const x=X;%s}} y[1]=r; for(int i=2;i<%d;++i) y[i]=0; %s" % (D2, D2, D2, n, cs),
                "assignment takes over coefficients and state")
            for how, sw in (("m", "q.swap(p);"), ("r", "p.swap(q);")):
                add("swap%s_" % how, two + x + [OUT("c", C, 10), OUT("w", T, 4), OUT("y", T, 4)], mk1 + mk2 + "q.step(x[0]); q.step(x[1]); p.step(x[2]); p.step(x[3]); " + sw
                    + coef("q", 0) + coef("p", 5) + state("q", 0) + state("p", 2) + "y[0]=q.step(x[0]);y[1]=p.step(x[1]);y[2]=q.step(x[2]);y[3]=p.step(x[3]);",
                    "struct Q{T v1=0,v2=0;%s const*b;%s const*a; T s(T x){T r; %s return r;}} q,p; q.b=b;q.a=a;p.b=b2;p.a=a2; q.s(x[0]);q.s(x[1]);p.s(x[2]);p.s(x[3]);"
                    "for(int k=0;k<3;++k) c[k]=b2[k]; c[3]=a2[0];c[4]=a2[1]; for(int k=0;k<3;++k) c[5+k]=b[k]; c[8]=a[0];c[9]=a[1]; w[0]=p.v1;w[1]=p.v2;w[2]=q.v1;w[3]=q.v2; y[0]=p.s(x[0]);y[1]=q.s(x[1]);y[2]=p.s(x[2]);y[3]=q.s(x[3]);" % (C, C, D2),
                    "swap() exchanges coefficients and state")
            add("swapself_", ab + x + [c, w], mk1 + "q.step(x[0]); q.swap(q);" + coef("q", 0) + state("q", 0), "T v1=0,v2=0,r=0; {T const X=x[0];{T const x=X;%s}} w[0]=v1;w[1]=v2; %s" % (D2, cs), "swap() with itself changes nothing")
            if S_ is None:
                add("obs_", ab + x + [y, S("f", T)], mk1 + "q.step(x[0]); (void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,f); (void)q.coeff_a(); (void)q.coeff_b(); (void)q.state(); y[0]=q.step(x[1]); for(int i=1;i<%d;++i) y[i]=q.step(x[i]);" % n,
                    "T v1=0,v2=0,r=0; {T const X=x[0];{T const x=X;%s}} {T const X=x[1];{T const x=X;%s}} y[0]=r; for(int i=1;i<%d;++i) { T const X=x[i]; {T const x=X;%s} y[i]=r; }" % (D2, D2, n, D2), "observers leave the section as it was")
            add("norm_", two + [S("k", C), c], "auto const ca=biquad::AT<%s>{a[0],a[1]}/k; auto const cb=biquad::BT<%s>{b[0],b[1],b[2]}/k; c[0]=cb.b0;c[1]=cb.b1;c[2]=cb.b2;c[3]=ca.a1;c[4]=ca.a2;" % (C, C),
                "for(int i=0;i<3;++i) c[i]=b[i]/k; c[3]=a[0]/k;c[4]=a[1]/k;", "normalisation divides every coefficient")
        if t == "desktop":
            pr.append(Probe("cx", [IN("b", "double", 6), IN("a", "double", 4), OUT("c", "double", 10), OUT("w", "double", 4), IN("x", "double", 2)],
                            "using T=std::complex<double>; BiQuadT<T> q({T(b[0],b[1]),T(b[2],b[3]),T(b[4],b[5])},{T(a[0],a[1]),T(a[2],a[3])}), p; q.step(T(x[0],x[1])); p=q; p.reset();"
                            "auto const A=p.coeff_a(); auto const B=p.coeff_b(); auto const W=p.state(); T z[5]={B.b0,B.b1,B.b2,A.a1,A.a2}; for(int i=0;i<5;++i) { c[2*i]=z[i].real(); c[2*i+1]=z[i].imag(); } w[0]=W.v1.real();w[1]=W.v1.imag();w[2]=W.v2.real();w[3]=W.v2.imag();",
                            "for(int i=0;i<6;++i) c[i]=b[i]; for(int i=0;i<4;++i) { c[6+i]=a[i]; w[i]=0; }", "assignment and reset() of a complex section"))
            mkc = "BiQuadT<T> %s({T(b[%d],b[%d]),T(b[%d],b[%d]),T(b[%d],b[%d])},{T(a[%d],a[%d]),T(a[%d],a[%d])});"
            ob = "{ auto const A=%s.coeff_a(); auto const B=%s.coeff_b(); auto const W=%s.state(); T z[7]={B.b0,B.b1,B.b2,A.a1,A.a2,W.v1,W.v2}; for(int i=0;i<7;++i) { c[%d+2*i]=z[i].real(); c[%d+2*i+1]=z[i].imag(); } }"
            pr.append(Probe("cxswap", [IN("b", "double", 12), IN("a", "double", 8), OUT("c", "double", 28), IN("x", "double", 4)],
                            "using T=std::complex<double>; " + mkc % (("q",) + tuple(range(6)) + tuple(range(4))) + mkc % (("p",) + tuple(range(6, 12)) + tuple(range(4, 8))) + "q.step(T(x[0],x[1])); p.step(T(x[2],x[3])); q.swap(p);" + ob % ("q", "q", "q", 0, 0) + ob % ("p", "p", "p", 14, 14),
                            "for(int z=0;z<2;++z) { int const f=1-z; for(int i=0;i<6;++i) c[14*z+i]=b[6*f+i]; for(int i=0;i<4;++i) c[14*z+6+i]=a[4*f+i]; c[14*z+10]=x[2*f]; c[14*z+11]=x[2*f+1]; c[14*z+12]=c[14*z+13]=0; }", "swap() of complex sections"))
        lt = []
        for T in ("double", "float"):
            for f in FORMS:
                pre = "using T=%s; %s %s BiQuadT<T> q(s1), p(s2); " % (T, LCO, LSEC)
                obs = "{ auto const c=%s.coeff_b(); auto const k=%s.coeff_a(); auto const w=%s.state(); T const v[7]={c.b0-%s[0],c.b1-%s[1],c.b2-%s[2],k.a1-%s[0],k.a2-%s[1],w.v1,w.v2}; for(int i=0;i<7;++i) o[%d+i]=v[i]; }"
                q1, q2 = obs % ("q", "q", "q", "b_", "b_", "b_", "a_", "a_", 0), obs % ("p", "p", "p", "d_", "d_", "d_", "e_", "e_", 7)
                run = "o[14]=q.%s(T(2.5))-b_[0]*T(2.5); o[15]=p.%s(T(3.5))-d_[0]*T(3.5);" % (f, f)
                lt.append(Probe("later_step_%s_%s" % (f, T), [OUT("o", T, 6)], "using T=%s; %s %s BiQuadT<T> q(s1); auto const * b=b_; auto const * a=a_; " % (T, LCO, LSEC) + history.later_code("q", "q.%s(T(1.5))" % f) +
                                "for(int i=0;i<2;++i) { auto const w=q.state(); T v1=w.v1, v2=w.v2, r=0; T const x=T(i)+T(2.5); %s r=q.%s(x)-r; auto const u=q.state(); o[3*i]=r; o[3*i+1]=u.v1-v1; o[3*i+2]=u.v2-v2; }" % (D2T if f.endswith("transposed") else D2, f),
                                "for(int i=0;i<6;++i) o[i]=0;", "state after %s(), whatever the number of samples before (%s)" % (f, T)))
                for nm, cyc, what in (("reset", "q.%s(T(1.5)); q.reset()" % f, "runs and resets"), ("swap", "q.swap(p); p.swap(q)", "exchanges"), ("copy", "{ BiQuadT<T> r(q); r.%s(T(1)); r.reset(); q=r; BiQuadT<T> t; t=p; p=t; }" % f, "copies"),
                                      ("obs", "(void)q.coeff_a(); (void)q.coeff_b(); (void)q.state(); (void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,T(0.25))", "observations")):
                    lt.append(Probe("later_%s_%s_%s" % (nm, f, T), [OUT("o", T, 16)], pre + history.later_code("q", cyc) + cyc + ";" + q1 + q2 + run, "for(int i=0;i<16;++i) o[i]=0;", "coefficients, state and %s() after any number of %s (%s)" % (f, what, T)))
        ctx.run_suites([Suite("later", BPRE + history.DECL, lt, target=t)])
        ctx.run_suites([Suite("bqstate", BPRE, pr, target=t)])
    pre = BPRE
    ctx.witnesses(pre, [
        ("obs_const", "BiQuadT<double> const q({1,2,3},{4,5}); (void)q.coeff_a(); (void)q.coeff_b(); (void)q.state(); (void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,0.1);", True, "observers work on a constant section"),
        ("step_const", "BiQuadT<double> const q({1,2,3},{4,5}); q.step(1.0);", False, "stepping a constant section"),
        ("step2_const", "BiQuadT<double> const q({1,2,3},{4,5}); q.step_df2_transposed(1.0);", False, "stepping a constant section"),
        ("reset_const", "BiQuadT<double> const q({1,2,3},{4,5}); q.reset();", False, "resetting a constant section"),
        ("swap_const", "BiQuadT<double> const q({1,2,3},{4,5}); BiQuadT<double> p; p.swap(q);", False, "swapping with a constant section"),
    ], T2)
    return ctx.finish(META)
