from .bq import *

META = dict(
    title="A one-pole filter is its recursion, pole, response and stability",
    statement="A one-pole section computes y = b0 x - a1 y' for every sample; reset() clears only its state and swap() exchanges filters completely. Its pole is -a1, a section made from pole and gain has exactly those, its response is b0 / (1 + a1 z^-1) on the unit circle, and it is reported stable if and only if the pole does not lie outside the unit circle.",
    over=["inputs", "histories"],
    text="all coefficients, sample sequences of up to 12 (thorough: 24) samples and one of 300 (1100), any number for given coefficients, all frequencies; double and float, mixed and (recursion) integer coefficients; desktop and AVR",
    why="The one-pole filter has no tests: a lost sign, or a state that is not the previous output, still filters.",
    files=["include/dsp/onepole.hpp", "include/std/complex.hpp", "include/std/utility.hpp"],
    mechanism=[("step(), reset(), swap(), poles(), zeros(), is_stable(), response()", "include/dsp/onepole.hpp: OnePoleT"), ("solve(), tie()", "include/dsp/onepole.hpp")],
    how="outputs and observers after an unrolled sequence are compared, as polynomials or rational functions of coefficients, samples, sine and cosine, with the difference equation and the transfer function",
    note="real-number semantics; sequence length enumerated (the recursion repeats from the second sample on); the denominator of the response is taken to be non-zero",
    technique=VF)

OPRE = '#include "dsp/onepole.hpp"\nusing namespace dsp;\n'


def mk(T, name="q", c="c", S_=None):
    return "OnePoleT<%s%s> %s({%s[0]},{%s[1]});" % (T, "" if S_ is None else "," + S_, name, c, c)


def obs(name, i, dst="o"):
    return "%s[%d]=%s.coeff_b().b0; %s[%d]=%s.coeff_a().a1; %s[%d]=%s.state().v1;" % (dst, i, name, dst, i + 1, name, dst, i + 2, name)


def check(ctx):
    n = 24 if ctx.tier == "thorough" else 12
    for t in T2:
        pr = []
        types = ["double", "float"]
        for T in types:
            U = "using T=%s; T const PI=T(3.14159265358979323846264338327950288L); " % T

            def add(nm, args, code, spec, what, **k):
                pr.append(Probe("%s_%s" % (nm, T), args, U + code, U + spec, what + " (%s)" % T, **k))
            c2, o3, o2 = IN("c", T, 2), OUT("o", T, 3), OUT("o", T, 2)
            rec = "T y1=0; for(int i=0;i<%d;++i) { y1=c[0]*x[i]-c[1]*y1; y[i]=y1; } o[0]=c[0];o[1]=c[1];o[2]=y1;"
            add("ctor", [c2, o3], mk(T) + obs("q", 0), "o[0]=c[0];o[1]=c[1];o[2]=0;", "constructed from coefficients")
            add("ctor0", [OUT("o", T, 5)], "OnePoleT<T> q; %s o[3]=q.step(1); o[4]=q.state().v1;" % obs("q", 0), "o[0]=o[1]=o[2]=o[3]=o[4]=0;", "default constructed")
            add("ctorb", [c2, OUT("o", T, 5)], "OnePoleT<T> q({c[0]}); %s o[3]=q.step(c[1]); o[4]=q.step(3);" % obs("q", 0), "o[0]=c[0];o[1]=o[2]=0;o[3]=c[0]*c[1];o[4]=3*c[0];", "constructed from the b-coefficient")
            add("step", [c2, IN("x", T, n), OUT("y", T, n), o3], mk(T) + "for(int i=0;i<%d;++i) y[i]=q.step(x[i]); %s" % (n, obs("q", 0)), rec % n, "step() on %d samples" % n)
            if T == "double":
                L = 1100 if ctx.tier == "thorough" else 300
                add("long", [c2, IN("x", T, L), OUT("y", T, L), o3], mk(T) + "for(int i=0;i<%d;++i) y[i]=q.step(x[i]); %s" % (L, obs("q", 0)), rec % L, "step() on %d samples" % L)
            add("copy", [c2, IN("x", T, 4), OUT("y", T, 4), o3], mk(T) + "y[0]=q.step(x[0]); y[1]=q.step(x[1]); OnePoleT<T> p(q); OnePoleT<T> r; r=p; p.step(x[0]); y[2]=r.step(x[2]); y[3]=r.step(x[3]); %s" % obs("r", 0),
                rec % 4, "a copy continues where the original was")
            add("reset", [c2, IN("x", T, 3), OUT("y", T, 2), o3], mk(T) + "q.step(x[0]); q.step(x[1]); q.reset(); %s y[0]=q.step(x[1]); y[1]=q.step(x[2]);" % obs("q", 0), "o[0]=c[0];o[1]=c[1];o[2]=0; y[0]=c[0]*x[1]; y[1]=c[0]*x[2]-c[1]*y[0];", "reset()")
            add("swap", [IN("c", T, 4), IN("x", T, 2), OUT("o", T, 6)], mk(T) + mk(T, "p", "(c+2)") + "q.step(x[0]); p.step(x[1]); q.swap(p); %s" % (obs("q", 0) + obs("p", 3)),
                "o[0]=c[2];o[1]=c[3];o[2]=c[2]*x[1];o[3]=c[0];o[4]=c[1];o[5]=c[0]*x[0];", "swap()")
            add("swapself", [c2, IN("x", T, 1), o3], mk(T) + "q.step(x[0]); q.swap(q); %s" % obs("q", 0), "o[0]=c[0];o[1]=c[1];o[2]=c[0]*x[0];", "swap() with itself")
            add("const", [c2, IN("x", T, 1), OUT("o", T, 3), S("f", T)], mk(T) + "q.step(x[0]); (void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,f); %s" % obs("q", 0), "o[0]=c[0];o[1]=c[1];o[2]=c[0]*x[0];", "the observers change nothing")
            add("poles", [c2, o2, IN("x", T, 1)], mk(T) + "q.step(x[0]); auto const R=q.poles(); o[0]=R.s0.real();o[1]=R.s0.imag();", "o[0]=-c[1];o[1]=0;", "poles()")
            add("zeros", [c2, o2], mk(T) + "auto const R=q.zeros(); o[0]=R.s0.real();o[1]=R.s0.imag();", "o[0]=o[1]=0;", "zeros()")
            add("solve", [S("a", T), S("b", T), o2], "auto const R=onepole::solve(a,b); o[0]=R.s0.real();o[1]=R.s0.imag();", "o[0]=-b/a;o[1]=0;", "solve()")
            add("stable", [c2, OUT("o", "int", 1)], mk(T) + "o[0]=q.is_stable()?1:0;", "o[0]=(c[1]<0?-c[1]:c[1])<=1;", "is_stable()")
            add("stablerun", [c2, IN("x", T, 2), OUT("o", "int", 1)], mk(T) + "q.step(x[0]);q.step(x[1]);o[0]=q.is_stable()?1:0;", "o[0]=(c[1]<0?-c[1]:c[1])<=1;", "is_stable() of a running filter")
            add("stable0", [OUT("o", "int", 2), S("b", T)], "OnePoleT<T> q; OnePoleT<T> p({b}); o[0]=q.is_stable()?1:0; o[1]=p.is_stable()?1:0;", "o[0]=o[1]=1;", "is_stable() without feedback")
            zpk = "using Cx=OnePoleT<T>::complex_t; using So=OnePoleT<T>::Solution; OnePoleT<T> q(So{Cx(0,0)},So{Cx(p,0)},k);"
            add("zpk", [S("p", T), S("k", T), o3], zpk + obs("q", 0), "o[0]=k;o[1]=-p;o[2]=0;", "construction from zero, pole and gain")
            add("zpkp", [S("p", T), S("k", T), o2], zpk + "auto const R=q.poles(); o[0]=R.s0.real();o[1]=R.s0.imag();", "o[0]=p;o[1]=0;", "poles() of a section constructed from zero, pole and gain")
            add("zpkrt", [c2, o3], mk(T) + "OnePoleT<T> r(q.zeros(),q.poles(),c[0]);" + obs("r", 0), "o[0]=c[0];o[1]=c[1];o[2]=0;", "zero, pole and gain of a section reproduce it")
            H = "T const w=2*PI*(%s), dr=1+c[1]*__builtin_cos(w), di=-c[1]*__builtin_sin(w), dd=dr*dr+di*di; o[0]=c[0]*dr/dd; o[1]=-c[0]*di/dd;"
            add("resp", [c2, S("f", T), o2], mk(T) + "auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();", H % "f", "response()")
            add("respneg", [c2, S("f", T), o2], mk(T) + "auto const r=response(q,-f); o[0]=r.real();o[1]=r.imag();", H % "-f", "response() at a negative frequency")
            add("resprun", [c2, S("f", T), IN("x", T, 2), o2], mk(T) + "q.step(x[0]);q.step(x[1]);auto const r=response(q,f); o[0]=r.real();o[1]=r.imag();", H % "f", "response() of a running filter")
            add("dc", [c2, o2], mk(T) + "auto const r=response(q,0); o[0]=r.real();o[1]=r.imag();", "o[0]=c[0]/(1+c[1]);o[1]=0;", "response() at zero frequency is the gain for constant input")
            add("nyq", [c2, o2], mk(T) + "auto const r=response(q,T(0.5)); o[0]=r.real();o[1]=r.imag();", "o[0]=c[0]/(1-c[1]);o[1]=0;", "response() at half the sampling frequency is the gain for alternating input")
            add("atdiv", [c2, S("d", T), o2], "onepole::AT<T> const A_{c[1]}; onepole::BT<T> const B_{c[0]}; o[0]=(B_/d).b0; o[1]=(A_/d).a1;", "o[0]=c[0]/d; o[1]=c[1]/d;", "coefficients divided by a number")
            add("tie", [c2, IO("v", T, 2)], "onepole::tie(v[0],v[1])=onepole::BAT<T>{{c[0]},{c[1]}};", "v[0]=c[0];v[1]=c[1];", "tie()")
        lt = []
        for T in types:
            pre = "using T=%s; OnePoleT<T> q({T(0.75)},{T(-0.375)}), p({T(1.25)},{T(0.5)}); T y=0; " % T
            more = "for(int i=0;i<4;++i) { T const x=T(i)-T(2.25), v=q.step(x); o[i]=v-(T(0.75)*x+T(0.375)*y); y=v; } o[4]=q.state().v1-y; o[5]=q.coeff_b().b0-T(0.75); o[6]=q.coeff_a().a1+T(0.375);"
            for nm, cyc in (("step", "y=q.step(T(1.5))"), ("reset", "q.step(T(1.5)); q.reset()"), ("swap", "q.swap(p); p.swap(q)"), ("obs", "(void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,T(0.25)); (void)q.state()")):
                lt.append(Probe("later_%s_%s" % (nm, T), [OUT("o", T, 7)], pre + history.later_code("q", cyc) + ("" if nm == "step" else cyc + ";") + more, "for(int i=0;i<7;++i) o[i]=0;", "step() after any number of operations: %s (%s)" % (nm, T)))
        ctx.run_suites([Suite("later", OPRE + history.DECL, lt, target=t)])
        if t == "desktop":
            pr.append(Probe("step_df", [IN("c", "float", 2), IN("x", "double", 3), OUT("y", "double", 3)], mk("double", S_="float") + "for(int i=0;i<3;++i) y[i]=q.step(x[i]);", "double p=0; for(int i=0;i<3;++i) { p=double(c[0])*x[i]-double(c[1])*p; y[i]=p; }", "step() (double, float coefficients)"))
            mkc = "OnePoleT<T> %s({T(c[%d],c[%d])},{T(c[%d],c[%d])});"
            obc = "{ T const z[3]={%s.coeff_b().b0,%s.coeff_a().a1,%s.state().v1}; for(int i=0;i<3;++i) { o[%d+2*i]=z[i].real(); o[%d+2*i+1]=z[i].imag(); } }"
            pr.append(Probe("cx", [IN("c", "double", 8), IN("x", "double", 8), OUT("y", "double", 6), OUT("o", "double", 12)], "using T=std::complex<double>; " + mkc % ("q", 0, 1, 2, 3) + mkc % ("p", 4, 5, 6, 7) +
                            "for(int i=0;i<3;++i) { T const r=q.step(T(x[2*i],x[2*i+1])); y[2*i]=r.real(); y[2*i+1]=r.imag(); } p.step(T(x[6],x[7])); q.swap(p); p.reset();" + obc % ("q", "q", "q", 0, 0) + obc % ("p", "p", "p", 6, 6),
                            "double u=0,v=0; for(int i=0;i<3;++i) { double const r=c[0]*x[2*i]-c[1]*x[2*i+1]-(c[2]*u-c[3]*v), s=c[0]*x[2*i+1]+c[1]*x[2*i]-(c[2]*v+c[3]*u); u=r; v=s; y[2*i]=u; y[2*i+1]=v; }"
                            "for(int i=0;i<4;++i) { o[i]=c[4+i]; o[6+i]=c[i]; } o[4]=c[4]*x[6]-c[5]*x[7]; o[5]=c[4]*x[7]+c[5]*x[6]; o[10]=o[11]=0;", "step(), swap() and reset() of complex filters"))
        I_ = "int" if t == "desktop" else "long"
        pr.append(Probe("step_int", [IN("c", I_, 2, lo=-9, hi=9), IN("x", I_, 3, lo=-99, hi=99), OUT("y", I_, 3)], mk(I_) + "for(int i=0;i<3;++i) y[i]=q.step(x[i]);", "%s p=0; for(int i=0;i<3;++i) { p=c[0]*x[i]-c[1]*p; y[i]=p; }" % I_, "step() (%s)" % I_))
        ctx.run_suites([Suite("onepole", OPRE, pr, target=t)])
    ctx.witnesses(OPRE, [
        ("obs_const", "OnePoleT<double> const q({0.5},{-0.5}); (void)q.coeff_a(); (void)q.coeff_b(); (void)q.state(); (void)q.poles(); (void)q.zeros(); (void)q.is_stable(); (void)response(q,0.1); OnePoleT<double> p(q); p=q; (void)p;", True, "observers and copies of a constant filter"),
        ("step_const", "OnePoleT<double> const q({0.5},{-0.5}); q.step(1.0);", False, "stepping a constant filter"),
        ("reset_const", "OnePoleT<double> const q({0.5},{-0.5}); q.reset();", False, "resetting a constant filter"),
        ("swap_const", "OnePoleT<double> const q({0.5},{-0.5}); OnePoleT<double> p({1.0},{0.0}); p.swap(q);", False, "exchanging a constant filter"),
        ("temp", "(void)response(OnePoleT<double>({0.5},{-0.5}),0.1); OnePoleT<double> p({1.0},{0.0}); p=OnePoleT<double>({0.5},{-0.5});", True, "temporary filters"),
    ], ("desktop", "gcc"))
    return ctx.finish(META)
