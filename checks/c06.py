from .km import *

META = dict(
    title="The Kalman update is the textbook predict-correct recursion",
    statement="For any model, covariances, state, control and measurement, an update yields the predicted-then-corrected state, the gain, the error covariance and the time that the textbook discrete Kalman recursion defines from the previous ones. This holds for each following update as well.",
    over=['inputs', 'histories'],
    text="all real values of every model matrix (measurement-noise covariances of 2 measurements symmetric), 2 states, 1-2 measurements, 1-2 controls, two consecutive updates, five with 1 measurement and 1 control, and 150 of a model without measurement (thorough: three; 8 and 20; more shapes), one more after any number of updates of given models, desktop and AVR",
    why="The repository has no test of the estimator at all; and a wrong sign, a missing transposition or a stale covariance shows only for general (non-symmetric, non-diagonal) models.",
    files=['include/dsp/kalman.hpp', 'include/num/matrix.hpp'],
    mechanism=[('kalman::update', 'include/dsp/kalman.hpp')],
    how="the estimator is interpreted with every model element unknown; state, gain, covariance and time are rational functions of the inputs that must equal those of the written-out recursion",
    note="real-number semantics; the recursion step is checked from an arbitrary state, so it extends by induction to any number of updates, and the history rule of DESIGN.md covers contents that cannot be observed; dimensions enumerated (others do not compile in this library)",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition",
)


def check(ctx):
    th = ctx.tier == "thorough"
    pr = []
    for T in ("double", "float"):
        for M, U in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for n in (1, 2, 3, 8, 20) if th else (1, 2, 5):
                for sym in ((False, True) if M == 1 else (True,)):
                    if n > 1 and T == "float" and not th or n > 3 and (not sym or (M, U) != (1, 1) and not th):
                        continue
                    code = build(T, 2, M, U, sym)
                    spec = spec_init(T, 2, M, U, sym)
                    al = args(T, 2, M, U, n, sym)
                    for i in range(n):
                        code += upd(T, 2, M, U, i)
                        spec += spec_step(T, 2, M, U, i)
                    code += outs(T, 2, M)
                    spec += spec_out(T, 2, M)
                    pr.append(Probe("update_%s_m%d_u%d_n%d%s" % (T, M, U, n, "_sym" if sym else ""), al + oargs(T, 2, M), code, spec,
                                    "state, gain, covariance and time after %d update(s) with %d measurement(s), %d control(s)%s" % (n, M, U, ", symmetric covariances" if sym else "")))
    # long histories: without a measurement matrix the recursion is linear, so that every one of hundreds of updates can be followed
    lg = []
    for T, M, U, n in (("double", 1, 1, 150),) + ((("float", 2, 2, 140), ("double", 2, 1, 140), ("double", 1, 2, 300)) if th else ()):
        code = ("matrix<{T},2,2> A({T}(0)), Q({T}(0)), P({T}(0)); A(0,0)=A(1,1)=1; for(int i=0;i<4;++i) {{ Q.at(i)=q[i]; P.at(i)=p[i]; }} matrix<{T},2,{U}> B({T}(0)); for(int i=0;i<2*{U};++i) B.at(i)=b[i];"
                "matrix<{T},{M},2> H({T}(0)); matrix<{T},{M},{M}> R({T}(0)); for(int i=0;i<{M};++i) R(i,i)=1; matrix<{T},2,1> X({T}(0)); X.at(0)=x[0]; X.at(1)=x[1];"
                "kalman<{T},2,{M},{U}> k(dt,A,B,H,Q,R,P,X); matrix<{T},{U},1> uu({T}(0)); for(int i=0;i<{U};++i) uu.at(i)=u[i]; matrix<{T},{M},1> zz({T}(1));"
                "for(int i=0;i<{n};++i) k.update(uu,zz);").format(T=T, M=M, U=U, n=n) + outs(T, 2, M)
        spec = ("ot[0]={n}*dt; for(int i=0;i<{KM};++i) ok[i]=0; for(int i=0;i<4;++i) op[i]=p[i]+{n}*q[i]; for(int i=0;i<2;++i) {{ {T} s=0; for(int j=0;j<{U};++j) s+=b[i*{U}+j]*u[j]; ox[i]=x[i]+{n}*s; }}").format(n=n, KM=2 * M, T=T, U=U)
        lg.append(Probe("long_%s_m%d_u%d" % (T, M, U), [S("dt", T), IN("b", T, 2 * U), IN("q", T, 4), IN("p", T, 4), IN("x", T, 2), IN("u", T, U)] + oargs(T, 2, M), code, spec,
                        "state, gain, covariance and time after %d updates of an integrator that is not measured" % n))
    lt = [later(T, M, U) for T in ("double", "float") for M in (1, 2) for U in (1, 2)]
    ctx.run_suites([Suite("later", LPRE, lt, target=t) for t in T2])
    ctx.run_suites(suites("kalman", KPRE, pr) + [Suite("history", KPRE, [p], target=t) for p in lg for t in (T2 if th else T2[:1])])
    return ctx.finish(META)
