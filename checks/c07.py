from .km import *

META = dict(
    title="A Kalman estimator is influenced by its updates only",
    statement="A new estimator shows the given initial state and covariance, zero time and a zero gain. It is not affected by later changes of the caller's matrices, by observing it, or by other estimators and copies; its time is the number of updates times the step. Wrongly dimensioned arguments do not compile.",
    over=['inputs', 'histories', 'programs'],
    text="all model values, 2 states, 1-2 measurements and controls, interleavings of two estimators and a copy, any number of updates with observations and copies between, desktop and AVR",
    why="Sharing through references, static members or uninitialised members is invisible in single-object example runs; the repository does not test the estimator.",
    files=['include/dsp/kalman.hpp'],
    mechanism=[('members held by value, const observers', 'include/dsp/kalman.hpp: class kalman')],
    how="two programs that differ only in observation, aliasing or other estimators are interpreted and their results compared; uninitialised reads are tracked; compile-fail witnesses for the interface",
    note="real-number semantics; dimensions enumerated",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition; compile-fail witnesses",
)


def check(ctx):
    th = ctx.tier == "thorough"
    pr = []
    for T in ("double", "float"):
        for M, U in ((1, 1), (1, 2), (2, 1), (2, 2)):
            t, d = "%s_m%d_u%d" % (T, M, U), " (%s, %d measurement(s), %d control(s))" % (T, M, U)
            al, oa = args(T, 2, M, U, 2, M == 2), oargs(T, 2, M)
            B, S0 = build(T, 2, M, U, M == 2), spec_init(T, 2, M, U, M == 2)
            pr.append(Probe("init_" + t, al + oa, B + outs(T, 2, M), S0 + spec_out(T, 2, M), "a new estimator shows the given state and covariance, zero time and zero gain" + d))
            # the model is copied at construction: later changes of the caller's matrices have no effect; nor have observer results
            pr.append(Probe("own_" + t, al + oa, B + "A=A*({T})3; B=B*({T})3; H=H*({T})3; Q=Q*({T})3; P=P*({T})3; X=X*({T})3; for(auto & e: R) e=e*3;".format(T=T) +
                            "auto s=k.system_state(); s.at(0)=7; auto e=k.estimation_error_covariance(); e.at(1)=7;" + upd(T, 2, M, U, 0) + outs(T, 2, M),
                            S0 + spec_step(T, 2, M, U, 0) + spec_out(T, 2, M), "the estimator owns its model and state" + d))
            pr.append(Probe("const_" + t, al + oa, B + upd(T, 2, M, U, 0) +
                            "auto const & c=k; c.time(); c.system_state(); c.kalman_gain(); c.estimation_error_covariance(); " + upd(T, 2, M, U, 1) + outs(T, 2, M),
                            B + upd(T, 2, M, U, 0) + upd(T, 2, M, U, 1) + outs(T, 2, M), "observing does not influence later updates" + d))
            # two estimators do not interfere; a copy continues independently
            pr.append(Probe("two_" + t, al + oa + oargs(T, 2, M, "j") + oargs(T, 2, M, "c"),
                            B + build2(T, M, U) + upd(T, 2, M, U, 0) + "auto c=k;" + upd(T, 2, M, U, 1, "j") + upd(T, 2, M, U, 1, "k") + upd(T, 2, M, U, 0, "j") + outs(T, 2, M) + outs(T, 2, M, "j", "j") + outs(T, 2, M, "c", "c"),
                            B + upd(T, 2, M, U, 0) + outs(T, 2, M, "k", "c") + upd(T, 2, M, U, 1) + outs(T, 2, M) +
                            "{" + build2(T, M, U) + upd(T, 2, M, U, 1, "j") + upd(T, 2, M, U, 0, "j") + outs(T, 2, M, "j", "j") + "}",
                            "estimators and copies are independent of each other" + d))
            n = 9 if th else 4
            pr.append(Probe("time_" + t, [S("dt", T), OUT("o", T, n)] + args(T, 2, M, U, 1, M == 2)[1:],
                            B + "".join(upd(T, 2, M, U, 0) + "o[%d]=k.time();" % i for i in range(n)),
                            "for(int i=0;i<%d;++i) o[i]=(i+1)*dt;" % n, "time() is the number of updates times the step" + d) if M == 1 and U == 1 else None)
    pr = [p for p in pr if p]
    ctx.run_suites(suites("kalman", KPRE, pr))
    seen = "(void)k.time(); (void)k.system_state(); (void)k.kalman_gain(); (void)k.estimation_error_covariance(); { auto c=k; c.update(matrix<%s,%d,1>(1),matrix<%s,%d,1>(2)); }"
    lt = [later(T, M, U, seen % (T, U, T, M), "of an estimator that was observed and copied any number of times") for T in ("double", "float") for M, U in ((1, 1), (2, 2))]
    ctx.run_suites([Suite("later", LPRE, lt, target=t) for t in T2])
    k = "using K=kalman<double,2,1,1>; K::A_t A(0.0); K::B_t B(0.0); K::H_t H(0.0); K::R_t R(1.0); K::x_t x(0.0); K k(1.0,A,B,H,A,R,A,x); K const & c=k; K::u_t u(0.0); K::z_t z(0.0);"
    ctx.witnesses(KPRE, [("upd_bad", k + "c.update(u,z);", False, "update of a const estimator"),
                         ("upd_good", k + "k.update(u,z); (void)c.time(); (void)c.system_state(); (void)c.kalman_gain(); (void)c.estimation_error_covariance();", True, "observers work on a const estimator"),
                         ("u_bad", k + "matrix<double,2,1> w(0.0); k.update(w,z);", False, "control input of another dimension"),
                         ("z_bad", k + "matrix<double,2,1> w(0.0); k.update(u,w);", False, "measurement of another dimension"),
                         ("a_bad", k + "matrix<double,3,3> w(0.0); K q(1.0,w,B,H,A,R,A,x);", False, "dynamics matrix of another dimension"),
                         ("h_bad", k + "matrix<double,2,1> w(0.0); K q(1.0,A,B,w,A,R,A,x);", False, "measurement matrix of another dimension"),
                         ("obs_bad", k + "k.system_state()=1;k.A=A;", False, "the model is not accessible")], T2)
    return ctx.finish(META)


def build2(T, M, U):
    """a second estimator with another model (derived from the same inputs)"""
    return ("{T} j_two=2; auto A2=A*j_two; auto B2=B; auto H2=H*({T})1; auto X2=X*j_two; kalman<{T},2,{M},{U}> j(dt*2,A2,B2,H2,Q,R,P,X2);\n").format(T=T, M=M, U=U)
