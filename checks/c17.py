from .bq import *
from .c16 import section, observe, expect

META = dict(
    title="Misuse of a cascade stops the program instead of touching other memory",
    statement="On a desktop target, access to, removal, replacement or insertion at a position that is not in the cascade, and adding to a full one, stop the program before any memory is touched; every valid use continues. No operation of a cascade reads or writes memory outside its storage.",
    over=["inputs", "histories"],
    text="every int position, cascades of 0 to 3 sections in a capacity of 3",
    why="A test cannot exercise the out-of-range positions without crashing, nor notice one write just past the array.",
    files=["include/dsp/biquad-cascade.hpp"],
    mechanism=[("assertions of coeff_a(), coeff_b(), state(), append(), remove(), insert(), replace()", "include/dsp/biquad-cascade.hpp: BiQuadCascadeT")],
    how="the condition under which the operation fails its assertion is computed for an arbitrary position and compared with the documented precondition; on the remaining positions every access is checked against the bounds of the storage",
    note="assertions are compiled out for AVR (there is nothing to report to) and with NDEBUG: those configurations are not covered by the first sentence",
    technique="abstract interpretation of the IR: abort conditions over all positions and a bounds analysis")


def check(ctx):
    pr = []
    T, CAP = "double", 3
    U = "using T=double; "
    for n in range(0, CAP + 1):
        mkc = "BiQuadCascadeT<T,%d> q;" % CAP + "".join("{ %s q.append(s%d); }" % (section(j, T), j) for j in range(n)) + "\n"
        new = section(n, T)
        base = [IN("c", T, 5 * (n + 1)), IN("x", T, n + 1), S("i", "int")]
        inr = "if(!(0<=i && i<%d)) __builtin_abort();" % n
        for nm, e, what, pre in (("coeff_a", "(void)q.coeff_a(i);", "coeff_a(i)", inr), ("coeff_b", "(void)q.coeff_b(i);", "coeff_b(i)", inr), ("state", "(void)q.state(i);", "state(i)", inr),
                                 ("remove", "q.remove(i);", "remove(i)", inr), ("replace", new + "(void)q.replace(i,s%d);" % n, "replace(i)", inr),
                                 ("insert", new + "q.insert(i,s%d);" % n, "insert(i)", inr if n < CAP else "__builtin_abort();"),
                                 ("append", new + "q.append(s%d);" % n, "append()", "" if n < CAP else "__builtin_abort();")):
            pr.append(Probe("%s_%d" % (nm, n), base + [OUT("n", "int", 1)], U + mkc + e + "n[0]=q.size();", "%s n[0]=%d;" % (pre, n + (nm in ("insert", "append")) - (nm == "remove")), "precondition of %s on %d section(s)" % (what, n)))
        # values at an arbitrary valid position
        if n:
            pr.append(Probe("get_%d" % n, base + [OUT("o", T, 7)], U + mkc + "auto const ca=q.coeff_a(i); auto const cb=q.coeff_b(i); auto const w=q.state(i); o[0]=cb.b0;o[1]=cb.b1;o[2]=cb.b2;o[3]=ca.a1;o[4]=ca.a2;o[5]=w.v1;o[6]=w.v2;",
                            U + inr + "for(int j=0;j<%d;++j) if(i==j) { for(int k=0;k<5;++k) o[k]=c[5*j+k]; o[5]=x[j]; o[6]=0; }" % n, "element at an arbitrary position of %d section(s)" % n))
            pr.append(Probe("rem_%d" % n, base + [OUT("o", T, 7 * n)], U + mkc + "for(int k=0;k<%d;++k) o[k]=0; q.remove(i); int j=0; for(auto const & z : q) { auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=o+7*j++; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }" % (7 * n),
                            U + inr + "for(int k=0;k<%d;++k) o[k]=0; for(int j=0;j<%d;++j) { int const s= j<i ? j : j+1; for(int k=0;k<5;++k) o[7*j+k]=c[5*s+k]; o[7*j+5]=x[s]; o[7*j+6]=0; }" % (7 * n, n - 1), "remove(i) at an arbitrary position of %d section(s)" % n))
            if n < CAP:
                pr.append(Probe("ins_%d" % n, base + [OUT("o", T, 7 * n + 7)], U + mkc + new + "q.insert(i,s%d); int j=0; for(auto const & z : q) { auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=o+7*j++; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }" % n,
                                U + inr + "for(int j=0;j<=%d;++j) { int const s= j<i ? j : j==i ? %d : j-1; for(int k=0;k<5;++k) o[7*j+k]=c[5*s+k]; o[7*j+5]=x[s]; o[7*j+6]=0; }" % (n, n), "insert(i) at an arbitrary position of %d section(s)" % n))
            rep = "auto const z=q.replace(i,s%d); auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); r[0]=cb.b0;r[1]=cb.b1;r[2]=cb.b2;r[3]=ca.a1;r[4]=ca.a2;r[5]=w.v1;r[6]=w.v2;" % n
            pr.append(Probe("rep_%d" % n, base + [OUT("r", T, 7), OUT("o", T, 7 * n)], U + mkc + new + rep + "int j=0; for(auto const & z : q) { auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=o+7*j++; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }",
                            U + inr + "for(int j=0;j<%d;++j) { int const s= j==i ? %d : j; for(int k=0;k<5;++k) o[7*j+k]=c[5*s+k]; o[7*j+5]=x[s]; o[7*j+6]=0; } for(int j=0;j<%d;++j) if(i==j) { for(int k=0;k<5;++k) r[k]=c[5*j+k]; r[5]=x[j]; r[6]=0; }" % (n, n, n), "replace(i) at an arbitrary position of %d section(s)" % n))
    ctx.run_suites([Suite("pre", CPRE, pr)])
    # more initial sections than fit
    ctx.witnesses(CPRE, [
        ("toomany", "BiQuadT<double> s; BiQuadCascadeT<double,1> q(s,s);", False, "more sections than the cascade can hold"),
        ("fit", "BiQuadT<double> s; BiQuadCascadeT<double,2> q(s,s);", True, "as many sections as the cascade can hold"),
    ], T2)
    return ctx.finish(META)
