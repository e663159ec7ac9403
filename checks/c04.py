from .mx import *

META = dict(
    title="Transposition, identity and inversion obey their algebraic definitions",
    statement="Transposing exchanges rows and columns and twice gives the original; the identity matrix has ones on the diagonal and zeros elsewhere and is neutral in products. Inverting a number or a 2x2 matrix gives its multiplicative inverse (zero for the number zero).",
    over=['inputs'],
    text="all element values; vectors and identities of sizes 1 to 10, 12, 17 and 33 (vectors also 300), 2x2 transposition and inversion, floating, integer, complex and fixed-point types, desktop and AVR",
    why="One literal per function is tested; in the case of the 2x2 inverse the tested literal even has the wrong expected value, which only the definition exposes.",
    files=['include/num/matrix.hpp'],
    mechanism=[('transposed, eye, inverted', 'include/num/matrix.hpp')],
    how="interpretation with every element unknown and comparison with the closed form as rational functions; the off-diagonal elements of the 2x2 inverse are a listed known finding, matched by the exact wrong value",
    note="real-number semantics; singular 2x2 matrices are outside the definition (division by zero)",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition",
)


def check(ctx):
    th = ctx.tier == "thorough"
    pr = []
    for T in ("double", "float", "int", "short"):
        for n in [2, 3, 4, 5, 6, 7, 8] + ([9, 10, 12, 17, 33] if T == "double" else []) + ([9, 10, 12] if th and T != "double" else []):
            t, d = "%s_%d" % (T, n), " (%d, %s)" % (n, T)
            for a, b, nm in (((n, 1), (1, n), "col"), ((1, n), (n, 1), "row")):
                pr.append(Probe("tr_%s_%s" % (nm, t), [IN("a", T, n), OUT("o", T, n), OUT("p", T, n)],
                                mk(T, a[0], a[1], "A", "a") + "auto const r=transposed(A);" + shape(T, *b) + put("r", n) + "auto const q=transposed(r); for(int i=0;i<%d;++i) p[i]=q.at(i);" % n,
                                "for(int i=0;i<%d;++i) o[i]=p[i]=a[i];" % n, "transposed(%s vector) keeps the elements in order; twice is the identity" % nm + d))
            pr.append(Probe("eye_" + t, [OUT("o", T, n * n)], "auto const r=eye<%s,%d>();" % (T, n) + shape(T, n, n) + put("r", n * n),
                            "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j) o[i*{n}+j]= i==j ? 1 : 0;".format(n=n), "eye(): ones on the diagonal, zeros elsewhere" + d))
            if n > 10:
                continue
            pr.append(Probe("eyemul_" + t, [IN("a", T, n * n), OUT("o", T, n * n), OUT("p", T, n * n)],
                            mk(T, n, n, "A", "a") + "auto const r=eye<%s,%d>()*A; " % (T, n) + put("r", n * n) + "auto const q=A*eye<%s,%d>(); " % (T, n) + put("q", n * n, "p"),
                            "for(int i=0;i<%d;++i) o[i]=p[i]=a[i];" % (n * n), "the identity is neutral for products" + d))
        if T in ("double", "short"):
            n = 300
            for a, b, nm in (((n, 1), (1, n), "col"), ((1, n), (n, 1), "row")):
                pr.append(Probe("trl_%s_%s" % (nm, T), [IN("a", T, n), OUT("o", T, n)], mk(T, a[0], a[1], "A", "a") + "auto const r=transposed(A);" + shape(T, *b) + put("r", n), "for(int i=0;i<%d;++i) o[i]=a[i];" % n,
                                "transposed(%s vector) of %d elements (%s)" % (nm, n, T)))
        pr.append(Probe("tr2_" + T, [IN("a", T, 4), OUT("o", T, 4), OUT("p", T, 4), OUT("q", T, 4)],
                        mk(T, 2, 2, "A", "a") + "auto const r=transposed(A);" + shape(T, 2, 2) + put("r", 4) + "auto const s=transposed(r);" + put("s", 4, "p") + put("A", 4, "q"),
                        "o[0]=a[0]; o[1]=a[2]; o[2]=a[1]; o[3]=a[3]; for(int i=0;i<4;++i) p[i]=q[i]=a[i];", "transposed(2x2) exchanges rows and columns (%s)" % T))
        pr.append(Probe("eye1_" + T, [OUT("o", T, 1)], "auto const r=eye<%s,1>(); o[0]=r.at(0);" % T, "o[0]=1;", "eye() of size 1 (%s)" % T))
    for T in ("double", "float"):
        pr.append(Probe("inv1_" + T, [S("v", T), OUT("o", T, 1)], "o[0]=inverted(v);", "o[0]= v==0 ? (%s)0 : 1/v;" % T, "inverted(v) is 1/v, and 0 for 0 (%s)" % T))
        pr.append(Probe("inv2_" + T, [IN("a", T, 4), OUT("o", T, 4)], mk(T, 2, 2, "A", "a") + "auto const r=inverted(A);" + shape(T, 2, 2) + put("r", 4),
                        "{T} d=a[0]*a[3]-a[1]*a[2]; o[0]=a[3]/d; o[1]=-a[1]/d; o[2]=-a[2]/d; o[3]=a[0]/d;".format(T=T), "inverted(2x2) is the inverse (%s)" % T))
        # independent of the off-diagonal elements' places: what holds for symmetric operands (covariances)
        pr.append(Probe("inv2sym_" + T, [IN("a", T, 3), OUT("o", T, 4), OUT("p", T, 4)],
                        "matrix<{T},2,2> A{{a[0],a[1],a[1],a[2]}}; auto const r=inverted(A); ".format(T=T) + put("r", 4) + "auto const q=A*r;" + put("q", 4, "p"),
                        "{T} d=a[0]*a[2]-a[1]*a[1]; o[0]=a[2]/d; o[1]=-a[1]/d; o[2]=-a[1]/d; o[3]=a[0]/d; p[0]=p[3]=1; p[1]=p[2]=0;".format(T=T),
                        "inverted(symmetric 2x2): A * inverted(A) is the identity (%s)" % T))
    for T in ("int", "short"):
        pr.append(Probe("inv1_" + T, [S("v", T), OUT("o", T, 1)], "o[0]=inverted(v);", "o[0]= v==0 ? 0 : 1/v;", "inverted(v) is 1/v, and 0 for 0 (%s)" % T))
    es = []
    for e in elems():
        q = [Probe("tr2_" + e.tag, [e.IN("a", 4), e.OUT("o", 4), e.OUT("p", 4)], e.mk(2, 2, "A", "a") + "auto const r=transposed(A);" + e.shape(2, 2) + e.put("r", 4) + e.put("A", 4, "p"),
                   "ST(o,0,LD(a,0)); ST(o,1,LD(a,2)); ST(o,2,LD(a,1)); ST(o,3,LD(a,3)); for(int i=0;i<4;++i) ST(p,i,LD(a,i));", "transposed(2x2) (%s)" % e.T),
             Probe("trv_" + e.tag, [e.IN("a", 3), e.OUT("o", 3), e.OUT("p", 3)], e.mk(3, 1, "A", "a") + e.mk(1, 3, "B", "a") + "auto const r=transposed(A);" + e.shape(1, 3) + e.put("r", 3) + "auto const q=transposed(B);" + e.put("q", 3, "p"),
                   "for(int i=0;i<3;++i) { ST(o,i,LD(a,i)); ST(p,i,LD(a,i)); }", "transposed(vector) (%s)" % e.T),
             Probe("eye_" + e.tag, [e.OUT("o", 9)], "auto const r=eye<T,3>();" + e.shape(3, 3) + e.put("r", 9), "for(int i=0;i<9;++i) ST(o,i,T(i%%4==0 ? 1 : 0));" % (), "eye() (%s)" % e.T)]
        es += [Suite("elem_" + e.tag, e.pre_all(), q, target=t) for t in e.targets]
    ctx.run_suites(es)
    inv = [p for p in pr if p.name.startswith("inv")]
    pr = [p for p in pr if not p.name.startswith("inv")]
    ctx.run_suites(suites("inverse", PRE + SAME, inv) + [s for i in range(0, len(pr), 50) for s in suites("transforms%d" % (i // 50), PRE + SAME, pr[i:i + 50])])
    return ctx.finish(META)
