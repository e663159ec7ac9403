from .mx import *

META = dict(
    title="Matrix products are the algebraic products, whatever the operands alias",
    statement="A product of two square matrices, of a matrix and a column, of a row and a matrix, of a column and a row (outer product) and of a row and a column (dot product) equals the sum-of-products definition for every element. It does so too when both operands are the same object or the result is assigned to an operand.",
    over=['inputs', 'programs'],
    text="all element values, sizes 2 to 10 and 17 (vectors to 16, 24, 32, 33, 64, 300), double, float and int (sizes 2, 3 also complex, unsigned and fixed-point), desktop and AVR",
    why="Tests multiply a few small literal matrices, often symmetric or with repeated values; exchanged indices or an aliasing slip survive them.",
    files=['include/num/matrix.hpp'],
    mechanism=[('operator* for matrices, row and column vectors', 'include/num/matrix.hpp')],
    how="the product is interpreted with every element unknown; each result element is a polynomial in the inputs that must equal the defining sum of products (polynomial identity)",
    note="real-number semantics: the order of summation is free, rounding is not modelled; sizes enumerated",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition",
)


def check(ctx):
    th = ctx.tier == "thorough"
    pr = []
    N = [2, 3, 4, 5, 7] + ([6, 8, 10] if th else [])
    for T in ("double", "float", "int"):
        for n in N + ([n for n in (6, 8, 9, 10) if n not in N] if T == "double" else []) + ([8] if T == "int" and not th else []):
            t = "%s_%d" % (T, n)
            d = " (%d, %s)" % (n, T)
            k = n * n
            A, B = mk(T, n, n, "A", "a"), mk(T, n, n, "B", "b")
            res = lambda r, c: shape(T, r, c) + put("r", r * c)
            pr.append(Probe("mm_" + t, [IN("a", T, k), IN("b", T, k), OUT("o", T, k)], A + B + "auto const r=A*B;" + res(n, n),
                            "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*b[k*{n}+j]; o[i*{n}+j]=s; }}".format(n=n, T=T),
                            "A * B: rows times columns" + d))
            pr.append(Probe("sq_" + t, [IN("a", T, k), OUT("o", T, k)], A + "auto const r=A*A;" + res(n, n),
                            "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*a[k*{n}+j]; o[i*{n}+j]=s; }}".format(n=n, T=T),
                            "A * A: the same object on both sides" + d))
            pr.append(Probe("assign_" + t, [IN("a", T, k), IN("b", T, k), OUT("o", T, k)], A + B + "A=A*B; auto const r=A;" + res(n, n),
                            "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*b[k*{n}+j]; o[i*{n}+j]=s; }}".format(n=n, T=T),
                            "A = A * B: the destination is an operand" + d))
            pr.append(Probe("mv_" + t, [IN("a", T, k), IN("x", T, n), OUT("o", T, n)], A + mk(T, n, 1, "X", "x") + "auto const r=A*X;" + res(n, 1),
                            "for(int i=0;i<{n};++i){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*x[k]; o[i]=s; }}".format(n=n, T=T),
                            "matrix * column vector" + d))
            pr.append(Probe("vm_" + t, [IN("a", T, k), IN("x", T, n), OUT("o", T, n)], A + mk(T, 1, n, "X", "x") + "auto const r=X*A;" + res(1, n),
                            "for(int i=0;i<{n};++i){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[k*{n}+i]*x[k]; o[i]=s; }}".format(n=n, T=T),
                            "row vector * matrix" + d))
            pr.append(Probe("outer_" + t, [IN("a", T, n), IN("b", T, n), OUT("o", T, k)], mk(T, n, 1, "A", "a") + mk(T, 1, n, "B", "b") + "auto const r=A*B;" + res(n, n),
                            "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j) o[i*{n}+j]=a[i]*b[j];".format(n=n), "column * row: the outer product" + d))
            pr.append(Probe("dot_" + t, [IN("a", T, n), IN("b", T, n), OUT("o", T, 1)], mk(T, 1, n, "A", "a") + mk(T, n, 1, "B", "b") +
                            "auto const r=A*B; static_assert(same<decltype(r),%s const>::v,\"a number\"); o[0]=r;" % T,
                            "%s s=0; for(int i=0;i<%d;++i) s=s+a[i]*b[i]; o[0]=s;" % (T, n), "row * column: the dot product, a number" + d))
            pr.append(Probe("c1_" + t, [IN("a", T, n), S("v", T), OUT("o", T, n), OUT("p", T, n)],
                            mk(T, n, 1, "A", "a") + "matrix<%s,1,1> V(v); auto const r=A*V; for(int i=0;i<%d;++i) o[i]=r(i);" % (T, n) +
                            mk(T, 1, n, "B", "a") + "auto const q=V*B; for(int i=0;i<%d;++i) p[i]=q(i);" % n,
                            "for(int i=0;i<%d;++i) p[i]=o[i]=a[i]*v;" % n, "column * 1x1 and 1x1 * row" + d))
    # more elements than a byte can count; longer vectors
    for T, n in (("double", 17), ("int", 17)):
        t, d = "%s_%d" % (T, n), " (%d, %s)" % (n, T)
        k = n * n
        A = mk(T, n, n, "A", "a")
        pr.append(Probe("mm_" + t, [IN("a", T, k), IN("b", T, k), OUT("o", T, 4)], A + mk(T, n, n, "B", "b") + "auto const r=A*B;" + shape(T, n, n) + "o[0]=r(0,{m}); o[1]=r({m},0); o[2]=r({m},{m}); o[3]=r(8,9);".format(m=n - 1),
                        "auto e=[&](int i,int j){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*b[k*{n}+j]; return s; }}; o[0]=e(0,{m}); o[1]=e({m},0); o[2]=e({m},{m}); o[3]=e(8,9);".format(n=n, m=n - 1, T=T), "A * B: rows times columns" + d))
        pr.append(Probe("mv_" + t, [IN("a", T, k), IN("x", T, n), OUT("o", T, n)], A + mk(T, n, 1, "X", "x") + "auto const r=A*X;" + shape(T, n, 1) + put("r", n),
                        "for(int i=0;i<{n};++i){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[i*{n}+k]*x[k]; o[i]=s; }}".format(n=n, T=T), "matrix * column vector" + d))
        pr.append(Probe("vm_" + t, [IN("a", T, k), IN("x", T, n), OUT("o", T, n)], A + mk(T, 1, n, "X", "x") + "auto const r=X*A;" + shape(T, 1, n) + put("r", n),
                        "for(int i=0;i<{n};++i){{ {T} s=0; for(int k=0;k<{n};++k) s=s+a[k*{n}+i]*x[k]; o[i]=s; }}".format(n=n, T=T), "row vector * matrix" + d))
        pr.append(Probe("outer_" + t, [IN("a", T, n), IN("b", T, n), OUT("o", T, k)], mk(T, n, 1, "A", "a") + mk(T, 1, n, "B", "b") + "auto const r=A*B;" + shape(T, n, n) + put("r", k),
                        "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j) o[i*{n}+j]=a[i]*b[j];".format(n=n), "column * row: the outer product" + d))
        n = 300
        pr.append(Probe("dotl_" + t, [IN("a", T, n), IN("b", T, n), OUT("o", T, 1)], mk(T, 1, n, "A", "a") + mk(T, n, 1, "B", "b") + "auto const r=A*B; o[0]=r;",
                        "%s s=0; for(int i=0;i<%d;++i) s=s+a[i]*b[i]; o[0]=s;" % (T, n), "row * column of 300 elements: the dot product (%s)" % T))
        for n in (11, 12, 13, 14, 15, 16, 24, 32, 33, 64):
            pr.append(Probe("dotl_%s_%d" % (T, n), [IN("a", T, n), IN("b", T, n), OUT("o", T, 1)], mk(T, 1, n, "A", "a") + mk(T, n, 1, "B", "b") + "auto const r=A*B; o[0]=r;",
                            "%s s=0; for(int i=0;i<%d;++i) s=s+a[i]*b[i]; o[0]=s;" % (T, n), "row * column of %d elements: the dot product (%s)" % (n, T)))
    # element types that are not built-in: sums of the type's own products
    es = []
    for e in elems():
        q = []
        for n in (2, 3):
            k = n * n
            A, B, X, Y = e.mk(n, n, "A", "a"), e.mk(n, n, "B", "b"), e.mk(n, 1, "X", "b"), e.mk(1, n, "Y", "b")
            d = " (%d, %s)" % (n, e.T)
            tot = "for(int i=0;i<{R};++i) for(int j=0;j<{C};++j){{ T s=T(0); for(int k=0;k<{n};++k) s=T(s+T(%s)); ST(o,i*{C}+j,s); }}"
            for nm, kb, code, R, C, sp in (("mm", k, A + B + "auto const r=A*B;", n, n, tot % "LD(a,i*{n}+k)*LD(b,k*{n}+j)"), ("sq", 1, A + "auto const r=A*A;", n, n, tot % "LD(a,i*{n}+k)*LD(a,k*{n}+j)"),
                                           ("mv", n, A + X + "auto const r=A*X;", n, 1, tot % "LD(a,i*{n}+k)*LD(b,k)"), ("vm", n, A + Y + "auto const r=Y*A;", 1, n, tot % "LD(b,k)*LD(a,k*{n}+j)"),
                                           ("outer", n, e.mk(n, 1, "A", "a") + Y + "auto const r=A*Y;", n, n, "for(int i=0;i<{n};++i) for(int j=0;j<{n};++j) ST(o,i*{n}+j,T(LD(a,i)*LD(b,j)));")):
                q.append(Probe("%s_%s_%d" % (nm, e.tag, n), [e.IN("a", k), e.IN("b", kb), e.OUT("o", R * C)], code + e.shape(R, C) + e.put("r", R * C), sp.format(n=n, R=R, C=C), nm + d))
            q.append(Probe("dot_%s_%d" % (e.tag, n), [e.IN("a", n), e.IN("b", n), e.OUT("o", 1)], e.mk(1, n, "A", "a") + X + "auto const r=A*X; ST(o,0,r);", (tot % "LD(a,k)*LD(b,k)").format(n=n, R=1, C=1), "dot product" + d))
        es += [Suite("elem_" + e.tag, e.pre_all(), q, target=t) for t in e.targets]
    ctx.run_suites(es)
    ctx.run_suites([s for i in range(0, len(pr), 50) for s in suites("products%d" % (i // 50), PRE + SAME, pr[i:i + 50])])
    return ctx.finish(META)
