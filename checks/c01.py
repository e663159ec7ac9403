from .mx import *

META = dict(
    title="Matrix element access, iteration and construction agree on one row-major layout",
    statement="Every way of reading or writing an element of a matrix - by row and column, by position, by iteration - refers to the same element in row-major order, and a write changes that element only. Construction from one value sets every element; construction from a list fills in row-major order and leaves the rest zero. A copy holds the source's elements and is independent of it.",
    over=['inputs', 'programs'],
    text="all element values and all positions, for the shapes and element types listed in the check (1x1 to 8x8 and 300 elements in three proportions; the thorough tier takes every shape up to 6x6), desktop and AVR",
    why="The tests look at a handful of literal matrices; an index computation that is wrong for one shape or one element, or an aliasing copy, passes them.",
    files=['include/num/matrix.hpp'],
    mechanism=[('row-major storage, at/operator()/operator[]/begin/end', 'include/num/matrix.hpp: class matrix')],
    how="for each shape, element type and access path a fragment using the matrix is compiled to IR from the current headers and abstractly interpreted; every output location, as a function of all inputs, must be the same element of the input as in the definition; all writes elsewhere are compared too",
    note="decided for every element value; shapes and element types are enumerated (instantiations are a finite list, the class is generic in both)",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition",
)


# more elements than a byte can count, and an uneven split of them
LARGE = [(1, 300), (20, 15), (130, 2)]


def check(ctx):
    th = ctx.tier == "thorough"
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4), (3, 5), (1, 8)]
    if th:
        shapes += [(n, m) for n in range(1, 7) for m in range(1, 7) if (n, m) not in shapes] + [(8, 8), (2, 10), (10, 2)]
    pr = []
    for T in ("double", "float", "int", "signed char"):
        for n, m in shapes + (LARGE if T in ("double", "signed char") else []):
            k = n * m
            t = "%s_%d_%d" % (T.replace(" ", "_"), n, m)
            d = " (%dx%d %s)" % (n, m, T)
            M = "matrix<%s,%d,%d>" % (T, n, m)
            fill = M + " A((%s)0); { auto it=A.begin(); for(int i=0;i<%d;++i) *it++ = a[i]; }" % (T, k)
            ij = "for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) " % (n, m)
            # ---- observers: shape
            pr.append(Probe("shape_" + t, [OUT("o", "int", 5)],
                            M + " const A((%s)0); o[0]=A.rows(); o[1]=A.columns(); o[2]=A.size(); o[3]=(int)(A.end()-A.begin()); %s B((%s)0); o[4]=(int)(B.end()-B.begin());" % (T, M, T),
                            "o[0]=%d; o[1]=%d; o[2]=%d; o[3]=%d; o[4]=%d;" % (n, m, k, k, k), "rows, columns, size and the iteration range" + d))
            # ---- reading: every view shows the same element
            for nm, acc in (("at", "at(i*%d+j)" % m), ("at2", "at(i,j)"), ("call", "operator()(i*%d+j)" % m), ("call2", "operator()(i,j)"), ("sub", "operator[](i*%d+j)" % m)):
                for c in ("const", ""):
                    pr.append(Probe("rd_%s%s_%s" % (nm, c, t), [IN("a", T, k), OUT("o", T, k)],
                                    fill + M + " %s & C=A; " % c + ij + "o[i*%d+j]=C.%s;" % (m, acc),
                                    "for(int i=0;i<%d;++i) o[i]=a[i];" % k, "element (i,j) read through %s %s" % (c or "non-const", acc) + d))
            pr.append(Probe("it_" + t, [IN("a", T, k), OUT("o", T, k), OUT("p", T, k)],
                            fill + "int i=0; for(auto & x: A) o[i++]=x; " + M + " const & C=A; i=0; for(auto x: C) p[i++]=x;",
                            "for(int i=0;i<%d;++i) o[i]=p[i]=a[i];" % k, "iteration visits the elements in row-major order" + d))
            # ---- writing: through every view, exactly that element
            if k <= 16 or th and k < 100:
                for nm, acc in (("at", "at(e)"), ("at2", "at(e/%d,e%%%d)" % (m, m)), ("call", "operator()(e)"), ("call2", "operator()(e/%d,e%%%d)" % (m, m)),
                                ("sub", "operator[](e)"), ("it", "begin()[e]")):
                    pr.append(Probe("wr_%s_%s" % (nm, t), [IN("a", T, k), IN("w", T, k), OUT("o", T, k * k)],
                                    fill + "for(int e=0;e<%d;++e){ %s C(A); C.%s=w[e]; int i=0; for(auto x: C) o[e*%d+i++]=x; }" % (k, M, acc, k),
                                    "for(int e=0;e<%d;++e) for(int i=0;i<%d;++i) o[e*%d+i]= i==e ? w[e] : a[i];" % (k, k, k),
                                    "writing through %s changes that element only" % acc + d))
            if k >= 100:
                pos = (0, 1, m - 1, m, k // 2, 127, 128, 255, 256, k - 2, k - 1)
                pos = sorted({e for e in pos if 0 <= e < k})
                for nm, acc in (("at", "at(%d)"), ("at2", "at(%d,%d)"), ("call", "operator()(%d)"), ("call2", "operator()(%d,%d)"), ("sub", "operator[](%d)"), ("it", "begin()[%d]")):
                    pr.append(Probe("wr_%s_%s" % (nm, t), [IN("a", T, k), IN("w", T, len(pos)), OUT("o", T, k)],
                                    fill + "".join("A.%s=w[%d];" % (acc % ((e // m, e % m) if acc.count("%d") == 2 else e), z) for z, e in enumerate(pos)) + "int i=0; for(auto x: A) o[i++]=x;",
                                    "for(int i=0;i<%d;++i) o[i]=a[i];" % k + "".join("o[%d]=w[%d];" % (e, z) for z, e in enumerate(pos)), "writing through %s changes those elements only" % nm + d))
            # ---- construction
            pr.append(Probe("fill_" + t, [S("v", T), OUT("o", T, k)], M + " A(v); int i=0; for(auto x: A) o[i++]=x;",
                            "for(int i=0;i<%d;++i) o[i]=v;" % k, "construction from one value sets every element" + d))
            pr.append(Probe("zero_" + t, [OUT("o", T, k)], M + " A=%s(); int i=0; for(auto x: A) o[i++]=x;" % M,
                            "for(int i=0;i<%d;++i) o[i]=0;" % k, "value-initialisation gives zeros" + d))
            for q in range(1, k + 1):
                if k >= 100 and q not in (1, 2, k - 1, k) or q > 1 and q not in (k, k - 1, k // 2) and k > 6:
                    continue
                il = ",".join("a[%d]" % i for i in range(q))
                pr.append(Probe("list%d_%s" % (q, t), [IN("a", T, q), OUT("o", T, k)], M + " A{%s}; int i=0; for(auto x: A) o[i++]=x;" % il,
                                "for(int i=0;i<%d;++i) o[i]= i<%d ? a[i<%d?i:0] : (%s)0;" % (k, q, q, T),
                                "a list of %d value(s) fills in row-major order, the rest are zero" % q + d))
            # ---- copies are independent of their source
            pr.append(Probe("copy_" + t, [IN("a", T, k), IN("b", T, k), OUT("o", T, k), OUT("p", T, k), OUT("q", T, k), OUT("r", T, k)],
                            fill + M + " B(A); " + M + " C((%s)0); C=A; for(int i=0;i<%d;++i) A.at(i)=b[i]; " % (T, k) +
                            "for(int i=0;i<%d;++i){o[i]=B.at(i);p[i]=C.at(i);q[i]=A.at(i);} %s D(static_cast<%s&&>(B)); for(int i=0;i<%d;++i) r[i]=D.at(i);" % (k, M, M, k),
                            "for(int i=0;i<%d;++i){o[i]=p[i]=r[i]=a[i]; q[i]=b[i];}" % k, "copies and assignments hold the source's elements and are independent of it" + d))
    out = []
    for i in range(0, len(pr), 120):
        out += suites("storage%d" % (i // 120), PRE, pr[i:i + 120])
    ctx.run_suites(out)
    return ctx.finish(META)
