from .mx import *

META = dict(
    title="No matrix operation leaves its operands; ill-shaped ones do not build",
    statement="No matrix operation or construction, including construction from a list that is too long, reads or writes memory outside its operands or uses an element that was never given a value. Operations whose operand shapes do not fit together, and modification of a constant matrix, are rejected at compile time.",
    over=['inputs', 'programs'],
    text="every operation and constructor for the enumerated shapes (1x1 to 20x15, 300 elements, products up to 17x17); all value lists longer than the matrix; programs that combine ill-fitting shapes",
    why="Out-of-bounds accesses inside a larger stack frame go unnoticed by value tests, and no test can contain a program that must not compile.",
    files=['include/num/matrix.hpp', 'include/std/algorithm.hpp'],
    mechanism=[('list construction clamped to the storage', 'include/num/matrix.hpp: matrix(std::initializer_list)'), ('static_assert / parameter shapes of operators', 'include/num/matrix.hpp')],
    how="the abstract memory model has one object per variable with its exact size: each access must be inside its object and each loaded byte initialised on every path; compile-fail witnesses, each with an accepted twin, are put to the compiler",
    note="indices passed by the user are not checked by the library and are outside the property; shapes enumerated",
    technique="abstract interpretation of the IR with a bounds/initialisation analysis; compile-fail witnesses",
)


def check(ctx):
    th = ctx.tier == "thorough"
    pr = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (5, 1)] + ([(4, 4), (4, 7), (7, 4), (8, 8)] if th else [])
    for T in ("double", "int", "signed char"):
        for n, m in shapes + ([(9, 9), (17, 3), (3, 17), (20, 15), (1, 300), (300, 1)] if T == "double" else []):
            k = n * m
            t, d = "%s_%d_%d" % (T.replace(" ", "_"), n, m), " (%dx%d %s)" % (n, m, T)
            M = "matrix<%s,%d,%d>" % (T, n, m)
            for extra in (1, 2, 7):
                il = ",".join("a[%d]" % i for i in range(k + extra))
                # guards on both sides of the matrix in one object
                pr.append(Probe("over%d_%s" % (extra, t), [IN("a", T, k + extra), OUT("o", T, k)],
                                "%s A{%s}; for(int i=0;i<%d;++i) o[i]=A.at(i);" % (M, il, k),
                                "for(int i=0;i<%d;++i) o[i]=a[i];" % k, "a list with %d value(s) too many is cut off at the matrix" % extra + d))
            one = [IN("a", T, k), IN("b", T, k), S("v", T), OUT("o", T, k)]
            A, B = mk(T, n, m, "A", "a"), mk(T, n, m, "B", "b")
            ops = ["A-B"] + (["A+B", "A+v", "v+A", "A-v", "A*v", "v*A"] if (n, m) != (1, 1) else [])
            for i, e in enumerate(ops):
                pr.append(Probe("op%d_%s" % (i, t), one, A + B + "auto const r=%s;" % e + put("r", k), None, "%s stays inside its operands" % e + d))
    for T in ("double", "int"):
        for n in (2, 3, 5) + ((17,) if T == "int" else ()) + ((4, 9) if th else ()):
            t, d = "%s_%d" % (T, n), " (%d %s)" % (n, T)
            A, B = mk(T, n, n, "A", "a"), mk(T, n, n, "B", "b")
            for nm, decl, e, k in (("mm", A + B, "A*B", n * n), ("mv", A + mk(T, n, 1, "X", "b"), "A*X", n), ("vm", A + mk(T, 1, n, "X", "b"), "X*A", n),
                                   ("outer", mk(T, n, 1, "X", "a") + mk(T, 1, n, "Y", "b"), "X*Y", n * n), ("trc", mk(T, n, 1, "X", "a"), "transposed(X)", n),
                                   ("trr", mk(T, 1, n, "X", "a"), "transposed(X)", n), ("eye", "", "(eye<%s,%d>())" % (T, n), n * n)):
                pr.append(Probe("%s_%s" % (nm, t), [IN("a", T, n * n), IN("b", T, n * n), OUT("o", T, k)], decl + "auto const r=%s;" % e + put("r", k), None, "%s stays inside its operands" % e + d))
    for T in ("double", "float"):
        pr.append(Probe("inv_%s" % T, [IN("a", T, 4), OUT("o", T, 4)], mk(T, 2, 2, "A", "a") + "auto const r=inverted(A);" + put("r", 4), None, "inverted(2x2) stays inside its operand (%s)" % T))
        pr.append(Probe("tr_%s" % T, [IN("a", T, 4), OUT("o", T, 4)], mk(T, 2, 2, "A", "a") + "auto const r=transposed(A);" + put("r", 4), None, "transposed(2x2) stays inside its operand (%s)" % T))
    ctx.run_suites([s for i in range(0, len(pr), 80) for s in suites("bounds%d" % (i // 80), PRE, pr[i:i + 80])])
    # operand shapes that do not fit together are rejected at compile time; each with an accepted twin
    w = []

    def M(n, m, v, T="double"):
        return "matrix<%s,%d,%d> %s((%s)0);" % (T, n, m, v, T)

    def bad(nm, code, what):
        w.append((nm, code, False, what))

    def good(nm, code, what):
        w.append((nm, code, True, what))
    for nm, op in (("add", "+"), ("sub", "-")):
        what = "A %s B" % op
        for i, (x, y) in enumerate((((2, 3), (3, 2)), ((2, 2), (3, 3)), ((1, 3), (3, 1)), ((2, 1), (3, 1)), ((4, 2), (2, 4)))):
            bad("%s_bad%d" % (nm, i), M(*x, "A") + M(*y, "B") + "(void)(A%sB);" % op, what + " of different shapes")
            good("%s_good%d" % (nm, i), M(*x, "A") + M(*x, "B") + "(void)(A%sB);" % op, what + " of equal shapes")
    what = "A * B"
    for i, (x, y) in enumerate((((2, 3), (2, 3)), ((3, 2), (3, 2)), ((2, 2), (3, 3)), ((4, 1), (4, 1)), ((1, 4), (1, 4)), ((2, 4), (2, 1)), ((3, 1), (3, 1)), ((1, 3), (2, 2)),
                                ((2, 3), (2, 1)), ((2, 2), (3, 1)), ((1, 2), (3, 1)), ((1, 4), (2, 2)))):
        bad("mul_bad%d" % i, M(*x, "A") + M(*y, "B") + "(void)(A*B);", what + " where columns of A and rows of B differ")
    for i, (x, y) in enumerate((((2, 2), (2, 2)), ((3, 3), (3, 3)), ((2, 2), (2, 1)), ((1, 2), (2, 2)), ((3, 1), (1, 3)), ((1, 3), (3, 1)))):
        good("mul_good%d" % i, M(*x, "A") + M(*y, "B") + "(void)(A*B);", what + " of matching shapes")
    bad("assign_bad", M(2, 3, "A") + M(3, 2, "B") + "A=B;", "assignment between different shapes")
    good("assign_good", M(2, 3, "A") + M(2, 3, "B") + "A=B;", "assignment between equal shapes")
    bad("inv_bad", M(2, 3, "A") + "(void)inverted(A);", "inverse of a non-square matrix")
    good("inv_good", M(2, 2, "A") + "(void)inverted(A);", "inverse of a 2x2 matrix")
    bad("const_bad", M(2, 2, "A") + "matrix<double,2,2> const & C=A; C(0,1)=1.0;", "write through a const matrix")
    bad("const_bad2", M(2, 2, "A") + "matrix<double,2,2> const & C=A; *C.begin()=1.0;", "write through a const matrix's iterator")
    bad("const_bad3", M(2, 2, "A") + "matrix<double,2,2> const & C=A; C[1]=1.0;", "write through a const matrix")
    good("const_good", M(2, 2, "A") + "A(0,1)=1.0; *A.begin()=1.0; A[1]=1.0;", "write through a non-const matrix")
    ctx.witnesses(PRE, w, T2 + ("gcc", "avr-gcc"))
    return ctx.finish(META)
