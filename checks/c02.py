from .mx import *

META = dict(
    title="Elementwise matrix arithmetic is exact for every element and operand kind",
    statement="Adding and subtracting matrices of equal shape, and adding, subtracting or multiplying by a number or a 1x1 matrix on either side the library supports, produces in each element exactly the result of that operation on the corresponding element(s), in the operands' shape. Operands are left unchanged.",
    over=['inputs', 'programs'],
    text="all element values, forty shapes up to 8x8, 16 and 20x15 in the quick tier and every shape up to 8x8 plus larger ones in the thorough tier, floating, signed and unsigned integer, complex and fixed-point element types, desktop and AVR",
    why="Tests use a few literal matrices in one or two shapes; an operator that mixes up operands, skips an element or reuses its left operand shows only for other values or shapes.",
    files=['include/num/matrix.hpp'],
    mechanism=[('operator+, operator-, operator* with matrix, number and 1x1 operands', 'include/num/matrix.hpp')],
    how="each operator on each shape and type is interpreted with every element unknown and compared, element by element, with the loop that defines it; static_assert witnesses fix the result's shape",
    note="real-number semantics for floating types (rounding and NaN are not modelled), exact integer semantics with wrap-around for the integer types; shapes enumerated",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition",
)


def check(ctx):
    thorough = ctx.tier == "thorough"
    pr = []
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (2, 5), (7, 3)]
    if thorough:
        shapes += [(n, m) for n in range(1, 9) for m in range(1, 9) if (n, m) not in shapes] + [(12, 12), (1, 16), (16, 1)]
    MORE = [s for s in [(n, n) for n in (5, 6, 7, 8)] + [(n, m) for n in (1, 2, 3, 4) for m in (4, 6, 8)] + [(n, m) for n in (4, 5, 6, 8) for m in (1, 2, 3)] + [(1, 16), (16, 1)] if s not in shapes]
    types = ["double", "float", "int"] + (["short", "signed char", "long long"] if thorough else ["short"])
    for T in types:
        tt = T.replace(" ", "_")
        for n, m in shapes + ([(20, 15)] if T in ("double", "short") else []) + (MORE if T == "double" and not thorough else []):
            k = n * m
            two = [IN("a", T, k), IN("b", T, k), OUT("o", T, k)]
            one = [IN("a", T, k), S("v", T), OUT("o", T, k)]
            d = "%dx%d %s" % (n, m, T)
            A, B = mk(T, n, m, "A", "a"), mk(T, n, m, "B", "b")
            AA = mk(T, n, m, "A", "a") + "matrix<%s,%d,%d> const & CA=A;" % (T, n, m)
            res = shape(T, n, m) + put("r", k)
            tag = "%s_%d_%d" % (tt, n, m)
            cv = "(%s)" % T

            def add(op, args, code, spec, what):
                pr.append(Probe("%s_%s" % (op, tag), args, code, spec, what + " (%s)" % d))
            # 1x1 + 1x1 is rejected by the compiler (ambiguous); narrow 1x1 * 1x1 likewise (narrowing)
            if (n, m) != (1, 1):
                add("add", two, A + B + "auto const r=A+B;" + res, each(k, cv + "(a[i]+b[i])"), "A + B is the elementwise sum")
            add("sub", two, A + B + "auto const r=A-B;" + res, each(k, cv + "(a[i]-b[i])"), "A - B is the elementwise difference")
            if (n, m) == (1, 1):
                s1 = "static_assert(same<decltype(r), %s const>::v,\"a number\"); o[0]=r;" % T
                for nm, e, sp in (("avs", "A+v", "a[0]+v"), ("vas", "v+A", "v+a[0]"), ("smv", "A-v", "a[0]-v"), ("vms", "v-A", "v-a[0]"), ("smul", "A*v", "a[0]*v"), ("vmul", "v*A", "v*a[0]")):
                    add(nm, one, A + "auto const r=%s;" % e + s1, "o[0]=%s(%s);" % (cv, sp), "1x1: %s" % e)
                if T not in ("short", "signed char"):
                    add("mul11", two, A + B + "auto const r=A*B;" + res, "o[0]=%s(a[0]*b[0]);" % cv, "1x1: A * B")
                continue
            add("addv", one, A + "auto const r=A+v;" + res, each(k, cv + "(a[i]+v)"), "A + v adds v to every element")
            add("vadd", one, A + "auto const r=v+A;" + res, each(k, cv + "(v+a[i])"), "v + A adds v to every element")
            add("subv", one, A + "auto const r=A-v;" + res, each(k, cv + "(a[i]-v)"), "A - v subtracts v from every element")
            add("mulv", one, A + "auto const r=A*v;" + res, each(k, cv + "(a[i]*v)"), "A * v scales every element")
            add("vmul", one, A + "auto const r=v*A;" + res, each(k, cv + "(v*a[i])"), "v * A scales every element")
            V = "matrix<%s,1,1> V(v);" % T
            add("add11", one, A + V + "auto const r=A+V;" + res, each(k, cv + "(a[i]+v)"), "A + 1x1 adds its element everywhere")
            add("r11add", one, A + V + "auto const r=V+A;" + res, each(k, cv + "(a[i]+v)"), "1x1 + A adds its element everywhere")
            # 1x1 beside a vector: both the scalar and the vector product apply and agree; tried where unambiguous
            if n > 1 and m > 1:
                add("mul11", one, A + V + "auto const r=A*V;" + res, each(k, cv + "(a[i]*v)"), "A * 1x1 scales every element")
                add("r11mul", one, A + V + "auto const r=V*A;" + res, each(k, cv + "(a[i]*v)"), "1x1 * A scales every element")
    groups = {}
    out = []
    per = 60
    for i in range(0, len(pr), per):
        out += suites("elementwise%d" % (i // per), PRE + SAME, pr[i:i + per])
    # element types that are not built-in: the operations of the type itself, element by element
    for e in elems():
        pr = []
        for n, m in ((2, 2), (2, 3), (1, 3), (3, 1)):
            k = n * m
            two = [e.IN("a", k), e.IN("b", k), e.OUT("o", k)]
            A, B, V = e.mk(n, m, "A", "a"), e.mk(n, m, "B", "b"), "T const v=LD(v_,0);"
            one = [e.IN("a", k), e.IN("v_", 1), e.OUT("o", k)]
            for nm, al, ex, sp in (("add", two, "A+B", "LD(a,i)+LD(b,i)"), ("sub", two, "A-B", "LD(a,i)-LD(b,i)"), ("addv", one, "A+v", "LD(a,i)+v"), ("vadd", one, "v+A", "LD(a,i)+v"),
                                   ("subv", one, "A-v", "LD(a,i)-v"), ("mulv", one, "A*v", "LD(a,i)*v"), ("vmul", one, "v*A", "LD(a,i)*v")):
                vv = V if al is one else ""
                pr.append(Probe("%s_%s_%d_%d" % (nm, e.tag, n, m), al, A + (B if al is two else vv) + "auto const r=%s;" % ex + e.shape(n, m) + e.put("r", k),
                                vv + "for(int i=0;i<%d;++i) ST(o,i,T(%s));" % (k, sp), "%s, %dx%d (%s)" % (ex, n, m, e.T)))
            if n > 1 and m > 1:
                for nm, ex in (("mul11", "A*W"), ("r11mul", "W*A")):
                    pr.append(Probe("%s_%s_%d_%d" % (nm, e.tag, n, m), one, A + V + "matrix<T,1,1> W(v); auto const r=%s;" % ex + e.shape(n, m) + e.put("r", k),
                                    V + "for(int i=0;i<%d;++i) ST(o,i,T(LD(a,i)*v));" % k, "%s with a 1x1 matrix, %dx%d (%s)" % (ex, n, m, e.T)))
        out += [Suite("elem_" + e.tag, e.pre_all(), pr, target=t) for t in e.targets]
    ctx.run_suites(out)
    return ctx.finish(META)
