from .fx import *

META = dict(
    title="Fixed-point numbers work in constant expressions; bad formats do not build",
    statement="Construction, conversion, arithmetic and comparison of fixed-point numbers are usable in constant expressions, for negative and positive values alike. Formats over an unsigned or a floating representation are rejected at compile time, as are writes through a constant number.",
    over=["programs", "configurations"],
    text="programs that use each operation in a static assertion and programs that name an invalid format, desktop and AVR",
    why="The tests assert at run time only (their static variant is switched off) and a test suite cannot contain programs that must not compile.",
    files=["include/num/fixed-point.hpp"],
    mechanism=[("signed integral representation required", "include/num/fixed-point.hpp: num_require"), ("constexpr members", "include/num/fixed-point.hpp: class fixed_point")],
    how="compile-time witnesses: each accepted program contains static assertions evaluated by the compiler's constant evaluator (which also rejects undefined behaviour); each rejected one has an accepted twin",
    note="a finite list of programs",
    technique="compile-time witnesses: static assertions that must hold and programs that must be rejected")


def check(ctx):
    w = []
    for nm, T, I in (("i8", "std20::int8_t", 3), ("i16", "std20::int16_t", 8), ("i32", "std20::int32_t", 15)):
        F = "using F=fixed_point<%s,%d>;" % (T, I)
        for x, y in ((4, 2), (-4, 2), (4, -2), (-4, -2), (0, 3), (-6, 3), (7, 1), (-7, -1)):
            for op, g in (("+", x + y), ("-", x - y), ("*", x * y), ("/", int(x / y))):
                if abs(g) >= (1 << I):
                    continue
                w.append(("%s_%d_%d_%s" % (nm, x, y, {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op]),
                          F + "constexpr F a(%d), b(%d); constexpr auto r=a%sb; static_assert(r==F(%d),\"\"); static_assert((a<b)==%s && (a<=b)==%s && (a>b)==%s && (a>=b)==%s && (a==b)==false && (a!=b)==true,\"\");" % (
                              x, y, op, g, str(x < y).lower(), str(x <= y).lower(), str(x > y).lower(), str(x >= y).lower()), True, "%s%s%s as a constant expression" % (x, op, y)))
        for v in (-5, -1, 0, 1, 5):
            w.append(("%s_conv%d" % (nm, v), F + "constexpr F a(%d); static_assert(a.as<int>()==%d && a.as<long>()==%d && a.as<signed char>()==%d,\"\"); static_assert((-a).as<int>()==%d && (+a).as<int>()==%d,\"\");"
                      "static_assert(a.underlying_value()==(%d)*(1L<<F::fractional_digits),\"\"); static_assert(to_rep<F>()(a)==a.underlying_value(),\"\"); static_assert(from_rep<F>()(a.underlying_value())==a,\"\");"
                      "constexpr F b(%d.0), c(%d.0f); static_assert(a==b && a==c,\"\"); static_assert(a.as<double>()==%d.0 && a.as<float>()==%d.0f && a.as_double()==%d.0,\"\");" % (v, v, v, v, -v, v, v, v, v, v, v, v), True, "conversions of %d as constant expressions" % v))
        w.append((nm + "_min", F + "constexpr F a(0); static_assert(a.min()<a && a<a.max() && a.min().as<int>()==-(1L<<%d) && a.max().as<int>()==(1L<<%d)-1,\"\"); static_assert(F::digits==%d && F::integer_digits==%d && F::fractional_digits==%d,\"\");"
                  % (I, I, int(nm[1:]) - 1, I, int(nm[1:]) - 1 - I), True, "extremes and digit counts as constant expressions"))
        w.append((nm + "_assign", F + "struct Q{ static constexpr F f(){ F a(3); a+=F(2); a-=F(1); a*=F(-1); a/=F(2); return a; } }; static_assert(Q::f()==F(-2),\"\");", True, "compound assignment in a constant expression"))
        w.append((nm + "_functor", F + "constexpr to_rep<F> t{}; constexpr from_rep<F> f{}; constexpr F a(2); static_assert(t(a)==2L<<F::fractional_digits,\"\"); static_assert(f(a.underlying_value())==a,\"\");", True, "constant conversion objects"))
        w.append((nm + "_const_bad", F + "F const a(1); a+=F(1);", False, "compound assignment to a constant"))
        w.append((nm + "_const_good", F + "F a(1); a+=F(1);", True, "compound assignment to a variable"))
    for T, ok in (("unsigned char", 0), ("unsigned", 0), ("unsigned long", 0), ("float", 0), ("double", 0), ("signed char", 1), ("int", 1), ("long", 1)):
        w.append(("rep_" + T.replace(" ", "_"), "fixed_point<%s,5,2> a(1); (void)a;" % T, bool(ok), "a format represented by %s" % T))
        w.append(("repd_" + T.replace(" ", "_"), "fixed_point<%s,5> a(1); (void)a;" % T, bool(ok), "a format represented by %s, default fraction" % T))
    w.append(("rep_ptr", "fixed_point<int*,5,2> a(1); (void)a;", False, "a format represented by a pointer"))
    ctx.witnesses(FPRE, w, ("desktop", "avr", "gcc", "avr-gcc"))
    return ctx.finish(META)
