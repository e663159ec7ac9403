from .mx import *

META = dict(
    title="Matrix, complex and algorithm operations work in constant expressions",
    statement="Matrices can be constructed, accessed, modified, added, subtracted, multiplied, transposed and inverted in constant expressions, and so can the library's own complex numbers (microcontroller), copy, fill, equal and swap be used. What they yield there is what the operations are defined to yield. Using an object that is not constant in a constant expression is rejected.",
    over=['programs'],
    text="each operation of the list for int and double (complex: double and float) elements, shapes 1x1 to 3x3, desktop and microcontroller",
    why="A test runs the functions; whether they may appear where the language demands a constant shows only when a program with such a use is compiled.",
    files=['include/num/matrix.hpp', 'include/std/algorithm.hpp', 'include/std/utility.hpp', 'include/std/complex.hpp', 'include/num/constants.hpp'],
    mechanism=[('constexpr operations', 'include/num/matrix.hpp'), ('constexpr copy(), fill(), equal(), swap()', 'include/std/algorithm.hpp, include/std/utility.hpp')],
    how="a program per operation, with the expected values in static assertions, is put to the compiler, which must accept it; each kind of illegal use must be rejected",
    note="the values are those of chosen operands (arbitrary ones are the matter of the other properties); the verdict is that of the compilers at hand (clang 18, gcc 13, avr-gcc 7, C++17)",
    technique="compile-time witnesses (static assertions and compile-fail twins) put to the compiler's constant evaluator",
)


def check(ctx):
    w = []

    def good(nm, code, what):
        w.append((nm, code, True, what + " in a constant expression"))

    def bad(nm, code, what):
        w.append((nm, code, False, what))
    for T in ("int", "double", "float", "short"):
        t = T
        M = lambda n, m: "matrix<%s,%d,%d>" % (T, n, m)
        L = lambda v, n, m, *x: "constexpr %s %s{%s};" % (M(n, m), v, ",".join("%s(%d)" % (T, z) for z in x))
        is_ = lambda e, *x: "".join("static_assert(%s.at(%d)==%d,\"\");" % (e, i, z) for i, z in enumerate(x))
        A, B = L("A", 2, 2, 1, 2, 3, 5), L("B", 2, 2, 7, -1, 4, 2)
        good("access_" + t, L("A", 2, 3, 1, 2, 3, 4, 5, 6) + "static_assert(A.rows()==2 && A.columns()==3 && A.size()==6 && A.at(1,2)==6 && A(0,1)==2 && A(4)==5 && A[3]==4 && A.at(2)==3 && *A.begin()==1 && A.end()-A.begin()==6,\"\");", "construction and access")
        good("fill_" + t, "constexpr %s A(%s(7)); static_assert(A(0)==7 && A(5)==7,\"\");" % (M(2, 3), T), "construction from one value")
        good("short_" + t, L("A", 2, 2, 1, 2) + is_("A", 1, 2, 0, 0), "construction from a shorter list")
        good("long_" + t, L("A", 1, 2, 1, 2, 3) + is_("A", 1, 2), "construction from a longer list")
        good("add_" + t, A + B + "constexpr auto r=A+B;" + is_("r", 8, 1, 7, 7), "A + B")
        good("sub_" + t, A + B + "constexpr auto r=A-B;" + is_("r", -6, 3, -1, 3), "A - B")
        good("mul_" + t, A + B + "constexpr auto r=A*B;" + is_("r", 15, 3, 41, 7), "A * B")
        good("scalar_" + t, A + "constexpr auto r=A*%s(2), q=%s(3)*A, p=A+%s(1), o=%s(1)+A, n=A-%s(1);" % (T, T, T, T, T) + is_("r", 2, 4, 6, 10) + is_("q", 3, 6, 9, 15) + is_("p", 2, 3, 4, 6) + is_("o", 2, 3, 4, 6) + is_("n", 0, 1, 2, 4), "operations with a number")
        good("vec_" + t, A + L("x", 2, 1, 3, 4) + L("y", 1, 2, 5, 6) + "constexpr auto r=A*x, s=x; constexpr auto q=y*A; constexpr auto p=y*x; constexpr auto o=x*y;" + is_("r", 11, 29) + is_("q", 23, 40) + "static_assert(p==39,\"\");" + is_("o", 15, 18, 20, 24), "products with vectors")
        good("trans_" + t, A + L("x", 3, 1, 3, 4, 5) + "constexpr auto r=transposed(A); constexpr auto y=transposed(x), z=transposed(x); constexpr auto x2=transposed(y);" + is_("r", 1, 3, 2, 5) + is_("y", 3, 4, 5) + is_("x2", 3, 4, 5), "transposition")
        good("eye_" + t, "constexpr auto r=eye<%s,3>();" % T + is_("r", 1, 0, 0, 0, 1, 0, 0, 0, 1), "the identity")
        good("one_" + t, "constexpr %s A(%s(4)); static_assert(A+%s(1)==5 && %s(1)+A==5 && A-%s(1)==3 && %s(1)-A==-3 && A*%s(2)==8 && %s(2)*A==8,\"\");" % ((M(1, 1),) + (T,) * 7), "1x1 operations")
        good("modify_" + t, "struct Q{ static constexpr auto f(){ %s A(%s(0)); for(int i=0;i<4;++i) A.at(i)=%s(i); A(1,1)=%s(9); A[0]=%s(5); *(A.begin()+1)=%s(6); auto B=A; B(2)=%s(8); A=B; return A; } }; constexpr auto r=Q::f();" % ((M(2, 2),) + (T,) * 6) + is_("r", 5, 6, 8, 9), "modification of elements and assignment")
        good("sum_" + t, "struct Q{ static constexpr %s f(){ %s A{1,2,3,4}; %s s=0; for(auto x : A) s=%s(s+x); for(auto & x : A) x=%s(0); return %s(s+A(3)); } }; static_assert(Q::f()==10,\"\");" % (T, M(2, 2), T, T, T, T), "iteration")
        if T in ("double", "float"):
            good("inv_" + t, L("A", 2, 2, 2, 0, 0, 4) + "constexpr auto r=inverted(A); static_assert(r(0)==%s(0.5) && r(1)==0 && r(2)==0 && r(3)==%s(0.25) && inverted(%s(4))==%s(0.25) && inverted(%s(0))==0,\"\");" % ((T,) * 5), "inversion")
            good("pi_" + t, "static_assert(num::pi<%s> > %s(3.1415) && num::pi<%s> < %s(3.1416),\"\");" % ((T,) * 4), "the constant pi")
        bad("nonconst_" + t, M(2, 2) + " A{1,2,3,4}; constexpr auto r=A+A; (void)r;", "a constant computed from a variable matrix")
        bad("constmod_" + t, L("A", 2, 2, 1, 2, 3, 4) + "A(0)=%s(1);" % T, "modification of a constant matrix")
    pre = PRE + '#include "num/constants.hpp"\n#include "std/algorithm.hpp"\n#include "std/utility.hpp"\n#include "std/complex.hpp"\n'
    for T in ("int", "double"):
        good("copy_" + T, "struct Q{ static constexpr bool f(){ %s a[3]={1,2,3}, b[4]={9,9,9,9}; auto e=std20::copy(a,a+3,b+1); return e==b+4 && b[0]==9 && b[1]==1 && b[2]==2 && b[3]==3; } }; static_assert(Q::f(),\"\");" % T, "copy()")
        good("fill_alg_" + T, "struct Q{ static constexpr bool f(){ %s b[4]={9,9,9,9}; std20::fill(b+1,b+3,7); return b[0]==9 && b[1]==7 && b[2]==7 && b[3]==9; } }; static_assert(Q::f(),\"\");" % T, "fill()")
        good("equal_" + T, "struct P{ %s v; constexpr bool operator()(%s a, %s b) const { return a+v==b; } }; struct Q{ static constexpr bool f(){ %s a[3]={1,2,3}, b[3]={1,2,4}, c[3]={2,3,4}; return std20::equal(a,a+2,b) && !std20::equal(a,a+3,b) && std20::equal(a,a,b) && std20::equal(a,a+3,c,P{1}) && !std20::equal(a,a+3,b,P{1}); } }; static_assert(Q::f(),\"\");" % ((T,) * 4), "equal()")
        good("swap_" + T, "struct Q{ static constexpr bool f(){ %s a=1, b=2; std20::swap(a,b); return a==2 && b==1; } }; static_assert(Q::f(),\"\");" % T, "swap()")
    ctx.witnesses(pre, w, ("desktop", "avr", "gcc", "avr-gcc"))
    cx = []
    for T in ("double", "float"):
        C = "using C=std20::complex<%s>; " % T
        z = lambda e, re, im: "static_assert((%s).real()==%s(%s) && (%s).imag()==%s(%s),\"\");" % (e, T, re, e, T, im)
        AB = C + "constexpr C a(3,-4), b(1,2); "
        for nm, e, re, im in (("add", "a+b", 4, -2), ("sub", "a-b", 2, -6), ("mul", "a*b", 11, 2), ("div", "a/b", -1, -2), ("neg", "-a", -3, 4), ("pos", "+a", 3, -4), ("addt", "a+%s(1)" % T, 4, -4), ("tadd", "%s(1)+a" % T, 4, -4),
                              ("subt", "a-%s(1)" % T, 2, -4), ("tsub", "%s(1)-a" % T, -2, 4), ("mult", "a*%s(2)" % T, 6, -8), ("tmul", "%s(2)*a" % T, 6, -8), ("divt", "a/%s(2)" % T, 1.5, -2), ("tdiv", "%s(5)/b" % T, 1, -2)):
            cx.append(("cx_%s_%s" % (nm, T), AB + z(e, re, im), True, "complex %s in a constant expression" % e))
        cx.append(("cx_assign_" + T, C + "struct Q{ static constexpr C f(){ C a(1,2); a+=C(1,1); a-=C(0,1); a*=C(2,0); a/=C(1,0); a+=%s(1); a-=%s(2); a*=%s(3); a/=%s(3); C b; b=a; b.imag(%s(9)); return b; } }; constexpr C r=Q::f(); " % ((T,) * 5) + z("r", 3, 9), True, "complex assignments in a constant expression"))
        cx.append(("cx_const_" + T, C + "constexpr C a(1,2); a.real(%s(3));" % T, False, "modification of a constant complex number"))
    ctx.witnesses('#include "std/complex.hpp"\n', cx, ("avr", "avr-gcc"))
    ctx.witnesses('#include "std/complex.hpp"\n', [("cx_ctor_" + T, "using C=std20::complex<%s>; constexpr C a(3,-4); static_assert(a.real()==3 && a.imag()==-4 && C().real()==0,\"\");" % T, True, "complex construction in a constant expression") for T in ("double", "float")], ("desktop", "avr", "gcc", "avr-gcc"))
    return ctx.finish(META)
