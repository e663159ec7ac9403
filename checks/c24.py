from .bq import *

META = dict(
    title="The library's own standard facilities behave as the standard ones do",
    statement="Complex arithmetic (all operators, mixed real operands, magnitude, polar form, principal square root), copy, fill, equal, swap and move do the same on the desktop and in the replacement for the AVR, and as the C++ standard defines them. Type traits, integer limits and fixed-width integer types have their standard values on both targets.",
    over=["inputs", "configurations"],
    text="all values; complex<float>, <double>; sequences of 0 to 5, 40 and 300 elements including overlapping copies to the front; all integer types; desktop and AVR",
    why="The replacements are only compiled for the micro-controller, where no tests run; the desktop tests never see them.",
    files=["include/std/complex.hpp", "include/std/algorithm.hpp", "include/std/utility.hpp", "include/std/limits.hpp", "include/std/type_traits.hpp", "include/std/cstdint.hpp"],
    mechanism=[("complex, abs(), polar(), sqrt()", "include/std/complex.hpp"), ("copy(), fill(), equal()", "include/std/algorithm.hpp"), ("swap(), move(), initializer_list", "include/std/utility.hpp"), ("numeric_limits", "include/std/limits.hpp"), ("traits", "include/std/type_traits.hpp")],
    how="results are compared, as values over all operands, with the definitions; traits, limits and types by the compiler, as static assertions for both targets",
    note="real-number semantics; quotients by zero excluded; lengths enumerated",
    technique=VF + "; compile-time witnesses")

CXP = '#include "std/complex.hpp"\nusing std20::complex;\n'
ALP = '#include "std/algorithm.hpp"\n#include "std/utility.hpp"\n'


def cplx(ctx, t):
    pr = []
    for T in ("double", "float"):
        U = "using T=%s; using C=complex<T>; " % T

        def add(nm, args, code, spec, what, outs=2, **k):
            pr.append(Probe("%s_%s" % (nm, T), args + [OUT("o", T, outs)], U + code, "using T=%s; " % T + spec, what + " (%s)" % T, **k))
        a, b, s = IN("a", T, 2), IN("b", T, 2), S("s", T)
        Z = "C const z(a[0],a[1]); "
        ZW = Z + "C const w(b[0],b[1]); "
        G = "o[0]=r.real();o[1]=r.imag();"
        bi = {"+": "o[0]=a[0]+b[0];o[1]=a[1]+b[1];", "-": "o[0]=a[0]-b[0];o[1]=a[1]-b[1];", "*": "o[0]=a[0]*b[0]-a[1]*b[1];o[1]=a[0]*b[1]+a[1]*b[0];",
              "/": "T const n=b[0]*b[0]+b[1]*b[1]; o[0]=(a[0]*b[0]+a[1]*b[1])/n;o[1]=(a[1]*b[0]-a[0]*b[1])/n;"}
        zs = {"+": "o[0]=a[0]+s;o[1]=a[1];", "-": "o[0]=a[0]-s;o[1]=a[1];", "*": "o[0]=a[0]*s;o[1]=a[1]*s;", "/": "o[0]=a[0]/s;o[1]=a[1]/s;"}
        sz = {"+": "o[0]=a[0]+s;o[1]=a[1];", "-": "o[0]=s-a[0];o[1]=-a[1];", "*": "o[0]=a[0]*s;o[1]=a[1]*s;", "/": "T const n=a[0]*a[0]+a[1]*a[1]; o[0]=s*a[0]/n;o[1]=-s*a[1]/n;"}
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
        for op in "+-*/":
            add("zz" + nm[op], [a, b], ZW + "C const r=z%sw;" % op + G, bi[op], "complex %s complex" % op)
            add("zs" + nm[op], [a, s], Z + "C const r=z%ss;" % op + G, zs[op], "complex %s real" % op)
            add("sz" + nm[op], [a, s], Z + "C const r=s%sz;" % op + G, sz[op], "real %s complex" % op)
            add("czz" + nm[op], [a, b], "C z(a[0],a[1]); C const w(b[0],b[1]); C & k=(z%s=w); C const r=z; o[2]=&k==&z;" % op + G, bi[op] + "o[2]=1;", "complex %s= complex" % op, 3)
            add("czs" + nm[op], [a, s], "C z(a[0],a[1]); C & k=(z%s=s); C const r=z; o[2]=&k==&z;" % op + G, zs[op] + "o[2]=1;", "complex %s= real" % op, 3)
            add("self" + nm[op], [a], "C r(a[0],a[1]); r%s=r;" % op + G, bi[op].replace("b[", "a[") if op != "/" else "o[0]=1;o[1]=0;", "complex %s= itself" % op)
            add("chain" + nm[op], [a, b, s], ZW + "C const r=(z%sw)%ss;" % (op, op) + G, bi[op] + {"+": "o[0]+=s;", "-": "o[0]-=s;", "*": "o[0]*=s;o[1]*=s;", "/": "o[0]/=s;o[1]/=s;"}[op], "complex %s complex %s real" % (op, op))
            add("pure" + nm[op], [a, b, s], ZW.replace("const ", "") + "C const p=z%sw, q=z%ss, v=s%sz; (void)p;(void)q;(void)v; o[0]=z.real();o[1]=z.imag();o[2]=w.real();o[3]=w.imag();" % (op, op, op), "o[0]=a[0];o[1]=a[1];o[2]=b[0];o[3]=b[1];", "operator%s leaves its operands alone" % op, 4)
        add("neg", [a], Z + "C const r=-z;" + G, "o[0]=-a[0];o[1]=-a[1];", "unary minus")
        add("pos", [a], Z + "C const r=+z;" + G, "o[0]=a[0];o[1]=a[1];", "unary plus")
        add("ctor", [a], "C const r(a[0],a[1]); C const p(a[1]); C const q; C const k{}; o[0]=r.real();o[1]=r.imag();o[2]=p.real();o[3]=p.imag();o[4]=q.real();o[5]=q.imag();o[6]=k.real();o[7]=k.imag();", "o[0]=a[0];o[1]=a[1];o[2]=a[1];o[3]=o[4]=o[5]=o[6]=o[7]=0;", "construction", 8)
        add("copy", [a, b], ZW + "C r(z); C p=w; p=r; r=w; o[0]=r.real();o[1]=r.imag();o[2]=p.real();o[3]=p.imag();", "o[0]=b[0];o[1]=b[1];o[2]=a[0];o[3]=a[1];", "copies are independent", 4)
        add("asgn", [a, s], "C r(a[0],a[1]); r=s;" + G, "o[0]=s;o[1]=0;", "assignment of a real number")
        add("set", [a, b], "C r(a[0],a[1]); r.real(b[0]); o[0]=r.real();o[1]=r.imag(); r.imag(b[1]); o[2]=r.real();o[3]=r.imag();", "o[0]=b[0];o[1]=a[1];o[2]=b[0];o[3]=b[1];", "setting a part", 4)
        add("abs", [a], Z + "using std::abs; o[0]=abs(z);".replace("using std::abs; ", ""), "o[0]=__builtin_sqrt(a[0]*a[0]+a[1]*a[1]);", "magnitude", 1)
        add("polar", [S("r", T), S("th", T)], "C const z=std20::polar(r,th); o[0]=z.real();o[1]=z.imag();", "o[0]=r*__builtin_cos(th);o[1]=r*__builtin_sin(th);", "polar form")
        add("polar0", [S("r", T)], "C const z=std20::polar(r); o[0]=z.real();o[1]=z.imag();", "o[0]=r;o[1]=0;", "polar form without an angle")
        if t == "avr":
            add("sqrt", [a], Z + "o[0]=o[1]=0; if(a[1]==0) return; C const q=sqrt(z); C const r=q*q;" + G, "o[0]=o[1]=0; if(a[1]==0) return; o[0]=a[0];o[1]=a[1];", "the square of the square root")
            add("sqrtp", [a], Z + "C const q=sqrt(z); o[0]=q.real()<0;", "o[0]=0;", "the square root has no negative real part", 1)
        add("sqrtr", [S("x", T)], "C const r=sqrt(C(x));" + G, "o[0]=o[1]=0; if(x>=0) o[0]=__builtin_sqrt(x); else o[1]=__builtin_sqrt(-x);", "square root of a real number")
        for i, (x, y, u, v) in enumerate(((0, 0, 0, 0), (4, 0, 2, 0), (-9, 0, 0, 3), (0, 8, 2, 2), (0, -2, 1, -1), (3, 4, 2, 1), (-3, 4, 1, 2), (-8, -6, 1, -3))):
            add("sqrtc%d" % i, [], "C const r=sqrt(C(%d,%d));" % (x, y) + G, "o[0]=%d;o[1]=%d;" % (u, v), "square root of %d%+di" % (x, y))
        add("abs0", [], "o[0]=abs(C()); o[1]=abs(C(3,-4));", "o[0]=0;o[1]=5;", "magnitude of given numbers")
        add("arr", [IN("a", T, 4), s], "C z[2]={C(a[0],a[1]),C(a[2],a[3])}; z[0]*=z[1]; z[1]-=s; o[0]=z[0].real();o[1]=z[0].imag();o[2]=z[1].real();o[3]=z[1].imag();", "o[0]=a[0]*a[2]-a[1]*a[3];o[1]=a[0]*a[3]+a[1]*a[2];o[2]=a[2]-s;o[3]=a[3];", "arrays of complex", 4)
    W = "double" if t == "desktop" else "float"
    pr.append(Probe("conv", [IN("a", "float", 2), OUT("o", W, 4)], "complex<float> const z(a[0],a[1]); complex<double> const w(z); complex<double> v; v=z; o[0]=w.real();o[1]=w.imag();o[2]=v.real();o[3]=v.imag();", "o[0]=o[2]=a[0];o[1]=o[3]=a[1];", "conversion of complex<float> to complex<double>"))
    pr.append(Probe("mixed", [IN("a", "double", 2), IN("b", "float", 2), OUT("o", "double", 6)], "complex<double> z(a[0],a[1]); complex<float> const w(b[0],b[1]); auto p=z, q=z; z+=w; p-=w; q*=w; o[0]=z.real();o[1]=z.imag();o[2]=p.real();o[3]=p.imag();o[4]=q.real();o[5]=q.imag();",
                    "double const c=b[0],d=b[1]; o[0]=a[0]+c;o[1]=a[1]+d;o[2]=a[0]-c;o[3]=a[1]-d;o[4]=a[0]*c-a[1]*d;o[5]=a[0]*d+a[1]*c;", "complex<double> combined with complex<float>"))
    return Suite("complex", CXP, pr, target=t)


def algo(ctx, t):
    pr = []
    for T in ("double", "int", "signed char"):
        nm = T.replace(" ", "")
        for n in list(range(0, 6)) + ([40, 300] if T != "signed char" else []):
            k = max(n, 1)

            def add(q, args, code, spec, what):
                pr.append(Probe("%s_%s_%d" % (q, nm, n), args, "using T=%s; " % T + code, "using T=%s; " % T + spec, what + " (%s, %d elements)" % (T, n)))
            add("copy", [IN("a", T, k), IO("d", T, n + 2), OUT("e", "int", 1)], "T*const r=std20::copy(a,a+%d,d+1); e[0]=r-d;" % n, "for(int i=0;i<%d;++i) d[i+1]=a[i]; e[0]=%d;" % (n, n + 1), "copy()")
            add("ovl", [IO("d", T, n + 2)], "std20::copy(d+2,d+2+%d,d+1);" % max(n - 1, 0), "T k[%d]; for(int i=0;i<%d;++i) k[i]=d[i]; for(int i=0;i<%d;++i) d[i+1]=k[i+2];" % (n + 2, n + 2, max(n - 1, 0)), "copy() one place to the front")
            add("fill", [IO("d", T, n + 2), S("v", T)], "std20::fill(d+1,d+1+%d,v);" % n, "for(int i=0;i<%d;++i) d[i+1]=v;" % n, "fill()")
            if n > 40 or (n > 5 and T == "double"):
                continue
            add("eq", [IN("a", T, k), IN("b", T, k), OUT("e", "int", 1)], "e[0]=std20::equal(a,a+%d,b)?1:0;" % n, "bool r=true; for(int i=0;i<%d;++i) r=r&&a[i]==b[i]; e[0]=r?1:0;" % n, "equal()")
            add("eqp", [IN("a", T, k), IN("b", T, k), OUT("e", "int", 1)], "e[0]=std20::equal(a,a+%d,b,[](T x,T y){ return x<y; })?1:0;" % n, "bool r=true; for(int i=0;i<%d;++i) r=r&&a[i]<b[i]; e[0]=r?1:0;" % n, "equal() with a predicate")
        pr.append(Probe("swap_%s" % nm, [IO("d", T, 2)], "std20::swap(d[0],d[1]);", "%s const k=d[0]; d[0]=d[1]; d[1]=k;" % T, "swap() (%s)" % T))
        pr.append(Probe("swapself_%s" % nm, [IO("d", T, 1)], "std20::swap(d[0],d[0]);", ";", "swap() with itself (%s)" % T))
        pr.append(Probe("swaps_%s" % nm, [IO("d", T, 4)], "struct P { %s a,b; } p{d[0],d[1]}, q{d[2],d[3]}; std20::swap(p,q); d[0]=p.a;d[1]=p.b;d[2]=q.a;d[3]=q.b;" % T, "%s k=d[0]; d[0]=d[2]; d[2]=k; k=d[1]; d[1]=d[3]; d[3]=k;" % T, "swap() of structures (%s)" % T))
        pr.append(Probe("move_%s" % nm, [IO("d", T, 2), OUT("e", "int", 1)], "%s && r=std20::move(d[0]); e[0]=&r==&d[0]; d[1]=std20::move(d[0]);" % T, "e[0]=1; d[1]=d[0];", "move() (%s)" % T))
        il = "template<class L> static int pick(L const & l, %s * o) { int i=0; for(auto v : l) o[i++]=v; return i*10+int(l.size()); }\n" % T
        pr.append(Probe("il_%s" % nm, [IN("a", T, 3), OUT("o", T, 3), OUT("n", "int", 1)], "struct F { static int f(std::initializer_list<%s> l, %s*o) { int i=0; for(auto v : l) o[i++]=v; return i*10+int(l.size())+int(l.end()-l.begin())*100; } }; n[0]=F::f({a[0],a[1],a[2]},o);" % (T, T),
                        "for(int i=0;i<3;++i) o[i]=a[i]; n[0]=333;", "initialiser list of three (%s)" % T))
    return Suite("algorithm", ALP, pr, target=t)


def traits(ctx):
    P = '#include "std/limits.hpp"\n#include "std/type_traits.hpp"\n#include "std/cstdint.hpp"\n#include "std/utility.hpp"\n#include "std/tuple.hpp"\n#include "std/algorithm.hpp"\nusing namespace std20;\ntemplate<class A,class B> struct eq_{static constexpr bool v=false;}; template<class A> struct eq_<A,A>{static constexpr bool v=true;};\n'
    W = []

    def w(nm, cond, what):
        W.append((nm, "static_assert(%s,\"\");" % cond, True, what))
    for n in (8, 16, 32, 64):
        for u in (False, True):
            T = "__%sINT%d_TYPE__" % ("U" if u else "", n)
            nm = "%s%d" % ("u" if u else "i", n)
            # unsigned 8 ... 64
            w("lim_" + nm, "numeric_limits<%s>::is_integer && numeric_limits<%s>::is_signed==%s" % (T, T, "false" if u else "true"), "numeric_limits of a %d-bit integer" % n)
            w("dig_" + nm, "numeric_limits<%s>::digits==%d" % (T, n if u else n - 1), "digits of a %d-bit integer" % n)
            w("min_" + nm, "numeric_limits<%s>::min()==%s" % (T, "0" if u else "(%s)(-%dLL-1)" % (T, 2 ** (n - 1) - 1)), "smallest %d-bit integer" % n)
            w("max_" + nm, "numeric_limits<%s>::max()==%s" % (T, "(%s)(%dULL)" % (T, 2 ** n - 1 if u else 2 ** (n - 1) - 1)), "largest %d-bit integer" % n)
            w("typ_" + nm, "eq_<decltype(numeric_limits<%s>::max()),%s>::v && eq_<decltype(numeric_limits<%s>::min()),%s>::v" % (T, T, T, T), "type of the limits of a %d-bit integer" % n)
            w("int_" + nm, "is_integral<%s>::value && is_integral_v<%s> && is_signed_v<%s> ==%s && is_signed<%s>::value==%s" % (T, T, T, "false" if u else "true", T, "false" if u else "true"), "traits of a %d-bit integer" % n)
        w("cstdint%d" % n, "sizeof(int%d_t)==%d && eq_<int%d_t,__INT%d_TYPE__>::v && int%d_t(-1)<0" % (n, n // 8, n, n, n), "int%d_t" % n)
    for T in ("float", "double"):
        w("lim_" + T, "!numeric_limits<%s>::is_integer && numeric_limits<%s>::is_signed && !is_integral_v<%s> && !is_integral<%s>::value && is_signed_v<%s>" % ((T,) * 5), "traits of " + T)
    for T, R in (("int", "int"), ("int&", "int"), ("int&&", "int"), ("int const&", "int const"), ("int*", "int*"), ("int volatile&", "int volatile")):
        w("rref%d" % len(W), "eq_<remove_reference<%s>::type,%s>::v && eq_<remove_reference_t<%s>,%s>::v" % (T, R, T, R), "remove_reference")
    for T, R in (("int", "int"), ("int const", "int"), ("int volatile", "int volatile"), ("int const volatile", "int volatile"), ("int const&", "int const&"), ("int const*", "int const*"), ("int*const", "int*")):
        w("rc%d" % len(W), "eq_<remove_const<%s>::type,%s>::v && eq_<remove_const_t<%s>,%s>::v" % (T, R, T, R), "remove_const")
    for T, R in (("int", "int"), ("int const", "int const"), ("int volatile", "int"), ("int const volatile", "int const"), ("int volatile*", "int volatile*")):
        w("rv%d" % len(W), "eq_<remove_volatile<%s>::type,%s>::v && eq_<remove_volatile_t<%s>,%s>::v" % (T, R, T, R), "remove_volatile")
    for T, R in (("int", "int"), ("int const", "int"), ("int volatile", "int"), ("int const volatile", "int"), ("int const&", "int const&")):
        w("rcv%d" % len(W), "eq_<remove_cv<%s>::type,%s>::v && eq_<remove_cv_t<%s>,%s>::v" % (T, R, T, R), "remove_cv")
    w("ic", "integral_constant<int,7>::value==7 && integral_constant<int,7>{}==7 && integral_constant<int,7>{}()==7 && eq_<integral_constant<bool,true>::value_type,bool>::v && eq_<integral_constant<int,3>::type,integral_constant<int,3>>::v", "integral_constant")
    w("ei", "eq_<enable_if<true,int>::type,int>::v && eq_<enable_if_t<true,int>,int>::v && eq_<enable_if_t<true>,void>::v", "enable_if")
    W.append(("ein", "using X=enable_if<false,int>::type; X x=0; (void)x;", False, "enable_if<false> has no type"))
    W.append(("eint", "using X=enable_if_t<false>; X*x=0; (void)x;", False, "enable_if_t<false> is an error"))
    w("mv", "eq_<decltype(std20::move(*(int*)0)),int&&>::v && eq_<decltype(std20::move(*(int const*)0)),int const&&>::v", "move() yields an rvalue")
    W.append(("ign", "struct X{ int v; }; std20::ignore=3; std20::ignore=X{1}; char const *p=\"x\"; std20::ignore=p;", True, "anything can be assigned to ignore"))
    W.append(("eq_mixed", "int a[2]={1,2}; int const b[2]={1,2}; long const c[2]={1,2}; struct P{ bool operator()(int x, long y) const { return x==y; } }; (void)std20::equal(a,a+2,b); (void)std20::equal(b,b+2,c); (void)std20::equal(a,a+2,c,P()); std20::copy(b,b+2,a); std20::fill(a,a+2,1L);", True, "copy(), fill() and equal() of ranges of different types"))
    ctx.witnesses(P, W, T2 + ("gcc", "avr-gcc"))
    A = []
    A.append(("tf", "static_assert(true_type::value && !false_type::value && true_type{} && !false_type{}(),\"\");", True, "true_type and false_type"))
    A.append(("same", "static_assert(is_same<int,int>::value && is_same_v<int,int> && !is_same_v<int,unsigned> && !is_same<int,int const>::value,\"\");", True, "is_same"))
    A.append(("il", "struct Q{ static constexpr int f(std::initializer_list<int> l){ int s=0; for(auto p=l.begin();p!=l.end();++p) s=10*s+*p; return s; } static constexpr int g(std::initializer_list<int> l){ return int(l.size())+(std::end(l)-std::begin(l)); } };"
                    "static_assert(Q::f({1,2,3})==123 && Q::g({1,2,3})==6 && Q::g({})==0,\"\"); constexpr std::initializer_list<char> e; static_assert(e.size()==0 && e.begin()==e.end(),\"\");", True, "initializer_list"))
    ctx.witnesses(P, A, ("avr", "avr-gcc"))


def check(ctx):
    traits(ctx)
    ctx.run_suites([f(ctx, t) for t in T2 for f in (cplx, algo)])
    return ctx.finish(META)
