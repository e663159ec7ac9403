"""matrix probes shared by several properties"""
from sa.probe import *

PRE = '#include "num/matrix.hpp"\nusing namespace num;\n'
T2 = ("desktop", "avr")


def mk(T, n, m, v, src):
    """declare matrix v of n x m from array src, element by element in row-major order (through at(k): C01)"""
    return "matrix<%s,%d,%d> %s((%s)0); for(int i=0;i<%d;++i) %s.at(i)=%s[i];\n" % (T, n, m, v, T, n * m, v, src)


def put(v, k, dst="o"):
    return "for(int i=0;i<%d;++i) %s[i]=%s.at(i);\n" % (k, dst, v)


def each(k, expr, dst="o"):
    return "for(int i=0;i<%d;++i) %s[i]=%s;\n" % (k, dst, expr)


def shape(T, n, m):
    """compile-time shape of a result"""
    return "static_assert(same<decltype(r), matrix<%s,%d,%d> const>::v,\"shape of the result\");" % (T, n, m)


SAME = "template<class A,class B> struct same{static constexpr bool v=false;}; template<class A> struct same<A,A>{static constexpr bool v=true;};\n"


def suites(name, pre, probes, targets=T2, **k):
    return [Suite(name, pre, probes, target=t, **k) for t in targets]


class Elem:
    """element types other than the built-in ones: how to load element i of an array argument and store one"""

    def __init__(self, tag, T, base, n, load, store, pre="", targets=T2, lo=None, hi=None):
        self.tag, self.T, self.base, self.n, self.load, self.store, self.pre, self.targets, self.lo, self.hi = tag, T, base, n, load, store, pre, targets, lo, hi

    def IN(self, v, k):
        return IN(v, self.base, self.n * k, **({} if self.lo is None else dict(lo=self.lo, hi=self.hi)))

    def OUT(self, v, k):
        return OUT(v, self.base, self.n * k)

    def mk(self, n, m, v, src):
        return "matrix<T,%d,%d> %s(T(0)); for(int i=0;i<%d;++i) %s.at(i)=LD(%s,i);\n" % (n, m, v, n * m, v, src)

    def put(self, v, k, dst="o"):
        return "for(int i=0;i<%d;++i) ST(%s,i,%s.at(i));\n" % (k, dst, v)

    def shape(self, n, m):
        return "static_assert(same<decltype(r), matrix<T,%d,%d> const>::v,\"shape of the result\");" % (n, m)

    def pre_all(self):
        return self.pre + PRE + SAME + "using T=%s;\n#define LD(p,i) %s\n#define ST(p,i,v) %s\n" % (self.T, self.load, self.store)


def elems(th=False):
    e = [Elem("cx", "std::complex<double>", "double", 2, "T(p[2*(i)],p[2*(i)+1])", "do { T const z_=(v); p[2*(i)]=z_.real(); p[2*(i)+1]=z_.imag(); } while(0)", "#include <complex>\n", ("desktop",)),
         Elem("u8", "unsigned char", "unsigned char", 1, "p[i]", "p[i]=(v)"),
         Elem("u16", "unsigned", "unsigned", 1, "p[i]", "p[i]=(v)")]
    for t, rep, i, lim in (("desktop", "short", 8, 1 << 10), ("avr", "int", 8, 1 << 10)):
        e.append(Elem("fx_" + t, "fixed_point<%s,%d>" % (rep, i), rep, 1, "T(T::construct,p[i])", "p[i]=(v).underlying_value()", '#include "num/fixed-point.hpp"\n', (t,), -lim, lim))
    return e
