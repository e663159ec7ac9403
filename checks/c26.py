from .bq import *
from .fx import Fmt

META = dict(
    title="Printing shows the actual contents of the object, once and in order",
    statement="Streaming a matrix writes every element, row by row with one line per row; a fixed-point number its value; a filter section its stability verdict, coefficients, state, poles and zeros under their labels; a cascade its memory size, its occupancy and verdict and then each of its sections in use, in order; a vector its elements; Chebyshev design information each of its values under its label. Printing changes neither the object nor the format of the stream, and returns the stream.",
    over=["inputs", "histories"],
    text="all element, coefficient and state values; matrices up to 4x4, 12x9, 9x30, 1x40 and 40x1, cascades of 0 to 3 sections, vectors of 0 to 4, 40 and 300 elements; int, double, float, complex",
    why="The printing code is not tested; a swapped label or a row printed for a column goes unnoticed in examples.",
    files=["include/num/matrix-io.hpp", "include/num/fixed-point-io.hpp", "include/dsp/biquad-io.hpp", "include/dsp/biquad-cascade-io.hpp", "include/dsp/onepole-io.hpp", "include/dsp/chebyshev-design-io.hpp", "include/core/vector-io.hpp"],
    mechanism=[("operator<<", "include/num/matrix-io.hpp"), ("operator<<", "include/num/fixed-point-io.hpp"), ("operator<<", "include/dsp/biquad-io.hpp"), ("operator<<", "include/dsp/biquad-cascade-io.hpp"),
               ("operator<<", "include/dsp/onepole-io.hpp"), ("operator<<", "include/core/vector-io.hpp"), ("operator<<", "include/dsp/chebyshev-design-io.hpp")],
    how="what reaches the stream is a sequence of effects - each character of text, each number with its value - compared position by position, for every input, with the sequence the format calls for",
    note="how the standard library renders a single number is not analysed; the layout is the one the library and its examples use",
    technique="gated value-flow analysis over the compiler's IR with the ordered trace of output: character by character for text, value by value for numbers")

PRE = '#include "num/matrix-io.hpp"\n#include "num/fixed-point-io.hpp"\n#include "dsp/biquad-io.hpp"\n#include "dsp/biquad-cascade-io.hpp"\n#include "dsp/onepole-io.hpp"\n#include "dsp/chebyshev-design-io.hpp"\n#include "core/vector-io.hpp"\n#include <complex>\nusing namespace num;\n'


def vals(sep, xs):
    return "".join('os<<"%s"<<%s;' % (sep, x) for x in xs)


def sect(n, order=2):
    """the text of the section built from b, a with state w, as statements"""
    a = 'os<<"[A "<<%s<<", "<<%s<<" ]";' if order == 2 else 'os<<"[A "<<%s<<" ]";'
    return a


def check(ctx):
    pr = []
    add = lambda nm, args, code, spec, what, **k: pr.append(Probe(nm, [STREAM()] + args, code, spec, what, **k))
    same = lambda e: "std::ostream & rs = os << std::as_const(%s); o[0] = &rs==&os;" % e
    ok = OUT("o", "bool")
    big = ctx.tier == "thorough"
    dims = [(n, m) for n in range(1, 7 if big else 5) for m in range(1, 7 if big else 5)] + [(12, 9), (1, 40), (40, 1), (9, 30)]
    for T in ("double", "int", "float", "char"):
        for n, m in dims if T == "double" else [(1, 1), (2, 3), (3, 1)]:
            rows = "".join(vals(" ", ["a[%d]" % (i * m + j) for j in range(m)]) + 'os<<"\\n";' for i in range(n))
            add("m%s%d_%d" % (T, n, m), [IN("a", T, n * m), ok, OUT("b", T, n * m)], "matrix<%s,%d,%d> x; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) x(i,j)=a[i*%d+j]; %s for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) b[i*%d+j]=x(i,j);" % (T, n, m, n, m, m, same("x"), n, m, m),
                rows + "o[0]=true; for(int i=0;i<%d;++i) b[i]=a[i];" % (n * m), "printing a %dx%d matrix of %s" % (n, m, T))
    add("mc", [IN("a", "double", 4)], "matrix<std::complex<double>,1,2> x; x(0,0)={a[0],a[1]}; x(0,1)={a[2],a[3]}; os<<x;", 'os<<" "<<std::complex<double>(a[0],a[1])<<" "<<std::complex<double>(a[2],a[3])<<"\\n";', "printing a complex matrix")
    f = Fmt("desktop", 32, 7, 8)
    add("mfx", [S("r", "int"), S("q", "int")], f.raw("x", "r") + f.raw("y", "q") + "matrix<%s,2,1> m; m(0,0)=x; m(1,0)=y; os<<m;" % f.F, 'os<<" "<<r/256.0<<"\\n "<<q/256.0<<"\\n";', "printing a matrix of fixed-point numbers")
    add("mchain", [IN("a", "double", 2)], 'matrix<double,1,1> x, y; x(0,0)=a[0]; y(0,0)=a[1]; os<<"x:"<<x<<"y:"<<y<<a[0];', 'os<<"x: "<<a[0]<<"\\ny: "<<a[1]<<"\\n"<<a[0];', "printing in a chain")
    for bits, I, F in ((32, 15, 16), (32, 7, 8), (16, 7, 8), (8, 3, 4), (32, 0, 31), (32, 23, 8), (8, 7, 0), (16, 15, None)):
        f = Fmt("desktop", bits, I, F)
        add("f" + f.tag, [S("r", f.T), ok, OUT("u", f.T)], f.raw("x", "r") + same("x") + "u[0]=x.underlying_value();", "os<<double(r)/double(1LL<<%d); o[0]=true; u[0]=r;" % f.f, "printing a fixed-point number")
    for T in ("double", "float", "int"):
        for n in list(range(0, 7 if big else 5)) + [40, 300]:
            add("v%s%d" % (T, n), [IN("a", T, n or 1), ok], "std::vector<%s> x; for(int i=0;i<%d;++i) x.push_back(a[i]); %s" % (T, n, same("x")), 'os<<"[";' + vals(" ", ["a[%d]" % i for i in range(n)]) + 'os<<"]"; o[0]=true;', "printing a vector of %d %s" % (n, T))
    for T in ("double", "float"):
        B = "using namespace dsp::biquad; using BQ=dsp::BiQuadT<%s>; " % T
        a2, b3, x = IN("a", T, 2), IN("b", T, 3), IN("x", T, 2)
        A_, B_ = 'os<<"[A "<<a[0]<<", "<<a[1]<<" ]";', 'os<<"[B "<<b[0]<<", "<<b[1]<<", "<<b[2]<<" ]";'
        add("bqA" + T, [a2, ok], B + "AT<%s> x{a[0],a[1]}; %s" % (T, same("x")), A_ + "o[0]=true;", "printing the a-coefficients")
        add("bqB" + T, [b3, ok], B + "BT<%s> x{b[0],b[1],b[2]}; %s" % (T, same("x")), B_ + "o[0]=true;", "printing the b-coefficients")
        add("bqBA" + T, [b3, a2, ok], B + "BAT<%s> x{{b[0],b[1],b[2]},{a[0],a[1]}}; %s" % (T, same("x")), B_ + A_ + "o[0]=true;", "printing coefficients")
        add("bqW" + T, [a2, ok], B + "WT<%s> x; x.v1=a[0]; x.v2=a[1]; %s" % (T, same("x")), 'os<<"[W "<<a[0]<<", "<<a[1]<<" ]"; o[0]=true;', "printing filter state")
        add("bqS" + T, [IN("a", T, 4), ok], B + "SolutionT<%s> x; x.s0={a[0],a[1]}; x.s1={a[2],a[3]}; %s" % (T, same("x")), 'os<<"[S "<<std::complex<%s>(a[0],a[1])<<", "<<std::complex<%s>(a[2],a[3])<<" ]"; o[0]=true;' % (T, T), "printing a pair of poles or zeros")
        mk = "BQ q({b[0],b[1],b[2]},{a[0],a[1]}); q.step(x[0]); q.step(x[1]); "
        txt = lambda q, b, a: ('{ bool const st=%s.is_stable(); auto const w=%s.state(); auto const p=%s.poles(); auto const z=%s.zeros(); os<<"\\nBiQuad is "; if(st) os<<"stable:"; else os<<"NOT stable:";'
                      'os<<"\\na: [A "<<%s[0]<<", "<<%s[1]<<" ]\\nb: [B "<<%s[0]<<", "<<%s[1]<<", "<<%s[2]<<" ]\\nw: [W "<<w.v1<<", "<<w.v2<<" ]\\np: [S "<<p.s0<<", "<<p.s1<<" ]\\nz: [S "<<z.s0<<", "<<z.s1<<" ]\\n"; }') % (q, q, q, q, a, a, b, b, b)
        full = [b3, a2, x, ok, OUT("w", T, 2)]
        after = "{ auto const s=q.state(); w[0]=s.v1; w[1]=s.v2; }"
        add("bq" + T, full, B + mk + same("q") + after, B + mk + txt("q", "b", "a") + "o[0]=true;" + after, "printing a bi-quad")
        for n in (0, 1, 2, 3):
            C = "using CC=dsp::BiQuadCascadeT<%s,3>; CC c; " % T
            mkc = B + C + "".join("BQ q%d({b[%d],b[%d],b[%d]},{a[%d],a[%d]}); q%d.step(x[%d]); c.append(q%d); " % (i, 3 * i, 3 * i + 1, 3 * i + 2, 2 * i, 2 * i + 1, i, i, i) for i in range(n))
            # the verdict is compared through the cascade's own, whose correctness is another property's
            sp = mkc + 'os<<"\\nFilter cascade occupies "<<sizeof(CC)<<" bytes in memory.\\nfilters: "<<%d<<" entries out of "<<3<<", "; if(is_stable(c)) os<<"stable:\\n"; else os<<"NOT stable:\\n"; ' % n
            sp += "".join("{ %s const *bb=b+%d; %s const *aa=a+%d; (void)bb; (void)aa; %s }" % (T, 3 * i, T, 2 * i, txt("q%d" % i, "bb", "aa")) for i in range(n))
            if n and T == "float":
                continue
            add("cas%s%d" % (T, n), [IN("b", T, 3 * n or 1), IN("a", T, 2 * n or 1), IN("x", T, n or 1), ok], mkc + same("c"), sp + "o[0]=true;", "printing a cascade of %d" % n)
        O = "using namespace dsp::onepole; using OP=dsp::OnePoleT<%s>; " % T
        c2 = IN("c", T, 2)
        add("opA" + T, [c2, ok], O + "AT<%s> x{c[0]}; %s" % (T, same("x")), 'os<<"[A "<<c[0]<<" ]"; o[0]=true;', "printing the a-coefficient")
        add("opB" + T, [c2, ok], O + "BT<%s> x{c[0]}; %s" % (T, same("x")), 'os<<"[B "<<c[0]<<" ]"; o[0]=true;', "printing the b-coefficient")
        add("opBA" + T, [c2, ok], O + "BAT<%s> x{{c[0]},{c[1]}}; %s" % (T, same("x")), 'os<<"[B "<<c[0]<<" ][A "<<c[1]<<" ]"; o[0]=true;', "printing coefficients")
        add("opW" + T, [c2, ok], O + "WT<%s> x; x.v1=c[0]; %s" % (T, same("x")), 'os<<"[W "<<c[0]<<" ]"; o[0]=true;', "printing filter state")
        mko = O + "OP q({c[0]},{c[1]}); q.step(x[0]); "
        add("op" + T, [c2, IN("x", T), ok, OUT("w", T)], mko + same("q") + "w[0]=q.state().v1;",
            mko + 'bool const st=q.is_stable(); auto const p=q.poles(); auto const z=q.zeros(); os<<"\\nOnePole is "; if(st) os<<"stable:"; else os<<"NOT stable:"; os<<"\\na: [A "<<c[1]<<" ]\\nb: [B "<<c[0]<<" ]\\nw: [W "<<q.state().v1<<" ]\\np: [S "<<p.s0<<" ]\\nz: [S "<<z.s0<<" ]\\n"; o[0]=true; w[0]=c[0]*x[0];', "printing a one-pole section")
        add("info" + T, [IN("a", T, 7), S("n", "int"), ok], "dsp::chebyshev_design::AlgoInfoT<%s> x{a[0],a[1],a[2],a[3],a[4],n,a[5],a[6]}; %s" % (T, same("x")),
            'os<<"[I Wpass:"<<a[0]<<" Wstop:"<<a[1]<<" epass:"<<a[2]<<" estop:"<<a[3]<<" Nex:"<<a[4]<<" N:"<<n<<" f3:"<<a[5]<<" a:"<<a[6]<<" ]"; o[0]=true;', "printing Chebyshev design information")
    ctx.run_suites([Suite("print%d" % i, PRE, pr[i::4]) for i in range(4)])
    return ctx.finish(META)
