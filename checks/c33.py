from .bq import *

META = dict(
    title="Ranges enumerate exactly the values from first up to last",
    statement="A range over [first, last) yields first, first+1, ... in order and ends at last; with a (positive) step it yields first + k step for every k as long as that is below last, and an unbounded range never ends. Values have the common type of the arguments, and the indices of an array or container are those of its elements, each once, in order.",
    over=["inputs"],
    text="all first and last values and steps, per iterator operation and in loops of 0 to 5, and of up to 1000, iterations, an iterator after any number of increments; int, unsigned, char, long, double and mixed types; arrays, containers and initialiser lists",
    why="All loops of the library run over ranges; the tests use small constant ranges, where a missed or extra last value for steps that do not divide the length goes unnoticed.",
    files=["include/core/range.hpp"],
    mechanism=[("range(), indices()", "include/core/range.hpp"), ("range_proxy, step_range_proxy, infinite_range_proxy", "include/core/range.hpp: core::ranges::detail")],
    how="the value after each number of increments and the comparison with the end are compared with first + k step and its order relative to last, for arbitrary first, last and step; loops with given numbers of iterations are followed",
    note="values are taken to be representable (no overflow); desktop; steps are positive",
    technique=VF)

PRE = '#include <cstddef>\n#include <initializer_list>\n#include <vector>\n#include <array>\n#include "core/range.hpp"\nusing core::range; using core::indices;\ntemplate<class A,class B> struct same{static constexpr bool v=false;}; template<class A> struct same<A,A>{static constexpr bool v=true;};\n'


def check(ctx):
    pr = []
    L = {"int": 1000000, "long long": 1000000, "signed char": 20, "short": 500, "unsigned": 1000000}
    for T, lim in list(L.items()) + [("double", None), ("float", None)]:
        nm = T.replace(" ", "")
        k = {} if lim is None else dict(lo=0 if T == "unsigned" else -lim, hi=lim)
        ks = {} if lim is None else dict(lo=1, hi=6 if lim < 100 else 1000)
        d = " (%s)" % T
        num = lim is not None
        args = [S("a", T, **k), S("b", T, **k)]
        N = 4

        def add(n, args, code, spec, what):
            pr.append(Probe("%s_%s" % (n, nm), args, "using T=%s; " % T + code, "using T=%s; " % T + spec, what + d))
        # unit step
        add("unit", args + [OUT("o", T, N), OUT("e", "int", 2 * N)], "auto const r=range(a,b); static_assert(same<decltype(*r.begin()),T>::v,\"\"); auto it=r.begin(); for(int k=0;k<%d;++k) { o[k]=*it; e[k]=it==r.end(); e[%d+k]=it!=r.end(); ++it; }" % (N, N),
            "for(int k=0;k<%d;++k) { o[k]=T(a+k); e[k]=T(a+k)==b; e[%d+k]=T(a+k)!=b; }" % (N, N), "iteration of range(first, last)")
        add("unitp", args + [OUT("o", T, 4)], "auto it=range(a,b).begin(); o[0]=*it++; o[1]=*it; o[2]=*++it; o[3]=*it.operator->();", "o[0]=a;o[1]=a+1;o[2]=o[3]=a+2;", "increments of a range iterator")
        add("ends", args + [OUT("e", "int", 2)], "auto const r=range(a,b); auto i=r.begin(), j=r.begin(); e[0]=i==j; ++i; e[1]=i==j;", "e[0]=1;e[1]=0;", "comparison of range iterators")
        for n in range(0, 6):
            if num:
                add("loop%d" % n, [S("a", T, **k), OUT("o", T, 6), OUT("n", "int", 1)], "n[0]=0; for(int i=0;i<6;++i) o[i]=0; for(auto v : range(a,T(a+%d))) { if(n[0]>=6) break; o[n[0]++]=v; }" % n,
                    "n[0]=%d; for(int i=0;i<6;++i) o[i]= i<%d ? T(a+i) : T(0);" % (n, n), "loop over range(first, first + %d)" % n)
        add("constit", args + [OUT("o", T, 2), OUT("e", "int", 2)], "auto const r=range(a,b); auto const i=r.begin(), j=r.end(); e[0]=i==j; e[1]=i!=j; o[0]=*i; o[1]=*i.operator->();", "e[0]=a==b;e[1]=a!=b;o[0]=o[1]=a;", "use of constant range iterators")
        add("constst", args + [S("s", T, **ks), OUT("o", T, 2), OUT("e", "int", 2)], "auto const r=range(a,b,s); auto const i=r.begin(), j=r.end(); e[0]=i==j; e[1]=i!=j; o[0]=*i; o[1]=*i.operator->();", "e[0]=a>=b;e[1]=a<b;o[0]=o[1]=a;", "use of constant stepping iterators")
        add("itcopy", args + [S("s", T, **ks), OUT("o", T, 8)], "auto const r=range(a,b,s); auto i=r.begin(); auto j=i; ++i; ++i; o[0]=*i; o[1]=*j; j=i; ++i; o[2]=*j; o[3]=*i; auto const q=range(a,b); auto k=q.begin(); auto l=k; ++k; o[4]=*k; o[5]=*l; l=k; ++k; o[6]=*l; o[7]=*k;",
            "o[0]=a+2*s;o[1]=a;o[2]=a+2*s;o[3]=a+3*s;o[4]=a+1;o[5]=a;o[6]=a+1;o[7]=a+2;", "copies of iterators advance independently")
        if num:
            add("nested", [S("a", T, **k), OUT("o", T, 12), OUT("n", "int", 2)], "n[0]=0; for(int i=0;i<12;++i) o[i]=0; auto const r=range(a,T(a+4),T(2)); auto const q=range(a,T(a+2)); for(auto u : r) for(auto v : q) for(auto w : r) { if(n[0]>=12) return; o[n[0]++]=T(u-a)*4+T(v-a)*2+T(w-a); } n[1]=0; for(auto u : r) n[1]+=int(u-a);",
                "n[0]=8; n[1]=2; for(int i=0;i<12;++i) o[i]=0; for(int i=0;i<8;++i) o[i]=T((i>>2)*8+((i>>1)&1)*2+(i&1)*2);", "nested and repeated loops over the same ranges")
        # step
        sargs = args + [S("s", T, **ks)]
        pos = "" if num else "if(!(s>0)) return; "
        z = "" if num else "for(int k=0;k<%d;++k) { o[k]=0; e[k]=e[%d+k]=0; } " % (N, N)
        add("step", sargs + [OUT("o", T, N), OUT("e", "int", 2 * N)], z + pos + "auto const r=range(a,b,s); static_assert(same<decltype(*r.begin()),T>::v,\"\"); auto it=r.begin(); for(int k=0;k<%d;++k) { o[k]=*it; e[k]=it==r.end(); e[%d+k]=it!=r.end(); ++it; }" % (N, N),
            z + pos + "for(int k=0;k<%d;++k) { T const v=T(a+T(k*s)); o[k]=v; e[k]=v>=b; e[%d+k]=v<b; }" % (N, N), "iteration of range(first, last, step)")
        add("stepp", sargs + [OUT("o", T, 4)], "auto it=range(a,b,s).begin(); o[0]=*it++; o[1]=*it; o[2]=*++it; o[3]=*it.operator->();", "o[0]=a;o[1]=a+s;o[2]=o[3]=a+2*s;", "increments of a stepping iterator")
        if num:
            for n, st in ((0, 1), (1, 3), (3, 3), (4, 3), (5, 2), (6, 2), (7, 4), (5, 1)):
                cnt = (n + st - 1) // st
                add("sloop%d_%d" % (n, st), [S("a", T, **k), OUT("o", T, 6), OUT("n", "int", 1)], "n[0]=0; for(int i=0;i<6;++i) o[i]=0; for(auto v : range(a,T(a+%d),T(%d))) { if(n[0]>=6) break; o[n[0]++]=v; }" % (n, st),
                    "n[0]=%d; for(int i=0;i<6;++i) o[i]= i<%d ? T(a+i*%d) : T(0);" % (cnt, cnt, st), "loop over range(first, first + %d, %d)" % (n, st))
        if T in ("int", "long long", "double", "float"):
            add("down", [S("a", T, **k), S("d", T, **(dict(lo=1, hi=1000) if num else {})), OUT("n", "int", 1)], ("" if num else "n[0]=0; if(!(d>0)) return; ") + "n[0]=0; for(auto v : range(a,T(a-d),T(1))) { (void)v; if(++n[0]>3) break; }", "n[0]=0;", "a stepping range whose last is below its first is empty")
        # unbounded
        add("inf", [S("a", T, **k), OUT("o", T, N), OUT("e", "int", N)], "auto const r=range(a); auto it=r.begin(); for(int k=0;k<%d;++k) { o[k]=*it; e[k]=it!=r.end(); ++it; }" % N, "for(int k=0;k<%d;++k) { o[k]=T(a+k); e[k]=1; }" % N, "unbounded range")
        add("infs", [S("a", T, **k), S("s", T, **ks), OUT("o", T, N), OUT("e", "int", N)], "auto const r=range(a).step(s); auto it=r.begin(); for(int k=0;k<%d;++k) { o[k]=*it; e[k]=it!=r.end(); ++it; }" % N, "for(int k=0;k<%d;++k) { o[k]=T(a+T(k*s)); e[k]=1; }" % N, "unbounded range with step")
        add("infl", [S("a", T, **k), OUT("o", T, N), OUT("n", "int", 1)], "n[0]=0; for(auto v : range(a)) { if(n[0]==%d) break; o[n[0]++]=v; }" % N, "for(int k=0;k<%d;++k) o[k]=T(a+k); n[0]=%d;" % (N, N), "loop over an unbounded range")
    # common types
    for i, (P, Q, R) in enumerate((("int", "double", "int"), ("int", "int", "double"), ("float", "int", "int"), ("int", "long long", "short"), ("signed char", "int", "signed char"))):
        C = "double" if "double" in (P, Q, R) else "float" if "float" in (P, Q, R) else "long long" if "long long" in (P, Q, R) else "int"
        C2 = "double" if "double" in (P, Q) else "float" if "float" in (P, Q) else "long long" if "long long" in (P, Q) else "int"
        lim = lambda t: {} if t in ("double", "float") else dict(lo=-100, hi=100)
        lp = lambda t: {} if t in ("double", "float") else dict(lo=1, hi=100)
        fl = "if(!(s>0)) { for(int k=0;k<3;++k) { o[k]=0; e[k]=0; } return; } " if R == "double" else ""
        pr.append(Probe("common%d" % i, [S("a", P, **lim(P)), S("b", Q, **lim(Q)), S("s", R, **lp(R)), OUT("o", C, 3), OUT("e", "int", 3)],
                        fl + "auto const r=range(a,b,s); static_assert(same<decltype(*r.begin()),%s>::v,\"\"); auto it=r.begin(); for(int k=0;k<3;++k) { o[k]=*it; e[k]=it!=r.end(); ++it; }" % C,
                        fl + "for(int k=0;k<3;++k) { o[k]=(%s)(a)+k*(%s)(s); e[k]=o[k]<(%s)(b); }" % (C, C, C), "range(%s, %s, %s) has values of type %s" % (P, Q, R, C)))
        pr.append(Probe("common2_%d" % i, [S("a", P, **lim(P)), S("b", Q, **lim(Q)), OUT("o", C2, 3), OUT("e", "int", 3)],
                        "auto const r=range(a,b); static_assert(same<decltype(*r.begin()),%s>::v,\"\"); auto it=r.begin(); for(int k=0;k<3;++k) { o[k]=*it; e[k]=it!=r.end(); ++it; }" % C2,
                        "for(int k=0;k<3;++k) { o[k]=(%s)(a)+k; e[k]=o[k]!=(%s)(b); }" % (C2, C2), "range(%s, %s) has values of type %s" % (P, Q, C2)))
    # indices
    cnt = "n[0]=0; for(int i=0;i<8;++i) o[i]=99; for(auto i : indices(c)) { static_assert(same<decltype(i),std::size_t>::v,\"\"); if(n[0]>=8) break; o[n[0]++]=int(i); }"
    for n in range(0, 6):
        want = "n[0]=%d; for(int i=0;i<8;++i) o[i]= i<%d ? i : 99;" % (n, n)
        o = [OUT("o", "int", 8), OUT("n", "int", 1)]
        if n:
            pr.append(Probe("idx_arr%d" % n, o, "int c[%d]={}; " % n + cnt, want, "indices of an array of %d" % n))
            pr.append(Probe("idx_carr%d" % n, o, "static double const c[%d]={}; " % n + cnt, want, "indices of a constant array of %d" % n))
        pr.append(Probe("idx_std%d" % n, o, "std::array<char,%d> const c{}; " % n + cnt, want, "indices of a std::array of %d" % n))
        pr.append(Probe("idx_vec%d" % n, o, "std::vector<int> const c(%d); " % n + cnt, want, "indices of a vector of %d" % n))
        pr.append(Probe("idx_il%d" % n, o, ("n[0]=0; for(int i=0;i<8;++i) o[i]=99; for(auto i : indices(std::initializer_list<int>{%s})) { if(n[0]>=8) break; o[n[0]++]=int(i); }" % ",".join(["7"] * n)), want, "indices of a list of %d" % n))
    pr.append(Probe("idx_size", [S("m", "unsigned", lo=0, hi=1000), OUT("o", "int", 2), OUT("e", "int", 2)], "struct C { unsigned m; unsigned size() const { return m; } } const c{m}; auto const r=indices(c); auto it=r.begin(); for(int k=0;k<2;++k) { o[k]=*it; e[k]=it==r.end(); ++it; }",
                    "for(int k=0;k<2;++k) { o[k]=k; e[k]=unsigned(k)==m; }", "indices of anything with a size"))
    # long loops
    for T, a, n, st in (("int", None, 300, 1), ("int", None, 1000, 1), ("long long", None, 300, 7), ("int", None, 999, 2), ("double", 0, 300, 1), ("float", 0, 260, 1), ("signed char", -128, 255, 1), ("unsigned char", 0, 255, 1), ("unsigned short", 0, 400, 1), ("unsigned", None, 300, 3),
                        ("signed char", -120, 240, 3), ("short", -200, 400, 1), ("long long", 4294967290, 300, 1), ("int", -150, 300, 1), ("double", -20, 300, 0.5)):
        cnt = int(-(-n // st))
        for form in (("range(a,T(a+%d))" % n,) if st == 1 else ()) + ("range(a,T(a+%d),T(%s))" % (n, st),):
            if "," in form[8:] and form.count(",") == 2 and st == 1 and T.endswith("char"):
                continue
            pr.append(Probe("long_%s%s_%d_%d_%d" % (T.replace(" ", ""), "" if a is None else "k", n, int(2 * st), form.count(",")), ([S("a", T, lo=0 if T == "unsigned" else -10**6, hi=10**6)] if a is None else []) + [OUT("o", T, cnt), OUT("n", "int", 1)],
                            "using T=%s; %s n[0]=0; for(int i=0;i<%d;++i) o[i]=0; for(auto v : %s) { if(n[0]>=%d) { ++n[0]; break; } o[n[0]++]=v; }" % (T, "" if a is None else "T const a=T(%dLL);" % a, cnt, form, cnt),
                            "using T=%s; %s n[0]=%d; for(int i=0;i<%d;++i) o[i]=T(a+T(i*T(%s)));" % (T, "" if a is None else "T const a=T(%dLL);" % a, cnt, cnt, st), "loop over %d values of type %s, step %s" % (cnt, T, st)))
    for n in (17, 256, 300, 1000):
        cnt = "n[0]=0; for(int i=0;i<%d;++i) o[i]=-1; for(auto i : indices(c)) { if(n[0]>=%d) { ++n[0]; break; } o[n[0]++]=int(i); }" % (n, n)
        for nm, decl in (("arr", "char c[%d];" % n), ("vec", "std::vector<char> const c(%d);" % n), ("std", "std::array<char,%d> const c{};" % n)):
            pr.append(Probe("idx_long_%s%d" % (nm, n), [OUT("o", "int", n), OUT("n", "int", 1)], decl + cnt, "n[0]=%d; for(int i=0;i<%d;++i) o[i]=i;" % (n, n), "indices of %d elements" % n))
    for T in ("int", "long long", "unsigned", "short", "unsigned char", "double"):
        nm = T.replace(" ", "")
        for i, (r, st, inf) in enumerate((("range(T(3),T(100))", 1, 0), ("range(T(3),T(100),T(2))", 2, 0), ("range(T(3))", 1, 1), ("range(T(3)).step(T(5))", 5, 1))):
            pr.append(Probe("later%d_%s" % (i, nm), [OUT("o", T, 3), OUT("e", "int", 2)], "using T=%s; auto const r=%s; auto it=r.begin(); " % (T, r) + history.later_code("it", "++it") +
                            "auto const k=it; T v=*it; for(int i=0;i<3;++i) { ++it; o[i]=T(*it-T(v+T(%d))); v=*it; } e[0]=(it==r.end())!=!(it!=r.end()); e[1]=%s;" % (st, "it==r.end()" if inf else "0"), "for(int i=0;i<3;++i) o[i]=0; e[0]=e[1]=0;", "an iterator after any number of increments (%s)" % T))
    ctx.run_suites([Suite("range", PRE + history.DECL, pr)])
    return ctx.finish(META)
