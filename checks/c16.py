import itertools
from .bq import *

LC, LDECL = history.later_code, history.DECL

META = dict(
    title="A cascade is an ordered sequence of sections under all modifications",
    statement="A cascade holds exactly the sections put into it, in order, with their coefficients and states: append adds at the end, insert before and remove at a position move the others by one place without changing them, replace returns the section it displaces, clear empties it. Size, indexed access and (const) iteration always agree with that sequence, and the capacity is as declared.",
    over=["histories", "inputs"],
    text="all sequences of two (thorough: three) modifications at all valid positions on cascades of 0 to 3 sections with arbitrary coefficients and running states; 20 (60) longer histories of 6 to 10 modifications; any number of repetitions of each modification; the cascade's own sections as arguments of its modifications; capacities up to 300; desktop and AVR",
    why="Off-by-one moves corrupt only some positions of some fill levels; state that gets lost in a move shows only when the filter is running.",
    files=["include/dsp/biquad-cascade.hpp"],
    mechanism=[("append(), insert(), remove(), replace(), clear(), size(), begin(), end()", "include/dsp/biquad-cascade.hpp: BiQuadCascadeT")],
    how="after each operation sequence every observable location of the cascade is compared with a list model of the same operations",
    note="real-number semantics; operation sequences and capacities (1, 4, 5, 6, 130, 300) enumerated, contents arbitrary",
    technique=VF)

CAP = 4


def ops(n, cap):
    r = []
    if n < cap:
        r.append(("append", n))
        r += [("insert", i) for i in range(n)]
    r += [("remove", i) for i in range(n)]
    r += [("replace", i) for i in range(n)]
    if n:
        r.append(("clear", 0))
    return r


def seqs(n, k, cap):
    if k == 0:
        yield [], n
        return
    for o, i in ops(n, cap):
        m = n + (o in ("append", "insert")) - (o == "remove") if o != "clear" else 0
        for rest, fin in seqs(m, k - 1, cap):
            yield [(o, i)] + rest, fin


def section(j, T):
    """section j: coefficients c[5j..], state after one sample x[j]"""
    return "BiQuadT<%s> s%d({c[%d],c[%d],c[%d]},{c[%d],c[%d]}); s%d.step(x[%d]);\n" % ((T, j) + tuple(range(5 * j, 5 * j + 5)) + (j, j))


def observe(m):
    """size, and per section the coefficients, state; indexed and by (const) iteration"""
    s = "n[0]=q.size(); n[1]=q.reserved(); { auto const & k=q; n[2]=0; for(auto const & z : k) { (void)z; ++n[2]; } n[3]=0; for(auto & z : q) { (void)z; ++n[3]; } n[4]=k.end()-k.begin(); }\n"
    for i in range(m):
        s += "{ auto const ca=q.coeff_a(%d); auto const cb=q.coeff_b(%d); auto const w=q.state(%d); T*d=o+%d; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }\n" % (i, i, i, 7 * i)
        s += "{ auto const & k=q; auto const & z=*(k.begin()+%d); auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=p+%d; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }\n" % (i, 7 * i)
    return s


def expect(model, cap, extra=()):
    m = len(model)
    s = "n[0]=n[2]=n[3]=n[4]=%d; n[1]=%d;\n" % (m, cap)
    for i, j in enumerate(model):
        s += "for(int k=0;k<5;++k) o[%d+k]=p[%d+k]=c[%d+k]; o[%d]=p[%d]=x[%d]; o[%d]=p[%d]=0;\n" % (7 * i, 7 * i, 5 * j, 7 * i + 5, 7 * i + 5, j, 7 * i + 6, 7 * i + 6)
    for k, j in enumerate(extra):
        s += "for(int k=0;k<5;++k) r[%d+k]=c[%d+k]; r[%d]=x[%d]; r[%d]=0;\n" % (7 * k, 5 * j, 7 * k + 5, j, 7 * k + 6)
    return s


def check(ctx):
    depth = 3 if ctx.tier == "thorough" else 2
    for t in T2:
        T = "double"
        U = "using T=double; "
        pr = []
        cnt = 0
        lt = []
        LPR = "using T=double; %s %s BiQuadT<T> s3({T(7),T(8),T(9)},{T(10),T(11)}); s1.step(T(1.5)); s2.step(T(2.5)); s3.step(T(3.5)); BiQuadCascadeT<T,4> q; q.append(s1); q.append(s2); q.append(s3); " % (LCO, LSEC)
        for nm, cyc, op, want in (("append", "q.append(s1); q.remove(q.size()-1)", "q.append(s2);", "123 2"), ("insert", "q.insert(1,s3); q.remove(1)", "q.insert(1,s1);", "1123"), ("remove", "q.insert(0,s3); q.remove(0)", "q.remove(1);", "13"),
                                  ("replace", "q.replace(1,q.replace(1,s1))", "q.replace(2,s1);", "121"), ("clear", "q.clear(); q.append(s1); q.append(s2); q.append(s3)", "q.clear(); q.append(s3); q.append(s1);", "31"), ("none", "(void)q.size(); (void)q.reserved(); (void)is_stable(q); (void)response(q,T(0.25)); (void)q.state(1); (void)q.coeff_a(1); for(auto const & z : q) (void)z", "", "123"),
                                  ("copy", "{ auto r=q; q=r; }", "q.append(s2);", "1232")):
            want = want.replace(" ", "")
            lt.append(Probe("later_" + nm, [OUT("o", T, 7 * len(want)), OUT("n", "int", 5)], LPR + LC("q", cyc) + cyc + "; " + op + " T p[%d];" % (7 * len(want)) + observe(len(want)) +
                            "".join("{ auto const z=s%s; auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T const v[7]={cb.b0,cb.b1,cb.b2,ca.a1,ca.a2,w.v1,w.v2}; for(int i=0;i<7;++i) { o[%d+i]-=v[i]; o[%d+i]+=(p[%d+i]-v[i])*3; } }" % (c, 7 * i, 7 * i, 7 * i) for i, c in enumerate(want)),
                            "for(int i=0;i<%d;++i) o[i]=0; n[0]=n[2]=n[3]=n[4]=%d; n[1]=4;" % (7 * len(want), len(want)), "a cascade after any number of operations: %s" % nm))
        ctx.run_suites([Suite("later", CPRE + LDECL, lt, target=t)])
        def history(nm, n, how, sq, CAP):
            model = list(range(n))
            nxt = n
            code = "".join(section(j, T) for j in range(n + len(sq)))
            # s_j after one sample
            code += "BiQuadCascadeT<T,%d> q" % CAP + ("(%s);\n" % ",".join("s%d" % j for j in range(n)) if how == "ctor" and n else ";\n" + "".join("q.append(s%d);" % j for j in range(n)))
            extra = []
            for o, i in sq:
                if o == "append":
                    code += "q.append(s%d);" % nxt
                    model.append(nxt)
                    nxt += 1
                elif o == "insert":
                    code += "q.insert(%d,s%d);" % (i, nxt)
                    model.insert(i, nxt)
                    nxt += 1
                elif o == "remove":
                    code += "q.remove(%d);" % i
                    del model[i]
                elif o == "replace":
                    e = len(extra)
                    code += "{ auto const z=q.replace(%d,s%d); auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=r+%d; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }" % (i, nxt, 7 * e)
                    extra.append(model[i])
                    model[i] = nxt
                    nxt += 1
                else:
                    code += "q.clear();"
                    model = []
            code += "\n" + observe(len(model))
            tot = n + len(sq)
            # the state of s_j after one sample x_j from cleared: v1 = x_j, v2 = 0
            args = [IN("c", T, 5 * max(tot, 1)), IN("x", T, max(tot, 1)), OUT("n", "int", 5)]
            if model:
                args += [OUT("o", T, 7 * len(model)), OUT("p", T, 7 * len(model))]
            if extra:
                args.append(OUT("r", T, 7 * len(extra)))
            pr.append(Probe(nm, args, U + code, U + expect(model, CAP, extra), "cascade of %d section(s)%s" % (n, "".join(", %s%s" % (o, "" if o in ("append", "clear") else "(%d)" % i) for o, i in sq))))
        for n in range(0, 4):
            for how in ("ctor", "append"):
                for k in range(0, depth + 1):
                    if how == "ctor" and k > 1:
                        continue
                    for sq, fin in seqs(n, k, CAP):
                        history("%s%d_%s" % (how, n, "_".join("%s%d" % z for z in sq) or "as_is"), n, how, sq, CAP)
        # long histories on a larger cascade
        import random
        rnd = random.Random(16)
        for q in range(60 if depth > 2 else 20):
            cap, k = rnd.choice(((4, 6), (5, 8), (6, 10))) if t == "desktop" else (4, 6)
            n = rnd.randint(0, cap)
            sq, m = [], n
            for _ in range(k):
                o, i = rnd.choice([z for z in ops(m, cap) if z[0] != "clear"] * 3 + ops(m, cap))
                sq.append((o, i))
                m = 0 if o == "clear" else m + (o in ("append", "insert")) - (o == "remove")
            history("long%d" % q, n, "append", sq, cap)
        # capacity beyond a byte
        for cap in (130, 300):
            pr.append(Probe("large%d" % cap, [IN("c", T, 5), IN("x", T, 2), OUT("n", "int", 4), OUT("o", T, 4)],
                            U + "BiQuadT<T> s({c[0],c[1],c[2]},{c[3],c[4]}); BiQuadCascadeT<T,%d> q; s.step(x[0]); for(int i=0;i<%d;++i) q.append(s); s.step(x[1]); q.append(s); n[0]=q.size(); q.remove(0); n[1]=q.size(); n[2]=q.reserved(); n[3]=q.end()-q.begin();"
                            "o[0]=q.state(%d).v1; o[1]=q.coeff_b(%d).b0; o[2]=q.state(%d).v1; o[3]=q.coeff_a(%d).a2;" % (cap, cap - 1, cap - 2, cap - 2, cap - 3, cap - 3),
                            U + "n[0]=n[2]=%d; n[1]=n[3]=%d; o[0]=x[1]-c[3]*x[0]; o[1]=c[0]; o[2]=x[0]; o[3]=c[4];" % (cap, cap - 1), "a cascade of capacity %d" % cap))
        # sections of the cascade itself as arguments
        for n in (1, 2, 3):
            mk = "".join(section(j, T) for j in range(n)) + "BiQuadCascadeT<T,4> q;" + "".join("q.append(s%d);" % j for j in range(n))
            io = lambda m: [IN("c", T, 5 * n), IN("x", T, n), OUT("n", "int", 5), OUT("o", T, 7 * m), OUT("p", T, 7 * m)]
            for j in range(n):
                own = "*(q.begin()+%d)" % j
                pr.append(Probe("own_append_%d_%d" % (n, j), io(n + 1), U + mk + "q.append(%s);" % own + observe(n + 1), U + expect(list(range(n)) + [j], 4), "appending section %d of a cascade of %d to itself" % (j, n)))
                for i in range(n):
                    m = list(range(n))
                    m.insert(i, j)
                    pr.append(Probe("own_insert_%d_%d_%d" % (n, i, j), io(n + 1), U + mk + "q.insert(%d,%s);" % (i, own) + observe(n + 1), U + expect(m, 4), "inserting section %d of a cascade of %d at %d of itself" % (j, n, i)))
                    m = list(range(n))
                    m[i] = j
                    pr.append(Probe("own_replace_%d_%d_%d" % (n, i, j), io(n) + [OUT("r", T, 7)], U + mk + "auto const z=q.replace(%d,%s); { auto const ca=z.coeff_a(); auto const cb=z.coeff_b(); auto const w=z.state(); T*d=r; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }" % (i, own) + observe(n),
                                    U + expect(m, 4, [i]), "replacing section %d of a cascade of %d by its section %d" % (i, n, j)))
            pr.append(Probe("own_assign_%d" % n, io(n), U + mk + "auto & k=q; q=k;" + observe(n), U + expect(list(range(n)), 4), "assigning a cascade to itself"))
        # capacity 1, and copies
        one = section(0, T) + section(1, T)
        pr.append(Probe("cap1", [IN("c", T, 10), IN("x", T, 2), OUT("n", "int", 5), OUT("o", T, 7), OUT("p", T, 7)], U + one + "BiQuadCascadeT<T,1> q(s0); q.remove(0); q.append(s1);" + observe(1), U + expect([1], 1), "cascade of capacity 1"))
        pr.append(Probe("copy", [IN("c", T, 10), IN("x", T, 2), OUT("n", "int", 5), OUT("o", T, 14), OUT("p", T, 14)], U + one + "BiQuadCascadeT<T,%d> const z(s0,s1); auto q=z; auto u=z; u.remove(0); u.clear();" % CAP + observe(2), U + expect([0, 1], CAP), "copies of a cascade are independent"))
        pr.append(Probe("assign", [IN("c", T, 10), IN("x", T, 2), OUT("n", "int", 5), OUT("o", T, 7), OUT("p", T, 7)], U + one + "BiQuadCascadeT<T,%d> q(s0,s1), z(s1); q=z; z.clear();" % CAP + observe(1), U + expect([1], CAP), "assignment of a cascade"))
        if t == "desktop":
            obc = "{ auto const ca=%s.coeff_a(); auto const cb=%s.coeff_b(); auto const w=%s.state(); Z z[7]={cb.b0,cb.b1,cb.b2,ca.a1,ca.a2,w.v1,w.v2}; for(int i=0;i<7;++i) { o[%d+2*i]=z[i].real(); o[%d+2*i+1]=z[i].imag(); } }"
            mkz = "".join("BiQuadT<Z> s%d({Z(c[%d],c[%d]),Z(c[%d],c[%d]),Z(c[%d],c[%d])},{Z(c[%d],c[%d]),Z(c[%d],c[%d])}); s%d.step(Z(x[%d],x[%d]));" % ((j,) + tuple(range(10 * j, 10 * j + 10)) + (j, 2 * j, 2 * j + 1)) for j in range(4))
            pr.append(Probe("cx", [IN("c", T, 40), IN("x", T, 8), OUT("n", "int", 1), OUT("o", T, 56)], "using Z=std::complex<double>; " + mkz + "BiQuadCascadeT<Z,4> q(s0,s1); q.insert(1,s2); auto const z=q.replace(0,s3); n[0]=q.size();" +
                            "".join("{ auto const k=*(q.begin()+%d); " % i + obc % ("k", "k", "k", 14 * i, 14 * i) + "}" for i in range(3)) + obc % ("z", "z", "z", 42, 42),
                            "n[0]=3; int const m[4]={3,2,1,0}; for(int i=0;i<4;++i) { for(int k=0;k<10;++k) o[14*i+k]=c[10*m[i]+k]; o[14*i+10]=x[2*m[i]]; o[14*i+11]=x[2*m[i]+1]; o[14*i+12]=o[14*i+13]=0; }", "insertion and replacement of complex sections"))
        ctx.run_suites([Suite("casc%d" % (i // 120), CPRE, pr[i:i + 120], target=t) for i in range(0, len(pr), 120)])
    ctx.witnesses(CPRE, [
        ("const_obs", "BiQuadCascadeT<double,3> const q{}; (void)q.size(); (void)q.reserved(); (void)q.coeff_a(0); (void)q.coeff_b(0); (void)q.state(0); for(auto const & s : q) (void)s;", True, "a constant cascade can be observed"),
        ("const_append", "BiQuadCascadeT<double,3> const q{}; q.append({});", False, "appending to a constant cascade"),
        ("const_iter", "BiQuadCascadeT<double,3> const q{}; for(auto & s : q) s.reset();", False, "modifying a section of a constant cascade"),
        ("toomany", "BiQuadT<double> s; BiQuadCascadeT<double,2> q(s,s,s);", False, "more sections than the cascade can hold"),
        ("full", "BiQuadT<double> s; BiQuadCascadeT<double,3> q(s,s,s);", True, "as many sections as the cascade can hold"),
    ], T2)
    return ctx.finish(META)
