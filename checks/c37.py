"""text helpers"""
import itertools, re
from sa.probe import *
from sa import absint

META = dict(
    title="Text and conversion helpers yield what is asked for",
    statement="A line is the given number of copies of the given character, a hyphen by default. Replacing one text by another in a text exchanges its first occurrence, and that only; a text that does not contain it comes back unchanged, and the arguments keep their contents. A conversion yields the value the language's conversion to the requested type yields.",
    over=["inputs"],
    text="lines of 0 to 300 of any character; every text over two letters up to length 4 (thorough: 6), ten texts to replace, replacements of 0 to 20 arbitrary characters; texts beyond the length that is stored in place; one text in several roles; conversions between 8, 16, 32 and 64-bit integers, signed and unsigned, bool, float and double, desktop and AVR",
    why="The helper is not tested; the tests and examples use it with one text that occurs once.",
    files=["include/core/text.hpp", "include/core/shims.hpp"],
    mechanism=[("line(), replaced()", "include/core/text.hpp"), ("as<T>()", "include/core/shims.hpp")],
    how="the functions are interpreted, with the standard library's string operations, for each pair of texts and arbitrary replacement characters; size and characters of the result are compared with the definition",
    note="texts on the desktop; texts are given by their pattern of equal and different letters, which is all that the search can depend on; the string class of libstdc++ is analysed along",
    technique="abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition")

PRE = '#include "core/text.hpp"\nnamespace std { template class basic_string<char>; }\n'

INTS = ("signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long")


def check(ctx):
    absint.TOTAL_ORDER = True
    th = ctx.tier == "thorough"
    pr = []
    for n in (0, 1, 2, 5, 14, 15, 16, 17, 40, 79, 100, 130, 300):
        body = "n[0]=(int)t.size(); o[0]=0; for(int i=0;i<%d;++i) o[i]= i<(int)t.size() ? t[i] : 0;" % n
        pr.append(Probe("line%d" % n, [S("c", "char"), OUT("o", "char", max(n, 1)), OUT("n", "int", 1)], "auto const t=core::line(%d,c); " % n + body, "n[0]=%d; o[0]=0; for(int i=0;i<%d;++i) o[i]=c;" % (n, n), "a line of %d characters" % n))
        pr.append(Probe("hyphen%d" % n, [OUT("o", "char", max(n, 1)), OUT("n", "int", 1)], "auto const t=core::line(%d); " % n + body, "n[0]=%d; o[0]=0; for(int i=0;i<%d;++i) o[i]='-';" % (n, n), "a line of %d hyphens" % n))
    froms = ("", "a", "b", "ab", "ba", "aa", "aab", "bab", "abab", "bbbbbbb")
    cases = [(s, f, T) for L in range(0, 7 if th else 5) for s in map("".join, itertools.product("ab", repeat=L)) for f in froms for T in ((0, 1, 3) if th or L < 4 else (2,))]
    big = "abcdefghijklmnopqrstuvwxyz"
    cases += [(big, f, T) for f in ("a", "m", "z", "lmno", "xyz", big, big + "a", "nm") for T in (0, 1, 4, 20)]
    cases += [("aXbXcX", "X", T) for T in (0, 1, 2, 12)] + [(big[:15], "o", 2), (big[:15], "o", 1), (big[:16], "p", 0), (big[:14], "n", 2), (big + big, "z", 3), (big + big, "za", 3), ("aaaab" * 6, "aaab", 5), ("a" * 140 + "bca", "bc", 3), ("a" * 270 + "cb" + "a" * 9, "cb", 20), ("a" * 280, "b", 2)]
    for i, (s, f, T) in enumerate(cases):
        p = s.find(f)
        R = len(s) if p < 0 else len(s) - len(f) + T
        want = "".join("o[%d]='%s';" % (k, c) for k, c in enumerate(s)) if p < 0 else "".join(
            ["o[%d]='%s';" % (k, s[k]) for k in range(p)] + ["o[%d]=t[%d];" % (p + k, k) for k in range(T)] + ["o[%d]='%s';" % (p + T + k, c) for k, c in enumerate(s[p + len(f):])])
        pr.append(Probe("replaced%d" % i, [IN("t", "char", max(T, 1)), OUT("o", "char", max(R, 1)), OUT("n", "int", 2)],
                        "std::string const x(\"%s\"), y(\"%s\"), z(t,t+%d); auto const r=core::replaced(x,y,z); n[0]=(int)r.size(); o[0]=0; for(int i=0;i<%d;++i) o[i]= i<(int)r.size() ? r[i] : 0;"
                        "n[1]= x.size()==%d && y.size()==%d && z.size()==%d && x==\"%s\" && y==\"%s\";" % (s, f, T, R, len(s), len(f), T, s, f),
                        "n[0]=%d; n[1]=1; o[0]=0; %s" % (R, want), "replacing '%s' in '%s' by %d character(s)" % (f, s, T)))
    for i, (s, f) in enumerate((("abab", "b"), ("ab", "ab"), ("a", "a"), (big, "lmno"), (big, big), ("aaa", "b"))):
        for nm, call, fr, to in (("ff", "core::replaced(x,y,y)", f, f), ("xx", "core::replaced(x,x,y)", s, f), ("xy", "core::replaced(x,y,x)", f, s), ("xxx", "core::replaced(x,x,x)", s, s)):
            w = s.replace(fr, to, 1)
            pr.append(Probe("alias_%s%d" % (nm, i), [OUT("o", "char", len(w)), OUT("n", "int", 2)], "std::string x(\"%s\"), y(\"%s\"); auto const r=%s; n[0]=(int)r.size(); for(int i=0;i<%d;++i) o[i]= i<(int)r.size() ? r[i] : 0; n[1]= x==\"%s\" && y==\"%s\";" % (s, f, call, len(w), s, f),
                            "n[0]=%d; n[1]=1; %s" % (len(w), "".join("o[%d]='%s';" % z for z in enumerate(w))), "replacing where arguments are one and the same text"))
    k = 8
    ctx.run_suites([Suite("text%d" % i, PRE, pr[i::k], flags=("-D_GLIBCXX_EXTERN_TEMPLATE=0",)) for i in range(k)])
    cv = []
    for T, U in itertools.product(INTS + ("double", "float", "bool"), repeat=2):
        n = re.sub(r"\W", "", T + "_" + U)
        part = 5 if U in ("double", "float") and T not in ("double", "float", "bool") else None
        cv.append(Probe("as_" + n, [S("u", U), OUT("o", T, 2)], "T const v= core::as<T>(u); o[0]=v; auto const w= core::as<T>(u); o[1]= w;".replace("T", T), "o[0]=static_cast<%s>(u); o[1]=static_cast<%s>(u);" % (T, T), "conversion of %s to %s" % (U, T), ("desktop", "avr"), partition=part))
    ctx.run_suites([Suite("conv_" + t, '#include "core/shims.hpp"\n', cv, t) for t in ("desktop", "avr")])
    return ctx.finish(META)
