from .fx import *

META = dict(
    title="Fixed-point arithmetic is exact, with documented truncation only",
    statement="Whenever the result is representable, sums, differences and negations of fixed-point numbers are exact, a product is the exact product rounded down to the resolution and a quotient is the exact quotient truncated toward zero. Compound assignments, mixed operands and the plain operators agree, and operands passed by value are unchanged.",
    over=["inputs", "configurations"],
    text="all pairs of values, for 8-, 16-, 32- and (but for products and quotients, which do not exist there) 64-bit formats with none to all bits fractional (all formats listed in checks/fx.py), desktop and AVR",
    why="Tests use 4 and 2 in one 32-bit format: intermediate overflow, sign handling and rounding direction in other formats or with other values are not reached.",
    files=["include/num/fixed-point.hpp"],
    mechanism=[("widening multiplication and division", "include/num/fixed-point.hpp: operator*=, operator/=, detail::promote"), ("operator+=, -=, unary -", "include/num/fixed-point.hpp")],
    how="every operator is interpreted over unknown operands in exact integer arithmetic (wrap-around and floor/truncating division are explicit terms) and compared with 64-bit definitions, guarded by representability of the result",
    note="results that are not representable are outside the property; formats enumerated",
    technique=VF)


def gen(t, f):
    o = []
    T, F, fb, d = f.T, f.F, f.f, f.d
    one = 1 << fb
    wide = f.bits == 64
    k = dict(lo=-(1 << 61), hi=1 << 61) if wide else {}
    two = f.raw("a", "r") + f.raw("b", "s")
    big = f.bits == 32

    def add(nm, code, e, what, guard=None, args=None):
        g = f.fits("e") + (" && " + guard if guard else "")
        pre = "o[0]=0; "
        cond = "if(%s)" % guard if guard else ""
        sp = "long long const e=%s; o[0]=0; if(%s)" % (e, f.fits("e"))
        body = "{ long long const e=%s; if(%s) { " % (e, f.fits("e"))
        o.append(Probe(nm + "_" + f.tag, args or [S("r", T, **k), S("s", T, **k), OUT("o", T, 1)], pre + cond + body + code + " } }",
                       pre + cond + "{ " + sp + " o[0]=(%s)e; }" % T, what + d))
    R_, S_ = "(long long)r", "(long long)s"
    for op, nm, e, g in (("+", "add", R_ + "+" + S_, None), ("-", "sub", R_ + "-" + S_, None), ("*", "mul", "(%s*%s)>>%d" % (R_, S_, fb), None),
                         ("/", "div", "(%s*%dLL)/%s" % (R_, one, S_), "s!=0")):
        if wide and nm in ("mul", "div"):
            continue
        add(nm, two + "o[0]=(a%sb).underlying_value();" % op, e, "a %s b" % op, g)
        add(nm + "_as", f.raw("b", "s") + "%s c(%s::construct, r); c%s=b; o[0]=c.underlying_value();" % (F, F, op), e, "a %s= b" % op, g)
        add(nm + "_ret", f.raw("b", "s") + "%s c(%s::construct, r); auto const d=(c%s=b); o[0]=d.underlying_value();" % (F, F, op), e, "the value of a %s= b" % op, g)
        add(nm + "_self", f.raw("a", "r") + "o[0]=(a%sa).underlying_value();" % op, e.replace("s", "r") if False else e.replace(S_, R_), "a %s a" % op, g and "r!=0", [S("r", T, **k), OUT("o", T, 1)])
        add(nm + "_selfas", "%s c(%s::construct, r); c%s=c; o[0]=c.underlying_value();" % (F, F, op), e.replace(S_, R_), "a %s= a" % op, g and "r!=0", [S("r", T, **k), OUT("o", T, 1)])
        # a plain integer beside a fixed-point number stands for the fixed-point number of that value
        lo, hi = -(1 << (f.bits - 1 - fb)), (f.max >> fb)
        il, ih = max(lo, -128), min(hi, 127)
        arg = [S("r", T, **k), S("n", "signed char", lo=il, hi=ih), OUT("o", T, 1)]
        N = "((long long)n*%dLL)" % one
        e1, e2 = e.replace(S_, N), {"add": N + "+" + R_, "sub": N + "-" + R_, "mul": "(%s*%s)>>%d" % (N, R_, fb), "div": "(%s*%dLL)/%s" % (N, one, R_)}[nm]
        if il < ih:
            add(nm + "_int", f.raw("a", "r") + "o[0]=(a%sn).underlying_value();" % op, e1, "a %s integer" % op, g and "n!=0", arg)
            add(nm + "_intl", f.raw("a", "r") + "o[0]=(n%sa).underlying_value();" % op, e2, "integer %s a" % op, g and "r!=0", arg)
    one_a = [S("r", T, **k), OUT("o", T, 1)]
    add("neg", f.raw("a", "r") + "o[0]=(-a).underlying_value();", "-" + R_, "-a", None, one_a)
    add("pos", f.raw("a", "r") + "o[0]=(+a).underlying_value();", R_, "+a", None, one_a)
    return o


def check(ctx):
    run(ctx, "fixarith", gen)
    return ctx.finish(META)
