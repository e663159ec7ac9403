from .fx import *

META = dict(
    title="Fixed-point conversions are exact or correctly rounded",
    statement="A fixed-point number built from a representable integer has exactly that value, one built from a representable floating-point number is the nearest representable value (ties away from zero). Reading a fixed-point number as a floating type gives its exact value, as an integral type its value truncated toward zero; the underlying representation, its extremes and the conversions from and to it are exact.",
    over=["inputs", "configurations"],
    text="all values of every argument type, for 8-, 16-, 32- and (but for products and quotients, which do not exist there) 64-bit formats with none to all bits fractional (all formats listed in checks/fx.py), desktop and AVR",
    why="Tests convert 42, 1.23 and 3.14 in one format; sign handling of rounding, narrow result types and formats without integer or fractional bits are never exercised.",
    files=["include/num/fixed-point.hpp"],
    mechanism=[("converting constructors", "include/num/fixed-point.hpp: fixed_point( U ), fixed_point( double )"), ("as<>, as_double, underlying_value, to_rep, from_rep, from_value", "include/num/fixed-point.hpp")],
    how="each conversion is interpreted with the argument unknown over the representable range and compared with the definition in exact integer/real arithmetic",
    note="real-number semantics for the floating side (the rounding of the scaling multiplication itself is not modelled); formats enumerated",
    technique=VF)


def gen(t, f):
    o = []
    T, F, fb, d = f.T, f.F, f.f, f.d
    lo, hi = -(1 << (f.bits - 1 - fb)), (f.max >> fb)
    ints = {"desktop": {"signed char": 8, "short": 16, "int": 32, "long long": 64, "unsigned char": -8, "unsigned short": -16, "unsigned": -32},
            "avr": {"signed char": 8, "int": 16, "long": 32, "long long": 64, "unsigned char": -8, "unsigned": -16, "unsigned long": -32}}[t]
    for U, n in ints.items():
        l, h = (0, (1 << -n) - 1) if n < 0 else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        l, h = max(l, lo), min(h, hi)
        o.append(Probe("from_%s_%s" % (U.replace(" ", "_"), f.tag), [S("v", U, lo=l, hi=h), OUT("o", T, 1)], "%s const x(v); o[0]=x.underlying_value();" % F,
                       "o[0]=(%s)((long long)v*%dLL);" % (T, 1 << fb), "construction from %s is exact" % U + d))
        # truncation toward zero, when the result fits
        one = 1 << fb
        o.append(Probe("as_%s_%s" % (U.replace(" ", "_"), f.tag), [S("r", T), OUT("o", "long long", 1)],
                       "long long const q=(long long)r/%dLL; o[0]=0; if(q>=%dLL && q<=%dLL) { %s o[0]=x.as<%s>(); }" % (one, l, h, f.raw("x", "r"), U),
                       "long long const q=(long long)r/%dLL; o[0]=0; if(q>=%dLL && q<=%dLL) o[0]=q;" % (one, l, h), "as<%s>() truncates toward zero" % U + d))
    for U in ("double", "float"):
        z = "" if U == "double" else "f"
        o.append(Probe("from_%s_%s" % (U, f.tag), [S("v", U), OUT("o", T, 1)], "%s const x(v); o[0]=x.underlying_value();" % F,
                       "{U} s=v*%d.0{z}; o[0]=(%s)(v>=0 ? s+0.5{z} : s-0.5{z});".format(U=U, z=z) % (1 << fb, T), "construction from %s rounds to nearest" % U + d))
        o.append(Probe("as_%s_%s" % (U, f.tag), [S("r", T), OUT("o", U, 1)], f.raw("x", "r") + "auto const y=x.as<%s>(); o[0]=y;" % U, "o[0]=(%s)r/%d.0%s;" % (U, 1 << fb, z), "as<%s>() is the exact value" % U + d))
    o.append(Probe("asd_" + f.tag, [S("r", T), OUT("o", "double", 1)], f.raw("x", "r") + "o[0]=x.as_double();", "o[0]=(double)r/%d.0;" % (1 << fb), "as_double() is the exact value" + d))
    o.append(Probe("raw_" + f.tag, [S("r", T), S("q", T), OUT("o", T, 9), OUT("p", "int", 3)],
                   f.raw("x", "r") + "{F} y(x); {F} z(0); z=x; {F} m=static_cast<{F}&&>(y); auto const w=from_rep<{F}>()(q); o[0]=x.underlying_value(); o[1]=y.underlying_value(); o[2]=z.underlying_value(); o[3]=m.underlying_value();"
                   "o[4]=w.underlying_value(); o[5]=to_rep<{F}>()(x); o[6]=x.min().underlying_value(); o[7]=x.max().underlying_value(); o[8]=from_value<fixed_point<{T},{I},{f}>,{T}>()(q).underlying_value();"
                   "p[0]={F}::digits; p[1]={F}::integer_digits; p[2]={F}::fractional_digits;".format(F=F, T=T, I=f.i, f=fb),
                   "o[0]=o[1]=o[2]=o[3]=o[5]=r; o[4]=o[8]=q; o[6]=(%s)%s; o[7]=(%s)%s; p[0]=%d; p[1]=%d; p[2]=%d;" % (T, f.lim[0], T, f.lim[1], f.bits - 1, f.i, fb),
                   "the underlying value, its copies, extremes and digit counts" + d))
    return o


def check(ctx):
    run(ctx, "fixconv", gen)
    return ctx.finish(META)
