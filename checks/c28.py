from .mcu import *

META = dict(
    title="Accessing a field of a register touches only that field, with its access policy",
    statement="Reading a field yields its bits right-aligned; writing, setting, clearing or toggling it gives just its bits the value asked for (excess bits of the value are dropped) and writes all other bits back as just read, with one read and one write of that register. Set-only, trigger, write-0-to-clear and read-only fields offer only the operations that exist for them, and the predicates on kinds of bits tell which are readable, writable, or only to be set or cleared.",
    over=["inputs", "programs"],
    text="all 36 fields of 8-bit and all 136 fields of 16-bit registers, every policy, every register content and value; for registers at several addresses",
    why="No test can run register code on the desktop; corruption of a neighbouring field depends on the register's content at that moment.",
    files=["include/mcu/register.hpp"],
    mechanism=[("bitfield_t", "include/mcu/register.hpp"), ("r_t, w_t, rw_t, rc_w0_t, rs_t, rt_w", "include/mcu/register.hpp"), ("bitmask(), rngmask(), shl(), shr()", "include/mcu/register.hpp")],
    how="the trace of device accesses and the values read and written equal those of the definition with explicit masks",
    note="three addresses; the policies' operations are checked for offering what they should and by compile-fail witnesses for nothing else",
    technique=EV + "; compile-time witnesses")


def m16(hi, lo):
    return "%du" % ((((1 << (hi - lo + 1)) - 1) << lo) & 0xffff)


def check(ctx):
    pr = []
    for bits, T, adr in ((8, U8, ("0x60", "0x25", "0xbc")), (16, U16, ("0x84", "0x88", "0xee"))):
        for a in adr[:1] if ctx.tier == "quick" else adr:
            R = "(*(volatile %s*)%s)" % (T, a)
            for lo in range(bits):
                for hi in range(lo, bits):
                    M = m16(hi, lo)
                    N = "(%s)~%s" % (T, M)
                    n = "%d_%s_%d_%d" % (bits, a, hi, lo)
                    F = lambda pol: "mcu::bitfield%d_t<mcu::%s,%s,%d,%d>" % (bits, pol, a, hi, lo)
                    w = "bits %d..%d of a %d-bit register" % (hi, lo, bits)
                    one = hi == lo
                    full = hi - lo + 1 == bits
                    pr.append(Probe("rd_" + n, [OUT("o", T)], "using F=%s; o[0]=F::read();" % F("rw_t"), "o[0]=(%s & %s)>>%d;" % (R, M, lo), "reading " + w))
                    if one or full or hi % 3 == 0:
                        pr.append(Probe("rdr_" + n, [OUT("o", T)], "using F=%s; o[0]=F::read();" % F("r_t"), "o[0]=(%s & %s)>>%d;" % (R, M, lo), "reading a read-only field, " + w))
                    v = "(v?1u:0u)" if one else "v"
                    upd = "%s=v;" % R if full else "%s=(%s)((%s & %s) | ((%s)((%s)%s<<%d) & %s));" % (R, T, R, N, T, T, v, lo, M)
                    lup = "%s=(%s)((%s & %s) | ((%s)((%s)v<<%d) & %s));" % (R, T, R, N, T, T, lo, M)
                    for pol in ("rw_t", "w_t"):
                        pr.append(Probe("wr%s_%s" % (pol, n), [S("v", T)], "using F=%s; F::write(v);" % F(pol), upd, "writing " + w))
                    pr.append(Probe("lazy_" + n, [S("v", T)], "using F=%s; F::write_lazy(v);" % F("rw_t"), lup, "deferred write of " + w))
                    pr.append(Probe("named_" + n, [S("v", T), OUT("o", T, 1)], "using F=%s; { auto const p=F::write_lazy(v); o[0]=p.value; }" % F("rw_t"), "o[0]=(%s)((%s)((%s)v<<%d) & %s); %s" % (T, T, T, lo, M, lup), "a deferred write kept until the end of its scope, " + w))
                    if one:
                        ops = [("rw_t", "set", "|", M), ("rw_t", "clear", "&", N), ("rw_t", "toggle", "^", M), ("w_t", "set", "|", M), ("w_t", "clear", "&", N),
                               ("rc_w0_t", "clear", "&", N), ("rs_t", "set", "|", M), ("rt_w", "trigger", "|", M)]
                        for pol, op, o, k in ops:
                            pr.append(Probe("%s%s_%s" % (op, pol, n), [], "using F=%s; F::%s();" % (F(pol), op), "%s=(%s)(%s %s %s);" % (R, T, R, o, k), "%s of %s (%s)" % (op, w, pol)))
                        for pol in ("rc_w0_t", "rs_t", "rt_w", "rc_w1_t"):
                            pr.append(Probe("rd%s_%s" % (pol, n), [OUT("o", T)], "using F=%s; o[0]=F::read();" % F(pol), "o[0]=(%s & %s)>>%d;" % (R, M, lo), "reading %s (%s)" % (w, pol)))
    for T, c in ((U8, "uint8_t"), (U16, "uint16_t")):
        b = 8 if T == U8 else 16
        for lo in range(b):
            for hi in range(lo, b):
                pr.append(Probe("mask_%d_%d_%d" % (b, hi, lo), [OUT("o", T, 4)], "o[0]=mcu::rngmask<%s>(%d,%d); o[1]=mcu::rngmask_n<%s>(%d,%d); o[2]=mcu::bitmask<%s>(%d,%d); o[3]=mcu::bitmask_n<%s>(%d);" % (c, hi, lo, c, hi, lo, c, hi, lo, c, lo),
                                "o[0]=%s; o[1]=(%s)~%s; o[2]=(1u<<%d)|(1u<<%d); o[3]=(%s)~(1u<<%d);" % (m16(hi, lo), T, m16(hi, lo), hi, lo, T, lo), "masks for bits %d..%d" % (hi, lo)))
        for k in range(b):
            pr.append(Probe("shift_%d_%d" % (b, k), [S("v", T), OUT("o", T, 2)], "o[0]=mcu::shl<%s>(v,%d); o[1]=mcu::shr<%s>(v,%d);" % (c, k, c, k), "o[0]=(%s)(v<<%d); o[1]=(%s)(v>>%d);" % (T, k, T, k), "shifts by %d" % k))
    pre = '#include "mcu/register.hpp"\n'
    k = 8
    ctx.run_suites([suite("field%d" % i, pr[i::k], pre) for i in range(k)])
    W = []
    P1 = lambda pol, body: "using F=mcu::bitfield8_t<mcu::%s,0x60,%s>; %s" % (pol, "3", body)
    for pol, op in (("r_t", "F::set()"), ("r_t", "F::clear()"), ("r_t", "F::toggle()"), ("r_t", "F::write(1)"), ("rs_t", "F::clear()"), ("rs_t", "F::toggle()"), ("rc_w0_t", "F::set()"), ("rc_w1_t", "F::set()"),
                    ("rc_w1_t", "F::toggle()"), ("rt_w", "F::clear()"), ("rc_r_t", "F::clear()"), ("rc_r_t", "F::set()")):
        W.append(("no_%s_%s" % (pol, ident(op)), P1(pol, op + ";"), False, "a %s field must not offer %s" % (pol, op)))
    W.append(("ro_range", "using F=mcu::bitfield8_t<mcu::r_t,0x60,5,2>; F::write(1);", False, "a read-only field of several bits must not be writable"))
    W.append(("ok_rw", P1("rw_t", "F::set(); F::clear(); F::toggle(); F::write(1); F::write_lazy(1); (void)F::read();"), True, "an rw field offers all operations"))
    W.append(("range_hi", "mcu::bitfield8_t<mcu::rw_t,0x60,8,0> f;", False, "a field beyond the register is rejected"))
    W.append(("range_lo", "mcu::bitfield8_t<mcu::rw_t,0x60,2,5> f;", False, "a field with hi < lo is rejected"))
    kinds = ("rw", "r", "w", "rc_w1", "rc_w0", "rc_r", "rs", "rt_w")
    # (predicate, kinds it holds for, kinds left open)
    for fn, yes, free in (("can_read", ("rw", "r", "rc_w1", "rc_w0", "rc_r", "rs", "rt_w"), ()), ("can_write", ("rw", "w", "rc_w1", "rc_w0", "rs"), ("rt_w",)), ("can_only_set_or_clear", ("rc_w1", "rc_w0", "rs"), ("rt_w",)),
                          ("is_for_bits_only", ("rc_w1", "rc_w0", "rs", "rc_r", "rt_w"), ()), ("is_clear", ("rc_w1", "rc_w0"), ("rc_r",))):
        for k in kinds:
            if k not in free:
                W.append(("%s_%s" % (fn, k), "static_assert(%smcu::%s(mcu::Mutability::%s),\"\");" % ("" if k in yes else "!", fn, k), True, "%s for a bit of kind %s" % (fn, k)))
    for pol in kinds:
        T = pol if pol == "rt_w" else pol + "_t"
        W.append(("kind_" + pol, "static_assert(mcu::%s<unsigned char>::mutability==mcu::Mutability::%s,\"\");" % (T, pol), True, "the access policy %s names its kind" % pol))
    ctx.witnesses(pre, W, ("avr",))
    return ctx.finish(META)
