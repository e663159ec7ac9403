from .mcu import *

META = dict(
    title="Every named device register and field is the device's register and bits",
    statement="Each register and bit field the ATmega328 header names has the address, width and bit positions that the device gives it. Reading it yields exactly those bits, and writing it changes exactly those bits.",
    over=["inputs", "configurations"],
    text="every register, field and address constant of the header, for every register content and every value written",
    why="The headers for the micro-controller cannot run on the desktop: no test reads or writes a register, so a wrong address or bit is only seen on hardware.",
    files=FILES,
    mechanism=[("register and field definitions", "include/mcu/atmega328.hpp"), ("bitfield_t::read(), write()", "include/mcu/register.hpp")],
    how="the trace of device accesses of every field's read and write, and the value read, equal those of the same access through the names of avr-libc",
    note="r0 cannot be accessed through a pointer (address 0) and is left out; device behaviour itself is avr-libc's description",
    technique=EV)


def check(ctx):
    pr = []
    for t, r, hi, lo, pol in FIELDS:
        n = ident(t)
        what = "%s is %s" % (t.replace("atmega328::", ""), r if hi is None else "%s bits %s..%s" % (r, hi, lo) if hi != lo else "%s bit %s" % (r, hi))
        if hi is None:
            pr.append(Probe("rd_" + n, [OUT("o", U8)], "o[0]=%s::read();" % t, "o[0]=%s;" % r, "reading " + what))
            if pol == "rw":
                pr.append(Probe("wr_" + n, [S("v", U8)], "%s::write(v);" % t, "%s = v;" % r, "writing " + what))
            continue
        pr.append(Probe("rd_" + n, [OUT("o", U8)], "o[0]=%s::read();" % t, "o[0]=%s;" % get(r, hi, lo), "reading " + what))
        if pol == "rw":
            v = "v" if hi != lo else "(v?1:0)"
            pr.append(Probe("wr_" + n, [S("v", U8)], "%s::write(v);" % t, rmw(r, hi, lo, v), "writing " + what))
    for t, r, pol in WIDE:
        n = ident(t)
        pr.append(Probe("rd_" + n, [OUT("o", U16)], "o[0]=%s::read();" % t, "o[0]=%s;" % r, "reading %s is %s" % (t, r)))
        if pol == "rw":
            pr.append(Probe("wr_" + n, [S("v", U16)], "%s::write(v);" % t, "%s = v;" % r, "writing %s is %s" % (t, r)))
    for t, r, e, T in TYPED:
        n = ident(t)
        pr.append(Probe("rd_" + n, [OUT("o", T)], "o[0]=(%s)%s::read();" % (T, t), "o[0]=%s;" % r, "reading %s is %s" % (t, r)))
        pr.append(Probe("wr_" + n, [S("v", T)], "%s::write((%s)v);" % (t, e), "%s = v;" % r, "writing %s is %s" % (t, r)))
    for a, r in ADDR:
        pr.append(Probe("adr_" + ident(a), [OUT("o", U16)], "o[0]=%s;" % a, "o[0]=(unsigned)(unsigned short)(&%s);" % r, "the address of " + r))
    ctx.run_suites([suite("map%d" % i, pr[i::8]) for i in range(8)])
    ctx.extra["registers_and_fields"] = len(FIELDS) + len(WIDE) + len(TYPED) + len(ADDR)
    return ctx.finish(META)
