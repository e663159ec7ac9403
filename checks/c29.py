from .mcu import *

META = dict(
    title="Clearing one interrupt flag clears that flag and no other",
    statement="Each operation that clears a pending-interrupt flag writes a one to that flag. In registers that hold only such flags it writes zero to all others, so that no other pending interrupt is lost; where the flag shares a register with settings these are written back unchanged. Testing a flag does not change it.",
    over=["inputs", "histories"],
    text="all flags of external and pin-change interrupts, both timers, comparator, converter and two-wire interface; every register content",
    why="A lost interrupt needs a second flag to be pending at that very moment, on hardware.",
    files=FILES,
    mechanism=[("rc_w1_flag_t, rc_w1_t", "include/mcu/register.hpp"), ("flag fields and the clear()/current() functions", "include/mcu/atmega328.hpp")],
    how="the trace of device accesses of every clearing and testing operation equals the required single write (or read and write back)",
    note="flags of peripherals the header does not describe yet are out of reach",
    technique=EV)

FLAGREGS = {"EIFR": ["INTF0", "INTF1"], "PCIFR": ["PCIF0", "PCIF1", "PCIF2"], "TIFR0": ["TOV0", "OCF0A", "OCF0B"], "TIFR1": ["TOV1", "OCF1A", "OCF1B", "ICF1"]}
# operation, test, register, bit
OPS = ([("ei::clear_external_int%d_flag()" % n, "ei::external_int%d_flag()" % n, "EIFR", "INTF%d" % n) for n in range(2)]
       + [("ei::clear_pin_change_int%d_flag()" % n, "ei::pin_change_int%d_flag()" % n, "PCIFR", "PCIF%d" % n) for n in range(3)]
       + [("clear(tc%d::interrupt::compare::flag::%s{})" % (t, x), "current(tc%d::interrupt::compare::flag::%s{})" % (t, x), "TIFR%d" % t, "OCF%d%s" % (t, x.upper())) for t in range(2) for x in "ab"]
       + [("clear(tc%d::interrupt::overflow::flag{})" % t, "current(tc%d::interrupt::overflow::flag{})" % t, "TIFR%d" % t, "TOV%d" % t) for t in range(2)]
       + [("clear(tc1::interrupt::capture::flag{})", "current(tc1::interrupt::capture::flag{})", "TIFR1", "ICF1"),
          ("clear(ac::interrupt::flag{})", "current(ac::interrupt::flag{})", "ACSR", "ACI"),
          ("clear(adc::interrupt::flag{})", "current(adc::interrupt::flag{})", "ADCSRA", "ADIF"),
          ("clear(twi::interrupt::flag{})", "current(twi::interrupt::flag{})", "TWCR", "TWINT")])


def check(ctx):
    pr = []

    def clear(r, b):
        if r in FLAGREGS or r.startswith("(*"):
            return "%s = (unsigned char)(1<<%s);" % (r, b)
        return "%s = (unsigned char)(%s | (1<<%s));" % (r, r, b)
    for op, test, r, b in OPS:
        pr.append(Probe("op_" + ident(op), [], op + ";", clear(r, b), "%s clears %s of %s" % (op, b, r)))
        pr.append(Probe("test_" + ident(test), [OUT("o", U8)], "o[0]=%s?1:0;" % test, "o[0]=(%s>>%s)&1;" % (r, b), "%s tests %s of %s" % (test, b, r)))
    for t, r, hi, lo, pol in FIELDS:
        if pol in ("flag", "w1"):
            pr.append(Probe("fld_" + ident(t), [], "%s::clear();" % t, clear(r, hi), "clearing %s" % t))
            pr.append(Probe("fldr_" + ident(t), [OUT("o", U8)], "o[0]=%s::read();" % t, "o[0]=(%s>>%s)&1;" % (r, hi), "testing %s" % t))
    # two flags of a register, in one statement sequence: two writes, neither a read
    for r, bs in FLAGREGS.items():
        fl = [(op, b) for op, _, rr, b in OPS if rr == r]
        for op, b in fl:
            for op2, b2 in fl:
                if b != b2:
                    pr.append(Probe("two_%s_%s" % (b, b2), [], "%s; %s;" % (op, op2), clear(r, b) + clear(r, b2), "clearing %s, then %s" % (b, b2)))
    # the policies at any bit and width
    for bits, T, a in ((8, U8, "0x3b"), (16, U16, "0x84")):
        R = "(*(volatile %s*)%s)" % (T, a)
        for b in range(bits):
            pr.append(Probe("polf%d_%d" % (bits, b), [], "mcu::bitfield%d_t<mcu::rc_w1_flag_t,%s,%d>::clear();" % (bits, a, b), "%s=(%s)(1u<<%d);" % (R, T, b), "clearing bit %d of a %d-bit register of flags" % (b, bits)))
            pr.append(Probe("polw%d_%d" % (bits, b), [], "mcu::bitfield%d_t<mcu::rc_w1_t,%s,%d>::clear();" % (bits, a, b), "%s=(%s)(%s|(1u<<%d));" % (R, T, R, b), "clearing flag %d of a %d-bit register with other bits" % (b, bits)))
    ctx.run_suites([suite("flag%d" % i, pr[i::4]) for i in range(4)])
    ctx.extra["clearing_operations"] = len(OPS)
    return ctx.finish(META)
