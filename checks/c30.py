from .mcu import *

META = dict(
    title="Deferred writes to one register combine into one update of exactly their fields",
    statement="Any number of deferred field writes joined by commas reads and writes the register exactly once: every named field gets its value and all other bits are kept. A deferred write on its own takes effect at the end of the statement, once; joining writes to different registers does not compile.",
    over=["inputs", "programs"],
    text="every pair of disjoint fields of an 8-bit register (thorough: 16-bit too and all triples), the settings of each device register together, every register content and value",
    why="The register is only updated correctly for all contents when masks and values combine as they should; no test executes them.",
    files=FILES,
    mechanism=[("write_proxy, operator,", "include/mcu/register.hpp"), ("set() functions returning deferred writes", "include/mcu/atmega328.hpp")],
    how="the trace of device accesses of the combined statement equals one read and one write with the union of masks and values",
    note="joined writes to overlapping fields are left open, as the header does",
    technique=EV + "; compile-time witnesses")

# settings of one register that are combined in one statement: register, [(call with {v}, hi, lo)]
GROUPS = [
    ("EECR", [("set(mem::eeprom::program::mode(%s))", "EEPM1", "EEPM0"), ("set(mem::eeprom::interrupt::on_ready(%s))", "EERIE", "EERIE"), ("set(mem::eeprom::enable::master_write(%s))", "EEMPE", "EEMPE"),
              ("set(mem::eeprom::enable::write(%s))", "EEPE", "EEPE"), ("set(mem::eeprom::enable::read(%s))", "EERE", "EERE")]),
    ("EICRA", [("ei::interrupt_sense<eint::int0>(ei::sense(%s))", "ISC01", "ISC00"), ("ei::interrupt_sense<eint::int1>(ei::sense(%s))", "ISC11", "ISC10")]),
    ("TCCR0A", [("set(tc0::output::a::mode(%s))", "COM0A1", "COM0A0"), ("set(tc0::output::b::mode(%s))", "COM0B1", "COM0B0")]),
    ("TIMSK0", [("set(tc0::enable::interrupt::on::match_a(%s))", "OCIE0A", "OCIE0A"), ("set(tc0::enable::interrupt::on::match_b(%s))", "OCIE0B", "OCIE0B"), ("set(tc0::enable::interrupt::on::overflow(%s))", "TOIE0", "TOIE0")]),
    ("TCCR1A", [("set(tc1::output::a::mode(%s))", "COM1A1", "COM1A0"), ("set(tc1::output::b::mode(%s))", "COM1B1", "COM1B0")]),
    ("TCCR1B", [("set(tc1::input::clock(%s))", "CS12", "CS10"), ("set(tc1::input::capture::edge(%s))", "ICES1", "ICES1"), ("tc1::enable::capture::input_capture_noise_canceler((%s&1)!=0)", "ICNC1", "ICNC1")]),
    ("TIMSK1", [("set(tc1::enable::interrupt::on::match_a(%s))", "OCIE1A", "OCIE1A"), ("set(tc1::enable::interrupt::on::match_b(%s))", "OCIE1B", "OCIE1B"), ("set(tc1::enable::interrupt::on::overflow(%s))", "TOIE1", "TOIE1"),
                ("set(tc1::enable::interrupt::on::capture(%s))", "ICIE1", "ICIE1")]),
    ("GTCCR", [("set(tcp::synchronization(%s))", "TSM", "TSM"), ("set(tcp::reset::prescaler::tc2(%s))", "PSRASY", "PSRASY"), ("set(tcp::reset::prescaler::tc01(%s))", "PSRSYNC", "PSRSYNC")]),
    ("ACSR", [("set(ac::disable::analog::comparator(%s))", "ACD", "ACD"), ("set(ac::input::select::bandgap_ref(%s))", "ACBG", "ACBG"), ("set(ac::enable::interrupt(%s))", "ACIE", "ACIE"),
              ("set(ac::enable::input::capture(%s))", "ACIC", "ACIC"), ("set(ac::output::interrupt::on(%s))", "ACIS1", "ACIS0")]),
    ("ADMUX", [("set(adc::input::reference(%s))", "REFS1", "REFS0"), ("set(adc::conversion::adjustment(%s))", "ADLAR", "ADLAR"), ("set(adc::input::channel(%s))", "MUX3", "MUX0")]),
    ("ADCSRA", [("set(adc::enable::adc(%s))", "ADEN", "ADEN"), ("set(adc::enable::auto_trigger(%s))", "ADATE", "ADATE"), ("set(adc::enable::interrupt(%s))", "ADIE", "ADIE"), ("set(adc::prescale::factor(%s))", "ADPS2", "ADPS0")]),
    ("ADCSRB", [("set(adc::enable::comparator(%s))", "ACME", "ACME"), ("set(adc::trigger::on(%s))", "ADTS2", "ADTS0")]),
    ("TWCR", [("set(twi::enable::interface(%s))", "TWEN", "TWEN"), ("set(twi::enable::interrupt(%s))", "TWIE", "TWIE")]),
    ("TWAR", [("set(twi::protocol::address(%s))", "TWA6", "TWA0"), ("set(twi::enable::general_call(%s))", "TWGCE", "TWGCE")]),
]


def upd(r, fs, T=U8):
    """fs: [(hi, lo, value)]"""
    m = "|".join("(((1u<<((%s)-(%s)+1))-1)<<(%s))" % (h, l, l) for h, l, _ in fs)
    v = "|".join("((((unsigned)(%s))<<(%s)) & (((1u<<((%s)-(%s)+1))-1)<<(%s)))" % (v, l, h, l, l) for h, l, v in fs)
    return "%s = (%s)((%s & (%s)~(%s)) | (%s));" % (r, T, r, T, m, v)


def check(ctx):
    pr, big = [], []
    R8 = "(*(volatile unsigned char*)0x60)"
    R16 = "(*(volatile unsigned*)0x84)"
    iv = [(h, l) for l in range(8) for h in range(l, 8)]
    F = lambda h, l, b=8, a="0x60": "mcu::bitfield%d_t<mcu::rw_t,%s,%d,%d>" % (b, a, h, l)
    for h, l in iv:
        for h2, l2 in iv:
            if h2 < l or l2 > h:
                pr.append(Probe("p%d%d_%d%d" % (h, l, h2, l2), [S("v", U8), S("w", U8)], "using F=%s; using G=%s; F::write_lazy(v), G::write_lazy(w);" % (F(h, l), F(h2, l2)),
                                upd(R8, [(h, l, "v"), (h2, l2, "w")]), "deferred writes to bits %d..%d and %d..%d" % (h, l, h2, l2)))
    # writes that agree on the bits they share
    for h, l in iv:
        top = (1 << (h - l + 1)) - 1
        for v in sorted({top, top & 0x55, top & 0xaa, 0}):
            pr.append(Probe("same%d%d_%d" % (h, l, v), [], "using F=%s; F::write_lazy(%d), F::write_lazy(%d);" % (F(h, l), v, v), upd(R8, [(h, l, str(v))]), "one value written to bits %d..%d twice in one statement" % (h, l)))
    # three and more, any grouping
    tri = [((1, 0), (4, 2), (7, 6)), ((7, 7), (0, 0), (5, 3)), ((6, 4), (2, 2), (1, 0)), ((3, 0), (5, 5), (6, 6))]
    if ctx.tier == "thorough":
        tri = [(a, b, c) for i, a in enumerate(iv) for j, b in enumerate(iv) for c in iv if a[0] < b[1] and b[0] < c[1]]
    for a, b, c in tri:
        n = "%d%d_%d%d_%d%d" % (a + b + c)
        U = "using F=%s; using G=%s; using H=%s; " % (F(*a), F(*b), F(*c))
        A = [S("u", U8), S("v", U8), S("w", U8)]
        sp = upd(R8, [a + ("u",), b + ("v",), c + ("w",)])
        pr.append(Probe("tl" + n, A, U + "F::write_lazy(u), G::write_lazy(v), H::write_lazy(w);", sp, "three deferred writes"))
        pr.append(Probe("tr" + n, A, U + "F::write_lazy(u), (G::write_lazy(v), H::write_lazy(w));", sp, "three deferred writes, grouped to the right"))
    U = "".join("using F%d=%s; " % (k, F(k, k)) for k in range(8))
    pr.append(Probe("eight", [S("v", U8)], U + ", ".join("F%d::write_lazy((v>>%d)&1)" % (k, k) for k in range(8)) + ";", "(void)%s; %s=v;" % (R8, R8), "eight deferred writes of one bit each"))
    pr.append(Probe("seven", [S("v", U8)], U + ", ".join("F%d::write_lazy((v>>%d)&1)" % (k, k) for k in range(7)) + ";", upd(R8, [(6, 0, "v")]), "seven deferred writes of one bit each"))
    # order of effects around a deferred write; several statements
    pr.append(Probe("stmt", [S("v", U8), S("w", U8)], "using F=%s; using G=%s; F::write_lazy(v); G::write_lazy(w);" % (F(3, 2), F(6, 5)), upd(R8, [(3, 2, "v")]) + upd(R8, [(6, 5, "w")]), "two statements: two updates"))
    pr.append(Probe("drop", [S("v", U8)], "using F=%s; { auto p=F::write_lazy(v); p.discard(); }" % F(3, 2), ";", "a discarded write does nothing"))
    pr.append(Probe("fn", [S("v", U8), S("w", U8)], "auto f=[](unsigned char x){ return %s::write_lazy(x); }; auto g=[&]{ return f(v), %s::write_lazy(w); }; g();" % (F(3, 2), F(6, 5)), upd(R8, [(3, 2, "v"), (6, 5, "w")]), "a combined write returned from a function"))
    pr.append(Probe("cond", [S("v", U8), S("w", U8)], "using F=%s; using G=%s; if(w&1) F::write_lazy(v); else F::write_lazy(v), G::write_lazy(w);" % (F(3, 2), F(6, 5)), "if(w&1) { %s } else { %s }" % (upd(R8, [(3, 2, "v")]), upd(R8, [(3, 2, "v"), (6, 5, "w")])), "deferred writes under a condition"))
    w16 = [(0, 0), (3, 0), (7, 0), (7, 4), (8, 8), (11, 6), (12, 9), (15, 8), (15, 15), (15, 10)]
    if ctx.tier == "thorough":
        w16 = [(h, l) for l in range(16) for h in range(l, 16)]
    for h, l in w16:
        for h2, l2 in w16:
            if h2 < l or l2 > h:
                big.append(Probe("w%d_%d_%d_%d" % (h, l, h2, l2), [S("v", U16), S("w", U16)], "using F=%s; using G=%s; F::write_lazy(v), G::write_lazy(w);" % (F(h, l, 16, "0x84"), F(h2, l2, 16, "0x84")),
                                 upd(R16, [(h, l, "v"), (h2, l2, "w")], U16), "deferred writes to bits %d..%d and %d..%d of a 16-bit register" % (h, l, h2, l2)))
    dev = []
    for r, l in GROUPS:
        for a, h, lo in l:
            dev.append(Probe("one_%s_%s" % (r, h), [S("v", U8)], (a % "v") + ";", upd(r, [(h, lo, "v")]), "%s alone" % (a % "v")))
            for b, h2, lo2 in l:
                if h != h2:
                    dev.append(Probe("two_%s_%s_%s" % (r, h, h2), [S("v", U8), S("w", U8)], "%s, %s;" % (a % "v", b % "w"), upd(r, [(h, lo, "v"), (h2, lo2, "w")]), "%s combined with %s" % (a % "v", b % "w")))
        A = [S("v%d" % i, U8) for i in range(len(l))]
        dev.append(Probe("all_" + r, A, ", ".join(c % ("v%d" % i) for i, (c, _, _) in enumerate(l)) + ";", upd(r, [(h, lo, "v%d" % i) for i, (_, h, lo) in enumerate(l)]), "all settings of %s at once" % r))
    for t, foc in ((0, "TCCR0B"), (1, "TCCR1B")):
        wg = upd("TCCR%dA" % t, [("WGM%d1" % t, "WGM%d0" % t, "w")]) + upd(foc, [("WGM02" if t == 0 else "WGM13", "WGM%d2" % t, "w>>2"), ("CS%d2" % t, "CS%d0" % t, "c")])
        dev.append(Probe("wave%d" % t, [S("w", U8), S("c", U8)], "set(tc%d::output::waveform(w)), set(tc%d::input::clock(c));" % (t, t), wg, "timer %d: waveform and clock in one statement" % t))
    pre = '#include "mcu/register.hpp"\n'
    ctx.run_suites([suite("lazy%d" % i, (pr + big)[i::6], pre) for i in range(6)] + [suite("dev%d" % i, dev[i::4]) for i in range(4)])
    W = [("diff_addr", "mcu::bitfield8_t<mcu::rw_t,0x60,3>::write_lazy(1), mcu::bitfield8_t<mcu::rw_t,0x61,4>::write_lazy(1);", False, "deferred writes to different registers must not combine"),
         ("diff_type", "mcu::bitfield8_t<mcu::rw_t,0x60,3>::write_lazy(1), mcu::bitfield16_t<mcu::rw_t,0x60,4>::write_lazy(1);", False, "deferred writes of different width must not combine"),
         ("diff_dev", "set(adc::enable::comparator::on), set(adc::enable::adc::on);", False, "settings of different registers must not combine"),
         ("same_dev", "set(adc::enable::interrupt::on), set(adc::enable::adc::on);", True, "settings of one register combine")]
    ctx.witnesses(PRE, W, ("avr",))
    return ctx.finish(META)
