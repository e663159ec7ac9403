from .mcu import *
from .c30 import GROUPS, upd

META = dict(
    title="Each device setting can be set and read back, with the device's encodings",
    statement="Every setting of the device (clocks, waveforms, output modes, interrupt enables, triggers, converter input, prescalers, two-wire and EEPROM settings) writes the device's own code for it to the field it belongs to, and reading the setting back yields exactly the field's current content. Named values have the codes of the device's data sheet.",
    over=["inputs", "configurations"],
    text="all set/current pairs, all values of the setting and register contents; all named values",
    why="A setting that lands in another field, or is read back from another one, compiles and only shows on hardware.",
    files=["include/mcu/atmega328.hpp"],
    mechanism=[("set()/current() functions and enumerations", "include/mcu/atmega328.hpp")],
    how="the device accesses and results of set and read-back equal those on the field by its avr-libc name; named values are checked by static assertions",
    note="codes of reserved values are left open",
    technique=EV + "; compile-time witnesses")

# what reads back: call, register, hi, lo
CUR = {
    "mem::eeprom::program::mode": "EEPM1 EEPM0 EECR", "mem::eeprom::interrupt::on_ready": "EERIE EERIE EECR", "mem::eeprom::enable::master_write": "EEMPE EEMPE EECR", "mem::eeprom::enable::write": "EEPE EEPE EECR",
    "mem::eeprom::enable::read": "EERE EERE EECR", "tc0::input::clock": "CS02 CS00 TCCR0B", "tc1::input::clock": "CS12 CS10 TCCR1B", "tc0::output::a::mode": "COM0A1 COM0A0 TCCR0A", "tc0::output::b::mode": "COM0B1 COM0B0 TCCR0A",
    "tc1::output::a::mode": "COM1A1 COM1A0 TCCR1A", "tc1::output::b::mode": "COM1B1 COM1B0 TCCR1A", "tc1::input::capture::edge": "ICES1 ICES1 TCCR1B",
    "tc0::enable::interrupt::on::match_a": "OCIE0A OCIE0A TIMSK0", "tc0::enable::interrupt::on::match_b": "OCIE0B OCIE0B TIMSK0", "tc0::enable::interrupt::on::overflow": "TOIE0 TOIE0 TIMSK0",
    "tc1::enable::interrupt::on::match_a": "OCIE1A OCIE1A TIMSK1", "tc1::enable::interrupt::on::match_b": "OCIE1B OCIE1B TIMSK1", "tc1::enable::interrupt::on::overflow": "TOIE1 TOIE1 TIMSK1", "tc1::enable::interrupt::on::capture": "ICIE1 ICIE1 TIMSK1",
    "tcp::synchronization": "TSM TSM GTCCR", "tcp::reset::prescaler::tc2": "PSRASY PSRASY GTCCR", "tcp::reset::prescaler::tc01": "PSRSYNC PSRSYNC GTCCR",
    "ac::disable::analog::comparator": "ACD ACD ACSR", "ac::input::select::bandgap_ref": "ACBG ACBG ACSR", "ac::enable::interrupt": "ACIE ACIE ACSR", "ac::enable::input::capture": "ACIC ACIC ACSR", "ac::output::interrupt::on": "ACIS1 ACIS0 ACSR",
    "adc::input::reference": "REFS1 REFS0 ADMUX", "adc::input::channel": "MUX3 MUX0 ADMUX", "adc::conversion::adjustment": "ADLAR ADLAR ADMUX", "adc::enable::adc": "ADEN ADEN ADCSRA", "adc::enable::interrupt": "ADIE ADIE ADCSRA",
    "adc::enable::auto_trigger": "ADATE ADATE ADCSRA", "adc::enable::comparator": "ACME ACME ADCSRB", "adc::trigger::on": "ADTS2 ADTS0 ADCSRB", "adc::prescale::factor": "ADPS2 ADPS0 ADCSRA",
    "twi::enable::interface": "TWEN TWEN TWCR", "twi::enable::interrupt": "TWIE TWIE TWCR", "twi::enable::general_call": "TWGCE TWGCE TWAR", "twi::protocol::address": "TWA6 TWA0 TWAR", "twi::control::prescale::factor": "TWPS1 TWPS0 TWSR",
}
WHOLE = [("tc0::value::timer", "TCNT0", U8), ("tc0::value::compare::a", "OCR0A", U8), ("tc0::value::compare::b", "OCR0B", U8), ("tc1::value::timer", "TCNT1", U16), ("tc1::value::compare::a", "OCR1A", U16), ("tc1::value::compare::b", "OCR1B", U16),
         ("mem::eeprom::address", "EEAR", U16), ("mem::eeprom::data", "EEDR", U8), ("twi::control::rate", "TWBR", U8), ("twi::protocol::data", "TWDR", U8)]
VALUES = {
    "mem::eeprom::program::mode": dict(erase_write=0, erase_only=1, write_only=2), "ei::sense": dict(low=0, change=1, falling_edge=2, rising_edge=3),
    "tc0::input::clock": dict(none=0, x1=1, x8=2, x64=3, x256=4, x1024=5, ext1_falling_adge=6, ext1_rising_adge=7), "tc1::input::clock": dict(none=0, x1=1, x8=2, x64=3, x256=4, x1024=5, ext1_falling_adge=6, ext1_rising_adge=7),
    "tc0::output::waveform": dict(normal=0, pwm_phase_correct=1, ctc_ocr0a=2, ctc=2, fast_pwm=3, pwm_phase_correct_ocr0a=5, fast_pwm_ocr0a=7),
    "tc1::output::waveform": dict(normal=0, pwm_phase_correct_8bit=1, pwm_phase_correct_9bit=2, pwm_phase_correct_10bit=3, ctc_ocr1a=4, fast_pwm_phase_correct_8bit=5, fast_pwm_phase_correct_9bit=6, fast_pwm_phase_correct_10bit=7,
                                  pwm_phase_frequency_correct_icr1=8, pwm_phase_frequency_correct_ocr1a=9, pwm_phase_correct_icr1=10, pwm_phase_correct_ocr1a=11, ctc_icr1=12, fast_pwm_icr1=14, fast_pwm_ocr1a=15),
    "tc1::input::capture::edge": dict(falling=0, rising=1), "twi::control::prescale::factor": dict(x1=0, x4=1, x16=2, x64=3),
    "twi::protocol::status": dict(S_transmitted=1, RS_transmitted=2, SLAW_transmitted_ACK=3, SLAW_transmitted_NACK=4, Data_transmitted_ACK=5, Data_transmitted_NACK=6, Arbitration_lost=7),
    "ac::output::interrupt::on": dict(toggle=0, falling_edge=2, rising_edge=3), "adc::conversion::adjustment": dict(right=0, left=1), "adc::input::reference": dict(aref=0, avcc=1, intern_1v1=3),
    "adc::input::channel": dict(ch0=0, ch1=1, ch2=2, ch3=3, ch4=4, ch5=5, ch6=6, ch7=7, ch8=8, internal_1v1=14, gnd=15),
    "adc::trigger::on": dict(free_run=0, ac=1, ei0=2, tc0_match_a=3, tc0_overflow=4, tc1_match_b=5, tc1_overflow=6, tc1_capture_event=7),
    "adc::prescale::factor": dict(x02=0, x2=1, x4=2, x8=3, x16=4, x32=5, x64=6, x128=7),
    "port": dict(B=0, C=1, D=2), "eint": dict(int0=0, int1=1), "pcint": dict(int0=0, int1=1, int2=2),
}
for _t in ("tc0", "tc1"):
    for _x in "ab":
        VALUES["%s::output::%s::mode" % (_t, _x)] = dict(none=0, toggle=1, clear=2, set=3)
for _k in CUR:
    if _k not in VALUES and not _k.endswith(("address",)):
        VALUES[_k] = dict(off=0, on=1)


def check(ctx):
    pr = []
    for e, f in CUR.items():
        hi, lo, r = f.split()
        n = ident(e)
        pr.append(Probe("cur_" + n, [S("k", U8), OUT("o", U8)], "o[0]=(unsigned char)current(%s(k));" % e, "o[0]=%s;" % get(r, hi, lo), "reading back %s (%s)" % (e, r)))
        pr.append(Probe("set_" + n, [S("v", U8)], "set(%s(v));" % e, upd(r, [(hi, lo, "v")]), "setting %s (%s)" % (e, r)))
    for e, r, T in WHOLE:
        n = ident(e)
        q = "mem::eeprom::" if e.startswith("mem::eeprom") else ""
        pr.append(Probe("cur_" + n, [OUT("o", T)], "o[0]=(%s)%scurrent(%s{});" % (T, q, e), "o[0]=%s;" % r, "reading back %s (%s)" % (e, r)))
        pr.append(Probe("set_" + n, [S("v", T)], "%sset(%s(v));" % (q, e), "%s=v;" % r, "setting %s (%s)" % (e, r)))
    for t, b, k in ((0, "TCCR0B", "WGM02"), (1, "TCCR1B", "WGM13")):
        a = "TCCR%dA" % t
        lo = "WGM%d2" % t
        wa = ("WGM%d1" % t, "WGM%d0" % t)
        pr.append(Probe("set_wave%d" % t, [S("v", U8)], "set(tc%d::output::waveform(v));" % t, upd(a, [wa + ("v",)]) + upd(b, [(k, lo, "v>>2")]), "setting the waveform of timer %d" % t, settled=True))
        pr.append(Probe("cur_wave%d" % t, [OUT("o", U8)], "o[0]=(unsigned char)current(tc%d::output::waveform{});" % t, "unsigned char const h=%s; unsigned char const l=%s; o[0]=(h<<2)|l;" % (get(b, k, lo), get(a, *wa)), "reading back the waveform of timer %d" % t, settled=True))
        for x, bit in (("a", "FOC%dA" % t), ("b", "FOC%dB" % t)):
            fr = "TCCR0B" if t == 0 else "TCCR1C"
            pr.append(Probe("force%d%s" % (t, x), [], "set(tc%d::control::compare::force::%s{});" % (t, x), "%s=(unsigned char)(%s|(1<<%s));" % (fr, fr, bit), "forcing compare match %s of timer %d" % (x, t)))
    # plain functions
    fn = [("ei::enabled_external_int%d()" % n, "EIMSK", "INT%d" % n) for n in (0, 1)] + [("ei::enabled_pin_change_int%d()" % n, "PCICR", "PCIE%d" % n) for n in range(3)]
    fn += [("current(twi::protocol::start{})", "TWCR", "TWSTA"), ("current(twi::protocol::stop{})", "TWCR", "TWSTO"), ("current(twi::protocol::ack{})", "TWCR", "TWEA"), ("current(twi::protocol::wcoll{})", "TWCR", "TWWC"),
           ("current(ac::output::state{})", "ACSR", "ACO"), ("tc1::enable::capture::input_capture_noise_canceler()", "TCCR1B", "ICNC1")]
    for c, r, b in fn:
        pr.append(Probe("get_" + ident(c), [OUT("o", U8)], "o[0]=%s?1:0;" % c, "o[0]=(%s>>%s)&1;" % (r, b), "%s is %s of %s" % (c, b, r)))
    for n in (0, 1):
        pr.append(Probe("en_ext%d" % n, [S("v", U8)], "ei::enable_external_int%d(v!=0);" % n, rmw("EIMSK", "INT%d" % n, "INT%d" % n, "(v?1:0)"), "enabling external interrupt %d" % n))
        pr.append(Probe("sense%d" % n, [OUT("o", U8)], "o[0]=(unsigned char)ei::interrupt_sense<eint::int%d>();" % n, "o[0]=%s;" % get("EICRA", "ISC%d1" % n, "ISC%d0" % n), "reading back the sense of external interrupt %d" % n))
        pr.append(Probe("setsense%d" % n, [S("v", U8)], "ei::interrupt_sense<eint::int%d>(ei::sense(v));" % n, upd("EICRA", [("ISC%d1" % n, "ISC%d0" % n, "v")]), "setting the sense of external interrupt %d" % n))
    for n in range(3):
        pr.append(Probe("en_pc%d" % n, [S("v", U8)], "ei::enable_pin_change_int%d(v!=0);" % n, rmw("PCICR", "PCIE%d" % n, "PCIE%d" % n, "(v?1:0)"), "enabling pin change interrupt %d" % n))
        pr.append(Probe("msk%d" % n, [S("v", U8)], "ei::pin_change_interrupt_mask%d(v);" % n, "PCMSK%d=v;" % n, "setting pin change mask %d" % n))
        pr.append(Probe("gmsk%d" % n, [OUT("o", U8)], "o[0]=ei::pin_change_interrupt_mask%d();" % n, "o[0]=PCMSK%d;" % n, "reading back pin change mask %d" % n))
    for c, b in (("start", "TWSTA"), ("stop", "TWSTO"), ("ack", "TWEA")):
        pr.append(Probe("twi_" + c, [], "set(twi::protocol::%s{});" % c, upd("TWCR", [(b, b, "1")]), "requesting a two-wire %s" % c))
    pr.append(Probe("twi_status", [OUT("o", U8)], "o[0]=(unsigned char)current(twi::protocol::status{});", "o[0]=TWSR>>3;", "two-wire status"))
    pr.append(Probe("twi_flag", [], "set(twi::interrupt::flag{});", upd("TWCR", [("TWINT", "TWINT", "1")]), "two-wire interrupt flag"))
    pr.append(Probe("adc_start", [], "adc::conversion::start();", upd("ADCSRA", [("ADSC", "ADSC", "1")]), "starting a conversion"))
    pr.append(Probe("adc_result", [OUT("o", U16)], "o[0]=adc::conversion::result();", "o[0]=ADC;", "conversion result"))
    pr.append(Probe("adc_lsb", [OUT("o", U8)], "o[0]=adc::conversion::lsb();", "o[0]=ADCL;", "low byte of the result"))
    pr.append(Probe("adc_msb", [OUT("o", U8)], "o[0]=adc::conversion::msb();", "o[0]=ADCH;", "high byte of the result"))
    ctx.run_suites([suite("set%d" % i, pr[i::4]) for i in range(4)])
    W = []
    for e, d in VALUES.items():
        for k, v in d.items():
            W.append("static_assert(int(%s::%s)==%d,\"%s::%s\");" % (e, k, v, e, k))
    ctx.witnesses(PRE, [("codes%d" % i, "".join(W[i::8]), True, "codes of the named settings") for i in range(8)] +
                  [("limits", "static_assert(adc::conversion::result_min==0&&adc::conversion::result_max==1023,\"range\");", True, "range of a conversion result")], ("avr",))
    ctx.extra["settings"] = len(CUR) + len(WHOLE)
    ctx.extra["named_values"] = len(W)
    return ctx.finish(META)
