"""the micro-controller headers: registers, fields and settings, stated with the device names of avr-libc"""
from sa.probe import *
EV = "gated value-flow analysis over the compiler's IR (16-bit device target) with the ordered trace of device reads, device writes and interrupt instructions, bit-precise, against the same access written with the device's own names"
PRE = '#include "mcu/atmega328.hpp"\n#include <avr/io.h>\nusing namespace mcu; using namespace mcu::atmega328;\n'
U8, U16 = "unsigned char", "unsigned"
FILES = ["include/mcu/register.hpp", "include/mcu/atmega328.hpp"]


def suite(name, probes, pre=PRE):
    return Suite(name, pre, probes, target="device", word_bits=True)


def mask(hi, lo):
    return "(unsigned char)(((1u<<((%s)-(%s)+1))-1)<<(%s))" % (hi, lo, lo)


def rmw(reg, hi, lo, v):
    """the rest of the register is written back as it was read"""
    return "%s = (unsigned char)((%s & (unsigned char)~%s) | (((unsigned)(%s) << (%s)) & %s));" % (reg, reg, mask(hi, lo), v, lo, mask(hi, lo))


def get(reg, hi, lo):
    return "(unsigned char)((%s & %s) >> (%s))" % (reg, mask(hi, lo), lo)


# accessor, device register, hi, lo, policy      (policy: rw, r, flag = in a register of flags, w1 = flag among ordinary bits, a=alternate rw view of a flag)
def reg(ns, r, fields, whole=None):
    l = []
    if whole:
        l.append((ns + "::whole", r, None, None, whole))
    for f in fields:
        n, hi, lo, pol = (f + ("rw",))[:4] if len(f) == 3 else f
        l.append((ns + "::" + n, r, hi, lo, pol))
    return l


FIELDS = (
    reg("atmega328::core::sreg", "SREG", [(b, "SREG_" + b, "SREG_" + b) for b in "ITHSVNZC"], "rw")
    + reg("mem::reg::eecr", "EECR", [("eepm", "EEPM1", "EEPM0"), ("eerie", "EERIE", "EERIE"), ("eempe", "EEMPE", "EEMPE"), ("eepe", "EEPE", "EEPE"), ("eere", "EERE", "EERE")], "rw")
    + [("mem::gpio<mem::r%d>::whole" % n, "GPIOR%d" % n, None, None, "rw") for n in range(3)]
    + [("mem::gpio<mem::r%d>::bit<%d>" % (n, b), "GPIOR%d" % n, str(b), str(b), "rw") for n in range(3) for b in (0, 3, 7)]
    + reg("ei::eicra", "EICRA", [("ics1", "ISC11", "ISC10"), ("ics0", "ISC01", "ISC00")], "rw")
    + [("ei::eimsk<eint::int%d>" % n, "EIMSK", "INT%d" % n, "INT%d" % n, "rw") for n in range(2)]
    + [("ei::eifr<eint::int%d>" % n, "EIFR", "INTF%d" % n, "INTF%d" % n, "flag") for n in range(2)]
    + [("ei::pcicr<pcint::int%d>" % n, "PCICR", "PCIE%d" % n, "PCIE%d" % n, "rw") for n in range(3)]
    + [("ei::pcifr<pcint::int%d>" % n, "PCIFR", "PCIF%d" % n, "PCIF%d" % n, "flag") for n in range(3)]
    + [("ei::pcmsk<ei::pcmsk%d>::whole" % n, "PCMSK%d" % n, None, None, "rw") for n in range(3)]
    + [("ei::pcmsk<ei::pcmsk%d>::bit<%d>" % (n, b), "PCMSK%d" % n, str(b), str(b), "rw") for n in range(3) for b in (0, 2, 7)]
    + [("atmega328::gpio<port::%s>::%s" % (p, r), R + p, None, None, "rw") for p in "BCD" for r, R in (("pin", "PIN"), ("ddr", "DDR"), ("port", "PORT"))]
    + [("atmega328::gpio<port::%s>::p<%d>::%s" % (p, b, r), R + p, str(b), str(b), "rw") for p in "BCD" for r, R in (("inp", "PIN"), ("dir", "DDR"), ("out", "PORT")) for b in (0, 1, 2, 3, 4, 5, 6, 7)]
    + reg("tc0::reg::tccr0a", "TCCR0A", [("com0a", "COM0A1", "COM0A0"), ("com0b", "COM0B1", "COM0B0"), ("wgm0", "WGM01", "WGM00")], "rw")
    + reg("tc0::reg::tccr0b", "TCCR0B", [("foc0a", "FOC0A", "FOC0A"), ("foc0b", "FOC0B", "FOC0B"), ("wgm02", "WGM02", "WGM02"), ("cs0", "CS02", "CS00")], "rw")
    + reg("tc0::reg::timsk0", "TIMSK0", [("ocie0b", "OCIE0B", "OCIE0B"), ("ocie0a", "OCIE0A", "OCIE0A"), ("toie0", "TOIE0", "TOIE0")], "rw")
    + [("tc0::reg::%s::whole" % r, r.upper(), None, None, "rw") for r in ("tcnt0", "ocr0a", "ocr0b", "tifr0")]
    + reg("tc0::reg::tifr0", "TIFR0", [(f.lower(), f, f, "flag") for f in ("OCF0B", "OCF0A", "TOV0")])
    + reg("tc1::reg::tccr1a", "TCCR1A", [("com1a", "COM1A1", "COM1A0"), ("com1b", "COM1B1", "COM1B0"), ("wgm1", "WGM11", "WGM10")], "rw")
    + reg("tc1::reg::tccr1b", "TCCR1B", [("icnc1", "ICNC1", "ICNC1"), ("ices1", "ICES1", "ICES1"), ("wgm1", "WGM13", "WGM12"), ("cs1", "CS12", "CS10")], "rw")
    + reg("tc1::reg::tccr1c", "TCCR1C", [("foc1a", "FOC1A", "FOC1A"), ("foc1b", "FOC1B", "FOC1B")], "rw")
    + reg("tc1::reg::timsk1", "TIMSK1", [(f.lower(), f, f) for f in ("ICIE1", "OCIE1B", "OCIE1A", "TOIE1")], "rw")
    + reg("tc1::reg::tifr1", "TIFR1", [(f.lower(), f, f, "flag") for f in ("ICF1", "OCF1B", "OCF1A", "TOV1")])
    + reg("tcp::reg::gtccr", "GTCCR", [("tsm", "TSM", "TSM"), ("psrasy", "PSRASY", "PSRASY"), ("psrsync", "PSRSYNC", "PSRSYNC")], "rw")
    + reg("twi::reg::twsr", "TWSR", [("tws", "TWS7", "TWS3", "r"), ("twps", "TWPS1", "TWPS0")], "rw")
    + reg("twi::reg::twar", "TWAR", [("twa", "TWA6", "TWA0"), ("twgce", "TWGCE", "TWGCE")], "rw")
    + reg("twi::reg::twcr", "TWCR", [("twintc", "TWINT", "TWINT", "w1")] + [(f.lower(), f, f) for f in ("TWINT", "TWEA", "TWSTA", "TWSTO", "TWWC", "TWEN", "TWIE")], "rw")
    + reg("twi::reg::twamr", "TWAMR", [("twam", "TWAM6", "TWAM0")], "rw")
    + reg("ac::reg::acsr", "ACSR", [("acd", "ACD", "ACD"), ("acbg", "ACBG", "ACBG"), ("aco", "ACO", "ACO", "r"), ("aci", "ACI", "ACI", "w1"), ("acie", "ACIE", "ACIE"), ("acic", "ACIC", "ACIC"), ("acis", "ACIS1", "ACIS0")], "rw")
    + [("ac::reg::didr1", "DIDR1", "AIN1D", "AIN0D", "rw"), ("adc::reg::didr1", "DIDR1", "AIN1D", "AIN0D", "rw"), ("adc::reg::didr0", "DIDR0", "ADC5D", "ADC0D", "rw")]
    + [("adc::reg::adc::adcl", "ADCL", None, None, "r"), ("adc::reg::adc::adch", "ADCH", None, None, "r")]
    + reg("adc::reg::admux", "ADMUX", [("refs", "REFS1", "REFS0"), ("adlar", "ADLAR", "ADLAR"), ("mux", "MUX3", "MUX0")], "rw")
    + reg("adc::reg::adcsra", "ADCSRA", [("aden", "ADEN", "ADEN"), ("adsc", "ADSC", "ADSC"), ("adate", "ADATE", "ADATE"), ("adif", "ADIF", "ADIF", "w1"), ("adie", "ADIE", "ADIE"), ("adps", "ADPS2", "ADPS0")], "rw")
    + reg("adc::reg::adcsrb", "ADCSRB", [("acme", "ACME", "ACME"), ("adts", "ADTS2", "ADTS0")], "rw")
    + [("atmega328::core::sp::lo", "SPL", None, None, "rw"), ("atmega328::core::sp::hi", "SPH", None, None, "rw")]
    + [("tc1::reg::%s::%s" % (r, h), R, None, None, "rw") for r, h, R in (("tcnt1", "lo", "TCNT1L"), ("tcnt1", "hi", "TCNT1H"), ("icr1", "lo", "ICR1L"), ("icr1", "hi", "ICR1H"), ("ocr1a", "lo", "OCR1AL"), ("ocr1a", "hi", "OCR1AH"), ("ocr1b", "lo", "OCR1BL"), ("ocr1b", "hi", "OCR1BH"))]
    + [("atmega328::core::gpwr::r%d" % n, "(*(volatile unsigned char*)(%d))" % n, None, None, "rw") for n in range(1, 32)]
)
# 16 bit
WIDE = [("atmega328::core::sp::whole", "SP", "rw"), ("atmega328::core::gpwr::x", "(*(volatile unsigned*)26)", "rw"), ("atmega328::core::gpwr::y", "(*(volatile unsigned*)28)", "rw"), ("atmega328::core::gpwr::z", "(*(volatile unsigned*)30)", "rw"),
        ("tc1::reg::tcnt1::whole", "TCNT1", "rw"), ("tc1::reg::icr1::whole", "ICR1", "rw"), ("tc1::reg::ocr1a::whole", "OCR1A", "rw"), ("tc1::reg::ocr1b::whole", "OCR1B", "rw"),
        ("adc::reg::adc::whole", "ADC", "r"), ("adc::reg::adc::adchl", "ADC", "r")]
# typed registers
TYPED = [("mem::reg::eear", "EEAR", "mem::reg::address", U16), ("mem::reg::eedr", "EEDR", "mem::reg::data", U8),
         ("twi::reg::twbr", "TWBR", "twi::control::rate", U8), ("twi::reg::twdr", "TWDR", "twi::protocol::data", U8)]
ADDR = [("mcu::atmega328::clock::reg::osccal_addr", "OSCCAL"), ("mcu::atmega328::clock::reg::clkpr_addr", "CLKPR"), ("power::reg::smcr_addr", "SMCR"), ("power::reg::mcusr_addr", "MCUSR"), ("power::reg::prr_addr", "PRR"),
        ("reset::reg::mcucr_addr", "MCUCR"), ("reset::reg::wdtcsr_addr", "WDTCSR"), ("tc0::reg::gtccr_addr", "GTCCR"), ("tc2::reg::gtccr_addr", "GTCCR"), ("tc2::reg::tccr2a_addr", "TCCR2A"), ("tc2::reg::tccr2b_addr", "TCCR2B"),
        ("tc2::reg::tcnt2_addr", "TCNT2"), ("tc2::reg::ocr2a_addr", "OCR2A"), ("tc2::reg::ocr2b_addr", "OCR2B"), ("tc2::reg::timsk2_addr", "TIMSK2"), ("tc2::reg::tifr2_addr", "TIFR2"), ("tc2::reg::assr_addr", "ASSR")]


def ident(s):
    import re
    return re.sub(r"\W+", "_", s).strip("_")
