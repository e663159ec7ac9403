from .mcu import *
from .c30 import upd

META = dict(
    title="Two-wire write and the ready-made LED and PWM types drive the device right",
    statement="A two-wire write requests a start, sends the address byte, sends the data byte and requests a stop, each only after the previous step completed with the expected status; any other status ends it with an error and nothing further is sent. Initialisation, LED control and the PWM output do the device accesses their names promise, leaving unrelated bits alone.",
    over=["inputs", "histories"],
    text="all addresses, data bytes, status codes and waiting times; all ports and pins; all register contents",
    why="The protocol depends on what the device answers and when; tests cannot run it.",
    files=["include/mcu/atmega328.hpp"],
    mechanism=[("twi::sync::init(), write()", "include/mcu/atmega328.hpp"), ("led, tc1_pwm_on_a_pb1", "include/mcu/atmega328.hpp")],
    how="the trace of device reads and writes on every path through the status decisions equals that of the protocol; a loop that only re-reads the device is a wait, and must wait for the same condition",
    note="initialisation is judged by what the registers hold afterwards, not by the order of its accesses; that the device finally answers is assumed",
    technique=EV)

WAIT = "while(!(TWCR & (1<<TWINT))) ;"
GO = "TWCR=(1<<TWINT)|(1<<TWEN)%s;"


def check(ctx):
    pr = []
    st = lambda code: "%s if((TWSR & 0xf8)!=%s) { o[0]=1; return; }" % (WAIT, code)
    wr = GO % "|(1<<TWSTA)" + st("0x08") + "TWDR=a;" + GO % "" + st("0x18") + "TWDR=b;" + GO % "" + st("0x28") + GO % "|(1<<TWSTO)" + "o[0]=0;"
    # a device that stops answering after k steps, or never does
    for k in range(4):
        pr.append(Probe("stuck%d" % k, [S("a", U8), S("b", U8), OUT("o", U8)], "o[0]=twi::sync::write(a,b)?1:0;", wr, "two-wire write to a device that answers %d time(s)" % k, answers={0xbc: [0x00] + [0x84] * k + [0x04]}))
    pr.append(Probe("write", [S("a", U8), S("b", U8), OUT("o", U8)], "o[0]=twi::sync::write(a,b)?1:0;", wr, "two-wire write"))
    pr.append(Probe("write2", [S("a", U8), S("b", U8), S("c", U8), OUT("o", U8)], "o[0]=twi::sync::write(a,b)?1:0; if(!o[0]) o[0]=twi::sync::write(a,c)?2:0;",
                    wr + wr.replace("TWDR=b", "TWDR=c").replace("o[0]=1", "o[0]=2"), "two two-wire writes"))
    pin = "PORTC=PORTC|(1<<4); PORTC=PORTC|(1<<5);"
    pr.append(Probe("init", [], "twi::sync::init();", pin + "TWSR=0; TWBR=0x0c; TWCR=(1<<TWEN);", "two-wire initialisation for 400 kHz", settled=True))
    pr.append(Probe("init2", [S("r", U8), S("p", U8)], "twi::sync::init(twi::control::rate(r),twi::control::prescale::factor(p));", pin + "TWSR=p; TWBR=r; TWCR=(1<<TWEN);", "two-wire initialisation", settled=True))
    for p in "BCD":
        for k in range(8):
            L = "using L=led<port::%s,%d>; " % (p, k)
            for op, R, f in (("on", "PORT", "|(1<<%d)"), ("off", "PORT", "&~(1<<%d)"), ("toggle", "PORT", "^(1<<%d)"), ("enable", "DDR", "|(1<<%d)")):
                pr.append(Probe("led_%s%d_%s" % (p, k, op), [], L + "L::%s();" % op, "%s%s=(unsigned char)(%s%s%s);" % (R, p, R, p, f % k), "LED on %s%d: %s" % (p, k, op)))
    ini = upd("DDRB", [("1", "1", "1")]) + upd("TCCR1A", [("COM1A1", "COM1A0", "2")]) + upd("TCCR1A", [("WGM11", "WGM10", "3")]) + upd("TCCR1B", [("WGM13", "WGM12", "1"), ("CS12", "CS10", "1")])
    pr.append(Probe("pwm_init", [], "tc1_pwm_on_a_pb1::init();", ini, "PWM initialisation", settled=True))
    pr.append(Probe("pwm", [S("v", U16), S("w", U16)], "tc1_pwm_on_a_pb1::write(v); tc1_pwm_on_a_pb1::write(w);", "__asm__ __volatile__(\"cli\" ::: \"memory\"); OCR1A=v; __asm__ __volatile__(\"sei\" ::: \"memory\"); __asm__ __volatile__(\"cli\" ::: \"memory\"); OCR1A=w; __asm__ __volatile__(\"sei\" ::: \"memory\");", "PWM output"))
    ctx.run_suites([suite("conv%d" % i, pr[i::2]) for i in range(2)])
    return ctx.finish(META)
