from .mcu import *

META = dict(
    title="Multi-byte accesses happen with interrupts off, which are on again afterwards",
    statement="An interrupt guard turns interrupts off when it is created and on when its scope ends. An atomic read or write of a value of more than one byte is done completely inside such a guard, for memory and for device registers; a saved status register is written back unchanged at the end of its scope.",
    over=["inputs", "schedules"],
    text="atomic reads and writes of 1, 2, 4 and 8 byte values and of structures in memory and of 16-bit device registers; guards in nested scopes, loops and on early return",
    why="A torn value needs an interrupt between two byte accesses; no test on the desktop can place one.",
    files=FILES,
    mechanism=[("scoped_interrupt_guard, atomic()", "include/mcu/register.hpp"), ("scoped_sreg, tc1_pwm_on_a_pb1", "include/mcu/atmega328.hpp")],
    how="the trace of cli, sei, and every access to the shared object or register has the required order: cli before the first access, sei after the last, on every path",
    note="as the library documents, interrupts are assumed to be on outside; that the processor obeys cli/sei is assumed",
    technique=EV)

CLI, SEI = '__asm__ __volatile__ ("cli" ::: "memory");', '__asm__ __volatile__ ("sei" ::: "memory");'


def check(ctx):
    pr = []
    for T, n in ((U8, 1), (U16, 2), ("int", 2), ("signed char", 1), ("unsigned long", 4), ("long long", 8), ("float", 4), ("bool", 1)):
        i = ident(T)
        g = (CLI, SEI) if n > 1 else ("", "")
        tr = dict(traced=True)
        pr.append(Probe("rd_" + i, [IN("a", T, 1, **tr), OUT("o", T)], "o[0]=mcu::atomic(a[0]);", "%s %s const k=a[0]; %s o[0]=k;" % (g[0], T, g[1]), "atomic read of %d byte(s)" % n))
        pr.append(Probe("rdv_" + i, [IN("a", T, 1, **tr), OUT("o", T)], "o[0]=mcu::atomic(*(%s const volatile *)a);" % T, "%s %s const k=a[0]; %s o[0]=k;" % (g[0], T, g[1]), "atomic read of a volatile of %d byte(s)" % n))
        pr.append(Probe("wr_" + i, [IO("a", T, 1, **tr), S("v", T)], "mcu::atomic(a[0],v);", "%s a[0]=v; %s" % g, "atomic write of %d byte(s)" % n))
        pr.append(Probe("wrv_" + i, [IO("a", T, 1, **tr), S("v", T)], "mcu::atomic(*(%s volatile *)a,v);" % T, "%s a[0]=v; %s" % g, "atomic write of a volatile of %d byte(s)" % n))
        pr.append(Probe("cp_" + i, [IN("a", T, 1, **tr), IO("b", T, 1, **tr)], "mcu::atomic(b[0],mcu::atomic(a[0]));", "%s %s const k=a[0]; %s %s b[0]=k; %s" % (g[0], T, g[1], g[0], g[1]), "atomic read, then atomic write of %d byte(s)" % n))
    for nm, fields, reps in (("pair", "unsigned char x, y;", 2), ("sample", "unsigned short t; short v;", 4), ("one", "unsigned char x;", 1)):
        g = (CLI, SEI) if reps > 1 else ("", "")
        D = "struct R { %s }; static_assert(sizeof(R)==%d,\"\"); " % (fields, reps)
        q = [IO("a", U16 if reps == 4 else U8, reps // 2 if reps == 4 else reps, traced=True), IO("b", U16 if reps == 4 else U8, reps // 2 if reps == 4 else reps)]
        pr.append(Probe("rds_" + nm, q, D + "*(R*)b=mcu::atomic(*(R const*)a);", D + "%s R const k=*(R const*)a; %s *(R*)b=k;" % g, "atomic read of a structure of %d byte(s)" % reps))
        pr.append(Probe("wrs_" + nm, q, D + "mcu::atomic(*(R*)a,*(R*)b);", D + "R const k=*(R*)b; %s *(R*)a=k; %s" % g, "atomic write of a structure of %d byte(s)" % reps))
    for r in ("OCR1A", "OCR1B", "TCNT1", "ICR1"):
        pr.append(Probe("dev_" + r, [S("v", U16)], "mcu::atomic(%s,v);" % r, "%s %s=v; %s" % (CLI, r, SEI), "atomic write of %s" % r))
        pr.append(Probe("devr_" + r, [OUT("o", U16)], "o[0]=mcu::atomic(%s);" % r, "%s unsigned const k=%s; %s o[0]=k;" % (CLI, r, SEI), "atomic read of %s" % r))
    pr.append(Probe("devr_ADC", [OUT("o", U16)], "o[0]=mcu::atomic(ADC);", "%s unsigned const k=ADC; %s o[0]=k;" % (CLI, SEI), "atomic read of the conversion result"))
    pr.append(Probe("dev8", [S("v", U8)], "mcu::atomic(OCR0A,v);", "OCR0A=v;", "atomic write of an 8-bit register"))
    pr.append(Probe("conv", [S("v", U8)], "mcu::atomic(OCR1A,v);", "%s OCR1A=v; %s" % (CLI, SEI), "atomic write of a narrower value to a 16-bit register"))
    G = "mcu::scoped_interrupt_guard g_; "
    pr.append(Probe("guard", [IO("a", "int", 2, traced=True)], "{ %s a[0]=a[1]; } a[1]=0;" % G, "%s a[0]=a[1]; %s a[1]=0;" % (CLI, SEI), "a guarded scope"))
    pr.append(Probe("early", [IO("a", "int", 2, traced=True), S("v", "int")], "{ %s if(v>0) { a[0]=1; return; } a[0]=2; } a[1]=3;" % G, "%s if(v>0) { a[0]=1; %s return; } a[0]=2; %s a[1]=3;" % (CLI, SEI, SEI), "leaving a guarded scope early"))
    pr.append(Probe("loop", [IO("a", "int", 3, traced=True)], "for(int i=0;i<3;++i) { %s a[i]=i; }" % G, "for(int i=0;i<3;++i) { %s a[i]=i; %s }" % (CLI, SEI), "a guarded loop body"))
    pr.append(Probe("temp", [IO("a", "int", 2, traced=True)], "mcu::scoped_interrupt_guard{}, a[0]=1; a[1]=2;", "%s a[0]=1; %s a[1]=2;" % (CLI, SEI), "a temporary guard"))
    pr.append(Probe("isr", [IO("a", "int", 2, traced=True)], "{ core::scoped_sreg s_; a[0]=1; } a[1]=2;", "unsigned char const k=SREG; a[0]=1; SREG=k; a[1]=2;", "the status register is saved and written back"))
    pr.append(Probe("isr2", [IO("a", "int", 2, traced=True)], "core::scoped_sreg s_; { %s a[0]=a[1]; }" % G, "unsigned char const k=SREG; %s a[0]=a[1]; %s SREG=k;" % (CLI, SEI), "a guard inside a saved status register"))
    pr.append(Probe("isr3", [IO("a", "int", 2, traced=True), S("v", "int")], "core::scoped_sreg s_; if(v==1) return; a[0]=1;", "unsigned char const k=SREG; if(v!=1) a[0]=1; SREG=k;", "the status register is written back on early return"))
    pr.append(Probe("pwm", [S("v", U16)], "tc1_pwm_on_a_pb1::write(v);", "%s OCR1A=v; %s" % (CLI, SEI), "PWM output"))
    ctx.run_suites([suite("guard", pr, PRE.replace("using namespace mcu; ", "using namespace mcu; namespace core = mcu::atmega328::core; "))])
    return ctx.finish(META)
