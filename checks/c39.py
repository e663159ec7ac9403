"""device accesses survive optimisation"""
import importlib
from sa.probe import *
from sa import absint
from checks.c35 import Collect

META = dict(
    title="Device accesses are the program's own at every optimisation level",
    statement="Every read and write of a device register that an operation makes has to be carried out as written: none may be dropped, repeated, merged or moved by an optimising compiler, so that a loop that waits for a flag reads it again and two writes stay two. Turning interrupts off and on keeps the accesses to shared variables on their side.",
    over=["programs", "schedules"],
    text="every device access of every operation on registers, fields, flags and settings, of the two-wire driver and the ready-made types, as far as the fragments of the other device properties use them (all of them); atomic accesses and interrupt guards",
    why="Unoptimised, and on the desktop, an access that is not volatile behaves the same; the generated firmware loses it.",
    files=["include/mcu/register.hpp", "include/mcu/atmega328.hpp"],
    mechanism=[("to_pointer()", "include/mcu/register.hpp"), ("scoped_interrupt_guard, atomic()", "include/mcu/register.hpp")],
    how="the address of each load and store is determined by interpreting the fragments; one that is a device address has to be volatile, and each instruction that changes the interrupt flag has to be a volatile assembly statement that clobbers memory",
    note="given volatile accesses and barriers, the language guarantees their order; that the compiler implements this is assumed",
    technique="effect analysis over the compiler's IR: addresses by abstract interpretation, volatility of each access to a device address")


def check(ctx):
    absint.BARRIERS = True
    ctx.only = ("volatile", "barrier")
    c = Collect(ctx.tier)
    for n in (27, 28, 29, 30, 31, 32, 34):
        importlib.import_module("checks.c%d" % n).check(c)
    ctx.run_suites(c.suites)
    return ctx.finish(META)
