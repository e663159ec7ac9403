"""output streams: what is written is part of the effects, one event per character of text and one per value, in order.
How a value of a basic type is turned into characters is the standard library's and stays abstract."""
import re
from . import dom as D
from .dom import *                     # noqa
from .absint import Ptr, FuncV, Gap, demangle, UNDEF, is_iconst, ival
from .llvmc import Ty


def _ty(kind, bits):
    t = Ty()
    t.kind, t.bits, t.n, t.elem, t.elems, t.offs, t.ref = kind, bits, 0, None, None, None, None
    t.size = (bits + 7) // 8
    return t


D_I8, D_I64, D_PTR, D_F64, D_F32 = _ty("int", 8), _ty("int", 64), _ty("ptr", 64), _ty("float", 64), _ty("float", 32)


def _char(it, pc, c, I):
    if c is UNDEF:
        it.emit(pc, ("text", "?"), UNDEF, I)
        return
    for k, g in it.values(c, pc):
        it.emit(band(pc, g), ("text", chr(k & 255)), None, I)


def _chars(it, st, p, n, I):
    """n characters (None: up to the terminator) at p, which may depend on data"""
    for g, q in it.cases(st, p):
        pc = band(it.abspc(st), g)
        if pc is FALSE:
            continue
        k = 0
        while n is None or k < n:
            if not it.check(st, Ptr(q.obj, q.off + k) if isinstance(q, Ptr) and q.obj is not None else q, 1, I, "read"):
                break
            c = it.load(st, Ptr(q.obj, q.off + k), D_I8, I)
            if n is None and isinstance(c, Int) and is_iconst(c) and ival(c) == 0:
                break
            if type(c) is Node and n is None:
                raise Gap("text of unknown length")
            _char(it, pc, c, I)
            k += 1
            if k > 4096:
                raise Gap("unbounded text")


def _num(n):
    if not (isinstance(n, Int) and is_iconst(n)):
        raise Gap("text of unknown length")
    return ival(n)


def stream(it, st, p, I):
    if not isinstance(p, Ptr) or p.obj is None:
        raise Gap("output to a stream that depends on data")
    if p.obj.name != "os":
        it.emit(it.abspc(st), ("to another stream", p.obj.name), None, I)


def _s(f):
    def g(it, st, a, I):
        stream(it, st, a[0], I)
        f(it, st, a, I)
        return a[0]
    return g


@_s
def puts(it, st, a, I):
    _chars(it, st, a[1], None, I)


@_s
def putn(it, st, a, I):
    _chars(it, st, a[1], _num(a[2]), I)


@_s
def putc(it, st, a, I):
    v = a[1]
    if type(v) is Bits or type(v) is Int and not is_iconst(v):
        it.emit(it.abspc(st), ("character",), v, I)
    else:
        _char(it, it.abspc(st), v, I)


@_s
def putstr(it, st, a, I):
    p = it.load(st, a[1], D_PTR, I)
    n = it.load(st, Ptr(a[1].obj, a[1].off + 8), D_I64, I)
    _chars(it, st, p, _num(n), I)


@_s
def putint(it, st, a, I):
    it.emit(it.abspc(st), ("integer",), a[1], I)


@_s
def putbool(it, st, a, I):
    v = a[1]
    it.emit(it.abspc(st), ("integer",), lift(lambda x: D.I(1) if x is TRUE else D.I(0) if x is FALSE else x, v), I)


@_s
def putreal(it, st, a, I):
    it.emit(it.abspc(st), ("number",), a[1], I)


def putcomplex(ty):
    def f(it, st, a, I):
        n = ty.size
        re_, im = it.load(st, a[1], ty, I), it.load(st, Ptr(a[1].obj, a[1].off + n), ty, I)
        pc = it.abspc(st)
        it.emit(pc, ("real part of a complex number",), re_, I)
        it.emit(pc, ("imaginary part of a complex number",), im, I)
    return _s(f)


@_s
def flush(it, st, a, I):
    pass                        # when the characters arrive is not part of what is written


@_s
def manip(it, st, a, I):
    f = a[1]
    if not isinstance(f, FuncV):
        raise Gap("manipulator that depends on data")
    n = f.fn.name
    if n.startswith("_ZSt4endl"):
        it.emit(it.abspc(st), ("text", "\n"), None, I)
    elif n.startswith("_ZSt5flush"):
        pass
    else:
        it.emit(it.abspc(st), ("format", demangle(n).split("(")[0]), None, I)


def fmt(what):
    def f(it, st, a, I):
        it.emit(it.abspc(st), ("format", what), a[1] if len(a) > 1 else None, I)
        return UNDEF if I.ty.kind != "void" else None
    return f


CT_ = "St11char_traitsIcE"
HOOKS = {
    "_ZStlsI%sERSt13basic_ostreamIcT_ES5_PKc" % CT_: puts,
    "_ZStlsI%sERSt13basic_ostreamIcT_ES5_c" % CT_: putc,
    "_ZStlsI%sERSt13basic_ostreamIcT_ES5_a" % CT_: putc,
    "_ZStlsI%sERSt13basic_ostreamIcT_ES5_h" % CT_: putc,
    "_ZStlsIc%sSaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE" % CT_: putstr,
    "_ZSt16__ostream_insertIc%sERSt13basic_ostreamIT_T0_ES6_PKS3_l" % CT_: putn,
    "_ZNSo5writeEPKcl": putn, "_ZNSo3putEc": putc, "_ZNSo5flushEv": flush,
    "_ZNSolsEPFRSoS_E": manip, "_ZNSolsEPFRSt8ios_baseS0_E": manip,
    "_ZNSolsEb": putbool,
    "_ZStlsIc%sERSt13basic_ostreamIT_T0_ES6_St13_Setprecision" % CT_: _s(lambda it, st, a, I: it.emit(it.abspc(st), ("format", "precision"), a[1], I)),
    "_ZStlsIc%sERSt13basic_ostreamIT_T0_ES6_St5_Setw" % CT_: _s(lambda it, st, a, I: it.emit(it.abspc(st), ("format", "width"), a[1], I)),
    "_ZNSt8ios_base9precisionEl": fmt("precision"), "_ZNSt8ios_base5widthEl": fmt("width"),
    "_ZNSt8ios_base4setfESt13_Ios_Fmtflags": fmt("setf"), "_ZNSt8ios_base4setfESt13_Ios_FmtflagsS0_": fmt("setf"),
    "_ZNSt8ios_base6unsetfESt13_Ios_Fmtflags": fmt("unsetf"), "_ZNSt8ios_base5flagsESt13_Ios_Fmtflags": fmt("flags"),
}
for c in "silmxtjy":
    HOOKS["_ZNSolsE" + c] = putint
for c in "dfe":
    HOOKS["_ZNSolsE" + c] = putreal
for c, t in (("d", D_F64), ("f", D_F32)):
    HOOKS["_ZStlsI%scSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E" % c] = putcomplex(t)
