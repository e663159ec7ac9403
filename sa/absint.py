"""Gated value-flow analysis (abstract interpretation) of LLVM IR.

Walks the resolved program: calls are followed through the call graph, memory is a map from (object, byte offset) to
abstract values, control-flow joins build decision nodes guarded by the branch conditions (gated SSA), and loops whose
exit condition is decided in the abstract domain are followed iteration by iteration.  The result of a function is one
abstract value per output location, valid for every input.  The program is never run."""
import heapq, os, re, sys
from fractions import Fraction
from . import dom as D
from .dom import *          # noqa
from .llvmc import Const, Ty

sys.setrecursionlimit(20000)
POLL = 24      # rounds of a loop that looks at a device without an answer after which anything may have been counted
IDLE = 400     # rounds of a loop after which it is examined for making no progress
LOOK = re.compile(r"rd(\d+)(\(.*\)\.\d+)$")      # one bit of the n-th answer of a device
BARRIERS = False        # device accesses have to be volatile, cli and sei compiler barriers
TOTAL_ORDER = False     # objects lie in the order of their creation (std::less of pointers into different objects)
MAX_STEPS = 4_000_000


class Obj:
    _n = 0
    __slots__ = ("id", "name", "size", "kind", "default", "const", "base", "guard")

    def __init__(self, name, size, kind, default=None, const=False):
        Obj._n += 1
        self.id, self.name, self.size, self.kind, self.default, self.const = Obj._n, name, size, kind, default, const
        self.base = self.guard = None


class State:
    __slots__ = ("mem", "own", "pc", "env")

    def __init__(self):
        self.mem, self.own, self.pc, self.env = {}, set(), TRUE, {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = self.pc
        s.env = dict(self.env)
        return s

    def cells(self, obj, write=False):
        c = self.mem.get(obj)
        if c is None:
            c = self.mem[obj] = {}
            self.own.add(obj)
        elif write and obj not in self.own:
            c = self.mem[obj] = dict(c)
            self.own.add(obj)
        return c


class Fault:
    def __init__(self, kind, text, loc, pc):
        self.kind, self.text, self.loc, self.pc = kind, text, loc, pc


class Tok:
    """what happens at one position of the trace of visible effects: device access, inline assembly, output"""
    __slots__ = ("d", "key")

    def __init__(self, d):
        self.d, self.key = d, ("T",) + d


NOTHING = Tok(("nothing",))


class Slot:
    def __init__(self):
        self.tok, self.val, self.loc = NOTHING, UNDEF, ""


def _real1(name, pos=None):
    def f(a):
        return lift(lambda x: UNDEF if x is UNDEF else real_atom(name, (x,), pos=pos), a)
    return f


class Interp:
    def __init__(self, mod, word_bits=False, hooks=None, repo="/repo/"):
        self.m = mod
        self.word_bits = word_bits
        self.hooks = hooks or {}
        self.partition, self.split_on = None, []
        self.repo = repo
        self.faults = []
        self.trace, self.tpos = [], D.I(0)
        self.traced_as = {}
        self.stuck = None      # a dict: what a register answers after the n-th write to it; reading it is no event
        self.settled = None    # a dict: registers keep what is written, only their final contents count
        self.nacts = self.nreads = self.waited = 0
        self.abort = FALSE
        self.pcstack = [TRUE]
        self.calls = []        # activations: (function, arguments, condition, device accesses so far)
        self.stack = []        # (fn, inst)
        self.frames = []       # the local objects of each call under way
        self.gobj = {}
        self.steps = 0
        self.cc = {}
        self.visited = set()
        self.wloc = {}         # (obj, off) -> location text of the last store
        self.volcount = {}     # address -> reads so far on the path
        self.instrs = 0
        self.origin = {}

    # -------------------------------------------------------------- locations
    def loc(self, I=None):
        """innermost location inside the repository, else innermost"""
        chain = []
        if I is not None:
            chain.append(I)
        chain += [c for c in reversed(self.stack)]
        first = None
        for c in chain:
            if c is None or not c.line or not c.file:
                continue
            p = os.path.normpath(c.file)
            t = "%s:%d (%s)" % (p.replace("/repo/", ""), c.line, demangle(c.fn.name))
            if first is None:
                first = t
            if p.startswith(self.repo):
                return t
        return first or (demangle(chain[0].fn.name) if chain and chain[0] is not None else "?")

    def abspc(self, st):
        p = self.pcstack[-1]
        return band(p, st.pc)

    def fault(self, st, kind, text, I=None):
        self.faults.append(Fault(kind, text, self.loc(I), self.abspc(st)))

    # -------------------------------------------------------------- constants
    def const(self, c):
        if c.k == "int":
            b = c.ty.bits
            if b == 1:
                return TRUE if c.v else FALSE
            v = c.v & ((1 << b) - 1)
            return D.I(v - (1 << b) if v >> (b - 1) else v)
        if c.k == "fp":
            return real_const(c.v, c.ty.bits)
        if c.k == "null":
            return Ptr(None, 0)
        if c.k == "undef":
            if c.ty.kind in ("struct", "array", "vec"):
                return Agg([UNDEF] * c.ty.n) if c.ty.kind != "struct" else Agg([self.const(Const("undef", e)) for e in c.ty.elems])
            return UNDEF
        if c.k == "zero":
            return self.zero(c.ty)
        if c.k == "agg":
            return Agg([self.const(x) for x in c.v])
        if c.k == "global":
            return Ptr(self.global_obj(c.v), 0)
        if c.k == "func":
            return FuncV(c.v)
        if c.k == "alias":
            return self.const(c.v)
        if c.k == "expr":
            i = c.v
            ops = [self.const(o) for o in i.ops]
            if i.op == "gep":
                return self.gep(None, i, ops, [o.ty for o in i.ops])
            if i.op in ("bitcast", "addrspacecast"):
                return ops[0]
            if i.op == "inttoptr":
                return self.inttoptr(ops[0], i.ops[0].ty.bits)
            if i.op == "ptrtoint":
                return ops[0]
            raise Gap("constant expression " + i.op)
        if c.k in ("asm", "meta"):
            return c
        raise Gap("constant kind %s" % c.k)

    def zero(self, ty):
        if ty.kind == "int":
            return FALSE if ty.bits == 1 else D.I(0)
        if ty.kind == "float":
            return D.R(0)
        if ty.kind == "ptr":
            return Ptr(None, 0)
        if ty.kind == "struct":
            return Agg([self.zero(e) for e in ty.elems])
        if ty.kind in ("array", "vec"):
            return Agg([self.zero(ty.elem)] * ty.n)
        raise Gap("zero of " + ty.kind)

    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is None:
            from . import llvmc as L
            g = self.m.globals[name]
            ty = self.m.ty(L.GlobalGetValueType(g))
            init = L.GetInitializer(g)
            isc = bool(L.IsGlobalConstant(g))
            o = self.gobj[name] = Obj("global:" + demangle(name), ty.size, "global", None, isc)
            cells = {}
            if init:
                try:
                    self.flatten(self.const(self.m.const(init)), ty, 0, cells)
                except Gap:
                    cells = {}
            o.base = cells
            if not isc:
                if name.startswith("_ZGVZ"):
                    o.guard = "guard"
                elif name.startswith("_ZZ") and "_ZGV" + name[2:] in self.m.globals:
                    o.guard = "_ZGV" + name[2:]
        return o

    def unset(self, st, guard):
        c = self.get_cell(st, self.global_obj(guard), 0)
        return c is not None and isinstance(c[1], Int) and is_iconst(c[1]) and ival(c[1]) == 0

    def flatten(self, v, ty, off, cells):
        if ty.kind == "struct":
            for i, e in enumerate(ty.elems):
                self.flatten(v.e[i] if isinstance(v, Agg) else UNDEF, e, off + ty.offs[i], cells)
        elif ty.kind in ("array", "vec"):
            es = ty.elem.size
            for i in range(ty.n):
                self.flatten(v.e[i] if isinstance(v, Agg) else UNDEF, ty.elem, off + i * es, cells)
        else:
            cells[off] = (ty.size, v)

    # -------------------------------------------------------------- memory
    def get_cell(self, st, obj, off):
        c = st.mem.get(obj)
        if c is not None:
            r = c.get(off)
            if r is not None:
                return r
        if obj.base is not None:
            return obj.base.get(off)
        return None

    def all_offsets(self, st, obj):
        s = set(st.mem.get(obj, ()))
        if obj.base:
            s |= set(obj.base)
        return s

    def check(self, st, p, size, I, what):
        """bounds; -> False if the access cannot be carried out"""
        if p is UNDEF:
            self.fault(st, "uninit", "%s through an uninitialised pointer" % what, I)
            return False
        if not isinstance(p, Ptr):
            raise Gap("%s through %s" % (what, v_str(p)))
        if p.obj is None:
            self.fault(st, "null", "%s through a null pointer" % what, I)
            return False
        if p.obj.kind == "freed":
            self.fault(st, "uaf", "%s of released memory" % what, I)
            return False
        if p.obj.kind == "gone":
            self.fault(st, "uaf", "%s of a variable whose function has returned (%s)" % (what, p.obj.name), I)
            return False
        if p.obj.size is not None and (p.off < 0 or p.off + size > p.obj.size):
            self.fault(st, "oob", "%s of %d byte(s) at offset %d of '%s' (%d bytes)" % (what, size, p.off, p.obj.name, p.obj.size), I)
            return False
        return True

    def load(self, st, p, ty, I=None):
        if ty.kind == "struct":
            return Agg([self.load(st, Ptr(p.obj, p.off + ty.offs[i]), e, I) for i, e in enumerate(ty.elems)])
        if ty.kind in ("array", "vec"):
            return Agg([self.load(st, Ptr(p.obj, p.off + i * ty.elem.size), ty.elem, I) for i in range(ty.n)])
        if not self.check(st, p, ty.size, I, "read"):
            return UNDEF
        c = self.get_cell(st, p.obj, p.off)
        if c is not None and c[0] == ty.size:
            return self.retype(c[1], ty)
        if c is None and not self.overlap(st, p.obj, p.off, ty.size):
            if p.obj.default is not None:
                return p.obj.default(p.off, ty)
            return UNDEF
        return self.raw_load(st, p, ty)

    def overlap(self, st, obj, off, size):
        # any cell intersecting [off, off+size)
        for k in range(max(0, off - 15), off + size):
            c = self.get_cell(st, obj, k)
            if c is not None and k + c[0] > off:
                return True
        return False

    def split_at(self, st, obj, off):
        """make `off` a cell boundary, when an integer cell straddles it"""
        for k in range(max(0, off - 15), off):
            c = self.get_cell(st, obj, k)
            if c is not None and k + c[0] > off and type(c[1]) in (Int, Bits):
                lo, hi = off - k, k + c[0] - off
                a = self.trunc(c[1], 8 * c[0], 8 * lo)
                b = self.trunc(self.lshr(c[1], 8 * lo, 8 * c[0]), 8 * c[0], 8 * hi)
                cells = st.cells(obj, True)
                cells[k] = (lo, a)
                cells[off] = (hi, b)
                return

    def raw_pieces(self, st, obj, off, size):
        self.split_at(st, obj, off)
        self.split_at(st, obj, off + size)
        parts = []
        o = off
        while o < off + size:
            c = self.get_cell(st, obj, o)
            if c is not None and o + c[0] <= off + size:
                parts.append((o - off, c[0], c[1]))
                o += c[0]
                continue
            # is o inside an earlier cell?
            inside = False
            for k in range(max(0, o - 15), o):
                cc = self.get_cell(st, obj, k)
                if cc is not None and k + cc[0] > o:
                    inside = True
            if inside or c is not None:
                return None
            # padding / uninitialised byte(s) up to the next cell
            e = o + 1
            while e < off + size and self.get_cell(st, obj, e) is None:
                e += 1
            if obj.default is not None:
                return None
            parts.append((o - off, e - o, UNDEF))
            o = e
        return parts

    def raw_load(self, st, p, ty):
        c = self.get_cell(st, p.obj, p.off)
        if c is not None and c[0] > ty.size and isinstance(c[1], Int) and is_iconst(c[1]) and ty.kind == "int":
            v = ival(c[1]) & ((1 << ty.bits) - 1)
            return wrap(D.p_const(Fraction(v)), ty.bits)
        if c is not None and c[0] > ty.size and ty.kind == "int" and isinstance(c[1], Bits):
            return bits_int(Bits(c[1].b[:ty.bits]))
        parts = self.raw_pieces(st, p.obj, p.off, ty.size)
        if parts is None:
            # part of a bigger integer cell (little endian)
            for k in range(max(0, p.off - 7), p.off + 1):
                cc = self.get_cell(st, p.obj, k)
                if cc is not None and k + cc[0] >= p.off + ty.size and ty.kind == "int":
                    v = self.lshr(cc[1], 8 * (p.off - k), 8 * cc[0])
                    return self.trunc(v, 8 * cc[0], ty.bits)
            raise Gap("overlapping memory access at %s+%d" % (p.obj.name, p.off))
        if all(isinstance(x[2], Int) and is_iconst(x[2]) for x in parts) and ty.kind == "int":
            v = 0
            for o, s, x in parts:
                v |= (ival(x) & ((1 << (8 * s)) - 1)) << (8 * o)
            return wrap(D.p_const(Fraction(v)), ty.bits)
        if ty.kind == "int" and self.word_bits and all(isinstance(x[2], (Bits, Int)) for x in parts):
            b = []
            for o, s, x in parts:
                b += to_bits(x, 8 * s).b
            return bits_int(Bits(b))
        if all(x[2] is UNDEF for x in parts):
            return UNDEF
        if all(isinstance(x[2], Ptr) and x[2].obj is None or isinstance(x[2], Real) and x[2].h == (0, 0) or isinstance(x[2], Int) and is_iconst(x[2]) and ival(x[2]) == 0 for x in parts):
            if ty.kind == "ptr":
                return Ptr(None, 0)
            return D.I(0) if ty.kind == "int" else D.R(0)
        return Pieces(parts, ty.size)

    def retype(self, v, ty):
        if type(v) is Node:
            if ty.kind == "int" and ty.bits > 1 or ty.kind == "float":
                return lift(lambda x: self.retype(x, ty), v)
            return v
        if ty.kind == "float":
            if isinstance(v, Int) and is_iconst(v) and ival(v) == 0:
                return D.R(0)
            if isinstance(v, Pieces) and len(v.parts) == 1:
                return self.retype(v.parts[0][2], ty)
            if isinstance(v, Int):
                raise Gap("integer bits read as floating point")
        elif ty.kind == "int" and isinstance(v, Real):
            if v.h == (0, 0):
                return D.I(0)
            return Pieces(((0, ty.size, v),), ty.size)
        elif ty.kind == "ptr" and isinstance(v, Int) and is_iconst(v) and ival(v) == 0:
            return Ptr(None, 0)
        return v

    def store(self, st, p, v, ty, I=None):
        if ty.kind == "struct":
            for i, e in enumerate(ty.elems):
                self.store(st, Ptr(p.obj, p.off + ty.offs[i]), v.e[i] if isinstance(v, Agg) else UNDEF, e, I)
            return
        if ty.kind in ("array", "vec"):
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, p.off + i * ty.elem.size), v.e[i] if isinstance(v, Agg) else UNDEF, ty.elem, I)
            return
        if not self.check(st, p, ty.size, I, "write"):
            return
        if p.obj.const:
            self.fault(st, "const", "write to constant '%s'" % p.obj.name, I)
            return
        if p.obj.kind == "global":
            g = p.obj.guard
            if g is None:
                self.fault(st, "global", "write to mutable static storage '%s'" % p.obj.name, I)
            elif g != "guard" and not (self.unset(st, g) and fixed(v)):
                # a local static variable: what its (one) initialisation stores must not depend on the call that happens to be first
                self.fault(st, "global", "'%s' keeps what the first call stored" % p.obj.name, I)
        self.put(st, p.obj, p.off, ty.size, v)
        l = self.loc(I)
        self.wloc[(p.obj, p.off)] = l
        if type(v) in (Real, Int, Node) and l.startswith(("include/", "example/", "time/")):
            self.origin[v.key] = l

    def kill(self, st, obj, off, size):
        cells = st.cells(obj, True)
        for k in range(max(0, off - 15), off + size):
            c = self.get_cell(st, obj, k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                if obj.base is None or k not in obj.base:
                    cells.pop(k, None)
                else:
                    cells[k] = (1, UNDEF) if k != off else c
                continue
            # partial overlap: split integer constants, otherwise give up
            v = c[1]
            if v is UNDEF:
                cells.pop(k)
                if k < off:
                    cells[k] = (off - k, UNDEF)
                if k + c[0] > off + size:
                    cells[off + size] = (k + c[0] - off - size, UNDEF)
            elif isinstance(v, Int) and is_iconst(v):
                x = ival(v) & ((1 << (8 * c[0])) - 1)
                cells.pop(k, None)
                for b in range(c[0]):
                    cells[k + b] = (1, wrap(D.p_const(Fraction((x >> (8 * b)) & 255)), 8))
                self.kill(st, obj, off, size)
                return
            elif isinstance(v, Bits):
                cells.pop(k, None)
                for b in range(c[0]):
                    cells[k + b] = (1, bits_int(Bits(v.b[8 * b:8 * b + 8])))
                self.kill(st, obj, off, size)
                return
            else:
                raise Gap("partial overwrite of %s+%d" % (obj.name, k))

    def put(self, st, obj, off, size, v):
        c = self.get_cell(st, obj, off)
        if c is None or c[0] != size:
            self.kill(st, obj, off, size)
        cells = st.cells(obj, True)
        if isinstance(v, Pieces):
            for o, s, x in v.parts:
                self.put(st, obj, off + o, s, x)
            return
        cells[off] = (size, v)

    def memcpy(self, st, d, s, n, I):
        if not is_iconst(n):
            raise Gap("memcpy of symbolic length")
        n = ival(n)
        if n == 0:
            return
        if not self.check(st, s, n, I, "read") or not self.check(st, d, n, I, "write"):
            return
        if d.obj.const:
            self.fault(st, "const", "write to constant '%s'" % d.obj.name, I)
            return
        if s.obj.default is not None and s.obj.base is None:
            # materialise defaults (typed by the object's element type)
            et = s.obj.default(None, None)
            o = s.off
            while o < s.off + n:
                if self.get_cell(st, s.obj, o) is None:
                    st.cells(s.obj, True)[o] = (et.size, s.obj.default(o, et))
                o += et.size
        parts = self.raw_pieces(st, s.obj, s.off, n)
        if parts is None:
            raise Gap("memcpy splits a cell of %s" % s.obj.name)
        loc = self.loc(I)
        self.kill(st, d.obj, d.off, n)
        for o, k, v in parts:
            self.put(st, d.obj, d.off + o, k, v)
            self.wloc[(d.obj, d.off + o)] = loc

    # -------------------------------------------------------------- address arithmetic
    def gep(self, st, I, ops, tys):
        base = ops[0]
        off = D.I(0)
        ty = I.x
        first = True
        for v in ops[1:]:
            if first:
                sz = ty.size
                first = False
                off = self._offadd(off, v, sz)
                continue
            if ty.kind == "struct":
                i = ival(v)
                off = self._offadd(off, D.I(1), ty.offs[i])
                ty = ty.elems[i]
            else:
                off = self._offadd(off, v, ty.elem.size)
                ty = ty.elem
        def f(b, o):
            if b is UNDEF or o is UNDEF:
                return UNDEF
            if isinstance(o, Int) and is_iconst(o):
                if isinstance(b, Ptr):
                    return Ptr(b.obj, b.off + ival(o))
            elif isinstance(o, Int) and isinstance(b, Ptr) and b.obj is not None and b.obj.size is not None:
                r = self.any_element(b, o)
                if r is not None:
                    return self.constr(r, self.abspc(st))
            raise Gap("address depends on data: %s + %s" % (v_str(b), v_str(o)))
        return lift(f, base, off)

    def any_element(self, b, o):
        """base + data dependent offset: a decision over the places in the object (and one past it)"""
        g = 0
        for m, c in o.p.items():
            if m:
                g = math.gcd(g, int(c))
        c0 = int(o.p.get((), 0)) % g
        ks = [k for k in range(-b.off, b.obj.size - b.off + 1) if k % g == c0 and o.lo <= k <= o.hi]
        if len(ks) > 64:
            return None
        r = Ptr(b.obj, -(1 << 40))
        for k in ks:
            d = i_make(D.p_add(o.p, D.p_const(Fraction(k)), -1), o.lo - k, o.hi - k)
            r = ite(self.sgnsel("eq", d), Ptr(b.obj, b.off + k), r)
        return r

    def cases(self, st, p):
        """the feasible targets of a pointer that depends on data -> [(condition, pointer)]"""
        if type(p) is not Node:
            return [(TRUE, p)]
        cands = {}

        def coll(q):
            if type(q) is Node:
                for k in q.kids:
                    coll(k)
            else:
                cands[q.key] = q
        coll(self.constr(p, self.abspc(st)))
        out = []
        for q in cands.values():
            g = lift(lambda x: TRUE if x.key == q.key else FALSE, p)
            if band(self.abspc(st), g) is not FALSE:
                out.append((g, q))
        return out

    def node_load(self, st, p, ty, I):
        vals, pc = {}, st.pc
        for g, q in self.cases(st, p):
            st.pc = band(pc, g)
            vals[q.key] = self.load(st, q, ty, I)
        st.pc = pc
        return _pick(p, vals, next(iter(vals.values()))) if vals else UNDEF

    def node_memcpy(self, st, d, s, n, I):
        pc = st.pc
        if not is_iconst(n):
            raise Gap("memcpy of symbolic length")
        n = ival(n)
        src = []
        for g, q in self.cases(st, s):
            st.pc = band(pc, g)
            if not self.check(st, q, n, I, "read"):
                continue
            parts = self.pieces_of(st, q, n)
            src.append((q, parts))
        st.pc = pc
        if not src:
            return
        # a common layout: the finest cuts
        lay = [(o, k) for o, k, _ in src[0][1]]
        if any([(o, k) for o, k, _ in ps] != lay for _, ps in src):
            raise Gap("memcpy between different layouts")
        new = [_pick(s, {q.key: ps[i][2] for q, ps in src}, src[0][1][i][2]) for i in range(len(lay))]
        loc = self.loc(I)
        for g, q in self.cases(st, d):
            st.pc = band(pc, g)
            if not self.check(st, q, n, I, "write"):
                continue
            if g is TRUE:
                old = None
            else:
                ps = self.pieces_of(st, q, n)
                old = [v for _, _, v in ps]
                if [(o, k) for o, k, _ in ps] != lay:
                    raise Gap("memcpy between different layouts")
            if old is None:
                self.kill(st, q.obj, q.off, n)
            for i, (o, k) in enumerate(lay):
                self.put(st, q.obj, q.off + o, k, new[i] if old is None else ite(g, new[i], old[i]))
                self.wloc[(q.obj, q.off + o)] = loc
        st.pc = pc

    def pieces_of(self, st, s, n):
        if s.obj.default is not None and s.obj.base is None:
            et = s.obj.default(None, None)
            o = s.off
            while o < s.off + n:
                if self.get_cell(st, s.obj, o) is None:
                    st.cells(s.obj, True)[o] = (et.size, s.obj.default(o, et))
                o += et.size
        parts = self.raw_pieces(st, s.obj, s.off, n)
        if parts is None:
            raise Gap("memcpy splits a cell of %s" % s.obj.name)
        return parts

    def _offadd(self, off, v, sz):
        def f(o, x):
            if o is UNDEF or x is UNDEF:
                return UNDEF
            if isinstance(x, Bits):
                x = bits_int(x)
                if isinstance(x, Bits):
                    raise Gap("address depends on register contents")
            return i_make(D.p_add(o.p, D.p_mul(x.p, D.p_const(Fraction(sz)))))
        return lift(f, off, v)

    def inttoptr(self, v, bits):
        def f(x):
            if isinstance(x, (Ptr, FuncV)):
                return x
            if isinstance(x, Bits):
                x = bits_int(x)
            if isinstance(x, Int) and is_iconst(x):
                a = ival(x) & ((1 << bits) - 1)
                if a == 0:
                    return Ptr(None, 0)
                return Ptr(self.abs_obj(), a)
            raise Gap("address depends on data")
        return lift(f, v)

    def abs_obj(self):
        o = self.gobj.get("<abs>")
        if o is None:
            o = self.gobj["<abs>"] = Obj("io", None, "abs")
        return o

    # -------------------------------------------------------------- integer helpers
    def trunc(self, v, frm, to):
        def f(x):
            if x is UNDEF:
                return x
            if isinstance(x, Bits):
                return bits_int(Bits(x.b[:to])) if to > 1 else x.b[0]
            if isinstance(x, Pieces):
                n = to // 8
                parts = []
                for o, s, y in x.parts:
                    if o + s <= n:
                        parts.append((o, s, y))
                    elif o < n:
                        raise Gap("trunc splits a raw value")
                if len(parts) == 1 and parts[0][1] == n and isinstance(parts[0][2], Int):
                    return parts[0][2]
                return Pieces(parts, n)
            if isinstance(x, Ptr):
                raise Gap("pointer truncated")
            if to == 1:
                y = umod(x.p, 1)
                if is_iconst(y):
                    return TRUE if ival(y) else FALSE
                return by_sign(y, FALSE, FALSE, TRUE)
            return wrap(x.p, to)
        return lift(f, v)

    def lshr(self, v, k, bits):
        def f(x):
            if x is UNDEF or k == 0:
                return x
            if isinstance(x, Bits):
                return bits_int(Bits(x.b[k:] + (FALSE,) * min(k, bits)))
            if isinstance(x, Pieces):
                if k % 8 == 0:
                    parts = [(o - k // 8, s, y) for o, s, y in x.parts if o >= k // 8]
                    if sum(s for _, s, _ in parts) == x.size - k // 8:
                        return Pieces(parts, x.size - k // 8)
                raise Gap("shift of raw value")
            return floordiv2(unsigned_view(x, bits), k)
        return lift(f, v)

    # -------------------------------------------------------------- execution
    def val(self, st, o):
        if type(o) is int:
            return st.env[o]
        c = self.cc.get(id(o))
        if c is None:
            c = self.const(o)
            self.cc[id(o)] = c
            self.cc[("keep", id(o))] = o
        return c

    def tyof(self, fn, o):
        if type(o) is not int:
            return o.ty
        t = fn.__dict__.get("_regty")
        if t is None:
            t = fn._regty = {}
            for i, pt in enumerate(fn.ptys):
                t[i] = pt
            for b in fn.blocks:
                for i in b.phis + b.insts:
                    t[i.id] = i.ty
        return t[o]

    def merge(self, states):
        """join states with disjoint relative pcs"""
        if len(states) == 1:
            return states[0]
        u = FALSE
        for s in states:
            u = bor(u, s.pc)
        r = State()
        r.pc = u
        first = states[0]

        def join(vals):
            v = vals[0]
            same = all(w.key == v.key for w in vals[1:])
            if same:
                return v
            out = vals[0]
            for s, w in zip(states[1:], vals[1:]):
                out = ite(s.pc, w, out)
            if u is not TRUE:
                out = self.constr(out, u)
            return out
        self.join = join
        # registers
        keys = set(first.env)
        for s in states[1:]:
            keys &= set(s.env)
        for k in keys:
            v0 = first.env[k]
            if all(s.env[k] is v0 for s in states[1:]):
                r.env[k] = v0
            else:
                try:
                    r.env[k] = join([s.env[k] for s in states])
                except Gap:
                    pass
        objs = set()
        for s in states:
            objs |= set(s.mem)
        for o in objs:
            cs = [s.mem.get(o) for s in states]
            if all(c is cs[0] for c in cs):
                r.mem[o] = cs[0]
                continue
            present = [c for c in cs if c is not None]
            if o.kind in ("alloca", "heap") and len(present) < len(cs):
                # allocated on some paths only
                if len(present) == 1:
                    r.mem[o] = dict(present[0])
                    r.own.add(o)
                    continue
            out = {}
            if o.default is None:
                self.harmonise(states, o)
                cs = [s.mem.get(o) for s in states]
                present = [c for c in cs if c is not None]
            offs = set()
            for c in present:
                offs |= set(c)
            for off in offs:
                cell = [self.get_cell(s, o, off) for s in states]
                size = next(c[0] for c in cell if c is not None)
                if any(c is not None and c[0] != size for c in cell):
                    if all(c is None or c[1] is UNDEF for c in cell):
                        continue
                    raise Gap("joined memory shapes differ at %s+%d" % (o.name, off))
                vals = []
                for c in cell:
                    if c is not None:
                        vals.append(c[1])
                    elif o.default is not None:
                        et = o.default(None, None)
                        vals.append(o.default(off, et))
                    else:
                        vals.append(UNDEF)
                out[off] = (size, join(vals))
            r.mem[o] = out
            r.own.add(o)
        return r

    def harmonise(self, states, o):
        """give an object the same division into cells in all states (cells written as a whole here, bytewise there)"""
        iv = {}
        for s in states:
            for off in self.all_offsets(s, o):
                n = self.get_cell(s, o, off)[0]
                if iv.setdefault(off, n) != n:
                    break
            else:
                continue
            break
        else:
            l = sorted(iv.items())
            if all(a + n <= b for (a, n), (b, _) in zip(l, l[1:])):
                return                      # nothing overlaps
        iv = sorted({(off, self.get_cell(s, o, off)[0]) for s in states for off in self.all_offsets(s, o)})
        comp = []
        for off, n in iv:
            if comp and off < comp[-1][1]:
                comp[-1][1] = max(comp[-1][1], off + n)
            else:
                comp.append([off, off + n])
        for lo, hi in comp:
            for s in states:
                cells = [(k,) + self.get_cell(s, o, k) for k in range(lo, hi) if self.get_cell(s, o, k) is not None]
                if not cells or (len(cells) == 1 and cells[0][0] == lo and cells[0][1] == hi - lo):
                    continue
                if all(v is UNDEF for _, _, v in cells):
                    v = UNDEF
                elif sum(n for _, n, _ in cells) == hi - lo and all(isinstance(v, Int) and is_iconst(v) for _, _, v in cells):
                    x = 0
                    for k, n, v in cells:
                        x |= (ival(v) & ((1 << (8 * n)) - 1)) << (8 * (k - lo))
                    v = wrap(D.p_const(Fraction(x)), 8 * (hi - lo))
                elif sum(n for _, n, _ in cells) == hi - lo and all(isinstance(v, (Bits, Int)) for _, _, v in cells) and self.word_bits:
                    b = []
                    for k, n, v in cells:
                        b += to_bits(v, 8 * n).b
                    v = bits_int(Bits(b))
                else:
                    raise Gap("joined memory shapes differ at %s+%d" % (o.name, lo))
                if o.base is not None:
                    raise Gap("joined memory shapes differ at %s+%d" % (o.name, lo))
                m = s.cells(o, True)
                for k, n, _ in cells:
                    m.pop(k, None)
                m[lo] = (hi - lo, v)

    def constr(self, v, u):
        if type(v) is Node:
            return constrain(v, u)
        if type(v) is Bits:
            return Bits(constrain(x, u) if type(x) is Node else x for x in v.b)
        if type(v) is Agg:
            return Agg(self.constr(x, u) for x in v.e)
        return v

    def call_fn(self, fn, args, st, I=None):
        """-> (return value, state) or (None, None) when no path returns.  st.pc/env belong to the caller."""
        if len(self.stack) > 180:
            if self.endless(fn, args):
                # the same call again and again, nothing decided and nothing changed in between: the recursion never ends
                self.abort = bor(self.abort, band(self.pcstack[-1], st.pc))
                return None, None
            raise Gap("call depth (recursion) at " + demangle(fn.name))
        self.calls.append((fn, args, self.abspc(st), self.nacts, self.nreads))
        try:
            return self.call_body(fn, args, st, I)
        finally:
            self.calls.pop()

    def endless(self, fn, args):
        same = 0
        last = None
        for f, a, pc, acts, reads in self.calls:
            if f is fn and len(a) == len(args) and all(x.key == y.key for x, y in zip(a, args)):
                if last is not None and last != (pc.key, acts, reads):
                    same = 0
                last = (pc.key, acts, reads)
                same += 1
        return same > 40

    def call_body(self, fn, args, st, I=None):
        m = self.m.body(fn)
        self.visited.add(fn.name)
        if fn.irreducible:
            raise Gap("irreducible control flow in " + fn.name)
        caller_env, caller_pc = st.env, st.pc
        self.pcstack.append(band(self.pcstack[-1], caller_pc))
        self.stack.append(I)
        self.frames.append([])
        s0 = State()
        s0.mem, s0.own = st.mem, st.own
        s0.env = {i: a for i, a in enumerate(args)}
        s0.pc = TRUE
        rets = []
        heap, pend, snaps = [], {}, {}
        blocks, rpo, nest = fn.blocks, fn.rpo, fn.nest

        def key(b, its):
            k = []
            for h, it in zip(nest[b], its):
                k += [rpo[h], it]
            k.append(rpo[b])
            return tuple(k)

        def push(b, its, state, prev):
            if its and nest[b][-1] == b and (self.word_bits and its[-1] == 1 or its[-1] == IDLE + 1) and self.waits(snaps.get((b, its[:-1])), state, blocks[b], prev):
                # nothing but another look at the device (or, after many rounds, nothing at all): the loop waits for it, which may take forever
                self.abort = bor(self.abort, self.abspc(state))
                self.waited += 1
                return
            if self.stuck is not None and its and nest[b][-1] == b and its[-1] == POLL + 1 and not self.widen(snaps.get((b, its[:-1])), state, blocks[b], prev):
                self.abort = bor(self.abort, self.abspc(state))      # any number of further looks was not enough
                self.waited += 1
                return
            if self.stuck is not None and its and nest[b][-1] == b and its[-1] == POLL + 2:
                snap = snaps.get((b, its[:-1]))
                if snap is not None and snap[2] == self.nacts and snap[3] != self.nreads:
                    self.abort = bor(self.abort, self.abspc(state))
                    self.waited += 1
                    return
            k = key(b, its)
            l = pend.get(k)
            if l is None:
                pend[k] = [(state, prev)]
                heapq.heappush(heap, (k, b, its))
            else:
                l.append((state, prev))

        def edge(u, its, w):
            nu, nw = nest[u], nest[w]
            out = []
            for lvl, h in enumerate(nw):
                if lvl < len(nu) and nu[lvl] == h:
                    it = its[lvl]
                    if h == w and lvl == len(nw) - 1:
                        it += 1
                        if it > 20000:
                            raise Gap("loop bound not decided in %s" % demangle(fn.name))
                    out.append(it)
                else:
                    out.append(0)
            return tuple(out)
        push(0, tuple(0 for _ in nest[0]), s0, -1)
        while heap:
            k, b, its = heapq.heappop(heap)
            ins = pend.pop(k)
            B = blocks[b]
            if B.phis:
                for s, prev in ins:
                    new = []
                    for ph in B.phis:
                        for o, pb in ph.ops:
                            if pb == prev:
                                new.append((ph.id, self.val(s, o)))
                                break
                    for i, v in new:
                        s.env[i] = v
            cur = self.merge([s for s, _ in ins]) if len(ins) > 1 else ins[0][0]
            if its and nest[b][-1] == b and (self.word_bits and its[-1] == 0 or its[-1] == IDLE or self.stuck is not None and its[-1] == POLL):
                snaps[(b, its[:-1])] = ({o: dict(c) for o, c in cur.mem.items()}, dict(cur.env), self.nacts, self.nreads, its[-1] == IDLE)
            self.block(fn, B, cur, its, edge, push, rets)
        self.stack.pop()
        self.pcstack.pop()
        frame = self.frames.pop()
        for o in frame:
            o.kind = "gone"
        if not rets:
            return None, None
        for s, v in rets:
            for o in frame:
                s.mem.pop(o, None)
            s.env = {-1: v}
        r = self.merge([s for s, _ in rets])
        ret = r.env.get(-1)
        out = State()
        out.mem, out.own = r.mem, r.own
        out.env = caller_env
        out.pc = band(caller_pc, r.pc)
        return ret, out

    def widen(self, snap, st, B, prev):
        """integers that a loop without any effect changed from one round to the next may have any value afterwards; False: nothing changed"""
        if snap is None or snap[2] != self.nacts or snap[3] == self.nreads:
            return True
        mem, env, any_ = snap[0], snap[1], False

        def fresh(v, n):
            self.nwide = getattr(self, "nwide", 0) + 1
            return bits_atom("later%d" % self.nwide, n) if self.word_bits or isinstance(v, Bits) else int_atom("later%d" % self.nwide, -(1 << 63), (1 << 63) - 1)
        for o, c in mem.items():
            d = st.mem.get(o)
            for k, (n, v) in c.items():
                w = d.get(k) if d is not None else None
                if w is not None and w[0] == n and w[1].key != v.key and isinstance(v, (Int, Bits)):
                    d[k] = (n, fresh(w[1], 8 * n))
                    any_ = True
        for ph in B.phis:
            for x, pb in ph.ops:
                if pb == prev and type(x) is int and self.val(st, x).key != env[ph.id].key and isinstance(env[ph.id], (Int, Bits)):
                    st.env[x] = fresh(env[ph.id], ph.ty.bits)
                    any_ = True
        return any_

    def waits(self, snap, st, B, prev):
        """the iteration left everything as it was and did nothing except reading the device"""
        if snap is None or snap[2] != self.nacts or (snap[3] == self.nreads) != snap[4]:
            return False
        mem, env = snap[0], snap[1]
        for o, c in mem.items():
            d = st.mem.get(o)
            if d is None or len(d) != len(c):
                return False
            for k, (n, v) in c.items():
                w = d.get(k)
                if w is None or w[0] != n or w[1].key != v.key and not (self.word_bits and self.next_look(v, w[1])):
                    return False
        for o in st.mem:
            if o not in mem and o.kind not in ("alloca",):
                return False
        for ph in B.phis:
            for x, pb in ph.ops:
                if pb == prev and self.val(st, x).key != env[ph.id].key and not (self.word_bits and self.next_look(env[ph.id], self.val(st, x))):
                    return False
        return True

    def next_look(self, v, w):
        """w is made of what the device answered next exactly as v is of its answer before: rdK(a).i has become rdK+1(a).i"""
        if isinstance(v, Bits) and isinstance(w, Bits):
            if len(v.b) != len(w.b):
                return False
            pairs = list(zip(v.b, w.b))
        else:
            pairs = [(v, w)]
        for x, y in pairs:
            if x.key == y.key:
                continue
            if type(x) is not Node or type(y) is not Node or len(x.kids) != len(y.kids) or any(i is not j for i, j in zip(x.kids, y.kids)):
                return False
            if any(k is not TRUE and k is not FALSE for k in x.kids):
                return False
            (kx, nx), (ky, ny) = D._CONDS[x.c], D._CONDS[y.c]
            if kx != "bool" or ky != "bool":
                return False
            mx, my = LOOK.match(nx), LOOK.match(ny)
            if not mx or not my or int(my.group(1)) != int(mx.group(1)) + 1 or mx.group(2) != my.group(2):
                return False
        return True

    def block(self, fn, B, st, its, edge, push, rets):
        b = B.idx
        for I in B.insts:
            self.steps += 1
            if self.steps > MAX_STEPS:
                raise Gap("analysis budget exceeded")
            o = I.op
            if o == "ret":
                rets.append((st, self.val(st, I.ops[0]) if I.ops else D.I(0)))
                return
            if o == "unreachable":
                self.fault(st, "unreachable", "control reaches a point the program declares unreachable (missing return?)", I)
                return
            if o == "br":
                if not I.ops:
                    w = B.succs[0]
                    push(w, edge(b, its, w), st, b)
                    return
                c = self.val(st, I.ops[0])
                # ops order in LLVM: cond, false, true; successors are true,false
                t, f = B.succs
                self.branch(fn, st, b, its, edge, push, c, t, f, I)
                return
            if o == "switch":
                v = self.val(st, I.ops[0])
                bits = self.tyof(fn, I.ops[0]).bits
                default, cases = I.x
                rest = st
                for cv, w in cases:
                    c = self.icmp("eq", v, D.I(cv - (1 << bits) if cv >> (bits - 1) else cv), bits)
                    if c is TRUE:
                        push(w, edge(b, its, w), rest, b)
                        rest = None
                        break
                    if c is FALSE:
                        continue
                    c = self.undef_cond(st, c, I)
                    c = self.rel(c, rest.pc)
                    if c is TRUE:
                        push(w, edge(b, its, w), rest, b)
                        rest = None
                        break
                    if c is FALSE:
                        continue
                    s2 = rest.fork()
                    s2.pc = band(rest.pc, c)
                    push(w, edge(b, its, w), s2, b)
                    rest.pc = band(rest.pc, bnot(c))
                if rest is not None:
                    push(default, edge(b, its, default), rest, b)
                return
            if o in ("call", "invoke"):
                r, st2 = self.do_call(fn, I, st)
                if st2 is None:
                    return
                st = st2
                if r is not None:
                    st.env[I.id] = r
                if o == "invoke":
                    w = B.succs[0]
                    push(w, edge(b, its, w), st, b)
                    return
                continue
            v = self.inst(fn, I, st)
            if v is not None:
                st.env[I.id] = v

    def undef_cond(self, st, c, I):
        def f(x):
            if x is UNDEF:
                self.fault(st, "uninit", "branch decided by an uninitialised value", I)
                return FALSE
            return x
        return lift(f, c)

    def rel(self, c, pc):
        """c under path condition pc: TRUE/FALSE when decided there"""
        if c is TRUE or c is FALSE or pc is TRUE:
            return c
        if band(pc, c) is FALSE:
            return FALSE
        if band(pc, bnot(c)) is FALSE:
            return TRUE
        return c

    def branch(self, fn, st, b, its, edge, push, c, t, f, I):
        if c is not TRUE and c is not FALSE:
            c = self.undef_cond(st, c, I)
            c = self.rel(c, st.pc)
            c = self.rel(c, self.pcstack[-1])
        if c is TRUE or t == f:
            push(t, edge(b, its, t), st, b)
        elif c is FALSE:
            push(f, edge(b, its, f), st, b)
        else:
            s2 = st.fork()
            pc = st.pc
            s2.pc = band(pc, c)
            st.pc = band(pc, bnot(c))
            push(t, edge(b, its, t), s2, b)
            push(f, edge(b, its, f), st, b)

    # -------------------------------------------------------------- calls
    def do_call(self, fn, I, st):
        cv = I.x
        self.cur = I
        args = [self.val(st, o) for o in I.ops]
        if isinstance(cv, Const) and cv.k == "asm":
            text, cons, effects = cv.v
            if BARRIERS and text.strip() in ("cli", "sei") and not (effects and "~{memory}" in cons):
                self.fault(st, "barrier", "'%s' does not keep the compiler from moving accesses across it" % text.strip(), I)
            self.emit(self.abspc(st), ("asm", text.strip()), None, I)
            return (UNDEF if I.ty.kind != "void" else None), st
        f = self.val(st, cv) if not (isinstance(cv, Const) and cv.k == "func") else FuncV(cv.v)
        if not isinstance(f, FuncV):
            raise Gap("indirect call")
        name = f.fn.name
        h = self.hooks.get(name)
        if h is not None:
            return h(self, st, args, I), st
        r = INTRINSICS.get(name)
        if r is None and name.startswith("llvm."):
            r = INTRINSICS.get(name.rsplit(".", 1)[0]) or INTRINSICS.get(".".join(name.split(".")[:2]))
        if r is not None:
            return r(self, st, args, I), st
        if name in NORETURN:
            self.abort = bor(self.abort, self.abspc(st))
            return None, None
        if f.fn.decl:
            e = self.hooks.get("<extern>")
            if e is not None:
                return e(self, st, name, args, I), st
            raise Gap("call of unmodelled external function " + demangle(name))
        return self.call_fn(f.fn, args, st, I)

    # -------------------------------------------------------------- instructions
    def inst(self, fn, I, st):
        o = I.op
        self.instrs += 1
        self.cur = I
        if o == "alloca":
            n = 1
            if I.ops:
                nv = self.val(st, I.ops[0])
                if not (isinstance(nv, Int) and is_iconst(nv)):
                    raise Gap("variable length array")
                n = ival(nv)
            obj = Obj("local in %s" % demangle(fn.name), I.x.size * n, "alloca")
            self.frames[-1].append(obj)
            return Ptr(obj, 0)
        if o == "load":
            p = self.val(st, I.ops[0])
            if I.x:
                return self.volatile_load(st, p, I.ty, I)
            if type(p) is Node:
                return self.node_load(st, p, I.ty, I)
            if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "abs":
                if BARRIERS:
                    self.fault(st, "volatile", "the read of register 0x%02x is not volatile" % p.off, I)
                return self.volatile_load(st, p, I.ty, I)
            if self.traced_as and isinstance(p, Ptr) and p.obj in self.traced_as:
                self.emit(self.abspc(st), ("load", self.traced_as[p.obj], p.off, I.ty.size), None, I)
            return self.load(st, p, I.ty, I)
        if o == "store":
            v, p = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if I.x[0] or isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "abs":
                if BARRIERS and not I.x[0]:
                    self.fault(st, "volatile", "the write of register 0x%02x is not volatile" % p.off, I)
                self.volatile_store(st, p, v, I.x[1], I)
            elif type(p) is Node:
                self.node_store(st, p, v, I.x[1], I)
            else:
                if self.traced_as and isinstance(p, Ptr) and p.obj in self.traced_as:
                    self.emit(self.abspc(st), ("store", self.traced_as[p.obj], p.off, I.x[1].size), None, I)
                self.store(st, p, v, I.x[1], I)
            return None
        ops = [self.val(st, x) for x in I.ops]
        if o == "gep":
            return self.gep(st, I, ops, None)
        if o in INTBIN:
            return self.intbin(st, o, ops[0], ops[1], I)
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbin(o, ops[0], ops[1], I.ty)
        if o == "fneg":
            return self.vec1(lambda x: UNDEF if x is UNDEF else r_neg(x), ops[0])
        if o == "icmp":
            t = self.tyof(fn, I.ops[0])
            return self.icmp(I.x, ops[0], ops[1], t.bits or 8 * self.m.ptrsize)
        if o == "fcmp":
            return self.fcmp(I.x, ops[0], ops[1])
        if o == "select":
            c = ops[0]
            if c is UNDEF:
                return UNDEF
            return ite(c, ops[1], ops[2])
        if o in ("trunc", "zext", "sext"):
            frm = self.tyof(fn, I.ops[0]).bits
            to = I.ty.bits
            if o == "trunc":
                return self.trunc(ops[0], frm, to)
            return self.ext(o, ops[0], frm, to)
        if o in ("fptosi", "fptoui"):
            bits, sg = I.ty.bits, o == "fptosi"
            if self.partition is not None and not (type(ops[0]) is D.Real and is_rconst(ops[0])):
                # a probe splits the inputs by a computed integer: one run per value, what is converted is compared
                self.split_on.append((self.constr(ops[0], st.pc), self.loc(I)))
                return D.I(self.partition)
            return lift(lambda x: UNDEF if x is UNDEF else self.unsig(real_to_int(x, bits, sg), bits, sg), ops[0])
        if o in ("sitofp", "uitofp"):
            frm = self.tyof(fn, I.ops[0]).bits

            def g(x):
                if x is UNDEF:
                    return x
                if isinstance(x, BoolV):
                    return D.R((1 if o == "uitofp" else -1) if x.v else 0)
                if o == "uitofp":
                    x = unsigned_view(x, frm)
                r = int_to_real(x)
                if self.round_floats and I.ty.bits == 32 and not (x.lo is not None and -(1 << 24) <= x.lo and x.hi is not None and x.hi <= 1 << 24):
                    r = real_atom("float", (r,))        # more digits than a float keeps
                return r
            return lift(g, ops[0])
        if o == "fptrunc":
            return self.vec1(self.fptrunc, ops[0])
        if o in ("fpext", "freeze"):
            return ops[0]
        if o in ("bitcast", "addrspacecast"):
            t = self.tyof(fn, I.ops[0])
            if t.kind == I.ty.kind:
                return ops[0]
            if I.ty.kind == "vec" or t.kind == "vec":
                return self.vcast(ops[0], t, I.ty)
            return self.retype(ops[0], I.ty)
        if o == "ptrtoint":
            return ops[0]
        if o == "inttoptr":
            return self.inttoptr(ops[0], self.tyof(fn, I.ops[0]).bits)
        if o == "extractvalue":
            v = ops[0]
            for i in I.x:
                v = lift(lambda a, i=i: a.e[i] if isinstance(a, Agg) else UNDEF, v)
            return v
        if o == "insertvalue":
            return self.insval(ops[0], ops[1], I.x, I.ty)
        if o == "extractelement":
            return ops[0].e[ival(ops[1])] if isinstance(ops[0], Agg) else UNDEF
        if o == "insertelement":
            e = list(ops[0].e) if isinstance(ops[0], Agg) else [UNDEF] * I.ty.n
            e[ival(ops[2])] = ops[1]
            return Agg(e)
        raise Gap("instruction " + o)

    def unsig(self, v, bits, sg):
        return v if sg else wrap(v.p, bits)

    def vcast(self, v, frm, to):
        if to.kind == "vec":
            if isinstance(v, Pieces):
                return Agg([x[2] for x in v.parts])
            raise Gap("bitcast to vector")
        if isinstance(v, Agg):
            es = frm.elem.size
            return Pieces([(i * es, es, x) for i, x in enumerate(v.e)], es * len(v.e))
        raise Gap("bitcast from vector")

    def insval(self, a, v, idx, ty):
        if not isinstance(a, Agg):
            if type(a) is Node:
                return lift(lambda x: self.insval(x, v, idx, ty), a)
            a = Agg([UNDEF] * ty.n)
        e = list(a.e)
        if len(idx) == 1:
            e[idx[0]] = v
        else:
            sub = ty.elems[idx[0]] if ty.kind == "struct" else ty.elem
            e[idx[0]] = self.insval(e[idx[0]], v, idx[1:], sub)
        return Agg(e)

    def vec1(self, f, v):
        if isinstance(v, Agg):
            return Agg([lift(f, x) for x in v.e])
        return lift(f, v)

    round_floats = False

    def fptrunc(self, x):
        if x is UNDEF or not self.round_floats:
            return x
        if is_rconst(x) and Fraction(float(rval(x))).denominator <= 1 << 20:
            return x
        return real_atom("float", (x,))

    def fbin(self, o, a, b, ty):
        if isinstance(a, Agg):
            return Agg([self.fbin(o, x, y, ty.elem) for x, y in zip(a.e, b.e)])

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if not isinstance(x, Real) or not isinstance(y, Real):
                raise Gap("floating operation on raw bits: %s, %s" % (v_str(x), v_str(y)))
            if o == "fadd":
                return r_add(x, y)
            if o == "fsub":
                return r_add(x, y, -1)
            if o == "fmul":
                return r_mul(x, y)
            if o == "fdiv":
                return r_div(x, y)
            return real_atom("fmod", (x, y))
        return lift(f, a, b)

    def ext(self, o, v, frm, to):
        if self.word_bits:
            def f(x):
                if x is UNDEF:
                    return x
                if frm == 1:
                    return Bits((x,) + ((x if o == "sext" else FALSE),) * (to - 1))
                if isinstance(x, Bits):
                    return Bits(x.b + ((x.b[-1] if o == "sext" else FALSE),) * (to - frm))
                return unsigned_view(x, frm) if o == "zext" else x
            if frm == 1:
                return bits_int(f(v)) if v is not UNDEF else v
            return lift(f, v)

        def g(x):
            if x is UNDEF:
                return x
            if isinstance(x, BoolV):
                return D.I((1 if o == "zext" else -1) if x.v else 0)
            if isinstance(x, Pieces):
                if o == "zext":
                    return Pieces(x.parts + ((x.size, to // 8 - x.size, D.I(0)),), to // 8)
                raise Gap("sign extension of raw bits")
            if o == "zext":
                return unsigned_view(x, frm)
            return x
        return lift(g, v)

    def intbin(self, st, o, a, b, I):
        bits = I.ty.bits
        if I.ty.kind == "vec":
            raise Gap("vector integer op")

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                if o == "and" and (x is FALSE or y is FALSE):
                    return FALSE
                if o == "or" and (x is TRUE or y is TRUE):
                    return TRUE
                return UNDEF
            if isinstance(x, BoolV):
                return {"and": band, "or": bor, "xor": bxor, "add": bxor, "sub": bxor, "mul": band}[o](x, y)
            if isinstance(x, FuncV) or isinstance(y, FuncV):
                c = y if isinstance(x, FuncV) else x        # a member pointer: functions lie at even addresses
                if o == "and" and isinstance(c, Int) and is_iconst(c) and ival(c) == 1:
                    return D.I(0)
                raise Gap("arithmetic with a function address")
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                return self.ptrop(o, x, y)
            if isinstance(x, Bits) or isinstance(y, Bits):
                return self.wordop(o, x, y, bits)
            if isinstance(x, Pieces) or isinstance(y, Pieces):
                return self.pieceop(o, x, y, bits)
            nsw, nuw = I.x if I.x else (False, False)
            if o in ("add", "sub", "mul"):
                p = D.p_add(x.p, y.p) if o == "add" else D.p_add(x.p, y.p, -1) if o == "sub" else D.p_mul(x.p, y.p)
                if p is None:
                    raise Gap("integer expression too large")
                return self.iwrap(p, bits, nsw)
            if o == "shl":
                if not is_iconst(y):
                    raise Gap("shift by data")
                k = ival(y)
                if not 0 <= k < bits:
                    self.fault(st, "shift", "shift by %d of a %d-bit value" % (k, bits), I)
                    return UNDEF
                return self.iwrap(D.p_mul(x.p, D.p_const(Fraction(1 << k))), bits, nsw)
            if o in ("lshr", "ashr"):
                if not is_iconst(y):
                    raise Gap("shift by data")
                k = ival(y)
                if not 0 <= k < bits:
                    self.fault(st, "shift", "shift by %d of a %d-bit value" % (k, bits), I)
                    return UNDEF
                return floordiv2(x if o == "ashr" else unsigned_view(x, bits), k)
            if o == "sdiv":
                return tdiv(x, y)
            if o == "udiv":
                return tdiv(unsigned_view(x, bits), unsigned_view(y, bits))
            if o in ("srem", "urem"):
                if o == "urem":
                    x, y = unsigned_view(x, bits), unsigned_view(y, bits)
                q = tdiv(x, y)
                r = D.p_add(x.p, D.p_mul(q.p, y.p), -1)
                if is_iconst(y) and ival(y) != 0:
                    d = abs(ival(y)) - 1
                    lo, hi = (-d if x.lo < 0 else 0), (d if x.hi > 0 else 0)
                    v = i_make(r, lo, hi)
                    return v
                return wrap(r, bits)
            if is_iconst(x) and is_iconst(y):
                m = (1 << bits) - 1
                u, w = ival(x) & m, ival(y) & m
                v = u & w if o == "and" else u | w if o == "or" else u ^ w
                return wrap(D.p_const(Fraction(v)), bits)
            if is_iconst(x):
                x, y = y, x
            if is_iconst(y):
                c = ival(y)
                if o == "xor" and c == -1:
                    return i_make(D.p_add(D.p_mul(x.p, D.p_const(Fraction(-1))), D.p_const(Fraction(-1))))
                if o == "and":
                    if c == 0:
                        return D.I(0)
                    if c == -1:
                        return x
                    cu = c & ((1 << bits) - 1)
                    if (cu + 1) & cu == 0:
                        return umod(x.p, cu.bit_length())
                    if c < 0 and (-c) & (-c - 1) == 0:      # clear low bits
                        k = (-c).bit_length() - 1
                        return i_make(D.p_mul(floordiv2(x, k).p, D.p_const(Fraction(1 << k))))
                if o in ("or", "xor") and c == 0:
                    return x
            if x.key == y.key:
                return D.I(0) if o == "xor" else x
            a0, b0 = sorted((x, y), key=lambda t: repr(t.key))
            return int_atom("%s%d" % (o, bits), smin(bits), smax(bits), (D._PolyArg(a0.p), D._PolyArg(b0.p)))
        if bits == 1:
            if o in ("and", "or", "xor") and a is not UNDEF and b is not UNDEF:
                try:
                    return {"and": band, "or": bor, "xor": bxor}[o](a, b)
                except AttributeError:
                    pass
        return lift(f, a, b)

    def iwrap(self, p, bits, nsw):
        if nsw:
            # signed overflow is undefined: where the program is defined the result is the exact one
            if p_isconst(p):
                return wrap(p, bits)
            lo, hi = D.p_bounds(p)
            return Int(p, max(lo, smin(bits)), min(hi, smax(bits)))
        return wrap(p, bits)

    def ptrop(self, o, x, y):
        if o == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is y.obj:
                return D.I(x.off - y.off)
            raise Gap("difference of unrelated pointers")
        if o in ("add", "sub") and isinstance(x, Ptr) and isinstance(y, Int) and is_iconst(y):
            return Ptr(x.obj, x.off + (ival(y) if o == "add" else -ival(y)))
        if o == "add" and isinstance(y, Ptr) and isinstance(x, Int) and is_iconst(x):
            return Ptr(y.obj, y.off + ival(x))
        if o == "and" and isinstance(y, Int) and is_iconst(y) and isinstance(x, Ptr):
            m = ival(y)
            if m > 0:
                return D.I(x.off & m)
            return Ptr(x.obj, x.off & m)
        raise Gap("integer operation on a pointer")

    def pieceop(self, o, x, y, bits):
        if isinstance(y, Int) and is_iconst(y):
            if o == "lshr":
                return self.lshr(x, ival(y), bits)
            if o == "shl" and ival(y) % 8 == 0:
                k = ival(y) // 8
                parts = [(0, k, D.I(0))] + [(p + k, s, v) for p, s, v in x.parts if p + k + s <= bits // 8]
                return Pieces(parts, bits // 8)
        if o == "or":
            # disjoint halves
            def nz(q):
                if isinstance(q, Int):
                    return None
                return [(p, s, v) for p, s, v in q.parts if not (isinstance(v, Int) and is_iconst(v) and ival(v) == 0)]
            px, py = nz(x), nz(y)
            if px is not None and py is not None:
                allp = sorted(px + py, key=lambda t: t[0])
                if sum(s for _, s, _ in allp) == bits // 8:
                    return Pieces(allp, bits // 8)
        raise Gap("integer operation on raw bits")

    def wordop(self, o, x, y, n):
        if o in ("shl", "lshr", "ashr"):
            if isinstance(y, Bits):
                y = bits_int(y)
            if isinstance(y, Bits):
                # barrel shift by data
                xb = to_bits(x, n).b
                for s in range(n.bit_length()):
                    if s < len(y.b) and y.b[s] is not FALSE:
                        k = 1 << s
                        sh = Bits(self.shiftbits(o, xb, k, n))
                        xb = ite(y.b[s], sh, Bits(xb)).b
                return bits_int(Bits(xb))
            return bits_int(Bits(self.shiftbits(o, to_bits(x, n).b, ival(y), n)))
        a, b = to_bits(x, n).b, to_bits(y, n).b
        if o == "and":
            return bits_int(Bits(band(p, q) for p, q in zip(a, b)))
        if o == "or":
            return bits_int(Bits(bor(p, q) for p, q in zip(a, b)))
        if o == "xor":
            return bits_int(Bits(bxor(p, q) for p, q in zip(a, b)))
        if o in ("add", "sub"):
            c = FALSE
            if o == "sub":
                b = [bnot(q) for q in b]
                c = TRUE
            out = []
            for p, q in zip(a, b):
                s = bxor(p, q)
                out.append(bxor(s, c))
                c = bor(band(p, q), band(s, c))
            return bits_int(Bits(out))
        if o == "mul":
            acc = D.I(0)
            for i, q in enumerate(b):
                if q is FALSE:
                    continue
                sh = (FALSE,) * i + a[:n - i]
                acc = self.wordop("add", acc, Bits(band(q, t) for t in sh), n) if not (isinstance(acc, Int) and is_iconst(acc) and ival(acc) == 0) else bits_int(Bits(band(q, t) for t in sh))
            return acc
        yc = bits_int(Bits(b))
        if isinstance(yc, Int) and o in ("sdiv", "srem") and a[-1] is FALSE and ival(yc) > 0:
            o = "u" + o[1:]
        if isinstance(yc, Int) and o in ("udiv", "urem"):
            d = ival(yc) & ((1 << n) - 1)
            if d and d & (d - 1) == 0:
                k = d.bit_length() - 1
                return bits_int(Bits(self.shiftbits("lshr", a, k, n))) if o == "udiv" else bits_int(Bits(a[:k] + (FALSE,) * (n - k)))
        raise Gap("machine word operation " + o)

    def shiftbits(self, o, a, k, n):
        if k >= n:
            return (FALSE,) * n
        if o == "shl":
            return (FALSE,) * k + tuple(a[:n - k])
        return tuple(a[k:]) + ((a[-1] if o == "ashr" else FALSE),) * k

    def icmp(self, pred, a, b, bits):
        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, Ptr) and not isinstance(y, FuncV) or isinstance(y, Ptr) and not isinstance(x, FuncV):
                return self.pcmp(pred, x, y)
            if isinstance(x, FuncV) or isinstance(y, FuncV):
                e = x.key == y.key
                return TRUE if e == (pred == "eq") else FALSE
            if isinstance(x, BoolV):
                xv, yv = int(x.v), int(y.v)
                if pred[0] == "s":
                    xv, yv = -xv, -yv
                return TRUE if {"eq": xv == yv, "ne": xv != yv, "gt": xv > yv, "ge": xv >= yv, "lt": xv < yv, "le": xv <= yv}[pred[-2:]] else FALSE
            if isinstance(x, Bits) or isinstance(y, Bits):
                return self.wordcmp(pred, x, y, bits)
            if isinstance(x, Pieces) and len(x.parts) == 1 and x.parts[0][0] == 0 and isinstance(x.parts[0][2], D.Real) and pred == "slt" and isinstance(y, Int) and is_iconst(y) and ival(y) == 0:
                return self.sgnsel("lt", x.parts[0][2])     # the sign bit of a floating-point number
            if isinstance(x, Pieces) or isinstance(y, Pieces):
                raise Gap("comparison of raw bits")
            if pred[0] == "u":
                x, y = unsigned_view(x, bits), unsigned_view(y, bits)
            d = i_make(D.p_add(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo)
            return self.sgnsel(pred[-2:], d)
        return lift(f, a, b)

    def sgnsel(self, p, d):
        n, z, q = {"eq": (0, 1, 0), "ne": (1, 0, 1), "gt": (0, 0, 1), "ge": (0, 1, 1), "lt": (1, 0, 0), "le": (1, 1, 0)}[p]
        B = (FALSE, TRUE)
        return by_sign(d, B[n], B[z], B[q])

    def wordcmp(self, pred, x, y, n):
        a, b = to_bits(x, n).b, to_bits(y, n).b
        if pred in ("eq", "ne"):
            e = TRUE
            for p, q in zip(a, b):
                e = band(e, bnot(bxor(p, q)))
            return e if pred == "eq" else bnot(e)
        if pred[0] == "s":
            a = a[:-1] + (bnot(a[-1]),)
            b = b[:-1] + (bnot(b[-1]),)
        lt, eq = FALSE, TRUE
        for p, q in zip(reversed(a), reversed(b)):
            lt = bor(lt, band(eq, band(bnot(p), q)))
            eq = band(eq, bnot(bxor(p, q)))
        k = pred[1:]
        if k == "lt":
            return lt
        if k == "ge":
            return bnot(lt)
        le = bor(lt, eq)
        return le if k == "le" else bnot(le)

    def pcmp(self, pred, x, y):
        if isinstance(x, Int) and is_iconst(x) and ival(x) == 0:
            x = Ptr(None, 0)
        if isinstance(y, Int) and is_iconst(y) and ival(y) == 0:
            y = Ptr(None, 0)
        if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
            raise Gap("pointer compared with a number")
        if x.obj is y.obj:
            u, v = x.off, y.off
        elif pred in ("eq", "ne"):
            u, v = 0, 1
        elif TOTAL_ORDER and x.obj is not None and y.obj is not None:
            u, v = x.obj.id, y.obj.id
        else:
            raise Gap("ordering of unrelated pointers")
        return TRUE if {"eq": u == v, "ne": u != v, "gt": u > v, "ge": u >= v, "lt": u < v, "le": u <= v}[pred[-2:]] else FALSE

    def fcmp(self, pred, a, b):
        if pred in ("uno", "false"):
            return FALSE       # NaN is outside the real-number semantics
        if pred in ("ord", "true"):
            return TRUE

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            k = {"ne": "ne"}.get(pred[1:], pred[1:])
            return self.sgnsel(k, r_add(x, y, -1)) if not (x.key == y.key) else self.sgnsel(k, D.R(0))
        return lift(f, a, b)

    # -------------------------------------------------------------- device memory
    def volatile_load(self, st, p, ty, I):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind != "abs":
            if p.obj in self.traced_as:
                self.emit(self.abspc(st), ("load", self.traced_as[p.obj], p.off, ty.size), None, I)
            return self.load(st, p, ty, I)
        if not isinstance(p, Ptr) or p.obj is None:
            self.fault(st, "null", "volatile read through a bad pointer", I)
            return UNDEF
        if self.stuck is not None and p.off in self.stuck:
            self.nreads += 1
            answers, r = self.stuck[p.off], None
            for k, g in self.values(self.volcount.get(("writes", p.off), D.I(0)), self.abspc(st)):
                v = to_bits(D.I(answers[min(k, len(answers) - 1)]), ty.bits)
                r = v if r is None else ite(g, v, r)
            return r
        if self.settled is not None:
            self.nreads += 1
            return Bits(sum((list(self.settled_byte(p.off + i).b) for i in range(ty.size)), []))
        return self.read_event("0x%02x" % p.off, ("read", p.off, ty.size), ty, self.abspc(st), I)

    def settled_byte(self, a):
        v = self.settled.get(a)
        if v is None:
            v = self.settled[a] = bits_atom("initially(0x%02x)" % a, 8)
        return v

    def settle(self):
        """the final register contents as effects, by address"""
        for a in sorted(self.settled or ()):
            s = Slot()
            s.tok, s.val = Tok(("ends", a, 1)), self.settled[a]
            self.trace.append(s)

    def read_event(self, name, what, ty, pc, I):
        """a value from outside: the n-th read (on the path) of the location"""
        n = self.volcount.get(name, D.I(0))
        self.volcount[name] = ite(pc, lift(lambda k: D.I(ival(k) + 1), n), n)
        self.emit(pc, what, None, I)
        r = None
        for k, g in self.values(n, pc):
            v = bits_atom("rd%d(%s)" % (k, name), ty.bits) if self.word_bits else int_atom("rd%d(%s)" % (k, name), smin(ty.bits), smax(ty.bits)) if ty.kind == "int" else real_atom("rd%d(%s)" % (k, name))
            r = v if r is None else ite(g, v, r)
        return r

    def values(self, n, pc):
        """the constants n can be under pc, with their conditions"""
        n = self.constr(n, pc)
        ks = {}

        def f(x):
            ks[ival(x)] = 1
            return x
        lift(f, n)
        return [(k, lift(lambda x: TRUE if ival(x) == k else FALSE, n)) for k in sorted(ks)]

    def emit(self, pc, what, val, I=None):
        if pc is FALSE:
            return
        if what[0] == "read":
            self.nreads += 1
        else:
            self.nacts += 1
        t = Tok(what)
        loc = self.loc(I)
        for k, g in self.values(self.tpos, pc):
            while len(self.trace) <= k:
                self.trace.append(Slot())
            g = band(pc, g)
            s = self.trace[k]
            s.tok = ite(g, t, s.tok)
            if val is not None:
                s.val = val if s.val is UNDEF else ite(g, val, s.val)
            s.loc = s.loc or loc
        self.tpos = ite(pc, lift(lambda k: D.I(ival(k) + 1), self.tpos), self.tpos)

    def volatile_store(self, st, p, v, ty, I):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind != "abs":
            if p.obj in self.traced_as:
                self.emit(self.abspc(st), ("store", self.traced_as[p.obj], p.off, ty.size), None, I)
            return self.store(st, p, v, ty, I)
        if not isinstance(p, Ptr) or p.obj is None:
            self.fault(st, "null", "volatile write through a bad pointer", I)
            return
        w = to_bits(v, ty.bits) if v is not UNDEF else v
        if self.stuck is not None and p.off in self.stuck:
            n = self.volcount.get(("writes", p.off), D.I(0))
            self.volcount[("writes", p.off)] = ite(self.abspc(st), lift(lambda k: D.I(ival(k) + 1), n), n)
        if self.settled is not None:
            self.nacts += 1
            pc = self.abspc(st)
            for i in range(ty.size):
                new = Bits(w.b[8 * i:8 * i + 8])
                self.settled[p.off + i] = ite(pc, new, self.settled_byte(p.off + i))
            return
        self.emit(self.abspc(st), ("write", p.off, ty.size), w, I)

    def node_store(self, st, p, v, ty, I):
        # store through a pointer that depends on data: each candidate gets a guarded value
        pc = st.pc
        for g, q in self.cases(st, p):
            st.pc = band(pc, g)
            if not self.check(st, q, ty.size, I, "write"):
                continue
            old = self.load(st, q, ty, I)
            self.store(st, q, ite(g, v, old), ty, I)
        st.pc = pc


def _pick(p, vals, default):
    """the decision p (on pointers) with the values chosen for its leaves"""
    if type(p) is not Node:
        return vals.get(p.key, default)
    r = default
    for k, v in vals.items():
        g = lift(lambda x: TRUE if x.key == k else FALSE, p)
        r = ite(g, v, r)
    return r


INTBIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem"}

NORETURN = {"__assert_fail", "abort", "_ZSt9terminatev", "__assert", "_ZSt17__throw_bad_allocv", "exit", "__cxa_throw", "__cxa_rethrow",
            "_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz",
            "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "llvm.trap",
            "_ZSt21__glibcxx_assert_failPKciS1_S1_", "__clang_call_terminate"}

_dm = {}


def demangle(n):
    r = _dm.get(n)
    if r is None:
        r = n
        if n.startswith("_Z"):
            try:
                import ctypes
                lib = demangle.lib
                p = lib.__cxa_demangle(n.encode(), None, None, None)
                if p:
                    r = ctypes.string_at(p).decode()
                    if len(r) > 160:
                        r = r[:157] + "..."
            except Exception:
                pass
        _dm[n] = r
    return r


import ctypes as _ct
try:
    demangle.lib = _ct.CDLL("libstdc++.so.6")
    demangle.lib.__cxa_demangle.restype = _ct.c_void_p
    demangle.lib.__cxa_demangle.argtypes = [_ct.c_char_p, _ct.c_void_p, _ct.c_void_p, _ct.c_void_p]
except OSError:
    pass


def fixed(v):
    """the value does not depend on any input"""
    if isinstance(v, Real):
        if v.num is None:
            return False
        ps = (v.num, v.den)
    elif isinstance(v, Int):
        ps = (v.p,)
    elif isinstance(v, Bits):
        return all(b is TRUE or b is FALSE for b in v.b)
    else:
        return isinstance(v, (BoolV, FuncV)) or isinstance(v, Ptr) and (v.obj is None or v.obj.kind == "global")
    for p in ps:
        for m in p:
            for a, _ in m:
                A = ATOMS[a]
                if not (A.name == "pi" or A.args and all(hasattr(y, "key") and fixed(y) for y in A.args)):
                    return False
    return True


def _guard_acquire(it, st, a, I):
    return D.I(1)


def _guard_release(it, st, a, I):
    it.put(st, a[0].obj, a[0].off, 1, D.I(1))


def _atan2(it, st, a, I):
    def f(y, x):
        if y is UNDEF or x is UNDEF:
            return UNDEF
        if y.h == (0, 0) and is_rconst(x) and rval(x) < 0:
            return D.pi_atom()
        return real_atom("atan2", (y, x))
    return lift(f, a[0], a[1])


def _half_turns(q):
    return r_mul(D.R(Fraction(q)), D.pi_atom())


_ANGLE = {("acos", -1): 1, ("acos", 0): Fraction(1, 2), ("acos", 1): 0, ("asin", 1): Fraction(1, 2), ("atan", 1): Fraction(1, 4),
          ("acos", Fraction(1, 2)): Fraction(1, 3), ("asin", Fraction(1, 2)): Fraction(1, 6)}


def _angle(name, x):
    q = _ANGLE.get((name, rval(x))) if is_rconst(x) else None
    return None if q is None else _half_turns(q)


# ------------------------------------------------------------------ library functions
def _u1(name, pos=None, f=None):
    def h(it, st, a, I):
        def g(x):
            if x is UNDEF:
                return x
            if f is not None:
                r = f(x)
                if r is not None:
                    return r
            return real_atom(name, (x,), pos=pos)
        return it.vec1(g, a[0])
    return h


def _c0(c, v):
    return lambda x: v() if is_rconst(x) and rval(x) == c else None


def _pow(it, st, a, I):
    def g(x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if is_rconst(y):
            e = rval(y)
            if e.denominator == 1 and abs(e) <= 16:
                r = D.R(1)
                for _ in range(abs(int(e))):
                    r = r_mul(r, x)
                return r if e >= 0 else r_div(D.R(1), r)
            if e == Fraction(1, 2):
                return real_sqrt(x)
        if is_rconst(x) and rval(x) > 0:
            return _exp1(r_mul(y, _log1(x)))
        return real_atom("pow", (x, y))
    b = a[1]
    if isinstance(b, Int) or type(b) is Node and isinstance(_leaf(b), Int):
        b = lift(int_to_real, b)
    return lift(g, a[0], b)


def _leaf(n):
    while type(n) is Node:
        n = n.kids[0]
    return n


def _exp1(x):
    if x is UNDEF:
        return x
    if x.h == (0, 0):
        return D.R(1)
    if x.num is not None and x.den is ONE_P:            # exp(k log u + r) = u^k exp(r)
        for m, c in x.num.items():
            if len(m) == 1 and m[0][1] == 1 and D.ATOMS[m[0][0]].name == "log" and c.denominator == 1 and abs(c) <= 16:
                r = _exp1(D._mkreal({n: d for n, d in x.num.items() if n != m}, ONE_P))
                u = D.ATOMS[m[0][0]].args[0]
                for _ in range(abs(int(c))):
                    r = r_mul(r, u) if c > 0 else r_div(r, u)
                return r
    return real_atom("exp", (x,), pos=1)


def _exp(it, st, a, I):
    return lift(_exp1, a[0])


def _log1(x):
    """the logarithm of a product (of positive factors: its domain) as a sum"""
    if x.num is None or len(x.num) != 1 or len(x.den) != 1:
        return real_atom("log", (x,))
    (m, c), = x.num.items()
    (n, d), = x.den.items()
    c /= d
    fs = [(y, e) for y, e in m] + [(y, -e) for y, e in n]
    if c <= 0 or any(e % 2 == 0 and D.ATOMS[y].pos != 1 for y, e in fs):
        return real_atom("log", (x,))
    r = D.R(0)
    for k, sg in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while k > 1:
            if p * p > k or p > 1000:
                p = k
            e = 0
            while k % p == 0:
                k //= p
                e += 1
            if e:
                r = r_add(r, r_mul(D.R(sg * e), real_atom("log", (D.R(p),), pos=1)))
            p += 1
    for y, e in fs:
        a = D.ATOMS[y]
        if a.name == "exp":
            t = a.args[0]
        elif a.name == "sqrt":
            t = r_mul(D.R(Fraction(1, 2)), _log1(a.args[0]))
        else:
            t = real_atom("log", (D.Real({((y, 1),): Fraction(1)}, ONE_P),))
        r = r_add(r, r_mul(D.R(e), t))
    return r


def _log(base):
    def f(x):
        if x is UNDEF:
            return x
        return _log1(x) if base is None else r_div(_log1(x), _log1(D.R(base)))
    return lambda it, st, a, I: it.vec1(f, a[0])


def _expb(base):
    def h(it, st, a, I):
        return _pow(it, st, [D.R(base), a[0]], I)
    return h


def _quadrant(x):
    """x = k pi/2 + r: (k mod 4, r) when that is visible"""
    if x.num is None or x.den is not ONE_P or not x.num:
        return 0, x
    m = ((D.atom("pi", (), pos=1), 1),)
    q = x.num.get(m)
    if q is None:
        return 0, x
    k = (2 * q).numerator // (2 * q).denominator
    if len(x.num) > 1 and k == 0:
        return 0, x
    return k % 4, r_add(x, r_mul(D.R(Fraction(k, 2)), D.pi_atom()), -1)


def _sincos(x, isin):
    if x is UNDEF:
        return x
    k, r = _quadrant(x)
    if isin:
        k = (k + 3) % 4              # sin(x) = cos(x - pi/2)
    v = _cos0(r) if k % 2 == 0 else _sin0(r)     # cos(r + pi/2) = -sin r
    return r_neg(v) if k in (1, 2) else v


_SPECIAL = {Fraction(1, 6): (Fraction(1, 2), None), Fraction(1, 4): (None, 2), Fraction(1, 3): (None, 3)}


def _sin0(x):
    if x.h == (0, 0):
        return D.R(0)
    if x.num is not None:
        m = ((D.atom("pi", (), pos=1), 1),)
        if x.den is ONE_P and set(x.num) == {m}:
            q = x.num[m]
            if q in _SPECIAL:
                c, s = _SPECIAL[q]
                return D.R(c) if c is not None else r_mul(D.R(Fraction(1, 2)), real_sqrt(D.R(s)))
            if q > Fraction(1, 4):       # in the first quadrant
                return _cos0(r_add(r_mul(D.R(Fraction(1, 2)), D.pi_atom()), x, -1))
            return real_atom("sin", (x,), pos=1)
        if x.num[max(x.num)] < 0:
            return r_neg(real_atom("sin", (r_neg(x),)))
    return real_atom("sin", (x,))


def _cos0(x):
    if x.h == (0, 0):
        return D.R(1)
    if x.num is not None:
        m = ((D.atom("pi", (), pos=1), 1),)
        if x.den is ONE_P and set(x.num) == {m}:
            q = x.num[m]
            if Fraction(1, 2) - q in _SPECIAL or q > Fraction(1, 4):
                return _sin0(r_add(r_mul(D.R(Fraction(1, 2)), D.pi_atom()), x, -1))
            return real_atom("cos", (x,), pos=1)
        if x.num[max(x.num)] < 0:
            x = r_neg(x)
    return real_atom("cos", (x,))


def _sin(it, st, a, I):
    return it.vec1(lambda x: _sincos(x, True), a[0])


def _cos(it, st, a, I):
    return it.vec1(lambda x: _sincos(x, False), a[0])


def _odd(name):
    """sin, tan, atan, asinh, sinh: odd functions, f(0) = 0"""
    def f(x):
        if x is UNDEF:
            return x
        if x.h == (0, 0):
            return D.R(0)
        if x.num is not None and x.num[max(x.num)] < 0:
            return r_neg(_angle(name, r_neg(x)) or real_atom(name, (r_neg(x),)))
        return _angle(name, x) or real_atom(name, (x,))
    return lambda it, st, a, I: it.vec1(f, a[0])


def _even(name, at0=1, pos=None):
    def f(x):
        if x is UNDEF:
            return x
        if x.h == (0, 0):
            return D.R(at0)
        if x.num is not None and x.num[max(x.num)] < 0:
            x = r_neg(x)
        return real_atom(name, (x,), pos=pos)
    return lambda it, st, a, I: it.vec1(f, a[0])


def _minmax(kind):
    def h(it, st, a, I):
        def g(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            d = r_add(x, y, -1)
            return by_sign(d, x, y, y) if kind == "min" else by_sign(d, y, y, x)
        return lift(g, a[0], a[1])
    return h


def _iminmax(kind, sg):
    def h(it, st, a, I):
        c = it.icmp(("s" if sg else "u") + "lt", a[0], a[1], I.ty.bits)
        return ite(c, a[0], a[1]) if kind == "min" else ite(c, a[1], a[0])
    return h


def _fpclass(it, st, a, I):
    m = ival(a[1]) & 0x1f8                                  # NaN and infinity are outside the real-number semantics
    if m == 0x1f8 or m == 0:
        return lift(lambda x: UNDEF if x is UNDEF else TRUE if m else FALSE, a[0])
    raise Gap("class of a number")


def _bswap(it, st, a, I):
    n = I.ty.bits

    def g(x):
        if x is UNDEF:
            return x
        b = to_bits(x, n).b
        return Bits(tuple(b[n - 8 - (i - i % 8) + i % 8] for i in range(n)))
    return lift(g, a[0])


def _iabs(it, st, a, I):
    def g(x):
        if x is UNDEF:
            return x
        if isinstance(x, Bits):
            x = bits_int(x)
            if isinstance(x, Bits):
                raise Gap("absolute value of register contents")
        n = i_make({m: -c for m, c in x.p.items()})
        if x.lo >= 0:
            return x
        if x.hi <= 0:
            return n
        return by_sign(x, n, D.I(0), x)
    return lift(g, a[0])


def _fmuladd(it, st, a, I):
    return it.fbin("fadd", it.fbin("fmul", a[0], a[1], I.ty), a[2], I.ty)


def _fabs(it, st, a, I):
    return it.vec1(lambda x: x if x is UNDEF else real_abs(x), a[0])


def _sqrt(it, st, a, I):
    return it.vec1(lambda x: x if x is UNDEF else real_sqrt(x), a[0])


def _hypot(it, st, a, I):
    def g(x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        return real_sqrt(r_add(r_mul(x, x), r_mul(y, y)))
    return lift(g, a[0], a[1])


def _copysign(it, st, a, I):
    def g(x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        m = real_abs(x)
        return lift(lambda t: by_sign(y, r_neg(t), t, t), m)
    return lift(g, a[0], a[1])


def _cargs(a):
    if len(a) == 1 and isinstance(a[0], Agg):
        return list(a[0].e)
    return a


def _cabs(it, st, a, I):
    return _hypot(it, st, _cargs(a), I)


def _cfun(name):
    def h(it, st, a, I):
        a = _cargs(a)

        def g(which):
            def f(*x):
                if any(y is UNDEF for y in x):
                    return UNDEF
                return real_atom(name + which, tuple(x))
            return lift(f, *a)
        return Agg([g(".re"), g(".im")])
    return h


def _csqrt(it, st, a, I):
    """principal square root; of a real number in closed form"""
    re, im = _cargs(a)
    if not (isinstance(im, D.Real) and im.h == (0, 0)):
        if isinstance(im, D.Real) and isinstance(re, D.Real) and is_rconst(im) and is_rconst(re):
            x, y = rval(re), rval(im)
            t = real_sqrt(r_mul(D.R(Fraction(1, 2)), r_add(real_sqrt(D.R(x * x + y * y)), D.R(abs(x)))))
            if isinstance(t, D.Real):
                u = r_div(D.R(abs(y) / 2), t)
                sg = D.R(-1 if y < 0 else 1)
                return Agg([u, r_mul(sg, t)] if x < 0 else [t, r_mul(sg, u)])
        return _cfun("csqrt")(it, st, a, I)
    z = D.R(0)
    return Agg([lift(lambda x: UNDEF if x is UNDEF else lift(lambda p: by_sign(x, z, z, p), real_sqrt(x)), re),
                lift(lambda x: UNDEF if x is UNDEF else lift(lambda n: by_sign(x, n, z, z), real_sqrt(r_neg(x))), re)])


def _cacosh(it, st, a, I):
    """of a real number above -1: acosh or i acos"""
    re, im = _cargs(a)
    z, one = D.R(0), D.R(1)
    if not (isinstance(im, D.Real) and im.h == (0, 0)):
        return _cfun("cacosh")(it, st, a, I)

    def part(which):
        def f(x):
            if x is UNDEF:
                return x
            if not nonneg_known(x):
                return real_atom("cacosh" + which, (x, z))
            d = r_add(x, one, -1)
            return by_sign(d, z, z, real_atom("acosh", (x,))) if which == ".re" else by_sign(d, real_atom("acos", (x,)), z, z)
        return lift(f, re)
    return Agg([part(".re"), part(".im")])


def _ccosh(it, st, a, I):
    re, im = _cargs(a)
    f = lambda n, v: INTRINSICS[n](it, st, [v], I)
    m = lambda x, y: it.fbin("fmul", x, y, None)
    return Agg([m(f("cosh", re), f("cos", im)), m(f("sinh", re), f("sin", im))])


def _cmul2(fre, fim, gre, gim, neg=False):
    """f(re) g(im) style closed forms of the complex exponential and its kin"""
    def h(it, st, a, I):
        re, im = _cargs(a)
        f = lambda n, v: INTRINSICS[n](it, st, [v], I)
        m = lambda x, y: it.fbin("fmul", x, y, None)
        s = m(f(gre, re), f(gim, im))
        return Agg([m(f(fre, re), f(fim, im)), lift(lambda x: x if x is UNDEF else r_neg(x), s) if neg else s])
    return h


def _clog(it, st, a, I):
    re, im = _cargs(a)
    return Agg([INTRINSICS["log"](it, st, [_hypot(it, st, [re, im], I)], I), INTRINSICS["atan2"](it, st, [im, re], I)])


def _scalb(it, st, a, I):
    def g(x, n):
        if x is UNDEF or n is UNDEF:
            return UNDEF
        if not (isinstance(n, Int) and is_iconst(n)):
            raise Gap("power of two by data")
        return r_mul(x, D.R(Fraction(2) ** ival(n)))
    return lift(g, a[0], a[1])


def _bitcount(kind):
    def h(it, st, a, I):
        n = I.ty.bits

        def g(x):
            if x is UNDEF:
                return x
            if isinstance(x, Bits):
                x = bits_int(x)
            if not (isinstance(x, Int) and is_iconst(x)):
                raise Gap("bits of data counted")
            u = ival(x) & ((1 << n) - 1)
            return D.I(bin(u).count("1") if kind == "pop" else n - u.bit_length() if kind == "lz" else n if not u else (u & -u).bit_length() - 1)
        return lift(g, a[0])
    return h


def _checked(op, sg):
    """llvm.{s,u}{add,sub,mul}.with.overflow: the wrapped result and whether it differs from the exact one"""
    def h(it, st, a, I):
        n = I.ty.elems[0].bits

        def exact(x, y):
            if not sg:
                x, y = unsigned_view(x, n), unsigned_view(y, n)
            return i_make(D.p_mul(x.p, y.p)) if op == "mul" else i_make(D.p_add(x.p, y.p, 1 if op == "add" else -1))

        def val(x, y):
            return UNDEF if x is UNDEF or y is UNDEF else wrap(exact(x, y).p, n)

        def ovf(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            e = exact(x, y)
            lo, hi = (smin(n), smax(n)) if sg else (0, (1 << n) - 1)
            if e.lo >= lo and e.hi <= hi:
                return FALSE
            if e.lo > hi or e.hi < lo:
                return TRUE
            up = it.sgnsel("gt", i_make(D.p_add(e.p, D.p_const(Fraction(-hi)))))
            dn = it.sgnsel("lt", i_make(D.p_add(e.p, D.p_const(Fraction(-lo)))))
            return bor(up, dn)
        return Agg([lift(val, a[0], a[1]), lift(ovf, a[0], a[1])])
    return h


def _muldc(it, st, a, I):
    a = _cargs(a) if len(a) == 1 else [x for y in a for x in (y.e if isinstance(y, Agg) else (y,))]
    m = lambda x, y: it.fbin("fmul", x, y, None)
    return Agg([it.fbin("fsub", m(a[0], a[2]), m(a[1], a[3]), None), it.fbin("fadd", m(a[0], a[3]), m(a[1], a[2]), None)])


def _divdc(it, st, a, I):
    a = [x for y in a for x in (y.e if isinstance(y, Agg) else (y,))]
    m = lambda x, y: it.fbin("fmul", x, y, None)
    d = it.fbin("fadd", m(a[2], a[2]), m(a[3], a[3]), None)
    re = it.fbin("fadd", m(a[0], a[2]), m(a[1], a[3]), None)
    im = it.fbin("fsub", m(a[1], a[2]), m(a[0], a[3]), None)
    return Agg([it.fbin("fdiv", re, d, None), it.fbin("fdiv", im, d, None)])


def _memcpy(it, st, a, I):
    if type(a[0]) is Node or type(a[1]) is Node:
        it.node_memcpy(st, a[0], a[1], a[2], I)
    else:
        it.memcpy(st, a[0], a[1], a[2], I)
    return a[0]


BYTE = Ty()
BYTE.kind, BYTE.bits, BYTE.n, BYTE.elem, BYTE.elems, BYTE.offs, BYTE.ref, BYTE.size = "int", 8, 0, None, None, None, None, 1


def _bytes(it, st, p, n, I, what):
    """n bytes at p when the analysis knows their values, else an exception"""
    if not (isinstance(n, Int) and is_iconst(n)):
        raise Gap("%s of symbolic length" % what)
    out = []
    for i in range(ival(n)):
        v = it.load(st, Ptr(p.obj, p.off + i), BYTE, I)
        if isinstance(v, Bits):
            v = bits_int(v)
        if not (isinstance(v, Int) and is_iconst(v)):
            raise Gap("%s of unknown characters" % what)
        out.append(ival(v) & 255)
    return out


def _memchr(it, st, a, I):
    c = a[1]
    if not (isinstance(c, Int) and is_iconst(c)):
        raise Gap("memchr for an unknown character")
    if ival(a[2]) == 0 if isinstance(a[2], Int) and is_iconst(a[2]) else False:
        return Ptr(None, 0)
    for i, b in enumerate(_bytes(it, st, a[0], a[2], I, "memchr")):
        if b == ival(c) & 255:
            return Ptr(a[0].obj, a[0].off + i)
    return Ptr(None, 0)


def _memcmp(it, st, a, I):
    if isinstance(a[2], Int) and is_iconst(a[2]) and ival(a[2]) == 0:
        return D.I(0)
    x, y = _bytes(it, st, a[0], a[2], I, "memcmp"), _bytes(it, st, a[1], a[2], I, "memcmp")
    return D.I((x > y) - (x < y))


def _strlen(it, st, a, I):
    p = a[0]
    for i in range(100000):
        if not it.check(st, Ptr(p.obj, p.off + i) if isinstance(p, Ptr) and p.obj is not None else p, 1, I, "read"):
            return UNDEF
        if _bytes(it, st, Ptr(p.obj, p.off + i), D.I(1), I, "strlen")[0] == 0:
            return D.I(i)
    raise Gap("text without end")


def _memset(it, st, a, I):
    p, v, n = a[0], a[1], a[2]
    if not (isinstance(n, Int) and is_iconst(n)):
        raise Gap("memset of symbolic length")
    n = ival(n)
    if n == 0:
        return p
    if not it.check(st, p, n, I, "write"):
        return p
    if isinstance(v, Bits):
        v = bits_int(v)
    # zero fill keeps wide cells readable as any type
    it.kill(st, p.obj, p.off, n)
    cells = st.cells(p.obj, True)
    for i in range(n):
        cells[p.off + i] = (1, v)
        it.wloc[(p.obj, p.off + i)] = it.loc(I)
    return p


def _new(it, st, a, I):
    n = a[0]
    if isinstance(n, Bits):
        n = bits_int(n)
    if not (isinstance(n, Int) and is_iconst(n)):
        raise Gap("allocation of symbolic size")
    return Ptr(Obj("heap", ival(n), "heap"), 0)


def _nop(it, st, a, I):
    return UNDEF if I.ty.kind != "void" else None


def _arg0(it, st, a, I):
    return a[0]


def _lround(name):
    def h(it, st, a, I):
        n = I.ty.bits
        return lift(lambda x: UNDEF if x is UNDEF else int_atom(name, smin(n), smax(n), (x,)), a[0])
    return h


def _round_half_away(it, st, a, I):
    def f(x):
        if x is UNDEF:
            return x
        h = D.R(Fraction(1, 2))
        pos = int_to_real(real_to_int(r_add(x, h), 64))
        neg = int_to_real(real_to_int(r_add(x, h, -1), 64))
        return by_sign(x, neg, D.R(0), pos)
    return lift(f, a[0])


def _truncf(it, st, a, I):
    return lift(lambda x: x if x is UNDEF else int_to_real(real_to_int(x, 64)), a[0])


def _floor(name):
    def f(x):
        if x is UNDEF:
            return x
        if is_rconst(x):
            c = rval(x)
            return D.R(c.numerator // c.denominator if name == "floor" else -((-c.numerator) // c.denominator))
        return real_atom("floor", (x,)) if name == "floor" else r_neg(real_atom("floor", (r_neg(x),)))
    return lambda it, st, a, I: lift(f, a[0])


def _expect(it, st, a, I):
    return a[0]


INTRINSICS = {}
for _s in ("", "f"):
    for _n, _h in (("sqrt", _sqrt), ("fabs", _fabs), ("pow", _pow), ("exp", _exp), ("exp2", _expb(2)), ("exp10", _expb(10)),
                   ("hypot", _hypot), ("copysign", _copysign), ("cabs", _cabs), ("fmin", _minmax("min")), ("fmax", _minmax("max")),
                   ("sin", _sin), ("tan", _odd("tan")), ("atan", _odd("atan")), ("sinh", _odd("sinh")), ("asinh", _odd("asinh")),
                   ("asin", _odd("asin")), ("tanh", _odd("tanh")), ("atanh", _odd("atanh")),
                   ("cos", _cos), ("cosh", _even("cosh", 1, 1)), ("acosh", _u1("acosh", None, lambda x: D.R(0) if x.h == (1, 1) else None)), ("acos", _u1("acos", None, lambda x: _angle("acos", x))),
                   ("log", _log(None)), ("log10", _log(10)), ("log2", _log(2)), ("atan2", _atan2),
                   ("floor", _floor("floor")), ("ceil", _floor("ceil")), ("trunc", _truncf), ("round", _round_half_away), ("fma", _fmuladd),
                   ("csqrt", _csqrt), ("cacosh", _cacosh), ("ccosh", _ccosh), ("cexp", _cmul2("exp", "cos", "exp", "sin")),
                   ("csin", _cmul2("sin", "cosh", "cos", "sinh")), ("csinh", _cmul2("sinh", "cos", "cosh", "sin")), ("cbrt", _odd("cbrt")),
                   ("ldexp", _scalb), ("scalbn", _scalb),
                   ("cpow", _cfun("cpow")), ("clog", _clog), ("ctanh", _cfun("ctanh")), ("cacos", _cfun("cacos")),
                   ("ccos", _cmul2("cos", "cosh", "sin", "sinh", True)), ("lround", _lround("lround")), ("llround", _lround("lround")), ("lrint", _lround("lrint"))):
        if _h:
            INTRINSICS[_n + _s] = _h
for _n in ("sqrt", "fabs", "pow", "exp", "exp2", "exp10", "copysign", "sin", "cos", "log", "log10", "log2", "floor", "ceil", "trunc", "round", "fma"):
    INTRINSICS["llvm." + _n] = INTRINSICS[_n]
INTRINSICS.update({"llvm.%s%s.with.overflow" % (_q, _n): _checked(_n, _q == "s") for _n in ("add", "sub", "mul") for _q in "su"})
INTRINSICS.update({
    "llvm.bswap": _bswap, "llvm.is.fpclass": _fpclass, "llvm.ctpop": _bitcount("pop"), "llvm.ctlz": _bitcount("lz"), "llvm.cttz": _bitcount("tz"), "llvm.ldexp": _scalb,
    "llvm.fmuladd": _fmuladd, "llvm.powi": _pow, "llvm.minnum": _minmax("min"), "llvm.maxnum": _minmax("max"),
    "llvm.smin": _iminmax("min", True), "llvm.smax": _iminmax("max", True), "llvm.umin": _iminmax("min", False),
    "llvm.umax": _iminmax("max", False), "llvm.abs": _iabs, "abs": _iabs, "labs": _iabs, "llabs": _iabs,
    "llvm.memcpy": _memcpy, "llvm.memmove": _memcpy, "memcpy": _memcpy, "memmove": _memcpy, "llvm.memset": _memset, "memset": _memset, "memchr": _memchr, "memcmp": _memcmp, "strlen": _strlen,
    "__muldc3": _muldc, "__mulsc3": _muldc, "__divdc3": _divdc, "__divsc3": _divdc,
    "_Znwm": _new, "_Znwj": _new, "_Znwt": _new, "_Znam": _new, "malloc": _new, "_ZdlPv": _nop, "_ZdlPvm": _nop, "_ZdaPv": _nop, "free": _nop,
    "__cxa_guard_acquire": _guard_acquire, "__cxa_guard_release": _guard_release, "llvm.invariant.start": _nop, "llvm.invariant": _nop,
    "llvm.assume": _nop, "llvm.expect": _expect, "llvm.stacksave": _nop, "llvm.stackrestore": _nop, "llvm.is.constant": lambda it, st, a, I: FALSE,
    "llvm.experimental": _nop, "llvm.launder.invariant.group": _arg0, "llvm.dbg": _nop, "llvm.lifetime": _nop,
})
