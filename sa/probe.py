"""Obligations: a fragment that uses the library (`code`) against an independent definition (`spec`), decided for every
input by the gated value-flow analysis.  Also: compile-time witnesses.  Nothing is executed."""
import json, os, pickle, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import dom as D
from .dom import *                     # noqa
from .llvmc import Module, Ty
from . import text, history
from .absint import Ptr, Interp, Obj, State, Slot, NOTHING, demangle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("KE_REPO", "/repo"))
INC = REPO + "/include"
CLANG = shutil.which("clang++-18") or shutil.which("clang++") or "/usr/lib/llvm-18/bin/clang++"

DESK = ["-std=c++17", "-I" + INC, "-ffp-contract=off"]
AVR = ["--target=avr", "-mmcu=atmega328p", "-std=c++17", "-isystem/usr/lib/avr/include", "-I" + INC, "-ffp-contract=off",
       "-DF_CPU=16000000L", "-DF_CPU_HZ=16000000L", "-fno-exceptions", "-fno-threadsafe-statics", "-D__AVR=1", "-Wno-macro-redefined"]
# device code: clang's AVR calling convention copies arguments of class type with a destructor (avr-gcc does not), which would double
# the effect of their destructors; the MSP430 front end has the same integer and pointer widths and the standard C++ convention
DEVICE = ["--target=msp430", "-std=c++17", "-isystem/usr/lib/avr/include", "-I" + INC, "-ffp-contract=off", "-DF_CPU=16000000L", "-DF_CPU_HZ=16000000L",
          "-fno-exceptions", "-fno-threadsafe-statics", "-D__AVR=1", "-D__AVR__=1", "-DAVR=1", "-D__AVR_ATmega328P__=1", "-D__AVR_ARCH__=5", "-D__AVR_MEGA__=1", "-D__AVR_HAVE_MUL__=1",
          "-D__AVR_SFR_OFFSET__=0x20", "-D__AVR_2_BYTE_PC__=1", "-D__AVR_HAVE_SPH__=1", "-Wno-macro-redefined"]
TARGET = {"desktop": DESK, "avr": AVR, "device": DEVICE}
# the other compilers of the project: asked for their verdict on witnesses only
GCC = {"gcc": ["g++", "-std=c++17", "-I" + INC, "-fsyntax-only", "-w", "-fmax-errors=4"],
       "avr-gcc": ["avr-g++", "-mmcu=atmega328p", "-std=c++17", "-I" + INC, "-DF_CPU=16000000L", "-DF_CPU_HZ=16000000L", "-fsyntax-only", "-w", "-fmax-errors=4"]}
IRF = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c", "-w", "-fno-exceptions"]


NCPU = min(8, os.cpu_count() or 1)


ASSUME = ["floating-point arithmetic is treated as real arithmetic; NaN and rounding are outside the properties",
          "the IR clang 18 generates from the current headers (no optimisation passes) represents the C++ source",
          "the instantiations listed in coverage.explanation represent the templates"]


# time for one obligation, and for all of a check, in seconds; what is not reached is reported as not decided
PROBE_S = 150
AFTER_S = 45
TOTAL_S = {"quick": 600, "thorough": 20000}


class Internal(Exception):
    """the analysis itself cannot give an answer"""


class Budget(BaseException):
    pass


def mkty(kind, bits):
    t = Ty()
    t.kind, t.bits, t.n, t.elem, t.elems, t.offs, t.ref = kind, bits, 0, None, None, None, None
    t.size = (bits + 7) // 8
    return t


CT = {"desktop": {"double": ("float", 64), "float": ("float", 32), "int": ("int", 32), "signed char": ("int", 8), "short": ("int", 16),
                  "long long": ("int", 64), "bool": ("int", 8), "char": ("int", 8), "unsigned char": ("int", 8),
                  "unsigned short": ("int", 16), "unsigned": ("int", 32), "unsigned long long": ("int", 64), "unsigned long": ("int", 64), "long": ("int", 64), "ptr": ("ptr", 64)},
      "avr": {"double": ("float", 32), "float": ("float", 32), "int": ("int", 16), "signed char": ("int", 8), "short": ("int", 16), "long": ("int", 32),
              "long long": ("int", 64), "bool": ("int", 8), "char": ("int", 8), "unsigned char": ("int", 8), "unsigned short": ("int", 16),
              "unsigned": ("int", 16), "unsigned long": ("int", 32), "unsigned long long": ("int", 64)}}
CT["device"] = CT["avr"]


class A:
    """probe parameter.  kind: in (array), out (array), io (array), s (scalar), k (constant)"""

    def __init__(self, kind, name, ty, n=1, lo=None, hi=None, val=None, traced=False):
        self.traced = traced
        self.kind, self.name, self.ty, self.n, self.lo, self.hi, self.val = kind, name, ty, n, lo, hi, val

    def decl(self):
        if self.kind == "in":
            return "%s const * %s" % (self.ty, self.name)
        if self.kind in ("out", "io"):
            return "%s * %s" % (self.ty, self.name)
        if self.kind == "os":
            return "std::ostream & %s" % self.name
        return "%s %s" % (self.ty, self.name)


def IN(n, t, c=1, **k):
    return A("in", n, t, c, **k)


def OUT(n, t, c=1, **k):
    return A("out", n, t, c, **k)


def IO(n, t, c=1, **k):
    return A("io", n, t, c, **k)


def STREAM(n="os"):
    """an output stream: what is written to it is compared as effects"""
    return A("os", n, None)


def S(n, t, **k):
    return A("s", n, t, **k)


def K(n, t, v):
    return A("k", n, t, val=v)


class Probe:
    def __init__(self, name, args, code, spec, what, targets=("desktop",), pre="", hooks=None, alt=None, abort_ok=False, partition=None, settled=False, answers=None):
        self.answers = answers            # register address -> what it reads after 0, 1, 2, ... writes to it
        self.settled = settled            # the order of device accesses does not matter, only what the registers hold at the end
        self.partition = partition        # what a data-dependent conversion to an integer yields (the conversion's operand is compared)
        self.name, self.args, self.code, self.spec, self.what, self.targets = name, args, code, spec, what, targets
        self.pre = pre                # declarations before the two functions
        self.hooks = hooks or {}
        self.abort_ok = abort_ok      # aborting (a failed precondition) is not compared

    def text(self, which):
        body = self.code if which == "c" else self.spec
        if body is None:
            return ""
        return 'extern "C" void %s_%s(%s)\n{\n%s\n}\n' % (which, self.name, ", ".join(a.decl() for a in self.args), body)


class Suite:
    """probes sharing a prelude"""

    def __init__(self, name, prelude, probes, target="desktop", flags=(), word_bits=False):
        self.name, self.prelude, self.probes, self.target, self.flags, self.word_bits = name, prelude, probes, target, list(flags), word_bits


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


class Ctx:
    """one check run"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []          # dict(key, text, loc)
        self.known = []
        self.nobl = self.ndis = self.nslots = self.ninstr = self.nfail = 0
        self.functions = set()
        self.rules = {}
        self.samples = []
        self.notes = []
        self.undecided, self.nprobes = [], 0
        self.only = None        # the kinds of faults that are looked for, and nothing else
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix="ke_" + pid + "_")
        self.kf = load_known(pid)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def ok(self, rule, n=1):
        self.nobl += n
        self.ndis += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def report(self, rule, key, text, loc="", got=""):
        """a violation, or a listed known finding"""
        self.nobl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        for k in self.kf:
            if k["key"] == key and (k.get("got") is None or k["got"] == got):
                self.known.append((k, text))
                return
        self.viol.append(dict(rule=rule, key=key, text=text, location=loc, got=got))

    # ------------------------------------------------------------ compile-time witnesses
    def compile(self, src, name, target="desktop", flags=(), mode="syntax"):
        p = "%s/%s.cpp" % (self.tmp, re.sub(r"\W", "_", name))
        with open(p, "w") as f:
            f.write(src)
        if mode == "syntax":
            cmd = [*GCC[target], *flags, p] if target in GCC else [CLANG, *TARGET[target], "-fsyntax-only", "-w", "-ferror-limit=4", *flags, p]
            r = run(cmd)
            return r.returncode == 0, r.stdout
        o = p[:-4] + ".bc"
        r = run([CLANG, *TARGET[target], *IRF, *flags, p, "-o", o])
        return (o if r.returncode == 0 else None), r.stdout

    def witnesses(self, prelude, items, targets=("desktop",), flags=()):
        """items: (name, snippet, must_compile, what).  A snippet is a function body; the compiler's verdict decides."""
        targets = [t for t in targets if t not in GCC or shutil.which(GCC[t][0])]
        with ThreadPoolExecutor(NCPU) as ex:
            jobs = []
            for t in targets:
                jobs.append((t, None, ex.submit(self.compile, prelude, "w_prelude_" + t, t, flags)))
                for it in items:
                    src = prelude + "\nvoid witness()\n{\n" + it[1] + "\n}\n"
                    jobs.append((t, it, ex.submit(self.compile, src, "w_%s_%s" % (t, it[0]), t, flags)))
            bad = set()
            for t, it, j in jobs:
                ok, log = j.result()
                if it is None:
                    if not ok:
                        bad.add(t)
                        self.report("compiles", "witness/%s/prelude" % t, "the headers do not compile (%s): %s" % (t, errline(log)), errloc(log))
                    continue
                if t in bad:
                    continue
                name, code, must, what = it[:4]
                if ok == must:
                    self.ok("accepted by the compiler" if must else "rejected by the compiler")
                    if not must:
                        self.sample("%s/%s: rejected: %s" % (t, name, errline(log)[-140:]))
                        if os.environ.get("KE_SHOW"):
                            print("REJ", self.pid, name, errline(log)[-150:])
                elif must:
                    self.report("accepted by the compiler", "witness/%s/%s" % (t, name), "%s [%s]: no longer compiles: %s" % (what, t, errline(log)), errloc(log), errline(log))
                else:
                    self.report("rejected by the compiler", "witness/%s/%s" % (t, name), "%s [%s]: compiles, but must be rejected: %s" % (what, t, code.strip()[:200]), it[4] if len(it) > 4 else "", "compiles")

    # ------------------------------------------------------------ suites
    def run_suites(self, suites):
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for s in suites:
                src = s.prelude + "\n" + "\n".join(p.pre + "\n" + p.text("c") + p.text("s") for p in s.probes)
                jobs.append((s, ex.submit(self.compile, src, s.name + "_" + s.target, s.target, s.flags, "ir")))
            done = [(s, j.result()) for s, j in jobs]
            single = []
            for s, (o, log) in done:
                if o is not None:
                    continue
                ok, plog = self.compile(s.prelude, s.name + "_prelude", s.target, s.flags)
                if not ok:
                    # the headers themselves do not compile for this use
                    self.report("compiles", "%s/%s/prelude" % (s.name, s.target),
                                "the headers used by '%s' (%s) do not compile: %s" % (s.name, s.target, errline(plog)), errloc(plog))
                    continue
                for p in s.probes:
                    single.append((s, p, ex.submit(self.compile, s.prelude + "\n" + p.pre + "\n" + p.text("c") + p.text("s"),
                                                   s.name + "_" + s.target + "_" + p.name, s.target, s.flags, "ir"),
                                   ex.submit(self.compile, s.prelude + "\n" + p.pre + "\n" + p.text("s"), s.name + "_" + s.target + "_s_" + p.name, s.target, s.flags)))
            mods = []
            for s, (o, log) in done:
                if o is not None:
                    mods.append((s, s.probes, o))
            for s, p, j, js in single:
                o, log = j.result()
                if o is None:
                    if not js.result()[0]:
                        raise Internal("specification %s does not compile: %s" % (p.name, errline(js.result()[1])))
                    self.report("compiles", "%s/%s/%s" % (s.name, s.target, p.name),
                                "%s: the use no longer compiles (%s): %s" % (p.what, s.target, errline(log)), errloc(log))
                else:
                    mods.append((s, [p], o))
        self.fan_out(mods)

    STATE = ("viol", "known", "nobl", "ndis", "nslots", "ninstr", "functions", "rules", "samples")

    def fan_out(self, mods):
        """decide the probes of all modules, in forked workers; results are merged in a fixed order"""
        tasks = []
        for s, probes, o in mods:
            step = max(1, min(40, (len(probes) + 7) // 8))
            for i in range(0, len(probes), step):
                tasks.append((s, probes[i:i + step], o))
        nw = min(NCPU, len(tasks))
        if nw == 0:
            return
        kids = []
        for w in range(nw):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    res = []
                    cache = {}
                    signal.signal(signal.SIGALRM, self.overrun)
                    for i in range(w, len(tasks), nw):
                        s, probes, o = tasks[i]
                        for a in self.STATE:
                            v = getattr(self, a)
                            setattr(self, a, type(v)())
                        err = []
                        if o not in cache:
                            cache.clear()
                            cache[o] = Module(o)
                        for p in probes:
                            left = min(PROBE_S, self.t0 + TOTAL_S[self.tier] - time.time())
                            t = "%s/%s" % (s.target, p.name)
                            try:
                                if left < 1 or self.late():
                                    raise Budget()
                                t1 = time.time()
                                self.timed = (t1, t1 + left)
                                signal.setitimer(signal.ITIMER_REAL, min(left, 2), 2)
                                try:
                                    self.decide(s, cache[o], p)
                                finally:
                                    signal.setitimer(signal.ITIMER_REAL, 0)
                                    if self.viol and not os.path.exists(self.tmp + "/viol"):
                                        open(self.tmp + "/viol", "w").close()
                                    if os.environ.get("KE_TIME"):
                                        print("TIME %.1f %s" % (time.time() - t1, t), flush=True)
                            except Budget:
                                err.append((t, "not decided within %d s" % left, True))
                            except Internal as e:
                                err.append((t, str(e), False))
                            except Exception:
                                err.append((t, "%s: %s" % (p.name, traceback.format_exc()[-1500:]), False))
                        res.append((i, {a: getattr(self, a) for a in self.STATE}, err))
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        out = {}
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise Internal("an analysis worker died")
            for i, st, err in pickle.loads(data):
                out[i] = (st, err)
        for i in sorted(out):
            st, e = out[i]
            self.undecided += e
            self.viol += st["viol"]
            self.known += st["known"]
            for a in ("nobl", "ndis", "nslots", "ninstr"):
                setattr(self, a, getattr(self, a) + st[a])
            self.functions |= st["functions"]
            for k, v in st["rules"].items():
                self.rules[k] = self.rules.get(k, 0) + v
            if len(self.samples) < 12:
                self.samples += st["samples"][:2]
        self.nprobes += sum(len(p) for _, p, _ in mods)

    def late(self):
        """once a violation is found the rest is looked at for a minute only"""
        try:
            return time.time() - os.path.getmtime(self.tmp + "/viol") > AFTER_S
        except OSError:
            return False

    def overrun(self, *a):
        if time.time() >= self.timed[1] or self.late():
            raise Budget()

    def decide(self, s, m, p):
        D.reset()
        if self.only is not None:
            return self.only_faults(s, m, p)
        try:
            c = self.evaluate(s, m, p, "c")
        except Gap as e:
            it = self.last
            for f in it.faults:
                if f.pc is not FALSE:
                    # what was seen up to here happens on a feasible path, whatever follows
                    self.report("memory", "%s/%s/%s/fault:%s" % (s.name, s.target, p.name, f.kind), "%s [%s]: %s" % (p.what, s.target, f.text), f.loc, f.text)
                    return
            raise Internal("%s/%s: %s" % (s.target, p.name, e))
        try:
            sp = self.evaluate(s, m, p, "s") if isinstance(p.spec, str) else None
        except Gap as e:
            raise Internal("%s/%s (specification): %s" % (s.target, p.name, e))
        self.compare(s, p, c, sp)

    def evaluate(self, s, m, p, which):
        it = Interp(m, word_bits=s.word_bits, hooks=dict(text.HOOKS, **history.HOOKS, **p.hooks), repo=REPO + "/")
        self.last = it
        it.partition = p.partition
        it.settled = {} if p.settled else None
        it.stuck = p.answers
        # narrowing to float is visible wherever the computation is declared to be in double
        it.round_floats = s.target == "desktop" and not any(a.ty == "float" for a in p.args)
        st = State()
        fn = m.fns["%s_%s" % (which, p.name)]
        vals, objs = [], {}
        for a in p.args:
            if a.kind == "os":
                o = Obj(a.name, None, "stream")
                vt = Obj("vtable of a stream", None, "stream")
                vt.default = lambda off, ty: D.I(0)
                o.default = lambda off, ty: Ptr(vt, 0) if off == 0 else D.I(0)
                vals.append(Ptr(o, 0))
                continue
            kind, bits = CT[s.target][a.ty]
            ty = mkty(kind, bits)
            if a.kind in ("in", "out", "io"):
                o = Obj(a.name, ty.size * a.n, "arg")
                o.default = None if a.kind == "out" else mkdefault(a, ty, s.word_bits)
                objs[a.name] = (o, ty)
                if a.traced:
                    it.traced_as[o] = a.name
                vals.append(Ptr(o, 0))
            elif a.kind == "k":
                vals.append(D.R(a.val) if kind == "float" else (TRUE if a.val else FALSE) if a.ty == "bool" else D.I(a.val))
            else:
                vals.append(scalar(a.name, a, ty, s.word_bits))
        try:
            ret, out = it.call_fn(fn, vals, st)
        except Gap as e:
            raise Gap("%s at %s" % (e, it.loc(getattr(it, "cur", None))))
        it.settle()
        return it, out, objs

    def leafnorm(self, v, ty, words=False):
        if words and type(v) is Node and ty.kind == "int" and ty.bits > 1 and not _has_undef(v):
            return to_bits(v, ty.bits)
        if ty.kind == "int":
            return lift(lambda x: wrap(x.p, ty.bits) if isinstance(x, Int) else x, v)
        return v

    def compare(self, s, p, c, sp):
        it, out, objs = c
        if sp is None:
            return self.memory_only(s, p, c)
        its, outs, objss = sp
        self.ninstr += it.instrs
        for f in it.visited:
            self.functions.add(f)
        tag = "%s/%s/%s" % (s.name, s.target, p.name)
        good = True
        if its.faults:
            raise Internal("specification %s: %s" % (p.name, its.faults[0].text))
        seen = set()
        for f in it.faults:
            if f.pc is FALSE or (f.kind, f.loc) in seen:
                continue
            seen.add((f.kind, f.loc))
            good = False
            self.report("memory", tag + "/fault:" + f.kind, "%s [%s]: %s" % (p.what, s.target, f.text), f.loc, f.text)
        if p.partition is not None:
            ca, sa_ = [v for v, l in it.split_on], [v for v, l in its.split_on]
            if [v.key for v in ca] != [v.key for v in sa_]:
                good = False
                self.report("value-flow", tag + "/split", "%s [%s]: the integer is computed from %s; expected %s" % (p.what, s.target, "; ".join(v_str(v)[:200] for v in ca),
                            "; ".join(v_str(v)[:200] for v in sa_)), it.split_on[0][1] if it.split_on else fnlist(it), "; ".join(fingerprint(v) for v in ca))
        care = bnot(its.abort)
        if not p.abort_ok and it.abort.key != its.abort.key:
            good = False
            self.report("precondition", tag + "/abort",
                        "%s [%s]: %s %s, expected %s" % (p.what, s.target, "waits while" if it.waited or its.waited else "the run-time precondition differs: aborts when", v_str(it.abort), v_str(its.abort)),
                        fnlist(it))
        self.nobl += 1
        if good:
            self.ndis += 1
        if out is None and outs is None:
            self.rules["value-flow"] = self.rules.get("value-flow", 0) + 1
            return
        if out is None or outs is None:
            if good:
                self.report("precondition", tag + "/abort", "%s [%s]: never returns" % (p.what, s.target), fnlist(it))
            return
        care = band(care, bnot(it.abort))
        self.compare_trace(s, p, tag, it, its, care)
        for a in p.args:
            if a.kind not in ("in", "out", "io"):
                continue
            o, ty = objs[a.name]
            os_, _ = objss[a.name]
            for i in range(a.n):
                off = i * ty.size
                self.nslots += 1
                self.nobl += 1
                try:
                    v = self.leafnorm(it.load(out, Ptr(o, off), ty), ty, s.word_bits)
                    w = self.leafnorm(its.load(outs, Ptr(os_, off), ty), ty, s.word_bits)
                except Gap as e:
                    raise Internal("%s: %s" % (tag, e))
                v, w = it.constr(v, care), it.constr(w, care)
                self.rules["value-flow"] = self.rules.get("value-flow", 0) + 1
                if self.same(v, w, tag):
                    self.ndis += 1
                    if i == 0 and a.kind != "in" and v is not UNDEF:
                        self.sample("%s: %s[%d] == %s" % (tag, a.name, i, v_str(v)[:160]))
                    continue
                if v is UNDEF or _has_undef(v):
                    txt = "is (partly) uninitialised: %s" % v_str(v)[:200]
                else:
                    txt = "is %s" % v_str(v)[:300]
                loc = it.origin.get(v.key) or it.wloc.get((o, off), "")
                if not loc.startswith(("include/", "example/", "time/")):
                    loc = fnlist(it)
                kind = "operand modified: " if a.kind == "in" else ""
                self.nobl -= 1
                self.report("value-flow", "%s/%s[%d]" % (tag, a.name, i),
                            "%s [%s]: %s%s[%d] %s; expected %s" % (p.what, s.target, kind, a.name, i, txt, v_str(w)[:300]), loc, fingerprint(v))

    def same(self, v, w, tag):
        if v.key == w.key:
            return True
        if isinstance(v, Bits) != isinstance(w, Bits) and not _has_undef(v) and not _has_undef(w):
            n = len((v if isinstance(v, Bits) else w).b)             # a number and the same number as a machine word
            try:
                return D.to_bits(v, n).key == D.to_bits(w, n).key
            except Gap:
                return False
        if type(v) is Node or type(w) is Node:
            if type(v) in (Node, Real, Int, D.BoolV) and type(w) in (Node, Real, Int, D.BoolV):
                try:
                    return D.differ(v, w) is None
                except D.TooLong:
                    raise Internal("%s: the difference of two values is not decided" % tag)
        return False

    def compare_trace(self, s, p, tag, it, its, care):
        """the sequence of visible effects (device reads and writes, instructions, output), position by position"""
        n = max(len(it.trace), len(its.trace))
        for k in range(n):
            x, y = (t.trace[k] if k < len(t.trace) else Slot() for t in (it, its))
            self.nobl += 1
            self.nslots += 1
            self.rules["effects"] = self.rules.get("effects", 0) + 1
            a, b = it.constr(x.tok, care), it.constr(y.tok, care)
            if a.key == b.key:
                g = lift(lambda t: FALSE if t is NOTHING else TRUE, b)
                g = band(care, g)
                v, w = it.constr(x.val, g), it.constr(y.val, g)
                if self.same(v, w, tag):
                    self.ndis += 1
                    if k == 0:
                        self.sample("%s: %d effects, first: %s" % (tag, len(it.trace), tok_str(b, w)))
                    continue
                txt = "%s, expected value %s" % (tok_str(a, v), v_str(w)[:200])
            else:
                txt = "%s; expected %s" % (tok_str(a, it.constr(x.val, care)), tok_str(b, it.constr(y.val, care)))
            loc = x.loc if x.loc.startswith(("include/", "example/", "time/")) else fnlist(it)
            self.nobl -= 1
            self.report("effects", "%s/effect[%d]" % (tag, k), "%s [%s]: effect %d is %s" % (p.what, s.target, k, txt), loc, txt[:200])
            break                    # what follows is displaced

    def only_faults(self, s, m, p):
        """what is asked for is the absence of faults of certain kinds"""
        gap = None
        try:
            self.evaluate(s, m, p, "c")
        except Gap as e:
            gap = e
        it, seen = self.last, set()
        self.ninstr += it.instrs
        self.functions |= it.visited
        self.nslots += it.nreads + it.nacts
        for f in it.faults:
            if f.kind in self.only and f.pc is not FALSE and (f.kind, f.loc) not in seen:
                seen.add((f.kind, f.loc))
                self.report(f.kind, "%s/%s/%s/%s" % (s.name, s.target, p.name, f.kind), "%s [%s]: %s" % (p.what, s.target, f.text), f.loc, f.text)
        if gap is not None and not seen:
            raise Internal("%s/%s: %s" % (s.target, p.name, gap))
        if not seen:
            self.ok("effects")

    def memory_only(self, s, p, c):
        """no specification: the fragment stays inside its objects, reads nothing uninitialised and writes all its outputs"""
        it, out, objs = c
        self.ninstr += it.instrs
        self.functions |= it.visited
        tag = "%s/%s/%s" % (s.name, s.target, p.name)
        good, seen = True, set()
        for f in it.faults:
            if f.pc is FALSE or (f.kind, f.loc) in seen:
                continue
            seen.add((f.kind, f.loc))
            good = False
            self.report("memory", tag + "/fault:" + f.kind, "%s [%s]: %s" % (p.what, s.target, f.text), f.loc, f.text)
        if out is None:
            good = False
            self.report("memory", tag + "/abort", "%s [%s]: never returns" % (p.what, s.target), fnlist(it))
        else:
            for a in p.args:
                if a.kind not in ("out", "io"):
                    continue
                o, ty = objs[a.name]
                for i in range(a.n):
                    self.nslots += 1
                    v = it.load(out, Ptr(o, i * ty.size), ty)
                    if _has_undef(it.constr(v, bnot(it.abort))):
                        good = False
                        self.report("memory", tag + "/%s[%d]" % (a.name, i), "%s [%s]: %s[%d] is (partly) uninitialised" % (p.what, s.target, a.name, i), it.wloc.get((o, i * ty.size)) or fnlist(it))
        if good:
            self.ok("memory")

    # ------------------------------------------------------------ finish
    def finish(self, meta, level="other", assumptions=()):
        explanation = "Rule: " + meta["how"] + ". Scope: " + meta["text"] + ". Limits: " + meta["note"] + "."
        assumptions = list(assumptions) + ASSUME
        wall = time.time() - self.t0
        if self.nobl < 1:
            raise Internal("no obligation was generated")
        for t, e, _ in self.undecided[:20]:
            print("NOT DECIDED: property=%s %s: %s" % (self.pid, t, e))
        if self.undecided and not self.viol and 2 * len(self.undecided) > self.nprobes:
            raise Internal("%d of %d obligations are not decided" % (len(self.undecided), self.nprobes))
        cov = dict(explanation=explanation, obligations=self.nobl, discharged=self.ndis, output_locations=self.nslots,
                   ir_instructions_analysed=self.ninstr, functions_analysed=len(self.functions),
                   rules=self.rules, samples=self.samples[:12],
                   functions_sample=sorted(demangle(f) for f in self.functions if not f.startswith(("c_", "s_")))[:40],
                   not_decided=["%s: %s" % (t, e[:300]) for t, e, _ in self.undecided],
                   known_findings=[k["key"] for k, _ in self.known], **self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(self.viol))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        path = "%s/evidence/%s.violation.json" % (VERIF, self.pid)
        if self.viol:
            ev["violation_list"] = self.viol[:40]
            with open(path, "w") as f:
                json.dump(self.viol, f, indent=1)
        elif os.path.exists(path):
            os.unlink(path)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        done = set()
        for k, t in self.known:
            if k["id"] not in done:
                done.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.viol[:25]:
            print("  [%s] %s\n      at %s" % (v["rule"], v["text"], v["location"]))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: %d obligations, %d discharged, %d output locations, %d functions, %d instructions, %.1f s" % (
            self.pid, self.nobl, self.ndis, self.nslots, len(self.functions), self.ninstr, wall))
        return 0


def tok_str(t, v):
    def one(d):
        if d[0] in ("read", "write"):
            return "%s of %d byte(s) at 0x%02x" % (d[0], d[2], d[1])
        if d[0] == "ends":
            return "final contents of 0x%02x" % d[1]
        return " ".join(str(x) for x in d)
    if type(t) is Node:
        ks = []
        lift(lambda x: ks.append(one(x.d)) or x, t)
        r = "(" + " | ".join(dict.fromkeys(ks)) + ")"
    else:
        r = one(t.d)
    return r if v is UNDEF or v is None else "%s: %s" % (r, v_str(v)[:200])


def fingerprint(v):
    """a name for a value that does not depend on how it is written down"""
    if isinstance(v, D.Real):
        return "R%016x%016x" % v.h
    return v_str(v)[:4000]


def _has_undef(v):
    if v is UNDEF:
        return True
    if type(v) is Node:
        return any(_has_undef(k) for k in v.kids)
    if type(v) is Agg:
        return any(_has_undef(k) for k in v.e)
    return False


def fnlist(it):
    l = [demangle(f) for f in sorted(it.visited) if not f.startswith(("c_", "s_")) and re.search(r"dsp|num|core|std20|mcu", f)]
    return "call graph: " + "; ".join(l[:4]) + (" ..." if len(l) > 4 else "")


def scalar(name, a, ty, word_bits=False):
    if a.ty == "bool":
        return bool_atom(name)
    if ty.kind == "float":
        return real_atom(name)
    if word_bits:
        return bits_atom(name, ty.bits)
    if a.ty.startswith("unsigned"):
        u = int_atom(name, 0 if a.lo is None else a.lo, (1 << ty.bits) - 1 if a.hi is None else a.hi)
        return wrap(u.p, ty.bits)
    return int_atom(name, smin(ty.bits) if a.lo is None else a.lo, smax(ty.bits) if a.hi is None else a.hi)


def mkdefault(a, ty, word_bits=False):
    def f(off, t):
        if off is None:
            return ty
        if off % ty.size or t.size != ty.size:
            raise Gap("partial access to %s" % a.name)
        n = "%s[%d]" % (a.name, off // ty.size)
        if a.ty == "bool":
            b = bool_atom(n)
            return lift(lambda x: D.I(1 if x is TRUE else 0), b)
        return scalar(n, a, ty, word_bits)
    return f


def errline(log):
    for l in log.splitlines():
        if "error:" in l:
            return l.strip().replace("/repo/", "")[:300]
    return log.strip()[-300:]


def errloc(log):
    for l in log.splitlines():
        m = re.match(r"(.*?:\d+):\d+: (?:fatal )?error", l)
        if m:
            return m.group(1).replace("/repo/", "")
    return ""


def load_known(pid):
    try:
        with open(VERIF + "/known-findings.json") as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []
