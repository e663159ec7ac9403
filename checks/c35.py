import glob, importlib, os, re
from sa.probe import *
from sa.llvmc import Const, Inst, IsGlobalConstant

META = dict(
    title="The library keeps no hidden state: only objects and device registers hold any",
    statement="What a library operation computes depends on its operands and, for device operations, the device registers only. No operation keeps a changing value in a variable of static or thread storage duration or consults one, nor the environment, a clock or a random source; on the microcontroller none allocates dynamic memory. Distinct objects can therefore be used from the main program, interrupt routines or threads at the same time without disturbing each other.",
    over=['programs', 'schedules'],
    text="every function of the library used by the fragments of the other properties (checked to be every function with a body except listed ones), with everything it calls, desktop, AVR and device code",
    why="A scratch buffer or cached value with static storage gives the right answer in every sequential test and goes wrong only when an interrupt, a thread or a second object comes between.",
    files=['include/core', 'include/dsp', 'include/mcu', 'include/num', 'include/std'],
    mechanism=[('operations work on parameters, members and locals only', 'all headers'), ('register access through fixed addresses', 'include/mcu/register.hpp')],
    how="an effect analysis over the call graph of the compiled fragments: each operand of each instruction of each reachable function with a body is inspected for variables of static or thread storage that can change, and each call out of the program for functions with ambient effects",
    note="sound for the instantiated functions up to pointers stored in objects by the user; standard-library functions without a body in the headers are classified by name, an unknown one is reported as not decided; printing (the *-io headers) is excluded",
    technique="interprocedural effect analysis over the compiler's IR (reachable static storage and ambient calls)",
)

# libc / libm / runtime functions whose result depends on their arguments only (errno and the rounding mode aside)
PURE = re.compile(r"^(llvm\..*|(sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|asinh|acosh|atanh|exp|exp2|expm1|log|log2|log10|log1p|pow|sqrt|cbrt|hypot|fabs|floor|ceil|trunc|round|rint|nearbyint|fmod|remainder|fma|ldexp|frexp|modf|scalbn|copysign|"
                  r"fmin|fmax|fdim|abs|labs|llabs|lround|llround|lrint|llrint|square|cabs|cexp|clog|cpow|csqrt|ccos|csin|cpolar|carg|nan|isnan|isinf|signbit|c(sin|cos|tan|sinh|cosh|tanh|asin|acos|atan|asinh|acosh|atanh|proj))[fl]?|mem(cpy|move|set|cmp|chr)|strlen|strcmp|strncmp|"
                  r"__assert_fail|__assert|abort|exit|_ZSt9terminatev|_ZSt\d+__throw_\w*|__(mul|div|rem|add|sub|fix|float|extend|trunc|eq|ne|lt|le|gt|ge|unord|neg|ash|lsh|u?div|u?mod|cmp|ucmp|pow|mspabi)\w*|__cxa_(throw|rethrow|begin_catch|end_catch|allocate_exception|free_exception|pure_virtual|throw_bad_array_new_length)|"
                  r"__gxx_personality\w*|__clang_call_terminate|_Unwind_Resume|_ZNSt\w*(allocator|basic_string|__cxx1112basic_string|logic_error|runtime_error|out_of_range|length_error|bad_alloc|exception|invalid_argument)\w*|_ZNKSt\w*(basic_string)\w*)$")
HEAP = re.compile(r"^(_Zn[wa]\w*|_Zd[la]P\w*|malloc|calloc|realloc|free|aligned_alloc|strdup|alloca)$")
AMBIENT = re.compile(r"^(s?rand\w*|random|drand48|time|clock\w*|gettimeofday|getenv|setenv|putenv|setlocale|localtime|gmtime|strtok|printf|puts|putchar|fputs|fwrite|fopen|fprintf|vprintf|write|read|signal|raise|longjmp|_setjmp|setjmp|fesetround|fesetenv|feraiseexcept|"
                     r"atexit|__cxa_atexit|__cxa_thread_atexit|__cxa_guard_\w+|_ZSt\w*random\w*|_ZNSt6chrono\w*|_ZNSt\w*random_device\w*|system|pthread_\w+)$")


class Collect:
    def __init__(self, tier="quick"):
        self.tier, self.suites, self.pid, self.extra, self.rules = tier, [], "", {}, {}

    def run_suites(self, s):
        self.suites += s

    def __getattr__(self, n):
        return lambda *a, **k: 0


def fixed_static(m, cs, fn, name):
    """a constant of static storage duration, initialised on first use by an expression that involves no argument"""
    v = "_Z" + name[4:] if name.startswith("_ZGVZ") else name
    if v not in cs:
        cs[v] = _fixed_static(m, v, "_ZGV" + v[2:])
    return cs[v]


def _fixed_static(m, v, guard):
    if not v.startswith("_ZZ") or guard not in m.globals:
        return False
    is_ = lambda x, n: isinstance(x, Const) and x.k == "global" and x.v == n
    for fn in m.fns.values():
        if fn.decl:
            continue
        m.body(fn)
        tests = [(B, I) for B in fn.blocks for I in B.insts if I.op == "load" and is_(I.ops[0], guard)]
        if not tests:
            continue
        if len(tests) != 1 or len(tests[0][0].succs) != 2:
            return False
        B = tests[0][0]
        c = [I for I in B.insts if I.op == "icmp"]
        if not c or B.insts[-1].op != "br":
            return False
        first, rest = B.succs                   # (guard == 0): initialise, then continue
        if c[-1].x == "ne":
            first, rest = rest, first
        region, work = set(), [first]
        while work:
            k = work.pop()
            if k in region or k == rest:
                continue
            region.add(k)
            work += fn.blocks[k].succs
        inside = [I for k in region for I in fn.blocks[k].insts + fn.blocks[k].phis]
        ids = {I.id for I in inside}
        const = any(I.op in ("call", "invoke") and isinstance(I.x, Const) and I.x.k == "func" and I.x.v.name.startswith("llvm.invariant.start") and any(is_(o, v) for o in I.ops) for I in inside)
        if not const or B.idx in region:
            return False
        slots = {I.id for C in fn.blocks for I in C.insts if I.op == "alloca"}
        for C in fn.blocks:
            for I in C.insts:
                if I.op == "store" and isinstance(I.ops[1], int) and I.ops[1] in slots and C.idx not in region:
                    slots.discard(I.ops[1])     # a variable that has its value from elsewhere
        for I in inside:
            for o in I.ops:
                o = o[0] if isinstance(o, tuple) else o
                if isinstance(o, int) and o not in ids and o not in slots:
                    return False
        return True
    return False


# no value of a variable is involved: constant data, and what the iostream headers put into each unit
def harmless(n):
    return n.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZSt4", "_ZStL8__ioinit", "__dso_handle", "llvm."))


def check(ctx):
    th = ctx.tier == "thorough"
    seen, todo = {}, []
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/c[0-9][0-9].py")):
        pid = os.path.basename(f)[:-3]
        if pid in ("c11", "c25", "c26", "c27") or pid >= "c35":
            continue                     # witnesses, headers, printing
        c = Collect()
        try:
            importlib.import_module("checks." + pid).check(c)
        except Exception as e:
            raise Internal("collecting %s: %s" % (pid, e))
        for s in c.suites:
            keep = []
            for p in s.probes:
                k = (pid, s.target, re.sub(r"\d+", "", p.name), p.code.count("(") if th else 0)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= (6 if th else 2):
                    keep.append(p)
            if keep:
                todo.append((pid, s, keep))
    jobs = []
    merged = {}
    for pid, s, keep in todo:
        merged.setdefault((pid, s.target, s.prelude, s.flags if isinstance(s.flags, tuple) else tuple(s.flags)), []).extend(keep)
    with ThreadPoolExecutor(NCPU) as ex:
        for i, ((pid, t, pre, flags), probes) in enumerate(merged.items()):
            names, ps = set(), []
            for p in probes:
                if p.name not in names:
                    names.add(p.name)
                    ps.append(p)
            src = pre + "\n" + "\n".join(p.pre + "\n" + p.text("c") for p in ps)
            jobs.append((pid, t, pre, flags, ps, ex.submit(ctx.compile, src, "u%d_%s_%s" % (i, pid, t), t, flags, "ir")))
        mods = []
        for pid, t, pre, flags, ps, j in jobs:
            o, log = j.result()
            if o is not None:
                mods.append((pid, t, o))
                continue
            # a use that does not compile is the concern of its own property; here the others count
            js = [ex.submit(ctx.compile, pre + "\n" + p.pre + "\n" + p.text("c"), "v%s_%s_%s" % (pid, t, p.name), t, flags, "ir") for p in ps]
            mods += [(pid, t, x.result()[0]) for x in js if x.result()[0]]
    reported = set()
    lib = set()
    unknown = {}
    nfun = ncall = nop = 0
    for pid, t, o in mods:
        m = Module(o)
        cs = {}
        ctx.nprobes += 1
        # library code, and whatever it calls
        work, reach = [], {}
        for fn in m.fns.values():
            if fn.decl:
                continue
            m.body(fn)
            fs = [(I.file, I.line) for B in fn.blocks for I in B.insts if I.file and I.line]
            here = [x for x in fs if os.path.normpath(x[0]).startswith(INC)]
            if here and not re.match(r"^[cs]_\w+$", fn.name):
                reach[fn.name] = None
                work.append(fn)
                fn.where = "%s:%d (%s)" % (os.path.normpath(here[0][0]).replace(REPO + "/", ""), here[0][1], demangle(fn.name))
                lib.add((t, fn.name))
        io = {f.name for f in work if re.search(r"-io\.hpp", f.where)}
        while work:
            fn = work.pop()
            if fn.name in io:
                continue
            nfun += 1
            m.body(fn)
            ctx.functions.add(fn.name)
            for B in fn.blocks:
                for I in B.insts + B.phis:
                    nop += 1
                    at = I
                    ops = [x[0] if isinstance(x, tuple) else x for x in I.ops] + ([I.x] if I.op in ("call", "invoke") else [])
                    stack = [x for x in ops if isinstance(x, Const)]
                    while stack:
                        x = stack.pop()
                        if x.k == "expr":
                            stack += [y for y in x.v.ops if isinstance(y, Const)]
                        elif x.k == "agg":
                            stack += list(x.v)
                        elif x.k == "alias":
                            stack.append(x.v)
                        elif x.k == "global":
                            g = m.globals.get(x.v)
                            if g and not IsGlobalConstant(g) and not harmless(x.v) and not fixed_static(m, cs, fn, x.v):
                                loc = place(m, fn, I, reach)
                                key = "static/%s/%s" % (t, x.v)
                                if key not in reported:
                                    reported.add(key)
                                    ctx.report("effects", key, "[%s] %s uses %s, a variable that outlives the call and is shared by all" % (t, demangle(fn.name), demangle(x.v)), loc, x.v)
                        elif x.k == "func":
                            g = x.v
                            if not g.decl:
                                if g.name not in reach:
                                    reach[g.name] = (fn, I)
                                    work.append(g)
                                continue
                            ncall += 1
                            n = g.name
                            bad = None
                            if n.startswith("__cxa_guard_") and I.ops and isinstance(I.ops[0], Const) and I.ops[0].k == "global" and fixed_static(m, cs, fn, I.ops[0].v):
                                continue
                            if AMBIENT.match(n):
                                bad = "calls %s, whose effect or result depends on more than its arguments" % demangle(n)
                            elif HEAP.match(n):
                                if t != "desktop":
                                    bad = "allocates dynamic memory (%s)" % demangle(n)
                            elif not PURE.match(n):
                                unknown.setdefault(n, (t, place(m, fn, I, reach)))
                            if bad:
                                key = "call/%s/%s" % (t, n)
                                if key not in reported:
                                    reported.add(key)
                                    ctx.report("effects", key, "[%s] %s %s" % (t, demangle(fn.name), bad), place(m, fn, I, reach), n)
            ctx.ok("effects")
        ctx.sample("%s/%s: %d functions reached" % (pid, t, len(reach)))
    ctx.ninstr += nop
    ctx.extra["library_functions"] = len(lib)
    ctx.extra["calls_out"] = ncall
    for n, (t, loc) in sorted(unknown.items()):
        ctx.undecided.append((t, "call to %s at %s: not known whether it depends on more than its arguments" % (demangle(n), loc), True))
    return ctx.finish(META)


def place(m, fn, I, reach):
    """innermost place in the library on the call chain"""
    while True:
        if I.file and I.line and os.path.normpath(I.file).startswith(INC):
            return "%s:%d (%s)" % (os.path.normpath(I.file).replace(REPO + "/", ""), I.line, demangle(fn.name))
        up = reach.get(fn.name)
        if not up:
            return getattr(fn, "where", demangle(fn.name))
        fn, I = up
