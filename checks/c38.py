"""no floating point in integer work"""
import glob, importlib, os, re
from sa.probe import *
from sa.llvmc import Const
from checks.c35 import Collect, place

META = dict(
    title="Integer and fixed-point work involves no floating-point step",
    statement="An operation on fixed-point numbers, integers, registers or containers of them carries out integer operations only, unless a floating-point value is among its operands or is asked for. Results are therefore exact for every width and value, instead of being limited by the precision of a floating-point intermediate, and on the microcontroller no floating-point arithmetic is carried out.",
    over=["inputs", "programs"],
    text="every function of the library that is reached from fragments of the other properties that neither take nor mention a floating-point value; desktop, AVR and device code",
    why="Being free of floating point is what fixed-point numbers are for; a step through double is right for every small value a test uses, and wrong for 32-bit operands, whose products need 62 bits.",
    files=["include/num/fixed-point.hpp", "include/num/matrix.hpp", "include/core", "include/mcu", "include/std", "include/dsp"],
    mechanism=[("operators and integer conversions", "include/num/fixed-point.hpp"), ("element operations", "include/num/matrix.hpp"), ("register access", "include/mcu/register.hpp")],
    how="each instruction of each function that is reachable in the compiled fragments is inspected for a floating-point operand or result, and each call out of the program for a floating-point function",
    note="functions on the call graph from the library's functions; the instantiations are those of the fragments",
    technique="interprocedural effect analysis over the compiler's IR (reachable floating-point instructions)",
)

FLOATY = re.compile(r"double|float|complex|\b\d+\.\d|\bF\(|\bsqrt|\d[eE]-?\d|std::(sin|cos|exp|log)")


def takes_float(p, s):
    return any(FLOATY.search(a.decl()) for a in p.args) or FLOATY.search(p.code) or FLOATY.search(p.pre)


def isfloat(t):
    return t is not None and (t.kind == "float" or (t.kind == "vec" and t.elem is not None and t.elem.kind == "float"))


def check(ctx):
    th = ctx.tier == "thorough"
    merged, seen = {}, {}
    skipped = 0
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/c[0-9][0-9].py")):
        pid = os.path.basename(f)[:-3]
        if pid in ("c11", "c25", "c26", "c27") or pid >= "c35":
            continue
        c = Collect()
        importlib.import_module("checks." + pid).check(c)
        for s in c.suites:
            for p in s.probes:
                if takes_float(p, s):
                    skipped += 1
                    continue
                k = (pid, s.target, re.sub(r"\d+", "", p.name))
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= (12 if th else 4):
                    merged.setdefault((pid, s.target, s.prelude, tuple(s.flags)), []).append(p)
    jobs, mods = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        for i, ((pid, t, pre, flags), probes) in enumerate(merged.items()):
            names, ps = set(), []
            for p in probes:
                if p.name not in names:
                    names.add(p.name)
                    ps.append(p)
            src = pre + "\n" + "\n".join(p.pre + "\n" + p.text("c") for p in ps)
            jobs.append((pid, t, pre, flags, ps, ex.submit(ctx.compile, src, "u%d_%s_%s" % (i, pid, t), t, flags, "ir")))
        for pid, t, pre, flags, ps, j in jobs:
            o, log = j.result()
            if o is not None:
                mods.append((pid, t, o, {p.name: p for p in ps}))
                continue
            js = [(p, ex.submit(ctx.compile, pre + "\n" + p.pre + "\n" + p.text("c"), "v%s_%s_%s" % (pid, t, p.name), t, flags, "ir")) for p in ps]
            mods += [(pid, t, x.result()[0], {p.name: p}) for p, x in js if x.result()[0]]
    reported = set()
    nfun = nop = 0
    for pid, t, o, ps in mods:
        m = Module(o)
        ctx.nprobes += 1
        for root in [f for f in m.fns.values() if not f.decl and re.match(r"^c_\w+$", f.name)]:
            p = ps.get(root.name[2:])
            reach, work = {root.name: None}, [root]
            while work:
                fn = work.pop()
                nfun += 1
                m.body(fn)
                if fn is not root:
                    ctx.functions.add(fn.name)
                for B in fn.blocks:
                    for I in B.insts + B.phis:
                        nop += 1
                        ops = [x[0] if isinstance(x, tuple) else x for x in I.ops] + ([I.x] if I.op in ("call", "invoke") else [])
                        hit = isfloat(I.ty) or any(isfloat(getattr(x, "ty", None)) for x in ops)
                        if hit:
                            loc = place(m, fn, I, reach)
                            key = "float/%s/%s" % (t, fn.name)
                            if key not in reported:
                                reported.add(key)
                                ctx.report("integer-only", key, "[%s] %s: %s carries out '%s' on floating-point values, none of which was passed in" % (t, p.what if p else root.name, demangle(fn.name), I.op), loc, p.code if p else "")
                        st = [x for x in ops if isinstance(x, Const)]
                        while st:
                            x = st.pop()
                            if x.k == "expr":
                                st += [y for y in x.v.ops if isinstance(y, Const)]
                            elif x.k == "agg":
                                st += list(x.v)
                            elif x.k == "alias":
                                st.append(x.v)
                            elif x.k == "func" and not x.v.decl and x.v.name not in reach:
                                reach[x.v.name] = (fn, I)
                                work.append(x.v)
            ctx.ok("integer-only")
        ctx.sample("%s/%s: %d fragments" % (pid, t, len(ps)))
    if os.environ.get("KE_LIST"):
        print("\n".join(sorted({demangle(n) for n in ctx.functions})))
    ctx.ninstr += nop
    ctx.extra["functions_visited"] = nfun
    ctx.extra["fragments_with_floating_point_left_out"] = skipped
    return ctx.finish(META)
