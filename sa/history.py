"""how an object's contents evolve when one operation is carried out over and over.

ke_mark(&o, size) notes the contents, ke_later(&o, size) puts the object in the state in which any further number of the same
operations leaves it: contents that changed by the same amount from each mark to the next (a count of operations, an elapsed time,
a position) go on to do so, by one common number of steps that is not known.  Whole numbers that never came back to an earlier value
but follow no such law may be anything.  All other contents are left as they are."""
from . import dom as D
from .dom import p_const, p_isconst, p_cval, p_mul, p_add
from .absint import Ptr, Gap, is_iconst, ival
from .dom import Int, Real

MARKS = 12
DECL = 'extern "C" void ke_mark(void const *, int); extern "C" void ke_later(void *, int);\n'


def _num(v):
    if type(v) is Int and is_iconst(v):
        return "i", ival(v)
    if type(v) is Real and v.num is not None and p_isconst(v.num) and p_isconst(v.den):
        return "r", p_cval(v.num) / p_cval(v.den)
    return None


def _part(it, st, a):
    p, n = a[0], a[1]
    if not isinstance(p, Ptr) or not is_iconst(n):
        raise Gap("history of an object that is not known")
    return p.obj, p.off, ival(n)


def mark(it, st, a, I):
    o, off, n = _part(it, st, a)
    snap = {}
    for k in it.all_offsets(st, o):
        if off <= k < off + n:
            c = it.get_cell(st, o, k)
            if c is not None:
                snap[k - off] = c
    it.__dict__.setdefault("marks", {}).setdefault((o, off), []).append(snap)


def later(it, st, a, I):
    o, off, n = _part(it, st, a)
    ms = it.__dict__.get("marks", {}).pop((o, off), [])
    if len(ms) < 3:
        raise Gap("history of an object that was not followed")
    steps = None
    for k in sorted(ms[0]):
        cs = [m.get(k) for m in ms]
        if any(c is None or c[0] != cs[0][0] for c in cs):
            continue
        vs = [_num(c[1]) for c in cs]
        if any(v is None or v[0] != vs[0][0] for v in vs):
            continue
        kind, size = vs[0][0], cs[0][0]
        xs = [v[1] for v in vs]
        if kind == "i":                     # counts may wrap
            M = 1 << (8 * size)
            ds = {(y - x) % M for x, y in zip(xs, xs[1:])}
        else:
            ds = {y - x for x, y in zip(xs, xs[1:])}
        if len(ds) == 1:
            d = ds.pop()
            if d == 0:
                continue
            if steps is None:
                it.nlater = it.__dict__.get("nlater", 0) + 1
                steps = D.int_atom("steps%d" % it.nlater, 0, (1 << 40))
            if kind == "i":
                if d >= M // 2:
                    d -= M
                v = D.wrap(p_add(p_const(D.Fraction(xs[-1])), p_mul(p_const(D.Fraction(d)), steps.p)), 8 * size)
            else:
                v = Real(p_add(p_const(D.Fraction(xs[-1])), p_mul(p_const(D.Fraction(d)), steps.p)), D.ONE_P)
        elif kind == "i" and size < 8 and len(set(xs)) == len(xs):
            it.nlater = it.__dict__.get("nlater", 0) + 1
            v = D.int_atom("content%d" % it.nlater, D.smin(8 * size), D.smax(8 * size))
        else:
            continue
        it.put(st, o, off + k, size, v)


HOOKS = {"ke_mark": mark, "ke_later": later}


def later_code(obj, step, n=MARKS):
    """step is carried out n times, then any number of times more"""
    return "for(int ke=0;ke<%d;++ke) { %s; ke_mark(&%s,sizeof %s); } ke_later(&%s,sizeof %s); " % (n, step, obj, obj, obj, obj)
