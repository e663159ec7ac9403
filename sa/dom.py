"""Abstract domain of the value-flow analysis.

Values
  Real   an element of the field of rational functions over the reals in the atoms (inputs and uninterpreted
         applications such as sin(e)); equality is decided by polynomial identity testing over two 61-bit fields.
  Int    a polynomial over integer atoms with an interval; exact (never silently wrapped): two's-complement
         wrapping, floor division and truncating division are explicit atoms.
  Node   a decision on the sign of a Real/Int (or on a boolean atom) with values as leaves: an ordered, reduced,
         hash-consed decision diagram, so that equal functions have one representation.
  TRUE/FALSE, Ptr, Agg, Pieces, Undef.
No value is ever a run-time sample and no path is enumerated: values of different paths meet in Nodes.
"""
from fractions import Fraction
import math, hashlib
from bisect import bisect_left

P1 = (1 << 61) - 1
P2 = 2305843009213693921   # prime just below 2^61
SIZE_LIMIT = 1500


class Gap(Exception):
    """The analysis met something it does not model."""


def _rnd(name):
    d = hashlib.sha256(name.encode()).digest()
    return (int.from_bytes(d[:8], "big") % (P1 - 2) + 1, int.from_bytes(d[8:16], "big") % (P2 - 2) + 1)


def _inv(h):
    return (pow(h[0], P1 - 2, P1), pow(h[1], P2 - 2, P2))


def fr_hash(c):
    return (c.numerator * pow(c.denominator, P1 - 2, P1) % P1 if c.denominator != 1 else c.numerator % P1,
            c.numerator * pow(c.denominator, P2 - 2, P2) % P2 if c.denominator != 1 else c.numerator % P2)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "name", "args", "h", "pos", "lo", "hi", "isint")


ATOMS = []
_ATOMKEY = {}
_SQRTS = []


def reset():
    ATOMS.clear()
    _ATOMKEY.clear()
    _UNIQ.clear()
    _SUBST.clear()
    _INSIDE.clear()
    _SOLVE.clear()
    _CONDS.clear()
    _CONDKEY.clear()
    _SQRTCONST.clear()
    _WRAPS.clear()
    _SQRTS.clear()


def akey(a):
    return a.key


def atom(name, args=(), isint=False, lo=None, hi=None, pos=None):
    k = (name, tuple(x.key if hasattr(x, "key") else x for x in args))
    i = _ATOMKEY.get(k)
    if i is None:
        h = _atom_hash(name, args) or _rnd(repr(k))      # may make atoms of its own
        a = Atom()
        a.id, a.name, a.args, a.isint, a.lo, a.hi, a.pos = len(ATOMS), name, args, isint, lo, hi, pos
        a.h = h
        i = _ATOMKEY[k] = a.id
        ATOMS.append(a)
        if name == "sqrt":
            _SQRTS.append(i)
    return i


# Trigonometric and exponential atoms get fingerprints that satisfy the addition laws for multiples of one argument:
# cos(kx) + i sin(kx) = z^k with z on the unit circle of the field (a sum of angles: the product), exp(kx) = g^k.  So
# cos^2 + sin^2 = 1, double angles, sums of angles, tan = sin / cos, exp(a + b) = exp(a) exp(b) hold by construction.
_SCALE = 5342931457063200        # a multiple of 1 .. 40


def _zmul(a, b, P):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def _zpow(z, k, P):
    r = (1, 0)
    while k:
        if k & 1:
            r = _zmul(r, z, P)
        z = _zmul(z, z, P)
        k >>= 1
    return r


def _hyp_hash(name, x):
    """sinh, cosh, tanh from the exponential; asinh, acosh, atanh as logarithms"""
    if name in ("sinh", "cosh", "tanh"):
        e = real_atom("exp", (x,), pos=1).h
        i = _inv(e)
        s, c = _hadd(e, i, -1), _hadd(e, i)
        if c == (0, 0):
            return None
        half = fr_hash(Fraction(1, 2))
        return _hmul(s, half) if name == "sinh" else _hmul(c, half) if name == "cosh" else _hmul(s, _inv(c))
    one = R(1)
    if name == "atanh":
        d = r_add(one, x, -1)
        if d.h == (0, 0):
            return None
        return _hmul(real_atom("log", (r_div(r_add(one, x), d),)).h, fr_hash(Fraction(1, 2)))
    q = r_mul(x, x)
    if q.num is None:
        return None
    r = real_sqrt(r_add(q, one, 1 if name == "asinh" else -1))
    return real_atom("log", (r_add(x, r),)).h if isinstance(r, Real) else None


def _atom_hash(name, args):
    if name in ("sinh", "cosh", "tanh", "asinh", "acosh", "atanh") and len(args) == 1 and isinstance(args[0], Real) and args[0].num:
        h = _hyp_hash(name, args[0])
        return h if h is None or h[0] and h[1] else None
    if name not in ("sin", "cos", "tan", "exp") or len(args) != 1 or args[0].num is None or not args[0].num:
        return None
    x = args[0]
    if name == "exp":
        h = (1, 1)
        for m, c in x.num.items():
            k = c * _SCALE
            if k.denominator != 1:
                return None
            g = _rnd("exp" + repr(Real({m: Fraction(1)}, x.den).key))
            k = int(k)
            h = (h[0] * pow(g[0], k, P1) % P1, h[1] * pow(g[1], k, P2) % P2)
        return h
    zs = [(1, 0), (1, 0)]
    lead = x.num[max(x.num)]
    if lead < 0:
        return None
    parts = {m: v * _SCALE for m, v in x.num.items()}
    if all(k.denominator == 1 for k in parts.values()):
        parts = [(repr(Real({m: Fraction(1)}, x.den).key), int(k)) for m, k in parts.items()]
    elif (lead * _SCALE).denominator == 1:
        parts = [(repr(Real({m: v / lead for m, v in x.num.items()}, x.den).key), int(lead * _SCALE))]
    else:
        return None
    for key, k in parts:
        t = _rnd("tanhalf" + key)
        for i, (ti, P) in enumerate(zip(t, (P1, P2))):
            d = pow(1 + ti * ti, P - 2, P)
            z = ((1 - ti * ti) * d % P, (2 * ti * d if k > 0 else -2 * ti * d) % P)
            zs[i] = _zmul(zs[i], _zpow(z, abs(k), P), P)
    out = [z[0] if name == "cos" else z[1] if name == "sin" else z[1] * pow(z[0], P - 2, P) % P for z, P in zip(zs, (P1, P2))]
    return tuple(out)


# ------------------------------------------------------------------ polynomials: dict monomial -> Fraction
def p_const(c):
    return {(): c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 4 * SIZE_LIMIT:
        return None
    r = {}
    red = False
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    return r


def p_hash(p):
    h1 = h2 = 0
    for m, c in p.items():
        a, b = fr_hash(c)
        for x, e in m:
            h = ATOMS[x].h
            if e == 1:
                a = a * h[0] % P1
                b = b * h[1] % P2
            else:
                a = a * pow(h[0], e, P1) % P1
                b = b * pow(h[1], e, P2) % P2
        h1 += a
        h2 += b
    return (h1 % P1, h2 % P2)


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_cval(p):
    return p.get((), Fraction(0))


def a_str(i):
    a = ATOMS[i]
    if not a.args:
        return a.name
    return "%s(%s)" % (a.name, ", ".join(v_str(x) if hasattr(x, "key") else str(x) for x in a.args))


def c_str(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    s = "%d/%d" % (c.numerator, c.denominator)
    return s if len(s) < 14 else "%.12g" % f


def p_str(p, lim=14):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0]))[:lim]:
        f = []
        for x, e in m:
            f.append(a_str(x) + ("^%d" % e if e != 1 else ""))
        if not f:
            out.append(c_str(c))
        elif c == 1:
            out.append("*".join(f))
        elif c == -1:
            out.append("-" + "*".join(f))
        else:
            out.append(c_str(c) + "*" + "*".join(f))
    if len(p) > lim:
        out.append("... (%d terms)" % len(p))
    return " + ".join(out).replace("+ -", "- ")


# ------------------------------------------------------------------ values
class Real:
    __slots__ = ("num", "den", "h", "key")

    def __init__(self, num, den, h=None):
        self.num, self.den = num, den
        if h is None:
            h = p_hash(num)
            if den is not None and den is not ONE_P:
                g = _inv(p_hash(den))
                h = (h[0] * g[0] % P1, h[1] * g[1] % P2)
        self.h = h
        self.key = ("R",) + h


ONE_P = {(): Fraction(1)}


class Int:
    __slots__ = ("p", "lo", "hi", "key")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi
        self.key = ("I", frozenset(p.items())) if not p_isconst(p) else ("I", int(p_cval(p)))


class BoolV:
    __slots__ = ("v", "key")

    def __init__(self, v):
        self.v, self.key = v, ("B", v)


TRUE, FALSE = BoolV(True), BoolV(False)


class UndefV:
    __slots__ = ("key",)

    def __init__(self):
        self.key = ("U",)


UNDEF = UndefV()


class Ptr:
    __slots__ = ("obj", "off", "key")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off
        self.key = ("P", id(obj) if obj is not None else 0, off)


class FuncV:
    __slots__ = ("fn", "key")

    def __init__(self, fn):
        self.fn, self.key = fn, ("F", fn.name)


class Agg:
    """struct / array / vector value"""
    __slots__ = ("e", "key")

    def __init__(self, e):
        self.e = tuple(e)
        self.key = ("A",) + tuple(x.key for x in self.e)


class Pieces:
    """raw bits of adjoining memory cells: ((offset, size, value), ...), total size"""
    __slots__ = ("parts", "size", "key")

    def __init__(self, parts, size):
        self.parts, self.size = tuple(parts), size
        self.key = ("X", size) + tuple((o, s, v.key) for o, s, v in self.parts)


class Node:
    """decision: on the sign of a Real (kids: <0, =0, >0), on a boolean atom (kids: false, true) or on the value of an
    integer form (br = ascending break points; kid i for br[i-1] < form <= br[i])"""
    __slots__ = ("c", "kids", "key", "br")


_UNIQ = {}
_SUBST, _INSIDE, _SOLVE = {}, {}, {}
_CONDS = []       # id -> ("sgn", Real/Int) | ("bool", name)
_CONDKEY = {}
_SQRTCONST = {}


def mk(c, kids, br=None):
    k0 = kids[0].key
    if all(k.key == k0 for k in kids[1:]):
        return kids[0]
    if br is not None:
        kids, br = _norm(_CONDS[c][1], list(kids), list(br))
        if not br:
            return kids[0]
    elif len(kids) == 3:
        z = _at_zero(_CONDS[c][1], kids)
        if z is not None:
            kids = (kids[0], z, kids[2])
            if kids[0].key == z.key == kids[2].key:
                return z
    k = (c, br, tuple(x.key for x in kids))
    n = _UNIQ.get(k)
    if n is None:
        n = Node()
        n.c, n.kids, n.br, n.key = c, tuple(kids), br, ("N", len(_UNIQ), id(_UNIQ))
        _UNIQ[k] = n
    return n


def _at_zero(form, kids):
    """the value on form == 0, written like the value for form > 0 (or form < 0) wherever it is the same there"""
    if not isinstance(form, Real) or form.num is None or form.den is not ONE_P or len(form.num) > 12:
        return None
    neg, zero, pos = kids
    r = zero
    for other in (pos, neg):
        if other.key == zero.key:
            return None

        def f(z, o):
            if z.key == o.key or not (isinstance(z, Real) and isinstance(o, Real)):
                return z
            if z.num is None or o.num is None or len(z.num) * len(o.den) + len(o.num) * len(z.den) > 120:
                return z
            return o if vanishes(r_add(z, o, -1), form) else z
        t = (type(r), type(other))
        if Real in t and set(t) <= {Real, Node} or t == (Node, Node):
            r = lift(f, r, other)
            break
    return None if r.key == zero.key else r


def vanishes(d, form):
    """is d zero wherever the polynomial form is?"""
    if d.num is None or len(d.num) > 200:
        return False
    def at(p):
        n = {}
        for m, c in p.items():            # sqrt(k * form) is zero there
            for x, e in m:
                if ATOMS[x].name == "sqrt" and isinstance(ATOMS[x].args[0], Real) and is_rconst(r_div(ATOMS[x].args[0], form)):
                    break
            else:
                n[m] = c
        return p_rem(n, form.num)
    return not d.num or at(d.num) == {} and bool(at(d.den))


def m_div(a, b):
    """monomial a / b, or None"""
    d = dict(a)
    for x, e in b:
        if d.get(x, 0) < e:
            return None
        d[x] -= e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def m_ord(m):
    """graded lexicographic order (a monomial order)"""
    return (sum(e for _, e in m), [(x, e) for x, e in reversed(m)])


def p_rem(p, q):
    """remainder of p by q (None: gave up)"""
    if not q:
        return p
    lm = max(q, key=m_ord)
    r, p = {}, dict(p)
    for _ in range(400):
        if not p:
            return r
        m = max(p, key=m_ord)
        k = m_div(m, lm)
        if k is None:
            r[m] = p.pop(m)
        else:
            p = p_add(p, p_mul({k: p[m] / q[lm]}, q), -1)
    return None


def p_sqrt(p):
    """r with r * r == p, or None"""
    if not p or len(p) > 120:
        return None
    lm = max(p, key=m_ord)
    if any(e % 2 for _, e in lm) or p[lm] <= 0:
        return None
    n, d = math.isqrt(p[lm].numerator), math.isqrt(p[lm].denominator)
    if n * n != p[lm].numerator or d * d != p[lm].denominator:
        return None
    l = tuple((x, e // 2) for x, e in lm)
    r = {l: Fraction(n, d)}
    rest = p_add(p, p_mul(r, r), -1)
    while rest:
        m = max(rest, key=m_ord)
        k = m_div(m, l)
        if k is None or m_ord(k) >= min(map(m_ord, r)):
            return None
        t = {k: rest[m] / (2 * r[l])}
        rest = p_add(p_add(rest, p_mul(p_mul(r, t), p_const(Fraction(2))), -1), p_mul(t, t), -1)
        r[k] = t[k]
    return r


def _norm(form, kids, br):
    """canonical intervals: equal neighbours merged, single-value intervals evaluated"""
    def merge():
        i = 0
        while i < len(br):
            if kids[i].key == kids[i + 1].key:
                del kids[i + 1], br[i]
            else:
                i += 1
    merge()
    lo, hi = form.lo, form.hi
    for i in range(len(kids)):
        l = br[i - 1] + 1 if i else lo
        h = br[i] if i < len(br) else hi
        z = inside(kids[i], form.p, l, h)
        if z is None:
            continue
        if i and (inside(kids[i - 1], form.p, l, h) or kids[i - 1]).key == z.key:
            kids[i] = kids[i - 1]
        elif i + 1 < len(kids) and (inside(kids[i + 1], form.p, l, h) or kids[i + 1]).key == z.key:
            kids[i] = kids[i + 1]
        else:
            kids[i] = z
    merge()
    return kids, tuple(br)


def inside(v, p, l, h):
    """v where l <= p <= h: the value of p if there is only one, and no wrap-around that the bounds exclude (None: no change known)"""
    if l == h:
        w = _inside(v, p, l, h)
        z = subst_eq(v if w is None else w, p, l)
        return w if z is None else z
    return _inside(v, p, l, h)


def _inside(v, p, l, h):
    if not _WRAPS:
        return None
    if type(v) is Node:
        key = (v.key, frozenset(p.items()), l, h)
        r = _INSIDE.get(key, 0)
        if r == 0:
            kids = [_inside(w, p, l, h) for w in v.kids]
            r = None
            if any(w is not None for w in kids):
                r = mk_at(v.c, tuple(w if z is None else z for z, w in zip(kids, v.kids)), v.br)
            _INSIDE[key] = r
        return r
    if not isinstance(v, Int):
        return None
    q = v.p
    hit = False
    for m in v.p:
        for x, e in m:
            if x not in _WRAPS:
                continue
            n, arg = int(ATOMS[x].name[4:]), ATOMS[x].args[0].p
            g = linear_in(arg, p)
            if g is None:
                continue
            lo, hi = sorted((g[0] * l + g[1], g[0] * h + g[1]))
            mn, mx = (smin(n), smax(n)) if ATOMS[x].name[0] == "w" else (0, (1 << n) - 1)
            if lo >= mn and hi <= mx:
                r = {}
                for mm, c in q.items():
                    d = dict(mm)
                    k = d.pop(x, 0)
                    t = {tuple(sorted(d.items())): c}
                    for _ in range(k):
                        t = p_mul(t, arg)
                    r = p_add(r, t)
                q, hit = r, True
    return i_make(q, v.lo, v.hi) if hit else None


def linear_in(a, p):
    """(g, c) with a = g * p + c"""
    c = a.get((), Fraction(0))
    m0 = next(iter(p))
    if m0 not in a or len(a) - (() in a) != len(p):
        return None
    g = a[m0] / p[m0]
    return (int(g), int(c)) if g.denominator == 1 and all(a.get(m, 0) == g * d for m, d in p.items()) else None


def split(top, vs):
    """cofactors of several values with respect to condition `top` -> (break points, list of tuples)"""
    ns = [v for v in vs if type(v) is Node and v.c == top]
    if ns[0].br is None:
        return None, [tuple(v.kids[i] if type(v) is Node and v.c == top else v for v in vs) for i in range(len(ns[0].kids))]
    br = tuple(sorted(set().union(*[v.br for v in ns])))
    out = []
    for i in range(len(br) + 1):
        t = []
        for v in vs:
            if type(v) is Node and v.c == top:
                t.append(v.kids[len(v.br)] if i == len(br) else v.kids[bisect_left(v.br, br[i])])
            else:
                t.append(v)
        out.append(tuple(t))
    return br, out


def cond_id(kind, val):
    k = (kind, val.key if hasattr(val, "key") else val)
    i = _CONDKEY.get(k)
    if i is None:
        i = _CONDKEY[k] = len(_CONDS)
        _CONDS.append((kind, val))
    return i


def lift(f, *vs):
    """apply f to leaves"""
    if not any(type(v) is Node for v in vs):
        return f(*vs)
    memo = {}

    def go(vs):
        top = None
        for v in vs:
            if type(v) is Node and (top is None or v.c < top):
                top = v.c
        if top is None:
            return f(*vs)
        k = tuple(v.key for v in vs)
        r = memo.get(k)
        if r is not None:
            return r
        br, cs = split(top, vs)
        r = mk_at(top, tuple(go(t) for t in cs), br)
        memo[k] = r
        return r
    return go(vs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.key == b.key:
        return a
    ta, tb = type(a), type(b)
    if ta is Bits or tb is Bits:
        n = len(a.b) if ta is Bits else len(b.b)
        a, b = to_bits(a, n), to_bits(b, n)
        return Bits(ite(c, x, y) for x, y in zip(a.b, b.b))
    if ta is Agg and tb is Agg and len(a.e) == len(b.e):
        return Agg(ite(c, x, y) for x, y in zip(a.e, b.e))
    return lift3(c, a, b)


class Bits:
    """machine word as a vector of boolean functions (least significant first)"""
    __slots__ = ("b", "key")

    def __init__(self, b):
        self.b = tuple(b)
        self.key = ("W",) + tuple(x.key for x in self.b)


def bits_const(v, n):
    return Bits(TRUE if (v >> i) & 1 else FALSE for i in range(n))


def to_bits(v, n):
    if type(v) is Bits:
        return v
    if type(v) is Int and is_iconst(v):
        return bits_const(ival(v) & ((1 << n) - 1), n)
    if type(v) is Node:
        ks = [to_bits(k, n) for k in v.kids]
        return Bits(mk_at(v.c, tuple(k.b[i] for k in ks), v.br) for i in range(n))
    if type(v) is UndefV:
        raise Gap("uninitialised value in a machine word")
    raise Gap("not a machine word: %r" % (v,))


def bits_int(v):
    if all(x is TRUE or x is FALSE for x in v.b):
        x = sum(1 << i for i, y in enumerate(v.b) if y is TRUE)
        n = len(v.b)
        return I(x - (1 << n) if x >> (n - 1) else x)
    return v


def bool_atom(name):
    c = cond_id("bool", name)
    return mk(c, (FALSE, TRUE))


def bits_atom(name, n):
    return Bits(bool_atom("%s.%d" % (name, i)) for i in range(n))


def lift3(c, a, b):
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a.key == b.key:
            return a
        if c is UNDEF:
            return UNDEF
        k = (c.key, a.key, b.key)
        r = memo.get(k)
        if r is not None:
            return r
        top = c.c
        if type(a) is Node and a.c < top:
            top = a.c
        if type(b) is Node and b.c < top:
            top = b.c
        br, cs = split(top, (c, a, b))
        r = mk(top, [go(*t) for t in cs], br)
        memo[k] = r
        return r
    return go(c, a, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bxor(a, b):
    return ite(a, bnot(b), b)


def constrain(f, care, memo=None):
    """simplify f using don't-cares outside `care` (canonical for given f, care)"""
    if care is TRUE or care is FALSE:
        return f
    if memo is None:
        memo = {}
    if type(f) is not Node:
        return f
    k = (f.key, care.key)
    r = memo.get(k)
    if r is not None:
        return r
    top = min(f.c, care.c)
    br, cs = split(top, (f, care))
    kids = [None if y is FALSE else x if y is TRUE else constrain(x, y, memo) for x, y in cs]
    if br is None:
        d = next(x for x in kids if x is not None)
        kids = [d if x is None else x for x in kids]
    else:
        d = next(x for x in kids if x is not None)
        for i, x in enumerate(kids):
            if x is None:
                kids[i] = d
            else:
                d = x
    r = mk(top, kids, br)
    memo[k] = r
    return r


# ------------------------------------------------------------------ Real arithmetic
def R(c):
    return Real(p_const(Fraction(c)), ONE_P)


def real_atom(name, args=(), pos=None):
    i = atom(name, args, pos=pos)
    return Real({((i, 1),): Fraction(1)}, ONE_P)


def _mkreal(num, den):
    """normalise"""
    if not num:
        return Real({}, ONE_P)
    if den is not ONE_P:
        if not den:
            raise ZeroDivisionError
        if p_isconst(den):
            c = p_cval(den)
            return Real({m: v / c for m, v in num.items()}, ONE_P)
        # monomial content
        com = None
        for m in list(num) + list(den):
            d = dict(m)
            if com is None:
                com = d
            else:
                com = {x: min(e, d[x]) for x, e in com.items() if x in d}
            if not com:
                break
        if com:
            def strip(p):
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    for x, e in com.items():
                        d[x] -= e
                    r[tuple(sorted((x, e) for x, e in d.items() if e))] = c
                return r
            num, den = strip(num), strip(den)
        if p_isconst(den):
            c = p_cval(den)
            return Real({m: v / c for m, v in num.items()}, ONE_P)
        lead = den[max(den)]
        if lead != 1:
            num = {m: v / lead for m, v in num.items()}
            den = {m: v / lead for m, v in den.items()}
        if len(num) == len(den) and set(num) == set(den):
            m0 = next(iter(num))
            q = num[m0] / den[m0]
            if all(num[m] == q * den[m] for m in num):
                return Real(p_const(q), ONE_P)
    return Real(num, den)


def _sqrt_arg(x):
    """(num, den) of the argument of a square root atom"""
    a = ATOMS[x]
    if a.name == "sqrt":
        r = a.args[0]
        if isinstance(r, Real) and r.num is not None:
            return r.num, r.den
    return None


def _sqrt_atoms(p):
    return {x for m in p for x, _ in m if ATOMS[x].name == "sqrt"}


def _sqrt_rat(num, den):
    """num / den with sqrt(e)^2 = e, and no square root in the denominator"""
    for _ in range(12):
        done = True
        for x in sorted(_sqrt_atoms(num) | _sqrt_atoms(den), reverse=True):
            a = _sqrt_arg(x)
            if a is None:
                continue
            n, p = _sqrt_sq(num, x, a)
            d, q = _sqrt_sq(den, x, a)
            if n is None or d is None:
                return None
            if n is not num or d is not den:
                done = False
                num, den = p_mul(n, q) if q else n, p_mul(d, p) if p else d
                if num is None or den is None:
                    return None
            # A + B sqrt(e) in the denominator
            B = {}
            A = {}
            for m, c in den.items():
                (B if any(y == x for y, _ in m) else A)[m] = c
            if B:
                done = False
                if A:
                    conj = p_add(A, B, -1)
                    num, den = p_mul(num, conj), p_mul(den, conj)
                else:
                    r = {((x, 1),): Fraction(1)}
                    num, den = p_mul(num, r), p_mul(den, r)
                if num is None or den is None or len(num) > SIZE_LIMIT or len(den) > SIZE_LIMIT:
                    return None
                break
        if done:
            return num, den
    return None


def _sqrt_sq(p, x, arg):
    """p with x^2 = arg: (polynomial, denominator or None)"""
    k = max((e // 2 for m in p for y, e in m if y == x), default=0)
    if not k:
        return p, None
    N, D = arg
    r = {}
    for mm, c in p.items():
        d = dict(mm)
        e = d.pop(x, 0)
        if e % 2:
            d[x] = 1
        base = {tuple(sorted(d.items())): c}
        for _ in range(e // 2):
            base = p_mul(base, N)
            if base is None:
                return None, None
        if D is not ONE_P:
            for _ in range(k - e // 2):
                base = p_mul(base, D)
                if base is None:
                    return None, None
        r = p_add(r, base)
    if D is ONE_P:
        return r, None
    q = {(): Fraction(1)}
    for _ in range(k):
        q = p_mul(q, D)
        if q is None:
            return None, None
    return r, q


def _mkrat(num, den):
    if not _SQRTS:
        return _mkreal(num, den)
    t = _sqrt_rat(num, den)
    if t is None:
        t = num, den
    n, d = t
    if not n:
        return R(0)
    return _mkreal(n, ONE_P if d == ONE_P else d)


def _hadd(a, b, s=1):
    return ((a[0] + s * b[0]) % P1, (a[1] + s * b[1]) % P2)


def _hmul(a, b):
    return (a[0] * b[0] % P1, a[1] * b[1] % P2)


def _big(h):
    # a value known only by its fingerprint; small constants are recognised
    for c in (0, 1, -1):
        if h == fr_hash(Fraction(c)):
            return R(c)
    return Real(None, None, h)


def r_add(a, b, s=1):
    if a.num is not None and b.num is not None:
        if a.den is b.den or a.den == b.den:
            n = p_add(a.num, b.num, s)
            if len(n) <= SIZE_LIMIT:
                return _mkreal(n, a.den)
        else:
            x, y, d = p_mul(a.num, b.den), p_mul(b.num, a.den), p_mul(a.den, b.den)
            if x is not None and y is not None and d is not None:
                n = p_add(x, y, s)
                if len(n) <= SIZE_LIMIT and len(d) <= SIZE_LIMIT:
                    return _mkrat(n, d)
    return _big(_hadd(a.h, b.h, s))


def r_mul(a, b):
    if a.num is not None and b.num is not None:
        # cheap cross-cancellation
        if a.den is not ONE_P and a.den == b.num:
            return _mkreal(a.num, b.den)
        if b.den is not ONE_P and b.den == a.num:
            return _mkreal(b.num, a.den)
        n = p_mul(a.num, b.num)
        d = a.den if b.den is ONE_P else (b.den if a.den is ONE_P else p_mul(a.den, b.den))
        if n is not None and d is not None and len(n) <= SIZE_LIMIT and len(d) <= SIZE_LIMIT:
            return _mkrat(n, d)
    return _big(_hmul(a.h, b.h))


def r_inv(a):
    if a.num is not None and not a.num or a.h == (0, 0):
        raise ZeroDivisionError
    if a.num is not None:
        if len(a.num) == 1 and a.den is ONE_P:
            # 1/sqrt(e) stays as is
            pass
        return _mkrat(dict(a.den), dict(a.num))
    return _big(_inv(a.h))


def r_div(a, b):
    try:
        return r_mul(a, r_inv(b))
    except ZeroDivisionError:
        return real_atom("fdiv", (a, b))


def r_neg(a):
    return r_mul(R(-1), a)


def is_rconst(a):
    return a.num is not None and a.den is ONE_P and p_isconst(a.num)


def rval(a):
    return p_cval(a.num)


def pi_atom():
    return real_atom("pi", (), pos=1)


PI_D = math.pi
PI_F = 3.1415927410125732


def real_const(x, bits=64):
    """a floating literal, as the exact real the programmer means: a simple fraction, a simple multiple of pi or of a
    small square root, or else the exact binary value"""
    if x != x:
        return real_atom("nan")
    if x in (math.inf, -math.inf):
        a = real_atom("inf", (), pos=1)
        return a if x > 0 else r_neg(a)
    if x == 0:
        return R(0)
    f = Fraction(x)
    tol = Fraction(1, 2 ** 51) if bits >= 64 else Fraction(1, 2 ** 22)
    for pi in ((PI_D,) if bits >= 64 else (PI_F,)):
        q = (f / Fraction(pi)).limit_denominator(12)
        if q and abs(q.numerator) <= 12 and abs(q * Fraction(pi) - f) <= abs(f) * tol * 2:
            return r_mul(R(q), pi_atom())
    lim = 100000 if bits >= 64 else 300
    if f.denominator <= lim:
        return R(f)
    g = f.limit_denominator(lim)
    if g and abs(g - f) <= abs(f) * tol:
        return R(g)
    for pi in ((PI_D,) if bits >= 64 else (PI_F,)):
        q = (f / Fraction(pi)).limit_denominator(400)
        if q and abs(q * Fraction(pi) - f) <= abs(f) * tol * 2:
            return r_mul(R(q), pi_atom())
        q = (f * Fraction(pi)).limit_denominator(400)
        if q and abs(q / Fraction(pi) - f) <= abs(f) * tol * 2:
            return r_div(R(q), pi_atom())
    s = f * f
    q = s.limit_denominator(200)
    if q and q.numerator < 2000 and abs(q - s) <= s * tol * 4:
        r = real_sqrt(R(q))
        return r if x > 0 else r_neg(r)
    return R(f)


def real_sqrt(a):
    if is_rconst(a):
        c = rval(a)
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R(Fraction(n, d))
            # sqrt(n/d) = sqrt(n*d)/d, square-free part
            m = c.numerator * c.denominator
            out = 1
            k = 2
            while k * k <= m:
                while m % (k * k) == 0:
                    m //= k * k
                    out *= k
                k += 1
            return r_mul(R(Fraction(out, c.denominator)), real_atom("sqrt", (R(m),), pos=1))
        return real_atom("sqrt", (a,))
    if a.num is not None and a.num:
        # perfect squares (up to a constant factor) come out as absolute values
        n, cn = _psq(a.num)
        d, cd = _psq(a.den) if a.den is not ONE_P else (ONE_P, Fraction(1))
        if n is not None and d is not None and cn * cd > 0:
            k = real_sqrt(R(cn / cd))
            return lift(lambda t: r_mul(k, t), real_abs(_mkrat(n, d)))
        if d is not None and d is not ONE_P:
            e = real_sqrt(Real({m: c / cd for m, c in a.num.items()}, ONE_P))
            return lift(r_div, e, real_abs(Real(d, ONE_P)))
        if n is not None and a.den is not ONE_P:
            e = real_sqrt(Real({m: c / cn for m, c in a.den.items()}, ONE_P))
            return lift(r_div, real_abs(Real(n, ONE_P)), e)
        if a.den is ONE_P and len(a.num) == 1:
            (m, c), = a.num.items()
            if all(ATOMS[x].pos == 1 for x, _ in m) and (len(m) > 1 or c != 1 or m[0][1] > 1 or ATOMS[m[0][0]].name == "exp") and c > 0:
                r = real_sqrt(R(c))
                for x, e in m:
                    if e // 2:
                        r = r_mul(r, Real({((x, e // 2),): Fraction(1)}, ONE_P))
                    if e % 2:
                        if ATOMS[x].name == "exp":
                            r = r_mul(r, real_atom("exp", (r_mul(R(Fraction(1, 2)), ATOMS[x].args[0]),), pos=1))
                        else:
                            r = r_mul(r, real_atom("sqrt", (Real({((x, 1),): Fraction(1)}, ONE_P),), pos=1))
                return r
        # one representative of k * form: unit leading coefficient
        lead = abs(a.num[max(a.num)])
        if lead != 1:
            return r_mul(real_sqrt(R(lead)), real_sqrt(Real({m: c / lead for m, c in a.num.items()}, a.den)))
    return real_atom("sqrt", (a,), pos=0)


def _psq(p):
    """(r, c) with p = c r^2, r None if there is none; c has the sign of the leading coefficient"""
    c = p[max(p, key=m_ord)]
    r = p_sqrt({m: v / c for m, v in p.items()})
    return r, c


def sgn_known(a):
    """-1/0/1 or None; from constants and known-sign atoms (pos==1: >0; pos==0: >=0)"""
    if a.num is None:
        return None

    def ps(p):
        if not p:
            return 0
        s = None
        for m, c in p.items():
            t = 1 if c > 0 else -1
            for x, e in m:
                q = ATOMS[x]
                if e % 2 == 0 and q.pos != 1 or q.pos is None and e % 2:
                    return None
                if q.pos == 0:
                    return None
            if s is None:
                s = t
            elif s != t:
                return None
        return s
    n = ps(a.num)
    if n == 0:
        return 0
    d = 1 if a.den is ONE_P else ps(a.den)
    return None if n is None or d is None else n * d


def nonneg_known(a):
    """a >= 0 known?"""
    if a.num is None:
        return False

    def ok(p):
        for m, c in p.items():
            if c < 0:
                return False
            for x, e in m:
                if e % 2 and ATOMS[x].pos is None:
                    return False
        return True
    if not ok(a.num):
        return a.den is ONE_P and _root_dominates(a.num)
    if a.den is ONE_P or ok(a.den):
        return True
    # .../e with the square root of e in the numerator: defined for e > 0 only
    lead = a.den[max(a.den)]
    for x in {x for m in a.num for x, e in m if ATOMS[x].name == "sqrt"}:
        e = ATOMS[x].args[0]
        if isinstance(e, Real) and e.num is not None and e.den is ONE_P and len(e.num) == len(a.den):
            k = lead / e.num.get(max(a.den), lead) if max(a.den) in e.num else -1
            if k > 0 and all(e.num.get(m) == c / k for m, c in a.den.items()):
                return True
    return False


def _root_dominates(p):
    """c sqrt(e) + b with c > 0 and e - (b/c)^2 >= 0: not negative"""
    if len(p) > 8:
        return False
    sq = [m for m in p if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == "sqrt"]
    if len(sq) != 1 or p[sq[0]] <= 0:
        return False
    x, c = sq[0][0][0], p[sq[0]]
    if any(y == x for m in p if m is not sq[0] for y, e in m):
        return False
    e = ATOMS[x].args[0]
    if not isinstance(e, Real) or e.num is None or e.den is not ONE_P:
        return False
    b = Real({m: k / c for m, k in p.items() if m is not sq[0]}, ONE_P)
    k = r_add(e, r_mul(b, b), -1)
    return k.num is not None and k.den is ONE_P and all(v > 0 and all(q % 2 == 0 for _, q in m) for m, v in k.num.items())


def sign_cond(a):
    """-> ('const', s) or (cond id, flip)"""
    s = sgn_known(a)
    if s is not None:
        return ("const", s)
    if a.num is not None:
        if a.den is ONE_P:
            # a*sqrt(E) + b : decide on E
            sq = [m for m in a.num if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == "sqrt"]
            if len(sq) == 1 and set(a.num) <= {sq[0], ()}:
                c, b = a.num[sq[0]], a.num.get((), Fraction(0))
                E = ATOMS[sq[0][0][0]].args[0]
                if b == 0 or (b > 0) == (c > 0):
                    if b == 0:
                        pass
                    else:
                        return ("const", 1 if c > 0 else -1)
                else:
                    k = r_add(E, R((b / c) ** 2), -1)
                    t = sign_cond(k)
                    if t[0] == "const":
                        return ("const", t[1] * (1 if c > 0 else -1))
                    return (t[0], t[1] != (c < 0))
        if a.den is not ONE_P and (nonneg_known(Real(a.den, ONE_P)) or _psq(a.den)[0] is not None and _psq(a.den)[1] > 0):
            a = Real(a.num, ONE_P)
        lead = a.num[max(a.num)]
        n = Real({m: c / abs(lead) for m, c in a.num.items()} if lead > 0 else
                 {m: -c / abs(lead) for m, c in a.num.items()}, a.den)
        return (cond_id("sgn", n), lead < 0)
    neg = ("sgn", ("R", (-a.h[0]) % P1, (-a.h[1]) % P2))
    if neg in _CONDKEY:
        return (_CONDKEY[neg], True)
    return (cond_id("sgn", a), False)


def by_sign(a, neg, zero, pos):
    """value selected by the sign of leaf a"""
    if isinstance(a, Int):
        return i_by_sign(a, neg, zero, pos)
    t = sign_cond(a)
    if t[0] == "const":
        return (zero, pos, neg)[t[1]]
    if a.num is not None:
        com = None
        for m in a.num:
            r = {x for x, e in m if ATOMS[x].name == "sqrt" and isinstance(ATOMS[x].args[0], Real)}
            com = r if com is None else com & r
            if not com:
                break
        if com:                             # sqrt(e) * rest
            x = max(com)
            rest = _mkreal({tuple((y, e - (y == x)) for y, e in m if y != x or e > 1): c for m, c in a.num.items()}, a.den)
            return by_sign(ATOMS[x].args[0], zero, zero, by_sign(rest, neg, zero, pos))
        if a.den is not ONE_P and p_isconst(a.num):       # c / den is never zero
            if p_cval(a.num) < 0:
                neg, pos = pos, neg
            return by_sign(Real(a.den, ONE_P), neg, pos, pos)
        if a.den is not ONE_P and len(a.num) > 1 and _root_dominates({m: -c for m, c in a.num.items()}):
            v = by_sign(Real(a.den, ONE_P), pos, neg, neg)
            return by_sign(Real({m: -c for m, c in a.num.items()}, ONE_P), zero, zero, v)
        if a.den is not ONE_P and len(a.num) > 1 and _root_dominates(a.num):
            v = by_sign(Real(a.den, ONE_P), neg, pos, pos)
            return by_sign(Real(a.num, ONE_P), zero, zero, v)
        if len(a.num) < 40:
            r, c = _psq(a.num)
            if r is not None and (len(r) > 1 or () not in r):   # c * r^2 / den
                d = Real(a.den, ONE_P) if c > 0 else r_neg(Real(a.den, ONE_P))
                v = by_sign(d, neg, zero, pos)
                return by_sign(Real(r, ONE_P), v, zero, v)
    c, flip = t
    if flip:
        neg, pos = pos, neg
    val = _CONDS[c][1]
    if neg.key != pos.key or zero.key != pos.key:
        if val.num is not None and val.den is ONE_P:
            z = subst_eq(zero, val.num, 0)
            if z is not None:
                zero = z
    if nonneg_known(val):
        neg = zero
    return mk_at(c, (neg, zero, pos))


def i_by_sign(a, neg, zero, pos):
    """the same for integers: decided by where the primitive non-constant part of a lies"""
    if a.lo > 0:
        return pos
    if a.hi < 0:
        return neg
    if a.lo == a.hi == 0:
        return zero
    q = dict(a.p)
    c0 = int(q.pop((), 0))
    g = 0
    for c in q.values():
        g = math.gcd(g, int(c))
    lo, hi = a.lo, a.hi
    if q[max(q)] < 0:
        g, c0, lo, hi, neg, pos = -g, -c0, -hi, -lo, pos, neg
    q = {m: c / g for m, c in q.items()}
    g = abs(g)
    form = i_make(q)
    cid = cond_id("int", form)
    form = _CONDS[cid][1]
    l, h = max(form.lo, -((c0 - lo) // g)), min(form.hi, (hi - c0) // g)
    k1 = (-c0 - 1) // g      # g*q + c0 < 0
    k2 = (-c0) // g          # g*q + c0 <= 0
    kids, br = [neg], []
    for k, v in ((k1, zero), (k2, pos)):
        if br and br[-1] == k:
            kids[-1] = v
        else:
            br.append(k)
            kids.append(v)
    # decided by bounds (of this value or of the form)
    while br and br[0] < l:
        del br[0], kids[0]
    while br and br[-1] >= h:
        del br[-1], kids[-1]
    if not br:
        return kids[0]
    return mk_at(cid, tuple(kids), tuple(br))


def mk_at(c, kids, br=None):
    """kids may contain conditions ordered before c: rebuild in order"""
    if all(not (type(k) is Node and k.c <= c) for k in kids):
        return mk(c, kids, br)
    r = kids[-1]
    for i in range(len(kids) - 2, -1, -1):
        r = ite(mk(c, tuple(TRUE if j == i else FALSE for j in range(len(kids))), br), kids[i], r)
    return r


def subst_eq(v, p, k):
    """v where the form p equals k, if p can be solved for a plain atom (the greatest one that occurs only linearly)"""
    key = (frozenset(p.items()), k)
    r = _SOLVE.get(key, 0)
    if r == 0:
        r = _SOLVE[key] = solve_for(p, k)
    return None if r is None else subst(v, r[0], r[1])


def solve_for(p, k):
    best = None
    for m in p:
        if len(m) == 1 and m[0][1] == 1 and (len(p) == 1 or not ATOMS[m[0][0]].args and (abs(p[m]) == 1 or len(p) == 2 and () in p)):
            x = m[0][0]
            if (best is None or x > best) and all(n == m or all(y != x and not ATOMS[y].args for y, _ in n) for n in p):
                best = x
    if best is None:
        return None
    m = ((best, 1),)
    c = p[m]
    e = {n: -d / c for n, d in p.items() if n != m}
    e = p_add(e, p_const(Fraction(k) / c))
    return best, e


class TooLong(Exception):
    pass


def differ(v, w, limit=60000):
    """a pair of leaves in which v and w differ where both are reached, or None when there is none: conditions are followed
    in the light of those decided before (an equality is substituted in what follows).  TooLong: not decided."""
    count, open_ = [0], []

    def norm(x, subs):
        for a, e in subs:
            z = subst(x, a, e)
            if z is not None:
                x = z
        return x

    def solved(form, k):
        if isinstance(form, Int):
            return solve_for(form.p, k)
        p = form.num
        if p is None or form.den is not ONE_P:
            return None
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and not ATOMS[m[0][0]].args:
                x = m[0][0]
                if all(n == m or all(y != x for y, _ in n) for n in p):
                    return x, {n: -d / p[m] for n, d in p.items() if n != m}
        return None

    def go(v, w, subs, facts, zeros):
        if v.key == w.key:
            return None
        count[0] += 1
        if count[0] > limit:
            raise TooLong()
        top = None
        for x in (v, w):
            if type(x) is Node and (top is None or x.c < top):
                top = x.c
        if top is None:
            a, b = norm(v, subs), norm(w, subs)
            if a.key == b.key:
                return None
            if isinstance(a, Real) and isinstance(b, Real) and a.num is not None and b.num is not None and len(a.num) * len(b.den) + len(b.num) * len(a.den) < 4000:
                d = r_add(a, b, -1)
                if any(vanishes(d, z) for z in zeros):
                    return None
            elif (subs or zeros) and (isinstance(a, Real) and a.num is None or isinstance(b, Real) and b.num is None):
                open_.append(1)             # too big to substitute in
                return None
            return v, w
        kind, form = _CONDS[top]
        br, cs = split(top, (v, w))
        if kind == "bool":
            ks = facts.get(top)
            for i in ((0, 1) if ks is None else ks):
                r = go(cs[i][0], cs[i][1], subs, {**facts, top: (i,)}, zeros)
                if r:
                    return r
            return None
        f = norm(form, subs) if subs else form
        if br is None:
            if isinstance(f, Real):
                s = sgn_known(f)
                if s is not None:
                    return go(cs[s + 1][0], cs[s + 1][1], subs, facts, zeros)
                key, neg = f.key, r_neg(f).key
                if neg in facts:
                    key, flip = neg, True
                else:
                    flip = False
                known = facts.get(key)
                for i in ((2, 0, 1) if known is None else (2 - known if flip else known,)):
                    s2, z2 = subs, zeros
                    if i == 1 and known is None:
                        e = solved(f, 0)
                        if e is not None:
                            s2 = subs + (e,)
                        else:
                            z2 = zeros + (f,)
                    r = go(cs[i][0], cs[i][1], s2, {**facts, f.key: i} if known is None else facts, z2)
                    if r:
                        return r
                return None
        for i, (a, b) in enumerate(cs):
            s2 = subs
            if br is not None:
                lo = br[i - 1] + 1 if i else f.lo
                hi = br[i] if i < len(br) else f.hi
                if isinstance(f, Int):
                    if f.hi < lo or f.lo > hi:
                        continue
                    l, h = facts.get(f.key, (lo, hi))
                    lo, hi = max(lo, l), min(hi, h)
                    if lo > hi:
                        continue
                    if lo == hi and f.lo != f.hi:
                        e = solved(f, lo)
                        if e is not None and all(c.denominator == 1 for c in e[1].values()):
                            s2 = subs + (e,)
                    r = go(a, b, s2, {**facts, f.key: (lo, hi)}, zeros)
                    if r:
                        return r
                    continue
            r = go(a, b, s2, facts, zeros)
            if r:
                return r
        return None
    r = go(v, w, (), {}, ())
    if r is None and open_:
        raise TooLong()
    return r


def depends(v, x, seen=None):
    if isinstance(v, Real):
        if v.num is None:
            return None
        ps = (v.num, v.den)
    elif isinstance(v, Int):
        ps = (v.p,)
    elif isinstance(v, (BoolV, Ptr, UndefV, FuncV)):
        return False
    else:
        return None
    for p in ps:
        for m in p:
            for a, _ in m:
                if a == x:
                    return True
                for y in ATOMS[a].args:
                    if hasattr(y, "key"):
                        d = depends(y, x)
                        if d or d is None:
                            return d
    return False


def subst(v, x, k):
    if type(v) is Node:
        key = (v.key, x, frozenset(k.items()))
        r = _SUBST.get(key, 0)
        if r == 0:
            r = None
            kids = []
            for w in v.kids:
                w = subst(w, x, k)
                if w is None:
                    break
                kids.append(w)
            else:
                r = v if all(w is z for w, z in zip(kids, v.kids)) else mk_at(v.c, tuple(kids), v.br)
            _SUBST[key] = r
        return r
    d = depends(v, x)
    if d is None:
        return None
    if not d:
        return v
    # only direct polynomial occurrences
    ps = (v.num, v.den) if isinstance(v, Real) else (v.p,)
    for p in ps:
        for m in p:
            for a, _ in m:
                if a != x and ATOMS[a].args:
                    return None
    def sp(p):
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(x, 0)
            t = {tuple(sorted(d.items())): c}
            for _ in range(e):
                t = p_mul(t, k)
            r = p_add(r, t)
        return r
    if isinstance(v, Real):
        den = sp(v.den) if v.den is not ONE_P else ONE_P
        if not den:
            return None
        return _mkreal(sp(v.num), den)
    p = sp(v.p)
    if any(c.denominator != 1 for c in p.values()):
        return None
    return i_make(p, v.lo, v.hi)


def real_abs(a):
    s = sgn_known(a)
    if s is not None:
        return a if s >= 0 else r_neg(a)
    if nonneg_known(a):
        return a
    return by_sign(a, r_neg(a), R(0), a)


# ------------------------------------------------------------------ Int arithmetic
def I(c):
    return Int(p_const(Fraction(c)), c, c)


def p_bounds(p):
    lo = hi = 0
    for m, c in p.items():
        a, b = 1, 1
        for x, e in m:
            A = ATOMS[x]
            for _ in range(e):
                c4 = (a * A.lo, a * A.hi, b * A.lo, b * A.hi)
                a, b = min(c4), max(c4)
            if e == 2 and len(m) == 1:
                a = max(a, 0)
        c = int(c)
        lo += min(a * c, b * c)
        hi += max(a * c, b * c)
    return lo, hi


def i_make(p, lo=None, hi=None):
    if p_isconst(p):
        return I(int(p_cval(p)))
    l, h = p_bounds(p)
    if lo is not None:
        l = max(l, lo)
    if hi is not None:
        h = min(h, hi)
    return Int(p, l, h)


def int_atom(name, lo, hi, args=()):
    i = atom(name, args, True, lo, hi)
    return Int({((i, 1),): Fraction(1)}, lo, hi)


def smin(n):
    return -(1 << (n - 1))


def smax(n):
    return (1 << (n - 1)) - 1


def wrap(p, n):
    """polynomial -> Int: its n-bit two's complement (signed) value"""
    if p_isconst(p):
        c = int(p_cval(p)) & ((1 << n) - 1)
        return I(c - (1 << n) if c >> (n - 1) else c)
    # inner wraps at >= n bits vanish
    p = _unwrap(p, n)
    # coefficients modulo 2^n, symmetric
    lo, hi = p_bounds(p)
    if lo >= smin(n) and hi <= smax(n):
        return Int(p, lo, hi)
    q = {}
    for m, c in p.items():
        c = int(c) & ((1 << n) - 1)
        if c > (1 << (n - 1)):
            c -= 1 << n
        if c:
            q[m] = Fraction(c)
    if p_isconst(q):
        return wrap(q, n)
    lo, hi = p_bounds(q)
    if lo >= smin(n) and hi <= smax(n):
        return Int(q, lo, hi)
    return _wrapped("wrap%d" % n, smin(n), smax(n), q)


class _PolyArg:
    """polynomial as atom argument"""
    __slots__ = ("p", "key")

    def __init__(self, p):
        self.p = p
        self.key = ("p", frozenset(p.items()))


def _unwrap(p, n):
    for _ in range(50):
        hit = None
        for m in p:
            for x, e in m:
                nm = ATOMS[x].name
                if (nm.startswith("wrap") or nm.startswith("umod")) and int(nm[4:]) >= n and isinstance(ATOMS[x].args[0], _PolyArg):
                    hit = x
        if hit is None:
            return p
        inner = ATOMS[hit].args[0].p
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(hit, 0)
            t = {tuple(sorted(d.items())): c}
            for _ in range(e):
                t = p_mul(t, inner)
                if t is None:
                    return p
            r = p_add(r, t)
        p = r
    return p


def umod(p, n):
    """polynomial -> Int: value modulo 2^n, in [0, 2^n)"""
    if p_isconst(p):
        return I(int(p_cval(p)) & ((1 << n) - 1))
    p = _unwrap(p, n)
    lo, hi = p_bounds(p)
    if lo >= 0 and hi < (1 << n):
        return Int(p, lo, hi)
    q = {}
    for m, c in p.items():
        c = int(c) & ((1 << n) - 1)
        if c:
            q[m] = Fraction(c)
    if p_isconst(q):
        return umod(q, n)
    lo, hi = p_bounds(q)
    if lo >= 0 and hi < (1 << n):
        return Int(q, lo, hi)
    return _wrapped("umod%d" % n, 0, (1 << n) - 1, q)


_WRAPS = set()


def _wrapped(name, lo, hi, q):
    v = int_atom(name, lo, hi, (_PolyArg(q),))
    for m in v.p:
        _WRAPS.add(m[0][0])
    return v


def unsigned_view(a, n):
    if a.lo >= 0:
        return a
    if a.hi < 0:
        return Int(p_add(a.p, p_const(Fraction(1 << n))), a.lo + (1 << n), a.hi + (1 << n)) if not p_isconst(a.p) else I(int(p_cval(a.p)) + (1 << n))
    return umod(a.p, n)


def is_iconst(a):
    return p_isconst(a.p)


def ival(a):
    return int(p_cval(a.p))


def floordiv2(a, k):
    """floor(a / 2^k)"""
    if k == 0:
        return a
    if is_iconst(a):
        return I(ival(a) >> k)
    p = a.p
    # split off the part divisible by 2^k
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c))
    t = 0
    while t < k and g % 2 == 0:
        g //= 2
        t += 1
    if t:
        p = {m: c / (1 << t) for m, c in p.items()}
        k -= t
    lo, hi = a.lo >> t, a.hi >> t
    if k == 0:
        return Int(p, lo, hi)
    div = {m: c / (1 << k) for m, c in p.items() if c % (1 << k) == 0}
    rest = {m: c for m, c in p.items() if c % (1 << k) != 0}
    # collapse floor(floor(x/2^a)/2^b)
    if len(rest) == 1 and not div:
        (m, c), = rest.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == "floor2":
            arg, kk = ATOMS[m[0][0]].args
            return floordiv2(Int(arg.p, *p_bounds(arg.p)), kk + k)
    rl, rh = p_bounds(rest)
    if not div:
        rl, rh = max(rl, lo), min(rh, hi)
    f = int_atom("floor2", rl >> k, rh >> k, (_PolyArg(rest), k))
    if (rl >> k) == (rh >> k):
        f = I(rl >> k)
    return i_make(p_add(f.p, div), lo >> k, hi >> k)


def tdiv(a, b):
    """C division (truncating) of leaf Ints, exact"""
    if is_iconst(b):
        d = ival(b)
        if d == 0:
            return int_atom("div0", -(1 << 63), (1 << 63) - 1, (a,))
        if is_iconst(a):
            q = abs(ival(a)) // abs(d)
            return I(q if (ival(a) >= 0) == (d > 0) else -q)
        if all(c % d == 0 for c in a.p.values()):
            return i_make({m: c / d for m, c in a.p.items()})
        g = abs(d)
        for c in a.p.values():
            g = math.gcd(g, int(c))
        p, dd = {m: c / g for m, c in a.p.items()}, abs(d) // g
        lo, hi = -(-a.lo // g) if a.lo < 0 else a.lo // g, a.hi // g
        if lo >= 0 and dd & (dd - 1) == 0:
            r = floordiv2(i_make(p, lo, hi), dd.bit_length() - 1)
        else:
            mx = max(abs(lo), abs(hi)) // dd
            r = int_atom("tdiv", -mx if lo < 0 else 0, mx if hi > 0 else 0, (_PolyArg(p), dd))
        return r if d > 0 else i_make({m: -c for m, c in r.p.items()})
    # general: cancel sign and constant content
    s = 1
    pa, pb = a.p, b.p
    if pb[max(pb)] < 0:
        pb = {m: -c for m, c in pb.items()}
        s = -s
    if pa and pa[max(pa)] < 0:
        pa = {m: -c for m, c in pa.items()}
        s = -s
    if not pa:
        return I(0)
    g = 0
    for c in list(pa.values()) + list(pb.values()):
        g = math.gcd(g, int(c))
    if g > 1:
        pa = {m: c / g for m, c in pa.items()}
        pb = {m: c / g for m, c in pb.items()}
    mx = max(abs(a.lo), abs(a.hi))
    r = int_atom("tdiv", -mx, mx, (_PolyArg(pa), _PolyArg(pb)))
    return r if s > 0 else i_make({m: -c for m, c in r.p.items()})


def int_to_real(a):
    return Real(dict(a.p), ONE_P)


def real_to_int(a, n, signed=True):
    """C conversion (truncation toward zero) of leaf Real"""
    lo, hi = (smin(n), smax(n)) if signed else (0, (1 << n) - 1)
    if is_rconst(a):
        c = rval(a)
        q = abs(c.numerator) // c.denominator
        v = q if c >= 0 else -q
        if lo <= v <= hi:
            return I(v)
        return int_atom("ovf", lo, hi, (a,))
    if a.num is not None and a.den is ONE_P and all(c.denominator == 1 for c in a.num.values()) and \
       all(ATOMS[x].isint for m in a.num for x, _ in m):
        l, h = p_bounds(a.num)
        if l >= lo and h <= hi:
            return i_make(dict(a.num))
    # "as if by truncation": range is the destination's (out of range is undefined in C++)
    if signed and a.num is not None and a.num[max(a.num)] < 0:
        # truncation is odd
        return i_make({((atom("trunc_i", (r_neg(a),), True, lo, hi), 1),): Fraction(-1)}, lo, hi)
    return int_atom("trunc_i", lo, hi, (a,))


# ------------------------------------------------------------------ printing
def v_str(v, depth=0):
    if isinstance(v, Real):
        if v.num is None:
            return "<expr #%x>" % (v.h[0] & 0xffffffff)
        if v.den is ONE_P:
            return p_str(v.num)
        return "(%s)/(%s)" % (p_str(v.num), p_str(v.den))
    if isinstance(v, Int):
        return p_str(v.p)
    if isinstance(v, _PolyArg):
        return p_str(v.p)
    if isinstance(v, BoolV):
        return "true" if v.v else "false"
    if isinstance(v, UndefV):
        return "<uninitialised>"
    if isinstance(v, Ptr):
        return "&%s+%s" % (v.obj.name if v.obj is not None else "abs", v.off)
    if isinstance(v, FuncV):
        return "&" + v.fn.name
    if isinstance(v, Agg):
        return "{" + ", ".join(v_str(x) for x in v.e) + "}"
    if isinstance(v, Pieces):
        return "bits{" + ", ".join(v_str(x[2]) for x in v.parts) + "}"
    if type(v) is Bits:
        return "[" + " ".join("1" if x is TRUE else "0" if x is FALSE else v_str(x, depth + 5) for x in reversed(v.b)) + "]"
    if type(v) is Node:
        kind, val = _CONDS[v.c]
        if kind == "bool":
            if v.kids == (FALSE, TRUE):
                return val
            if v.kids == (TRUE, FALSE):
                return "!" + val
        if depth > 6:
            return "..."
        if kind == "sgn":
            n, z, p = v.kids
            if n.key == z.key:
                return "[%s > 0 ? %s : %s]" % (v_str(val), v_str(p, depth + 1), v_str(n, depth + 1))
            if z.key == p.key:
                return "[%s < 0 ? %s : %s]" % (v_str(val), v_str(n, depth + 1), v_str(p, depth + 1))
            if n.key == p.key:
                return "[%s == 0 ? %s : %s]" % (v_str(val), v_str(z, depth + 1), v_str(p, depth + 1))
            return "[sign(%s): <0 %s, =0 %s, >0 %s]" % (v_str(val), v_str(n, depth + 1), v_str(z, depth + 1), v_str(p, depth + 1))
        if kind == "int":
            f = v_str(val)
            r = ""
            for k, w in zip(v.br, v.kids):
                r += "%s <= %d ? %s : " % (f, k, v_str(w, depth + 1))
            return "[" + r + v_str(v.kids[-1], depth + 1) + "]"
        return "[%s ? %s : %s]" % (val, v_str(v.kids[1], depth + 1), v_str(v.kids[0], depth + 1))
    return repr(v)
