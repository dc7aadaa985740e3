"""Value numbering: computes, for a function of the library, a normal form of every value it returns or writes, as an
expression over its inputs.  Branches become gated values, calls are expanded, fixed-trip loops are unrolled and other
counted loops are summarised (sums, element-wise maps, inductions).  Nothing is executed and no solver is asked."""
from fractions import Fraction
from core import *
import alg
from alg import *

THROW = "throw"
SMALL = 4     # longer fixed arrays are treated as sequences


class GiveUp(Exception):
    pass


class Obj:
    """record / fixed array value: immutable map key -> value"""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Obj(self.cls, d)

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Seq:
    """sequence with symbolic size"""
    def __init__(self, size):
        self.size = size

    def get(self, i):
        raise NotImplementedError


class SBase(Seq):
    """elements named by their index"""
    def __init__(self, m, name, et, size, pre=()):
        self.m, self.name, self.et, self.size, self.pre = m, name, et, size, tuple(pre)

    def get(self, i):
        return lift1(lambda j: self.m.element(self.et, self.name, self.pre + (j,)), i)

    def __repr__(self):
        return "%s[..]" % self.name


class SFill(Seq):
    def __init__(self, size, v, resized=None):
        self.size, self.v = size, v

    def get(self, i):
        return self.v

    def __repr__(self):
        return "fill(%r)" % self.v


class SStore(Seq):
    def __init__(self, prev, i, v, size=None):
        self.prev, self.i, self.v = prev, i, v
        self.size = prev.size if size is None else size

    def get(self, j):
        c = lift(lambda a, b: eq(a, b), self.i, j)
        c = tocond(c)
        if c is None:
            return Unk("index")
        c = known(c)
        if c.t == "T":
            return self.v
        p = self.prev.get(j)
        if c.t == "F":
            return p
        return vite(c, self.v, p)

    def __repr__(self):
        return "%r[%r:=%r]" % (self.prev, self.i, self.v)


class SResize(Seq):
    def __init__(self, prev, size, v):
        self.prev, self.size, self.v = prev, size, v

    def get(self, j):
        c = tocond(lift(lambda a, b: lti(a, b), j, self.prev.size))
        if c is None:
            return Unk("index")
        c = known(c)
        if c.t == "T":
            return self.prev.get(j)
        if c.t == "F":
            return self.v
        return vite(c, self.prev.get(j), self.v)

    def __repr__(self):
        return "resize(%r,%r)" % (self.prev, self.size)


class SMap(Seq):
    """prev with elements lo <= i < hi replaced by body[i]"""
    def __init__(self, prev, iv, lo, hi, body, size=None):
        self.prev, self.iv, self.lo, self.hi, self.body = prev, iv, lo, hi, body
        self.size = prev.size if size is None else size

    def get(self, j):
        b = vsubst(self.body, {self.iv: j})
        inr = tocond(lift(lambda a, l, h: And(lei(l, a), lti(a, h)), j, self.lo, self.hi))
        if inr is None:
            return Unk("index")
        inr = known(inr)
        if inr.t == "T":
            return b
        p = self.prev.get(j)
        if inr.t == "F":
            return p
        return vite(inr, b, p)

    def __repr__(self):
        return "map[%r..%r) %r" % (self.lo, self.hi, self.body)


class SVec(Seq):
    """sequence of known length"""
    def __init__(self, xs):
        self.xs = list(xs)
        self.size = Rat.of(len(self.xs))

    def get(self, j):
        if isinstance(j, Unk):
            return j
        if isinstance(j, Ite):
            return vite(j.c, self.get(j.a), self.get(j.b))
        c = j.const()
        if c is not None:
            return self.xs[int(c)] if 0 <= c < len(self.xs) and c.denominator == 1 else Unk("index out of range")
        if not self.xs or len(self.xs) > 24:
            return Unk("dynamic index")
        r = self.xs[-1]
        for x in range(len(self.xs) - 2, -1, -1):
            k = known(eq(j, x))
            r = self.xs[x] if k.t == "T" else r if k.t == "F" else vite(k, self.xs[x], r)
        return r

    def __repr__(self):
        return repr(self.xs)


class BView(SVec):
    """the bytes of an object of type tid at place src"""
    def __init__(self, xs, src, tid):
        SVec.__init__(self, xs)
        self.src, self.tid = src, tid


class Wide(Seq):
    """bytes read as elements of a wider type"""
    def __init__(self, m, base, tid, n, fr):
        self.size = alg.sym("$wide", True)
        self.m, self.base, self.tid, self.n, self.fr = m, base, tid, n, fr

    def get(self, i):
        c = i.const() if isinstance(i, Rat) else None
        if c is None:
            return Unk("bytes at an unknown place")
        p = self.base.plus(Rat.of(int(c) * self.n))
        ys = self.m.ranged(p, p.plus(Rat.of(self.n)), self.fr)
        return Unk("bytes") if ys is None else self.m.unbytes(ys, self.tid)


class Narrow(Seq):
    """elements from a place on, read as bytes"""
    def __init__(self, m, base, tid, n, fr):
        self.size = alg.sym("$narrow", True)
        self.m, self.base, self.tid, self.n, self.fr = m, base, tid, n, fr

    def get(self, i):
        c = i.const() if isinstance(i, Rat) else None
        if c is None or c < 0:
            return Unk("byte at an unknown place")
        p = self.base.plus(Rat.of(int(c) // self.n))
        return self.m.tobytes(self.m.read(p.loc.at(p.i), self.fr.store), self.tid)[int(c) % self.n]


class SSet(Seq):
    """set with known, pairwise different elements; ordered ones are kept sorted"""
    def __init__(self, xs, ordered):
        self.xs, self.ordered = list(xs), ordered
        self.size = Rat.of(len(self.xs))

    def get(self, j):
        if not self.ordered and len(self.xs) > 1:
            return Unk("element of an unordered set")
        return SVec(self.xs).get(j)

    def find(self, x):
        """position, -1 or None when equality is not decided"""
        for i, y in enumerate(self.xs):
            k = same(x, y)
            if k.t == "T":
                return i
            if k.t != "F":
                return None
        return -1

    def add(self, x):
        i = self.find(x)
        if i is None:
            return None
        if i >= 0:
            return self
        xs = list(self.xs)
        i = len(xs)
        if self.ordered:
            i = 0
            while i < len(xs):
                k = known(lt(x, xs[i])) if isinstance(x, Rat) else None
                if k is None or k.t not in ("T", "F"):
                    return None
                if k.t == "T":
                    break
                i += 1
        xs.insert(i, x)
        return SSet(xs, self.ordered)

    def __repr__(self):
        return "set%r" % (self.xs,)


def same(x, y):
    """condition: two values are equal, component by component"""
    if isinstance(x, Obj) and isinstance(y, Obj) and list(x.f) == list(y.f):
        c = T
        for k in x.f:
            c = And(c, same(x.f[k], y.f[k]))
        return known(c)
    if isinstance(x, Rat) and isinstance(y, Rat):
        return known(eq(x, y))
    return Cond("op", "?equality")


def vec(v, limit=64):
    """elements of a sequence of known length, or None"""
    if isinstance(v, SSet):
        return list(v.xs) if v.ordered or len(v.xs) < 2 else None
    if isinstance(v, SVec):
        return list(v.xs)
    if isinstance(v, Obj) and v.cls == "array":
        return [v.f[i] for i in range(len(v.f))]
    if isinstance(v, Ite):
        a, b = vec(v.a), vec(v.b)
        if a is not None and b is not None and len(a) == len(b):
            return [vite(v.c, x, y) for x, y in zip(a, b)]
        return None
    if isinstance(v, Seq) and isinstance(v.size, Rat):
        n = v.size.const()
        if n is not None and 0 <= n <= limit:
            return [v.get(Rat.of(i)) for i in range(int(n))]
    return None


class SIte(Seq):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.size = ite(c, a.size, b.size)

    def get(self, j):
        return vite(self.c, self.a.get(j), self.b.get(j))


class SSub(Seq):
    """lazy substitution into a sequence"""
    def __init__(self, s, mp):
        self.s, self.mp = s, mp
        self.size = vsubst(s.size, mp)

    def get(self, j):
        t = alg.sym("$ix%d" % len(alg.SYM), True)
        ta = next(iter(t.atoms()))
        v = self.s.get(t)
        mp = dict(self.mp)
        mp[ta] = j
        return vsubst(v, mp)


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def at(self, k):
        return Loc(self.root, self.path + (k,))

    def same(self, o):
        return isinstance(o, Loc) and self.root == o.root and len(self.path) == len(o.path) and all(
            keysame(a, b) for a, b in zip(self.path, o.path))

    def __repr__(self):
        return "&%s%s" % (self.root, "".join(".%s" % (p,) for p in self.path))


class Ptr:
    """pointer / iterator: element offset i into the sequence at loc, or address of loc (i None)"""
    __slots__ = ("loc", "i", "rev")

    def __init__(self, loc, i=None, rev=False):
        self.loc, self.i, self.rev = loc, i, rev     # rev: reverse iterator with this base

    def plus(self, o):
        return Ptr(self.loc, lift(lambda x, y: x - y if self.rev else x + y, self.i, o), self.rev)


class Null:
    """the null pointer (only used when a check describes objects on the heap)"""
    def __repr__(self):
        return "null"


NULL = Null()


def truth(v):
    """condition under which a pointer is not null"""
    if isinstance(v, Ptr):
        return T
    if v is NULL:
        return F
    if isinstance(v, Ite):
        a, b = truth(v.a), truth(v.b)
        return None if a is None or b is None else cite(v.c, a, b)
    return None


def is_ptr(v):
    return isinstance(v, Ptr) and v.i is None or v is NULL or isinstance(v, Ite) and is_ptr(v.a) and is_ptr(v.b)


def ptr_leaves(v, g=T):
    """(guard, pointer) alternatives"""
    if isinstance(v, Ite):
        return ptr_leaves(v.a, And(g, v.c)) + ptr_leaves(v.b, And(g, Not(v.c)))
    return [(g, v)]


class Lam:
    def __init__(self, fn, caps, env, this):
        self.fn, self.caps, self.env, self.this = fn, caps, env, this


class Fun:
    """callable argument: an uninterpreted function of its arguments"""
    def __init__(self, name, impl=None):
        self.name = name
        self.impl = impl        # or a known function of the flattened arguments

    def __repr__(self):
        return "<function %s>" % self.name


def keysame(a, b):
    if isinstance(a, Rat) or isinstance(b, Rat):
        return isinstance(a, Rat) and isinstance(b, Rat) and a == b
    return a == b


def lti(a, b):
    """integer a < b"""
    return le(Rat.of(a) + 1, b)


def lei(a, b):
    return le(a, b)


def lift1(fn, v):
    if isinstance(v, Unk):
        return v
    if isinstance(v, Ite):
        return vite(v.c, lift1(fn, v.a), lift1(fn, v.b))
    return fn(v)


def vsubst(v, mp):
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vsubst(x, mp) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return SSub(v, mp)
    if isinstance(v, (Rat, Cond, Ite)):
        return gsubst(v, mp)
    return v


def gsubst(v, mp):
    """substitution whose images may be gated"""
    if all(isinstance(x, Rat) for x in mp.values()):
        return deep_subst(v, mp)
    for k, x in mp.items():
        if isinstance(x, Ite):
            return vite(x.c, gsubst(v, dict(mp, **{}) | {k: x.a}), gsubst(v, mp | {k: x.b}))
        if not isinstance(x, Rat):
            return Unk("substitution")
    return deep_subst(v, mp)


def structural(v):
    return isinstance(v, (Obj, Seq, Loc, Ptr, Lam, Null))


def vite(c, a, b):
    if a is b or c.t == "T":
        return a
    if c.t == "F":
        return b
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isinstance(a, Obj) and isinstance(b, Obj):
        if set(a.f) != set(b.f):
            return Unk("merge of different shapes")
        if a.cls == "optional" and "F" in (a.f["has"].t, b.f["has"].t):
            return Obj(a.cls, {"has": tocond_v(vite(c, a.f["has"], b.f["has"])), "val": (b if a.f["has"].t == "F" else a).f["val"]})
        return Obj(a.cls, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return SIte(c, a, b)
    if isinstance(a, Loc) and isinstance(b, Loc) and a.same(b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc.same(b.loc):
        if a.i is None and b.i is None:
            return a
        if a.i is not None and b.i is not None:
            return Ptr(a.loc, vite(c, a.i, b.i))
    if isinstance(a, Unk) or isinstance(b, Unk):
        if isinstance(a, Unk) and isinstance(b, Unk):
            return a
        if structural(a) or structural(b):
            return a if isinstance(a, Unk) else b
        return ite(c, a, b)
    if structural(a) or structural(b):
        return Ite(c, a, b)
    return ite(c, a, b)


def merge_store(c, a, b):
    if a is b:
        return a
    out = {}
    for k in a:
        if k in b:
            out[k] = a[k] if a[k] is b[k] else vite(c, a[k], b[k])
        elif k.startswith("$ev:"):
            out[k] = vite(c, a[k], F)
        else:
            out[k] = a[k]
    for k in b:
        if k not in out:
            out[k] = vite(c, F, b[k]) if k.startswith("$ev:") else b[k]
    return out


# ------------------------------------------------------------------ sums
def bound_depth(r):
    d = 0
    for a in r.deep_atoms():
        n = ATOMS[a].name
        if n.startswith("$") and n[1:].isdigit():
            d = max(d, int(n[1:]) + 1)
    return d


def mk_sum(lo, hi, iv, body):
    """sum of body over lo <= iv < hi, in canonical form"""
    if isinstance(body, Ite) or isinstance(lo, Ite) or isinstance(hi, Ite):
        bodyu = body
        if isinstance(lo, Ite):
            return vite(lo.c, mk_sum(lo.a, hi, iv, body), mk_sum(lo.b, hi, iv, body))
        if isinstance(hi, Ite):
            return vite(hi.c, mk_sum(lo, hi.a, iv, body), mk_sum(lo, hi.b, iv, body))
        ivr = Rat({((iv, 1),): Fraction(1)})
        mark = len(FACTS)
        if isinstance(lo, Rat) and isinstance(hi, Rat):
            FACTS.append((lo - ivr, "<="))
            FACTS.append((ivr - hi, "<"))
        body = simplify(body)
        del FACTS[mark:]
        if isinstance(body, Ite) and isinstance(lo, Rat) and isinstance(hi, Rat) and iv in cond_atoms(body.c):
            n = (hi - lo).const()
            if n is not None and n <= 12:
                t = Rat.of(0)
                for k in range(int(n)):
                    x = deep_subst(body, {iv: lo + k})
                    t = lift(lambda u, w: u + w, t, x)
                return t
        if not isinstance(body, Ite):
            return mk_sum(lo, hi, iv, body)
        c = body.c
        if iv in cond_atoms(c):
            return Unk("sum of a gated term: %r" % c)
        return vite(c, mk_sum(lo, hi, iv, body.a), mk_sum(lo, hi, iv, body.b))
    if not isinstance(body, Rat) or not isinstance(lo, Rat) or not isinstance(hi, Rat):
        return Unk("sum")
    n = (hi - lo).const()
    if n is not None and n <= 12:
        t = Rat.of(0)
        for k in range(int(n)):
            t = lift(lambda u, w: u + w, t, deep_subst(body, {iv: lo + k}))
        return t
    if body.d != ONE_P and any(iv in deep_of(a) for m in body.d for a, _ in m):
        outer = Rat.of(1)
        terms = [(Rat.of(1), body)]
    else:
        terms = []
        for m, c in body.n.items():
            out = tuple((a, e) for a, e in m if iv not in deep_of(a))
            inn = tuple((a, e) for a, e in m if iv in deep_of(a))
            terms.append((Rat({out: c}) / Rat(body.d), Rat({inn: Fraction(1)})))
    tot = Rat.of(0)
    for o, t in terms:
        if t.const() == 1:
            tot = tot + o * (hi - lo)
            continue
        # canonical bound variable, range starting at 0
        k = bound_depth(t)
        bv = alg.sym("$%d" % k, True)
        t = deep_subst(t, {iv: bv + lo})
        if not isinstance(t, Rat):
            return Unk("sum")
        tot = tot + o * sum_atom(hi - lo, k, t)
    return tot


def has_op(c):
    if c.t == "op":
        return True
    return any(has_op(x) for x in c.a if isinstance(x, Cond))


def mk_any(lo, hi, iv, c):
    """some lo <= iv < hi satisfies c"""
    if not isinstance(lo, Rat) or not isinstance(hi, Rat):
        return None
    n = (hi - lo).const()
    if n is not None and n <= 12:
        return Or(*[deep_subst(c, {iv: lo + k}) for k in range(int(n))])
    if iv not in cond_atoms(c):
        return And(lti(lo, hi), c)
    d = 0
    for a in cond_atoms(c):
        nm = ATOMS[a].name
        if nm.startswith("$") and nm[1:].isdigit():
            d = max(d, int(nm[1:]) + 1)
    bv = alg.sym("$%d" % d, True)
    c = deep_subst(c, {iv: bv + lo})
    if not isinstance(c, Cond):
        return None
    return Not(eq(app("any", hi - lo, Rat.of(d), c), 0))


def sum_atom(n, k, t):
    """one iterated sum; sums with independent bounds are nested in a canonical order"""
    r = app("sum", n, Rat.of(k), t)
    if t.d != ONE_P or len(t.n) != 1:
        return r
    (m, c), = t.n.items()
    bv = next(iter(alg.sym("$%d" % k, True).atoms()))
    ss = [(a, e) for a, e in m if ATOMS[a].fn == "sum"]
    if c != 1 or len(ss) != 1 or ss[0][1] != 1:
        return r
    n2, k2, t2 = ATOMS[ss[0][0]].args
    if not isinstance(n2, Rat) or bv in n2.deep_atoms() or not isinstance(t2, Rat) or t2.d != ONE_P or len(t2.n) != 1:
        return r
    bv2 = next(iter(alg.sym("$%d" % int(k2.const()), True).atoms()))
    core = Rat({tuple(x for x in m if x[0] != ss[0][0]): Fraction(1)}) * t2
    if len(core.n) != 1:
        return r
    # the other nesting order
    x, y = alg.sym("$x", True), alg.sym("$y", True)
    xa, ya = next(iter(x.atoms())), next(iter(y.atoms()))
    core = deep_subst(core, {bv: x, bv2: y})
    (m, c), = core.n.items()
    inn = tuple((a, e) for a, e in m if xa in deep_of(a))
    out = tuple((a, e) for a, e in m if xa not in deep_of(a))
    ti = Rat({inn: Fraction(1)})
    d1 = bound_depth(ti)
    s1 = app("sum", n, Rat.of(d1), deep_subst(ti, {xa: alg.sym("$%d" % d1, True)}))
    to = Rat({out: Fraction(1)}) * s1
    d2 = bound_depth(to)
    r2 = app("sum", n2, Rat.of(d2), deep_subst(to, {ya: alg.sym("$%d" % d2, True)}))
    return r if repr(r) <= repr(r2) else r2


def deep_of(a):
    r = Rat({((a, 1),): Fraction(1)})
    return r.deep_atoms()


def cond_atoms(c):
    out = set()
    for x in c.a:
        if isinstance(x, Rat):
            out |= x.deep_atoms()
        elif isinstance(x, Cond):
            out |= cond_atoms(x)
    return out


def val_atoms(v):
    if isinstance(v, Rat):
        return v.deep_atoms()
    if isinstance(v, Cond):
        return cond_atoms(v)
    if isinstance(v, Ite):
        return cond_atoms(v.c) | val_atoms(v.a) | val_atoms(v.b)
    if isinstance(v, Obj):
        out = set()
        for x in v.f.values():
            out |= val_atoms(x)
        return out
    return set()


def _rb_sum(n, k, t):
    if isinstance(n, Rat) and n.const() is not None and n.const() <= 12:
        bv = next(iter(alg.sym("$%d" % int(k.const()), True).atoms()))
        return mk_sum(Rat.of(0), n, bv, t)
    return app("sum", n, k, t)


REBUILD["sum"] = _rb_sum


def f_sqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        import math
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return Rat.of(Fraction(p, q))
    return app("sqrt", x)


REBUILD["sqrt"] = f_sqrt


def f_abs(x):
    return ite(lt(x, 0), -x, x)


def fmin(a, b):
    return ite(lt(b, a), b, a)


def fmax(a, b):
    return ite(lt(a, b), b, a)


def f32(x):
    c = x.const()
    if c is not None and c.denominator in (1, 2, 4, 8, 16, 32) and abs(c.numerator) < 1 << 24:
        return x
    return app("f32", x)


UNARY = {"sqrt": f_sqrt, "abs": f_abs, "fabs": f_abs, "sin": lambda x: app("sin", x), "cos": lambda x: app("cos", x),
         "tan": lambda x: app("tan", x), "acos": lambda x: app("acos", x), "asin": lambda x: app("asin", x),
         "atan": lambda x: app("atan", x), "exp": lambda x: app("exp", x), "log": lambda x: app("log", x),
         "floor": lambda x: app("floor", x), "ceil": lambda x: app("ceil", x), "round": lambda x: app("round", x),
         "sqrtf": lambda x: f32(f_sqrt(f32(x))), "fabsf": lambda x: f32(f_abs(x)),
         "trunc": lambda x: app("trunc", x)}
CONSTS = {"epsilon": Fraction(2) ** -52, "max": Fraction(2) ** 1023 * (2 - Fraction(2) ** -52),
          "min": Fraction(2) ** -1022}


RANGE_ALGS = ("advance next prev distance copy move reverse_copy swap_ranges copy_backward fill iota reverse rotate "
              "min_element max_element sort stable_sort any_of all_of none_of count_if find find_if count for_each "
              "transform accumulate inner_product").split()


LISTS = ("deque", "list", "stack", "queue")


class Machine:
    def __init__(self, P, opaque=(), unroll=40, budget=10):
        self.P, self.opaque, self.unroll = P, set(opaque), unroll
        self.nframe = 0
        self.depth = 0
        self.notes = []
        self.at = "?"
        self.ncalls = 0
        self.steps = 0
        self.deadline = time.time() + budget
        self.heap, self.stdmodels, self.objmodels = False, {}, {}
        self.ctormodels = {}
        self.bytes = False       # objects may be looked at as bytes
        self.models = {}         # callees described by the check: name -> function
        self.assumed = False     # facts about the inputs are in scope: decide conditions with them

    # ---------------------------------------------------------------- symbolic inputs
    def rec_fields(self, rid):
        r = self.P.records[rid]
        out = []
        for b in r.get("bases", []):
            t = self.P.ty(b)
            if "rec" in t and t["rec"] in self.P.records:
                out += self.rec_fields(t["rec"])
        return out + r["fields"]

    def is_std(self, t, name):
        return t.get("tmpl", "").replace("std::__1::", "std::") == "std::" + name

    def default(self, tid, depth=0):
        """value-initialised object of a type"""
        t = self.P.under(tid)
        c = t.get("c")
        if c in ("int", "fp", "enum"):
            return Rat.of(0)
        if c == "bool":
            return F
        if self.is_std(t, "vector") or self.is_std(t, "initializer_list"):
            return SFill(Rat.of(0), Unk("element of an empty vector"))
        if self.is_std(t, "set") or self.is_std(t, "unordered_set"):
            return SSet([], self.is_std(t, "set"))
        if any(self.is_std(t, x) for x in LISTS):
            return SVec([])
        if self.is_std(t, "optional"):
            return Obj("optional", {"has": F, "val": Unk("value of an empty optional")})
        if self.is_std(t, "array"):
            n = t["targs"][1]["n"]
            return self.arr([self.default(t["targs"][0], depth + 1) for _ in range(n)]) if n <= SMALL else SFill(
                Rat.of(n), self.default(t["targs"][0]))
        if c == "arr" and "n" not in t and "u" in t:
            return SFill(alg.sym("$vla%d" % self.nframe, True), self.default(t["u"]))
        if c == "arr" and "n" in t:
            return self.arr([self.default(t["u"], depth + 1) for _ in range(t["n"])]) if t["n"] <= SMALL else SFill(
                Rat.of(t["n"]), self.default(t["u"]))
        if self.is_std(t, "pair") or self.is_std(t, "tuple"):
            return Obj("tuple", {i: self.default(a) for i, a in enumerate(t["targs"]) if isinstance(a, int)})
        if c == "rec" and self.P.records.get(t["rec"], {}).get("root"):
            d = self.find_default_ctor(t["rec"])
            if d is not None and depth < 6:
                return self.construct(d, t, [], None)
            return Obj(t["name"], {f["n"]: self.default(f["vt"], depth + 1) for f in self.rec_fields(t["rec"])})
        if t.get("s", "").startswith(("std::plus<", "std::multiplies<", "std::minus<")):
            return Obj(t["s"], {})
        return Unk("object of type %s" % t.get("s"))

    def long_arr(self, n, vs, et):
        if n <= SMALL:
            return self.arr(vs + [self.default(et) for _ in range(n - len(vs))])
        v = SFill(Rat.of(n), self.default(et))
        for i, x in enumerate(vs):
            v = SStore(v, Rat.of(i), x)
        return v

    def arr(self, vs):
        return Obj("array", dict(enumerate(vs)))

    def find_default_ctor(self, rid):
        if not hasattr(self, "_dc"):
            self._dc = {}
            for f in self.P.root:
                if f.get("ctor") and f.get("sp") == "defctor" and (f.get("body") is not None):
                    self._dc[f["clsid"]] = f
        return self._dc.get(rid)

    def uninit(self, tid):
        t = self.P.under(tid)
        c = t.get("c")
        if c == "rec" and not self.is_std(t, "array"):
            if any(self.is_std(t, x) for x in ("vector", "pair", "tuple", "set", "unordered_set", "optional") + LISTS):
                return self.default(tid)
            r = self.P.records.get(t["rec"])
            if r and r.get("root"):
                return Obj(t["name"], {f["n"]: self.uninit(f["vt"]) for f in self.rec_fields(t["rec"])})
            return Unk("object of type %s" % t.get("s"))
        if self.is_std(t, "array") or c == "arr":
            n = t["targs"][1]["n"] if c == "rec" else t.get("n")
            et = t["targs"][0] if c == "rec" else t["u"]
            if n is None:
                return SFill(alg.sym("$vla%d" % self.nframe, True), self.uninit(et))
            if n <= SMALL:
                return self.arr([self.uninit(et) for _ in range(n)])
            return SFill(Rat.of(n), self.uninit(et))
        return Unk("uninitialised")

    def element(self, tid, name, idx):
        """fresh symbolic value of a type; idx are symbolic index arguments"""
        t = self.P.under(tid)
        c = t.get("c")
        if c in ("int", "enum", "fp"):
            if not idx:
                return alg.sym(name, c != "fp")
            return app("@" + name, *idx)
        if c == "bool":
            if not idx:
                return Cond("op", name)
            return Not(eq(app("@" + name, *idx), 0))
        if self.is_std(t, "vector"):
            et = t["targs"][0]
            size = alg.sym(name + ".size", True) if not idx else app("@" + name + ".size", *idx)
            return SBase(self, name + "[]", et, size, idx)
        if self.is_std(t, "array") or c == "arr":
            n = t["targs"][1]["n"] if c == "rec" else t.get("n")
            et = t["targs"][0] if c == "rec" else t["u"]
            if n is None:
                return Unk("array")
            if n > SMALL:
                return SBase(self, name + "[]", et, Rat.of(n), idx)
            return Obj("array", {i: self.element(et, "%s[%d]" % (name, i), idx) for i in range(n)})
        if self.is_std(t, "pair") or self.is_std(t, "tuple"):
            return Obj("tuple", {i: self.element(a, "%s.%d" % (name, i), idx) for i, a in enumerate(t["targs"]) if
                                 isinstance(a, int)})
        if self.is_std(t, "function") and not idx:
            return Fun(name)
        if c == "rec" and self.P.records.get(t["rec"], {}).get("root"):
            return Obj(t["name"], {f["n"]: self.element(f["vt"], name + "." + f["n"], idx) for f in
                                   self.rec_fields(t["rec"])})
        if c == "ptr":
            return Unk("pointer %s" % name)
        return Unk("%s of type %s" % (name, t.get("s")))

    # ---------------------------------------------------------------- store
    def new_root(self, v, store, hint="t"):
        self.nframe += 1
        r = "%s#%d" % (hint, self.nframe)
        store[r] = v
        return Loc(r)

    def elem(self, v, k):
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ite):
            return vite(v.c, self.elem(v.a, k), self.elem(v.b, k))
        if isinstance(v, Seq):
            if isinstance(k, str):
                return Unk("field of a sequence")
            return v.get(Rat.of(k) if isinstance(k, int) else k)
        if isinstance(v, Obj):
            if isinstance(k, (str, int)):
                if k in v.f:
                    return v.f[k]
                return Unk("no element %s" % k)
            return self.dyn(v, k)
        return Unk("element of a scalar")

    def dyn(self, v, k):
        if isinstance(k, Unk):
            return k
        if isinstance(k, Ite):
            return vite(k.c, self.dyn(v, k.a), self.dyn(v, k.b))
        c = k.const()
        if c is not None:
            return v.f.get(int(c), Unk("index out of range"))
        ks = sorted(x for x in v.f if isinstance(x, int))
        if not ks or len(ks) > 16:
            return Unk("dynamic index")
        r = v.f[ks[-1]]
        for x in reversed(ks[:-1]):
            r = vite(eq(k, x), v.f[x], r)
        return r

    def read(self, loc, store):
        if isinstance(loc, Unk):
            return loc
        if isinstance(loc, Ite):
            return vite(loc.c, self.read(loc.a, store), self.read(loc.b, store))
        if not isinstance(loc, Loc):
            raise GiveUp("read of a non-location")
        if loc.root not in store:
            return Unk("unknown location")
        v = store[loc.root]
        for n, k in enumerate(loc.path):
            if not isinstance(k, str):
                self.bounds(v, loc.path[n:], store, "read")
                for k in loc.path[n:]:
                    v = self.elem(v, k)
                return v
            v = self.elem(v, k)
        return v

    # ---------------------------------------------------------------- events: what happened under which condition
    def event(self, store, name, c=T, note=None):
        if c.t == "F":
            return
        k = "$ev:" + name
        old = store.get(k, F)
        store[k] = Or(old if isinstance(old, Cond) else okcond(old), c)
        if note and len(self.notes) < 20 and note not in self.notes:
            self.notes.append(note)

    def bounds(self, v, path, store, what):
        """element accesses beyond the end of a container of known length"""
        def go(v, path):
            if not path:
                return F
            if isinstance(v, Ite):
                return Or(And(v.c, go(v.a, path)), And(Not(v.c), go(v.b, path)))
            k = path[0]
            if isinstance(v, Obj) and isinstance(k, str):
                return go(v.f[k], path[1:]) if k in v.f else F
            if isinstance(k, Ite):
                return Or(And(k.c, go(v, (k.a,) + path[1:])), And(Not(k.c), go(v, (k.b,) + path[1:])))
            c = k if isinstance(k, int) else k.const() if isinstance(k, Rat) else None
            if isinstance(v, Seq) and not isinstance(v, SVec) and isinstance(getattr(v, "size", None), Rat) and isinstance(k, (int, Rat)):
                d = (Rat.of(k) if isinstance(k, int) else k) - v.size
                if (c is not None and c < 0) or (d.const() is not None and d.const() >= 0):     # outside whatever the size is
                    found.append((k, v.size))
                    return T
                return go(v.get(Rat.of(k) if isinstance(k, int) else k), path[1:]) if len(path) > 1 else F
            if c is None:
                return F
            if isinstance(v, SVec):
                if 0 <= c < len(v.xs):
                    return go(v.xs[int(c)], path[1:])
                found.append((c, len(v.xs)))
                return T
            if isinstance(v, Obj) and v.cls == "array" and all(isinstance(x, int) for x in v.f):
                if c in v.f:
                    return go(v.f[c], path[1:])
                found.append((c, len(v.f)))
                return T
            return F
        found = []
        c = go(v, tuple(path))
        if c.t != "F":
            self.event(store, "bounds", c, "%s: %s of element %s of %s" % (self.at, what, found[0][0], found[0][1]))

    def upd(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ite):
            return vite(v.c, self.upd(v.a, path, x), self.upd(v.b, path, x))
        if isinstance(v, Seq):
            i = Rat.of(k) if isinstance(k, int) else k
            if isinstance(i, str):
                return Unk("field of a sequence")
            if isinstance(i, Unk):
                return i
            if isinstance(v, SVec) and isinstance(i, Rat) and i.const() is not None and 0 <= i.const() < len(v.xs):
                i = int(i.const())
                xs = list(v.xs)
                xs[i] = self.upd(xs[i], path[1:], x) if len(path) > 1 else x
                return SVec(xs)
            y = self.upd(v.get(i), path[1:], x) if len(path) > 1 else x
            if isinstance(v, SStore) and isinstance(v.i, Rat) and isinstance(i, Rat) and v.i == i:
                return SStore(v.prev, i, y, v.size)
            return SStore(v, i, y)
        if isinstance(v, Obj):
            if isinstance(k, Rat) and k.const() is not None:
                k = int(k.const())
            if isinstance(k, (str, int)):
                if k not in v.f:
                    return Unk("no element %s" % k)
                return v.with_(k, self.upd(v.f[k], path[1:], x))
            if isinstance(k, Unk):
                return k
            d = {}
            for key, old in v.f.items():
                c = tocond(lift(lambda a: eq(a, key), k)) if isinstance(key, int) else None
                d[key] = vite(c, self.upd(old, path[1:], x), old) if c is not None else Unk("dynamic index")
            return Obj(v.cls, d)
        return Unk("write into a scalar")

    def write(self, loc, x, store):
        if isinstance(loc, Unk):
            raise GiveUp("write through unknown location: " + loc.why)
        if isinstance(loc, Ite):
            a = self.read(loc.a, store)
            b = self.read(loc.b, store)
            self.write(loc.a, vite(loc.c, x, a), store)
            b = self.read(loc.b, store)
            self.write(loc.b, vite(loc.c, b, x), store)
            return
        if not isinstance(loc, Loc):
            raise GiveUp("write of a non-location")
        if loc.root not in store:
            raise GiveUp("write to unknown root")
        if any(not isinstance(k, str) for k in loc.path):
            self.bounds(store[loc.root], loc.path, store, "write")
        old = store[loc.root]
        store[loc.root] = self.upd(old, loc.path, x)
        if isinstance(old, BView):
            xs = vec(store[loc.root])
            if xs is None:
                raise GiveUp("write into the bytes of an object")
            store[loc.root] = BView(xs, old.src, old.tid)
            v = self.unbytes(xs, old.tid)
            if v is not None:
                self.write(old.src, v, store)

    # ---------------------------------------------------------------- expressions
    def tclass(self, tid):
        return self.P.under(tid).get("c")

    def loc(self, e, fr):
        """location denoted by an lvalue expression"""
        k = e["k"]
        if k == "ref":
            if e["d"] in fr.env:
                v = fr.env[e["d"]]
                return v
            if e.get("vk") in ("global", "slocal"):
                g = self.P.globals.get(e["d"])
                root = "g%d" % e["d"]
                if e.get("n") in ("digits10", "max_digits10") and (g is None or not g.get("init")) and root not in fr.store:
                    fr.store[root] = Rat.of({"digits10": 15, "max_digits10": 17}[e["n"]])
                if root not in fr.store:
                    if g is not None and g.get("init") and (g["const"]):
                        fr.store[root] = self.value(g["init"], fr, g["vt"])
                    else:
                        fr.store[root] = Unk("global %s" % e.get("n"))
                return Loc(root)
            raise GiveUp("unbound %s" % e.get("n"))
        if k == "mem":
            if e.get("arrow"):
                p = self.ev(e["b"], fr)
                b = self.deref(p)
            else:
                b = self.loc(e["b"], fr) if self.isloc(e["b"]) else self.temp(self.ev(e["b"], fr), fr)
            l = self.sub(b, self.fkey(e))
            if isinstance(l, Loc) and self.P.under(e["t"]).get("c") != "ptr" and not self.is_std(self.P.under(e["t"]), "unique_ptr"):
                v = self.read(l, fr.store)
                if isinstance(v, Ptr) and v.i is None:      # reference member
                    return v.loc
            return l
        if k == "idx":
            i = self.ev(e["i"], fr)
            be = e["b"]
            if self.P.under(be["t"]).get("c") == "arr" and self.isloc(be):
                return self.sub(self.loc(be, fr), i)
            p = self.ev(be, fr)
            return self.deref(p, i)
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["e"], fr))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, fr)
            return self.loc(e["e"], fr)
        if k == "asg":
            self.ev(e, fr)
            return self.loc(e["a"], fr)
        if k == "this":
            raise GiveUp("this as lvalue")
        if k == "cast":
            return self.loc(e["e"], fr)
        if k == "cond":
            c = self.cond(e["c"], fr)
            return vite(c, self.loc(e["a"], fr), self.loc(e["b"], fr))
        if k == "call":
            r = self.call(e, fr)
            if isinstance(r, Loc) or (isinstance(r, Ite) and self.has_loc(r)):
                return r
            if isinstance(r, Unk):
                return r
            return self.temp(r, fr)
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"], fr)
            return self.loc(e["b"], fr)
        return self.temp(self.ev(e, fr), fr)

    def has_loc(self, v):
        return isinstance(v, Loc) or isinstance(v, Ite) and (self.has_loc(v.a) or self.has_loc(v.b))

    def temp(self, v, fr):
        return self.new_root(v, fr.store, "tmp")

    def isloc(self, e):
        return bool(e.get("lv")) or e["k"] in ("ref",)

    def fkey(self, e):
        n = e["n"]
        rec = e.get("rec", "")
        if rec.startswith(("std::pair", "std::__1::pair")):
            return {"first": 0, "second": 1}[n]
        return n

    def sub(self, b, k):
        if isinstance(b, Unk):
            return b
        if isinstance(b, Ite):
            return vite(b.c, self.sub(b.a, k), self.sub(b.b, k))
        return b.at(k)

    def deref(self, p, off=None):
        if isinstance(p, Unk):
            return p
        if isinstance(p, Ite):
            return vite(p.c, self.deref(p.a, off), self.deref(p.b, off))
        if p is NULL:
            return Unk("null dereference")
        if isinstance(p, Loc):    # decayed array
            return p.at(off if off is not None else Rat.of(0))
        if isinstance(p, Ptr):
            if p.i is None:
                if off is not None and not (isinstance(off, Rat) and off.const() == 0):
                    c = off.const() if isinstance(off, Rat) else None
                    k = p.loc.path[-1] if p.loc.path else None
                    if c is not None and k in ("x", "y", "z", "w") and 0 <= "xyzw".index(k) + c < 4:
                        # coordinates of a point are consecutive
                        return Loc(p.loc.root, p.loc.path[:-1] + ("xyzw"["xyzw".index(k) + int(c)],))
                    return Unk("pointer arithmetic")
                return p.loc
            i = p.i if off is None else lift(lambda a, b: a - b if p.rev else a + b, p.i, off)
            if p.rev:
                i = lift(lambda a: a - 1, i)
            return p.loc.at(i)
        raise GiveUp("deref of %r" % (p,))

    def used(self, v, fr):
        """a value enters a computation"""
        def go(v):
            if isinstance(v, Unk):
                return T if v.why == "uninitialised" else F
            if isinstance(v, Ite):
                a, b = go(v.a), go(v.b)
                return F if a.t == "F" and b.t == "F" else Or(And(v.c, a), And(Not(v.c), b))
            return F
        if isinstance(v, (Unk, Ite)):
            c = go(v)
            if c.t != "F":
                self.event(fr.store, "uninit", c, "%s: use of an uninitialised value" % self.at)

    def cond(self, e, fr):
        v = self.ev(e, fr)
        self.used(v, fr)
        c = tocond(v)
        if c is None and self.heap:
            c = truth(v)
        if c is None:
            why = v.why if isinstance(v, Unk) else "?"
            return Cond("op", "?%s@%s" % (why, e.get("l")))
        return known(c) if self.assumed else c

    def num(self, v):
        """numeric view of a scalar"""
        if structural(v) and not isinstance(v, (Loc, Ptr)):
            return Unk("aggregate used as a number")
        if isinstance(v, Cond):
            return ite(v, Rat.of(1), Rat.of(0))
        if isinstance(v, Ite):
            return ite(v.c, self.num(v.a), self.num(v.b))
        return v

    def ev(self, e, fr):
        if e is None:
            return Unk("missing expression")
        self.steps += 1
        if self.steps > 400000 or self.steps % 64 == 0 and time.time() > self.deadline:
            raise GiveUp("too long")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return Unk("%s expression" % e["k"])
        return m(e, fr)

    def value(self, e, fr, tid=None):
        """rvalue: object copied out of a location if needed"""
        v = self.ev(e, fr)
        if isinstance(v, Loc) and not (tid is not None and self.P.under(tid).get("c") == "ptr"):
            return self.read(v, fr.store)
        return v

    def e_ref(self, e, fr):
        if e.get("vk") == "enum":
            return Rat.of(e["v"])
        if e.get("vk") == "func":
            return Unk("function")
        l = self.loc(e, fr)
        if self.P.under(e["t"]).get("c") == "arr":
            v = self.read(l, fr.store)
            return l if not isinstance(v, (Ptr, Unk)) else v
        return self.read(l, fr.store)

    def e_mem(self, e, fr):
        l = self.loc(e, fr)
        if self.P.under(e["t"]).get("c") == "arr" and isinstance(l, Loc):
            return l
        return self.read(l, fr.store)

    def e_idx(self, e, fr):
        l = self.loc(e, fr)
        if self.P.under(e["t"]).get("c") == "arr" and isinstance(l, Loc):
            return l
        return self.read(l, fr.store)

    def e_int(self, e, fr):
        return Rat.of(e["v"]) if e["v"] is not None else Unk("literal")

    def e_char(self, e, fr):
        return Rat.of(e["v"])

    def e_fp(self, e, fr):
        if self.P.under(e["t"]).get("w") == 32:
            return f32(Rat.of(Fraction(e["v"])))
        from decimal import Decimal
        return Rat.of(Fraction(Decimal(repr(e["v"]))))

    def e_bool(self, e, fr):
        return T if e["v"] else F

    def e_str(self, e, fr):
        return Unk("string")

    def e_null(self, e, fr):
        return NULL if self.heap else Unk("null")

    def e_new(self, e, fr):
        if self.heap and self.bytes and e.get("arr") and e.get("sz") and not e.get("place"):
            n = self.num(self.value(e["sz"], fr))
            if not isinstance(n, Rat) or n.const() is None or not 0 <= n.const() <= 256:
                raise GiveUp("new of unknown length")
            u = self.P.under(e["t"])["u"]
            return Ptr(self.new_root(SVec([self.default(u) if e.get("init") else self.uninit(u) for _ in range(int(n.const()))]), fr.store, "new"), Rat.of(0))
        if not self.heap or e.get("arr") or e.get("place"):
            raise GiveUp("new")
        return self.fresh(self.value(e["init"], fr) if e.get("init") else self.uninit(self.P.under(e["t"])["u"]), fr)

    def fresh(self, v, fr):
        """a new object on the heap"""
        return Ptr(self.new_root(v, fr.store, "new"))

    def ptr_same(self, a, b):
        """condition under which two pointers are the same; None when not known"""
        if isinstance(a, Ite):
            x, y = self.ptr_same(a.a, b), self.ptr_same(a.b, b)
            return None if x is None or y is None else cite(a.c, x, y)
        if isinstance(b, Ite):
            return self.ptr_same(b, a)
        if a is NULL or b is NULL:
            return T if a is b else F
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.i is None and b.i is None:
            return T if a.loc.same(b.loc) else F
        return None

    def e_this(self, e, fr):
        if fr.this is None:
            raise GiveUp("this")
        return Ptr(fr.this)

    def e_zero(self, e, fr):
        return self.default(e["t"])

    def e_sizeof(self, e, fr):
        return Rat.of(e["v"]) if e.get("v") is not None else Unk("sizeof")

    def e_arrcopy(self, e, fr):
        return self.value(e["e"], fr)

    def e_un(self, e, fr):
        op = e["op"]
        if op == "!":
            return Not(self.cond(e["e"], fr))
        if op == "&":
            l = self.loc(e["e"], fr)
            if isinstance(l, Loc) and l.path and not isinstance(l.path[-1], str):
                return Ptr(Loc(l.root, l.path[:-1]), Rat.of(l.path[-1]) if isinstance(l.path[-1], int) else l.path[-1])
            return Ptr(l) if isinstance(l, Loc) else l
        if op == "*":
            return self.read(self.deref(self.ev(e["e"], fr)), fr.store)
        if op in ("++", "--"):
            l = self.loc(e["e"], fr)
            v = self.read(l, fr.store)
            s = 1 if op == "++" else -1
            if isinstance(v, Ptr):
                n = Ptr(v.loc, lift(lambda a: a + s, v.i)) if v.i is not None else Unk("pointer arithmetic")
            else:
                n = lift(lambda a: a + s, self.num(v))
            self.write(l, n, fr.store)
            return v if e.get("post") else n
        v = self.num(self.ev(e["e"], fr))
        if op == "-":
            return lift(lambda a: -a, v)
        if op == "+":
            return v
        return Unk("operator " + op)

    def isint(self, e):
        return self.tclass(e["t"]) in ("int", "enum", "bool")

    def e_bin(self, e, fr):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], fr)
            return self.ev(e["b"], fr)
        if op in ("&&", "||"):
            a = self.cond(e["a"], fr)
            if (a.t == "F" and op == "&&") or (a.t == "T" and op == "||"):
                return a
            st = dict(fr.store)
            b = self.cond(e["b"], fr)
            if any(k in st and st[k] is not fr.store[k] for k in fr.store):
                fr.store = merge_store(a, fr.store, st) if op == "&&" else merge_store(a, st, fr.store)
            return And(a, b) if op == "&&" else Or(a, b)
        a, b = self.ev(e["a"], fr), self.ev(e["b"], fr)
        self.used(a, fr)
        self.used(b, fr)
        return self.binop(op, a, b, self.isint(e["a"]) and self.isint(e["b"]), e)

    def same_place(self, a, b):
        """whether two pointers designate the same object; distinct named objects are distinct"""
        if a.loc.root != b.loc.root:
            return F
        p, q = ([*x.loc.path] + ([x.i] if x.i is not None else []) for x in (a, b))
        if len(p) != len(q):
            return None
        c = T
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return F
                continue
            x, y = Rat.of(x) if isinstance(x, int) else x, Rat.of(y) if isinstance(y, int) else y
            if not isinstance(x, Rat) or not isinstance(y, Rat):
                return None
            c = And(c, eq(x, y))
        return c

    def binop(self, op, a, b, isint, e=None):
        if self.heap and op in ("==", "!=") and is_ptr(a) and is_ptr(b):
            c = self.ptr_same(a, b)
            if c is not None:
                return c if op == "==" else Not(c)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "-" and a.i is not None and b.i is not None and a.loc.same(b.loc):
                    return lift(lambda x, y: y - x if a.rev else x - y, a.i, b.i)
                if op in ("<", ">", "<=", ">=") and a.i is not None and b.i is not None and a.loc.same(b.loc):
                    return self.binop(op, *((b.i, a.i) if a.rev else (a.i, b.i)), True)
                if op in ("==", "!=") and a.loc.same(b.loc):
                    if a.i is None and b.i is None:
                        return T if op == "==" else F
                    if a.i is not None and b.i is not None:
                        c = tocond(lift(lambda x, y: eq(x, y), a.i, b.i))
                        return c if op == "==" else Not(c)
                if op in ("==", "!=") and self.assumed and not a.rev and not b.rev and isinstance(a.loc, Loc) and isinstance(b.loc, Loc):
                    c = self.same_place(a, b)
                    if c is not None:
                        return c if op == "==" else Not(c)
                return Unk("pointer comparison")
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(o, (Rat, Ite)) and not structural(o) and p.i is not None and op in ("+", "-"):
                return p.plus(o if op == "+" else lift(lambda x: -x, o))
            return Unk("pointer arithmetic")
        if isinstance(a, Loc) or isinstance(b, Loc):
            if isinstance(a, Loc) and isinstance(b, (Rat, Ite)) and op in ("+",):
                return Ptr(a, b)
            if isinstance(b, Loc) and isinstance(a, (Rat, Ite)) and op == "+":
                return Ptr(b, a)
            return Unk("array arithmetic")
        a, b = self.num(a), self.num(b)
        if structural(a) or structural(b):
            return Unk("operands")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            def cmp(x, y):
                if op == "==":
                    return eq(x, y)
                if op == "!=":
                    return Not(eq(x, y))
                if op in (">", ">="):
                    x, y = y, x
                if op in ("<", ">"):
                    return lti(x, y) if isint else lt(x, y)
                return le(x, y)
            return tocond_v(lift(cmp, a, b))
        if op == "+":
            return lift(lambda x, y: x + y, a, b)
        if op == "-":
            return lift(lambda x, y: x - y, a, b)
        if op == "*":
            return lift(lambda x, y: x * y, a, b)
        if op == "/":
            if isint:
                def idiv(x, y):
                    cx, cy = x.const(), y.const()
                    if cx is not None and cy:
                        q = abs(cx) // abs(cy)
                        return Rat.of(q if (cx < 0) == (cy < 0) else -q)
                    if cy == 1:
                        return x
                    return app("idiv", x, y)
                return lift(idiv, a, b)
            return lift(lambda x, y: x / y, a, b)
        if op == "%":
            def imod(x, y):
                cx, cy = x.const(), y.const()
                if cx is not None and cy and cx >= 0 and cy > 0:
                    return Rat.of(cx % cy)
                return app("imod", x, y)
            return lift(imod, a, b)
        if op == "<<" and isinstance(a, Rat) and isinstance(b, Rat) and b.const() is not None and isint:
            return a * (2 ** int(b.const()))
        if op == "<<" and isinstance(a, Rat) and a.const() == 1 and isint:
            return app("pow2", b) if isinstance(b, Rat) else Unk("shift")
        if op in ("&", "|", "^", ">>", "<<"):
            return lift(lambda x, y: self.bitop(op, x, y), a, b)
        return Unk("operator " + op)

    def bitop(self, op, x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            cx, cy = int(cx), int(cy)
            return Rat.of({"&": cx & cy, "|": cx | cy, "^": cx ^ cy, ">>": cx >> cy, "<<": cx << cy}[op])
        return app("bit" + op, x, y)

    def e_asg(self, e, fr):
        op = e["op"]
        ta = self.P.under(e["a"]["t"])
        if op == "=":
            v = self.value(e["b"], fr, e["a"]["t"])
            if ta.get("c") == "bool" and isinstance(v, Rat):
                v = tocond(v)
            l = self.loc(e["a"], fr)
        else:
            b = self.ev(e["b"], fr)
            l = self.loc(e["a"], fr)
            a = self.read(l, fr.store)
            self.used(a, fr)
            self.used(b, fr)
            v = self.binop(op[:-1], a, b, self.isint(e["a"]) and self.isint(e["b"]), e)
            if ta.get("c") == "fp" and ta.get("w") == 32:
                v = lift(f32, v)
        self.write(l, v, fr.store)
        return v

    def e_cond(self, e, fr):
        c = self.cond(e["c"], fr)
        if c.t == "T":
            return self.ev(e["a"], fr)
        if c.t == "F":
            return self.ev(e["b"], fr)
        st = fr.store
        fr.store = dict(st)
        a = self.value(e["a"], fr) if self.P.under(e["t"]).get("c") != "arr" else self.ev(e["a"], fr)
        sa, fr.store = fr.store, dict(st)
        b = self.value(e["b"], fr) if self.P.under(e["t"]).get("c") != "arr" else self.ev(e["b"], fr)
        fr.store = merge_store(c, sa, fr.store)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cite(c, a, b)
        return vite(c, a, b)

    def e_cast(self, e, fr):
        ck = e["ck"]
        t = self.P.under(e["t"])
        if t.get("c") == "void":
            self.ev(e["e"], fr)
            return Unk("void")
        v = self.ev(e["e"], fr)
        if self.bytes and ck == "BitCast" and isinstance(v, Ptr):
            v = self.recast(v, self.P.under(e["e"]["t"]), t, fr)
        if ck == "PointerToBoolean" and strip(e["e"])["k"] == "str":
            return T
        if ck == "PointerToBoolean" and self.heap and truth(v) is not None:
            return truth(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            c = tocond(v)
            return c if c is not None else Unk("truth value")
        if ck == "FloatingToIntegral":
            def tr(x):
                c = x.const()
                if c is not None:
                    return Rat.of(int(c))
                if x.d == ONE_P and all(k.denominator == 1 and all(alg.ATOMS[a].int or alg.ATOMS[a].fn in ("trunc", "floor", "ceil", "round") for a, _ in m)
                                        for m, k in x.n.items()):
                    return x
                return app("trunc", x)
            return lift(tr, v)
        if ck in ("FloatingCast", "IntegralToFloating"):
            v = self.num(v)
            if t.get("w") == 32:
                return lift(f32, v)
            return v
        if ck == "IntegralCast":
            v = self.num(v)
            if isinstance(v, Rat) and v.const() is not None and not t.get("sg") and v.const() < 0:
                return Rat.of(v.const() + 2 ** t.get("w", 64))
            return v
        if ck in ("BooleanToSignedIntegral",):
            return self.num(v)
        return v

    # ---------------------------------------------------------------- objects as bytes (byte k of a number is one uninterpreted value)
    def layout(self, tid):
        """size of a type in bytes, or None"""
        t = self.P.under(tid)
        c = t.get("c")
        if c == "bool":
            return 1
        if c in ("int", "fp", "enum"):
            return (t.get("w") or 32) // 8
        if c == "arr" or self.is_std(t, "array"):
            n = t.get("n") if c == "arr" else t["targs"][1].get("n")
            k = self.layout(t["u"] if c == "arr" else t["targs"][0])
            return None if k is None or not isinstance(n, int) else n * k
        if c == "rec" and t.get("rec") in self.P.records:
            ks = [self.layout(x["vt"]) for x in self.rec_fields(t["rec"])]
            return None if None in ks or len(set(ks)) > 1 else sum(ks)
        return None

    def tobytes(self, v, tid):
        t = self.P.under(tid)
        c = t.get("c")
        if c in ("bool", "int", "fp", "enum"):
            n = self.layout(tid)
            v = self.num(v)
            if isinstance(v, Unk):
                return [v] * n
            if n == 1:
                return [v]
            return [lift(lambda x: app("@byte%s%d" % ("d" if c == "fp" else "i", n), x, Rat.of(k)), v) for k in range(n)]
        if c == "rec" and t.get("rec") in self.P.records and isinstance(v, Obj):
            return [b for x in self.rec_fields(t["rec"]) for b in self.tobytes(v.f[x["n"]], x["vt"])]
        if isinstance(v, Obj) and v.cls == "array" and (c == "arr" or self.is_std(t, "array")):
            et = t["u"] if c == "arr" else t["targs"][0]
            return [b for x in vec(v) for b in self.tobytes(x, et)]
        return [Unk("bytes")] * (self.layout(tid) or 1)

    def unbytes(self, ys, tid):
        t = self.P.under(tid)
        c = t.get("c")
        n = self.layout(tid)
        if n is None or n != len(ys):
            return Unk("bytes of a type without known layout")
        if c in ("bool", "int", "fp", "enum"):
            if n == 1:
                return tocond(ys[0]) if c == "bool" and tocond(ys[0]) is not None else ys[0]
            for y in ys:
                if isinstance(y, Unk):
                    return y
            nm = "@byte%s%d" % ("d" if c == "fp" else "i", n)

            def whole(*bs):
                xs = []
                for k, b in enumerate(bs):
                    q = [m for m, w in b.n.items() if w == 1 and len(m) == 1 and m[0][1] == 1]
                    q = alg.ATOMS[q[0][0][0]] if len(q) == len(b.n) == 1 and b.d == ONE_P else None
                    if q is None or q.fn != nm or q.args[1].const() != k:
                        return app("@join%s%d" % ("d" if c == "fp" else "i", n), *bs)
                    xs.append(q.args[0])
                if all(x == xs[0] for x in xs):
                    return xs[0]
                return app("@join%s%d" % ("d" if c == "fp" else "i", n), *bs)
            return lift(whole, *ys)
        if c == "rec":
            d = {}
            for x in self.rec_fields(t["rec"]):
                k = self.layout(x["vt"])
                d[x["n"]], ys = self.unbytes(ys[:k], x["vt"]), ys[k:]
            return Obj(t["name"], d)
        et = t["u"] if c == "arr" else t["targs"][0]
        k = self.layout(et)
        return Obj("array", {i: self.unbytes(ys[i * k:i * k + k], et) for i in range(len(ys) // k)})

    def recast(self, v, st, tt, fr):
        if "u" not in st or "u" not in tt or self.P.under(tt["u"]).get("c") == "void" or self.P.under(st["u"]).get("c") == "void":
            return v
        a, b = self.layout(st["u"]), self.layout(tt["u"])
        if a is None or b is None or a == b == 1:
            return v
        if b == 1:
            x = self.read(v.loc, fr.store)
            if v.i is None:
                return Ptr(self.new_root(BView(self.tobytes(x, st["u"]), v.loc, st["u"]), fr.store, "bytes"), Rat.of(0))
            xs = vec(x)
            if xs is None or not isinstance(v.i, Rat) or v.i.const() is None:
                return Ptr(self.new_root(Narrow(self, v, st["u"], a, fr), fr.store, "bytes"), Rat.of(0))
            r = self.new_root(SVec([y for z in xs for y in self.tobytes(z, st["u"])]), fr.store, "bytes")
            return Ptr(r, v.i * Rat.of(a))
        if a == 1:
            return Ptr(self.new_root(Wide(self, v, tt["u"], b, fr), fr.store, "wide"), Rat.of(0))
        raise GiveUp("pointer reinterpreted")

    def e_list(self, e, fr):
        t = self.P.under(e["t"])
        vs = [self.value(x, fr) for x in e["a"]]
        if self.is_std(t, "array"):
            n = t["targs"][1]["n"]
            if len(e["a"]) == 1 and e["a"][0]["k"] == "list" and self.P.under(e["a"][0]["t"]).get("c") == "arr":
                v = vs[0]
                return v
            return self.long_arr(n, vs, t["targs"][0])
        if t.get("c") == "arr":
            n = t.get("n", len(vs))
            return self.long_arr(n, vs, t["u"])
        if t.get("c") == "rec" and self.P.records.get(t["rec"], {}).get("root"):
            fs = self.rec_fields(t["rec"])
            d = {}
            for i, f in enumerate(fs):
                d[f["n"]] = vs[i] if i < len(vs) else self.default(f["vt"])
            return Obj(t["name"], d)
        if self.is_std(t, "pair") or self.is_std(t, "tuple"):
            return Obj("tuple", dict(enumerate(vs)))
        if t.get("c") in ("int", "fp", "bool") and len(vs) <= 1:
            return vs[0] if vs else self.default(e["t"])
        if not vs:
            return self.default(e["t"])
        return Unk("initializer list")

    def e_lambda(self, e, fr):
        f = self.P.funcs.get(e["fn"])
        if f is None:
            return Unk("lambda")
        env = {}
        for c in e["caps"]:
            if c.get("this"):
                continue
            l = fr.env.get(c["d"])
            if l is None:
                return Unk("capture")
            if not c["byref"]:
                l = self.new_root(self.read(l, fr.store), fr.store, "cap")
            env[c["d"]] = l
        return Lam(f, e["caps"], env, fr.this)

    def e_throw(self, e, fr):
        raise GiveUp("throw expression in value position")

    # ---------------------------------------------------------------- construction and calls
    def e_ctor(self, e, fr):
        t = self.P.under(e["t"])
        if "rec" not in t and t.get("c") == "arr":
            return self.default(e["t"])
        if e.get("cp") in ("copy", "move") and len(e["a"]) == 1:
            f = self.P.funcs.get(e["fn"])
            if self.models:
                v = self.value(e["a"][0], fr)
                if isinstance(v, Obj) and "$piece" in v.f:
                    return v
                if f is not None and f.get("body") is not None and not f.get("defaulted") and not f.get("implicit"):
                    return self.construct(f, t, None, fr, [self.temp(v, fr)])
                return v
            if f is None or f.get("body") is None or f.get("defaulted") or f.get("implicit"):
                return self.value(e["a"][0], fr)
            return self.construct(f, t, e["a"], fr)
        if e.get("root"):
            f = self.P.funcs.get(e["fn"])
            if f is None or f.get("body") is None:
                if not e["a"]:
                    return self.uninit(e["t"])
                return Unk("constructor")
            if f.get("defaulted") and not f.get("inits"):
                return self.uninit(e["t"])
            return self.construct(f, t, e["a"], fr)
        m = self.ctormodels.get(t.get("tmpl", "").split("::")[-1])
        if m is not None:
            return m(self, e, fr)
        vs = [self.value(x, fr) for x in e["a"]]
        if self.heap and self.is_std(t, "unique_ptr"):
            return vs[0] if vs else NULL
        if self.is_std(t, "optional"):
            if not vs or "nullopt" in self.P.under(e["a"][0]["t"]).get("s", ""):
                return self.default(e["t"])
            return self.some(vs[0])
        if self.is_std(t, "function") and len(vs) == 1 and isinstance(vs[0], (Lam, Fun)):
            return vs[0]
        if self.bytes and self.is_std(t, "basic_string") and all(isinstance(v, (Ptr, Rat)) for v in vs[:2]):
            if not vs:
                return SVec([])
            if isinstance(vs[0], Ptr) and vs[0].i is not None:
                q = vs[1] if len(vs) > 1 and isinstance(vs[1], (Ptr, Rat)) else None
                if q is None:
                    q = Ptr(vs[0].loc, self.read(vs[0].loc, fr.store).size)
                return self.slice(vs[0], q if isinstance(q, Ptr) else vs[0].plus(q), fr)
        if self.is_std(t, "vector"):
            et = t["targs"][0]
            pts = [self.P.under(p) for p in e.get("pt", [])]
            vals = [v for v, x in zip(vs, e["a"]) if x["k"] != "other"]
            if not vs or (pts and self.is_std(pts[0], "allocator")):
                return SFill(Rat.of(0), Unk("element of an empty vector"))
            if isinstance(vs[0], Rat) or isinstance(vs[0], Ite):
                if pts and pts[0].get("c") == "int":
                    if len(pts) > 1 and not self.is_std(pts[1], "allocator"):
                        return SFill(vs[0], vs[1])
                    return SFill(vs[0], self.default(et))
            if isinstance(vs[0], Obj) and vs[0].cls == "array":
                return self.seq_of(vs[0])
            if len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].i is not None:
                return self.slice(vs[0], vs[1], fr)
            return Unk("vector constructor")
        if self.is_std(t, "pair") or self.is_std(t, "tuple"):
            if not vs:
                return self.default(e["t"])
            if len(vs) == len([a for a in t["targs"] if isinstance(a, int)]):
                return Obj("tuple", dict(enumerate(vs)))
            if len(vs) == 1 and isinstance(vs[0], Obj):
                return Obj("tuple", dict(vs[0].f))
        if self.is_std(t, "set") or self.is_std(t, "unordered_set"):
            v = self.default(e["t"])
            if vs and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
                xs = vec(self.slice(vs[0], vs[1], fr))
                for x in xs if xs is not None else [None]:
                    v = v and x is not None and v.add(x)
                if not v:
                    return Unk("set of undecided elements")
            elif vs and isinstance(vs[0], (Seq, Obj)):
                return Unk("set from a list")
            return v
        if any(self.is_std(t, x) for x in LISTS) and not vs:
            return SVec([])
        if self.is_std(t, "array"):
            return self.uninit(e["t"]) if not vs else vs[0]
        if self.is_std(t, "initializer_list"):
            return vs[0] if vs else Unk("initializer_list")
        if len(vs) >= 1 and isinstance(vs[0], Ptr) and self.is_std(t, "__wrap_iter"):
            return vs[0]
        if not vs and t.get("s", "").startswith(("std::plus<", "std::multiplies<", "std::minus<")):
            return Obj(t["s"], {})
        return Unk("object of type %s" % t.get("s"))

    def some(self, v):
        return v if isinstance(v, Obj) and v.cls == "optional" else Obj("optional", {"has": T, "val": v})

    def seq_of(self, o):
        v = SFill(Rat.of(len(o.f)), Unk("element"))
        for i in range(len(o.f)):
            v = SStore(v, Rat.of(i), o.f[i])
        return v

    def slice(self, p, q, fr):
        s = self.read(p.loc, fr.store)
        if not isinstance(s, Seq) and not isinstance(s, Obj):
            return Unk("range")
        if isinstance(s, Obj):
            s = self.seq_of(s)
        if isinstance(s, SSet) and (s.ordered or len(s.xs) < 2):
            s = SVec(s.xs)
        n = lift(lambda a, b: a - b if p.rev else b - a, p.i, q.i)
        if isinstance(s.size, Rat) and s.size.const() is not None and isinstance(p.i, Rat) and isinstance(q.i, Rat):
            a, b = p.i.const(), q.i.const()
            if a is not None and b is not None:
                if p.rev:
                    a, b = b, a
                if a < 0 or b > s.size.const() or b < a:
                    self.event(fr.store, "bounds", T, "%s: range [%s, %s) of a sequence of %s" % (self.at, a, b, s.size))
        if not p.rev and isinstance(p.i, Rat) and p.i.const() == 0 and isinstance(n, Rat) and isinstance(s.size, Rat) and n == s.size:
            return s
        if isinstance(n, Rat) and n.const() is not None and 0 <= n.const() <= (4096 if isinstance(s, (SVec, Narrow)) else 64):
            r = range(int(n.const()))
            if p.rev:
                return SVec([s.get(lift(lambda x: x - 1 - k, p.i)) for k in r])
            return SVec([s.get(lift(lambda x: x + k, p.i)) for k in r])
        if p.rev:
            return Unk("reversed range")
        iv = alg.sym("$ix%d" % len(alg.SYM), True)
        a = next(iter(iv.atoms()))
        return SMap(SFill(n, Unk("element")), a, Rat.of(0), n, s.get(lift(lambda x: x + iv, p.i)))

    def construct(self, f, t, args, fr, argv=None):
        st = fr.store if fr is not None else {}
        obj = Obj(t["name"], {x["n"]: self.uninit(x["vt"]) for x in self.rec_fields(t["rec"])})
        loc = self.new_root(obj, st, "obj")
        if fr is None:
            fr = Frame(self, None, {}, st)
        self.invoke(f, loc, args, fr, argv)
        return fr.store.get(loc.root, Unk("constructor threw"))

    def invoke(self, f, this, args, fr, argv=None):
        """expand a call in place; args are argument expressions, or argv their locations/values"""
        if self.depth > 24:
            raise GiveUp("call depth")
        self.ncalls += 1
        env = {}
        ps = f["params"]
        for i, p in enumerate(ps):
            if argv is not None:
                a = argv[i]
                if self.P.is_ref(p["vt"]):
                    env[p["d"]] = a if isinstance(a, Loc) or isinstance(a, Ite) and self.has_loc(a) else self.temp(a, fr)
                else:
                    if isinstance(a, Loc) and self.P.under(p["vt"]).get("c") != "ptr":
                        a = self.read(a, fr.store)
                    env[p["d"]] = self.new_root(a, fr.store, p["n"] or "arg")
                continue
            if i >= len(args):
                raise GiveUp("missing argument")
            x = args[i]
            if self.P.is_ref(p["vt"]):
                if self.isloc(x) and x["k"] != "cast":
                    l = self.loc(x, fr)
                    env[p["d"]] = l if not isinstance(l, Unk) else self.temp(l, fr)
                else:
                    env[p["d"]] = self.temp(self.ev_obj(x, fr), fr)
            else:
                v = self.value(x, fr, p["vt"])
                env[p["d"]] = self.new_root(v, fr.store, p["n"] or "arg")
        sub = Frame(self, this, env, fr.store)
        self.depth += 1
        try:
            out = self.body(f, sub)
        finally:
            self.depth -= 1
        return self.finish_call(f, out, fr)

    def ev_obj(self, x, fr):
        v = self.ev(x, fr)
        if isinstance(v, Loc):
            return self.read(v, fr.store) if self.P.under(x["t"]).get("c") != "arr" else v
        return v

    def finish_call(self, f, out, fr):
        ret = out.get("ret")
        nxt = out.get("next")
        thr = out.get("thr")
        val = Unk("void")
        if nxt is not None and ret is not None:
            fr.store = merge_store(ret[0], ret[1], nxt[1])
            val = ret[2] if ret[2] is not None else Unk("void")
        elif ret is not None:
            fr.store = ret[1]
            val = ret[2] if ret[2] is not None else Unk("void")
        elif nxt is not None:
            fr.store = nxt[1]
        else:
            fr.pend.append(T)
            return BOT
        if thr is not None:
            g = thr[0]
            fr.pend.append(g)
        return val

    def body(self, f, fr):
        for i in f.get("inits", []):
            if i.get("deleg"):
                e = i["e"]
                if e["k"] == "ctor":
                    g = self.P.funcs.get(e["fn"])
                    if g is None:
                        raise GiveUp("delegation")
                    self.invoke(g, fr.this, e["a"], fr)
                continue
            if i.get("base"):
                e = i["e"]
                if e["k"] == "ctor":
                    g = self.P.funcs.get(e["fn"])
                    if g is not None and g.get("body") is not None:
                        self.invoke(g, fr.this, e["a"], fr)
                        continue
                    if e.get("cp") in ("copy", "move"):
                        src = self.value(e["a"][0], fr)
                        if isinstance(src, Obj):
                            cur = self.read(fr.this, fr.store)
                            for k, v in src.f.items():
                                if k in cur.f:
                                    cur = cur.with_(k, v)
                            self.write(fr.this, cur, fr.store)
                continue
            if i.get("f") is None:
                raise GiveUp("initialiser")
            fld = [x for x in self.rec_fields(f["clsid"]) if x["n"] == i["n"]]
            if fld and self.P.is_ref(fld[0]["vt"]):
                v = Ptr(self.loc(i["e"], fr))
            elif i.get("e") is None:
                continue
            else:
                v = self.value(i["e"], fr, fld[0]["vt"] if fld else None)
            if i["e"] and i["e"]["k"] == "ctor" and not i["e"]["a"] and isinstance(v, Unk):
                pass
            self.write(fr.this.at(i["n"]), v, fr.store)
        rt = f["rt"]
        fr.rref = self.P.is_ref(rt)
        fr.rt = rt
        fr.fn = f["n"]
        at = self.at
        try:
            return self.seq([f["body"]], fr)
        finally:
            self.at = at

    # std models ------------------------------------------------------
    def call(self, e, fr):
        if "fn" not in e:
            c = self.ev(e["callee"], fr)
            if isinstance(c, Lam):
                return self.call_lambda(c, e["a"], fr)
            return self.unknown_call(e, fr)
        f = self.P.funcs.get(e["fn"])
        if e.get("obj") is not None and f is not None and f.get("lambda"):
            l = self.ev(e["obj"], fr)
            if isinstance(l, Lam):
                return self.call_lambda(l, e["a"], fr)
            return self.unknown_call(e, fr)
        qn = e.get("qn", "")
        if self.models and e.get("root") and f is not None and f["n"] in self.models:
            return self.modelled(f, e, fr)
        if e.get("root") and f is not None and (f["qn"] in self.opaque or f["n"] in self.opaque):
            return self.opaque_call(f, e, fr)
        if e.get("root") and f is not None and f.get("body") is not None:
            this = None
            if e.get("obj") is not None and not f.get("mstatic"):
                o = e["obj"]
                if e.get("arrow"):
                    this = self.deref(self.ev(o, fr))
                elif self.isloc(o):
                    this = self.loc(o, fr)
                else:
                    this = self.temp(self.ev(o, fr), fr)
                if isinstance(this, Unk):
                    return self.unknown_call(e, fr)
            sp = f.get("sp") in ("copyassign", "moveassign")
            if self.models and sp and isinstance(this, Loc):
                v = self.value(e["a"][0], fr)
                if isinstance(v, Obj) and "$piece" in v.f:
                    self.write(this, v, fr.store)
                    return this
            if f.get("defaulted") and sp or f.get("implicit") and f.get("sp"):
                v = self.value(e["a"][0], fr)
                self.write(this, v, fr.store)
                return this
            if isinstance(this, Ite):
                c = this.c
                st = dict(fr.store)
                a = self.call_on(f, this.a, e, fr)
                sa, fr.store = fr.store, st
                b = self.call_on(f, this.b, e, fr)
                fr.store = merge_store(c, sa, fr.store)
                return vite(c, a, b)
            return self.invoke(f, this, e["a"], fr)
        if e.get("op") == "=" and e.get("obj") is not None and len(e["a"]) == 1:
            o = self.loc(e["obj"], fr)
            if self.is_std(self.P.under(e["obj"]["t"]), "tuple") and e["obj"]["k"] == "call" and e["obj"]["n"] == "tie":
                return self.unknown_call(e, fr)
            v = self.value(e["a"][0], fr)
            if self.is_std(self.P.under(e["obj"]["t"]), "optional"):
                v = self.default(e["obj"]["t"]) if "nullopt" in self.P.under(e["a"][0]["t"]).get("s", "") else self.some(v)
            self.write(o, v, fr.store)
            return o
        return self.std(e, fr)

    def modelled(self, f, e, fr):
        """a callee described by the check: it sees locations for reference parameters, values for the others"""
        this = None
        if e.get("obj") is not None and not f.get("mstatic"):
            o = e["obj"]
            if e.get("arrow"):
                this = self.deref(self.ev(o, fr))
            else:
                this = self.loc(o, fr) if self.isloc(o) else self.temp(self.ev(o, fr), fr)
        argv = []
        for p, x in zip(f["params"], e["a"]):
            if self.P.is_ref(p["vt"]):
                l = self.loc(x, fr) if self.isloc(x) and x["k"] != "cast" else None
                argv.append(l if l is not None and not isinstance(l, Unk) else self.temp(self.ev_obj(x, fr), fr))
            else:
                argv.append(self.value(x, fr, p["vt"]))
        if isinstance(this, (Ite, Unk)) or any(isinstance(a, Ite) and self.has_loc(a) for a in argv):
            raise GiveUp("gated argument of %s" % f["n"])
        r = self.models[f["n"]](self, f, this, argv, fr)
        if r is not NotImplemented:
            return r
        if f.get("body") is None:
            raise GiveUp("no body for %s" % f["n"])
        return self.invoke(f, this, None, fr, argv)

    def call_on(self, f, this, e, fr):
        if isinstance(this, Ite):
            c = this.c
            st = dict(fr.store)
            a = self.call_on(f, this.a, e, fr)
            sa, fr.store = fr.store, st
            b = self.call_on(f, this.b, e, fr)
            fr.store = merge_store(c, sa, fr.store)
            return vite(c, a, b)
        return self.invoke(f, this, e["a"], fr)

    def call_lambda(self, l, args, fr):
        f = l.fn
        env = dict(l.env)
        for i, p in enumerate(f["params"]):
            if i >= len(args):
                raise GiveUp("lambda argument")
            x = args[i]
            if self.P.is_ref(p["vt"]) and self.isloc(x):
                env[p["d"]] = self.loc(x, fr)
            else:
                env[p["d"]] = self.new_root(self.value(x, fr, p["vt"]), fr.store, p["n"] or "arg")
        sub = Frame(self, l.this, env, fr.store)
        self.depth += 1
        if self.depth > 24:
            raise GiveUp("call depth")
        try:
            out = self.body(f, sub)
        finally:
            self.depth -= 1
        return self.finish_call(f, out, fr)

    def flat(self, v):
        """arguments of an uninterpreted application"""
        if isinstance(v, Obj):
            out = []
            for k in v.f:
                out += self.flat(v.f[k])
            return out
        if isinstance(v, SBase):
            return [alg.sym("<%s>" % v.name)] + list(v.pre)
        if isinstance(v, Seq):
            raise GiveUp("computed sequence passed to an abstract function")
        if isinstance(v, Rat):
            return [v]
        if isinstance(v, Cond):
            return [v]
        if isinstance(v, Ptr):
            return []
        raise GiveUp("argument of an abstract function: %r" % (v,))

    def opaque_call(self, f, e, fr):
        """the callee is specified elsewhere: its results are named after its inputs"""
        ins, outs = [], []
        args = list(e["a"])
        for p, x in zip(f["params"], args):
            pt = self.P.ty(p["vt"])
            isptr = self.P.under(p["vt"]).get("c") == "ptr"
            out = self.P.is_ref(p["vt"]) and not self.P.is_const_ref(p["vt"]) or isptr and not self.P.ty(
                self.P.under(p["vt"])["u"]).get("const")
            if out:
                if isptr:
                    v = self.ev(x, fr)
                    outs.append((p, v.loc if isinstance(v, Ptr) else v))
                else:
                    outs.append((p, self.loc(x, fr)))
            else:
                v = self.value(x, fr, p["vt"])
                if isinstance(v, (Ite,)):
                    raise GiveUp("gated argument of an abstract function")
                if isinstance(v, Unk):
                    raise GiveUp(v.why)
                ins += self.flat(v)
        if e.get("obj") is not None:
            o = self.read(self.loc(e["obj"], fr) if not e.get("arrow") else self.deref(self.ev(e["obj"], fr)), fr.store)
            ins = self.flat(o) + ins
        for p, l in outs:
            old = self.read(l, fr.store)
            nm = "%s.%s" % (f["n"], p["n"])
            if isinstance(old, Seq):
                et = None
                t = self.P.under(p["vt"])
                et = t["targs"][0] if "targs" in t else t["u"]
                # a result parameter keeps its size
                self.write(l, SBase(self, nm + "[]", et, old.size, tuple(ins)), fr.store)
            else:
                self.write(l, self.element(p["vt"], nm, tuple(ins)), fr.store)
        if self.P.ty(f["rt"]).get("c") == "void":
            return Unk("void")
        return self.element(f["rt"], f["n"], tuple(ins))

    def unknown_call(self, e, fr):
        """havoc what the callee may change"""
        for x in e.get("a", []):
            if self.isloc(x) and not self.P.under(x["t"]).get("const"):
                try:
                    l = self.loc(x, fr)
                    self.havoc(l, fr.store, "passed to %s" % e.get("n"))
                except GiveUp:
                    pass
            else:
                v = self.ev(x, fr)
                if isinstance(v, Ptr):
                    self.havoc(v.loc, fr.store, "passed to %s" % e.get("n"))
        if e.get("obj") is not None and not e.get("mconst"):
            o = e["obj"]
            l = self.loc(o, fr) if self.isloc(o) and not e.get("arrow") else None
            if l is not None:
                self.havoc(l, fr.store, "changed by %s" % e.get("n"))
        return Unk("result of %s" % (e.get("qn") or e.get("n") or "a call"))

    def havoc(self, l, store, why):
        if isinstance(l, Ite):
            self.havoc(l.a, store, why)
            self.havoc(l.b, store, why)
        elif isinstance(l, Loc) and l.root in store:
            self.write(l, Unk(why), store)

    e_call = None

    def lane(self, p, k, fr):
        """location k scalars after the one a pointer designates"""
        if isinstance(p, Loc):
            return p.at(Rat.of(k))
        if not isinstance(p, Ptr):
            return None
        if p.i is not None:
            return p.loc.at(lift(lambda a: a + k, p.i))
        if k == 0:
            return p.loc
        if p.loc.path and isinstance(p.loc.path[-1], str):
            up = Loc(p.loc.root, p.loc.path[:-1])
            o = self.read(up, fr.store)
            if isinstance(o, Obj):
                ks = list(o.f)
                i = ks.index(p.loc.path[-1]) + k
                if i < len(ks):
                    return up.at(ks[i])
        return None

    def simd(self, n, e, A, fr):
        """packed-double intrinsics, lane by lane"""
        op = n[4:-3]
        N = 2
        mk = lambda vs: Obj("simd", dict(enumerate(vs)))
        if op in ("load", "loadu"):
            p = self.ev(A[0], fr)
            ls = [self.lane(p, k, fr) for k in range(N)]
            if None in ls:
                return self.unknown_call(e, fr)
            return mk([self.num(self.read(l, fr.store)) for l in ls])
        if op in ("store", "storeu"):
            p, v = self.ev(A[0], fr), self.value(A[1], fr)
            ls = [self.lane(p, k, fr) for k in range(N)]
            if None in ls or not isinstance(v, Obj):
                raise GiveUp("packed store")
            for k, l in enumerate(ls):
                self.write(l, v.f[k], fr.store)
            return Unk("void")
        V = [self.value(x, fr) for x in A]
        if op == "set1":
            return mk([V[0]] * N)
        if op == "setzero":
            return mk([Rat.of(0)] * N)
        if op == "set":
            return mk(V[::-1])
        if op == "setr":
            return mk(V)
        if not V or any(not isinstance(v, Obj) or v.cls != "simd" for v in V):
            return Unk(n)
        L = lambda f: mk([f(*[v.f[k] for v in V]) for k in range(N)])
        ar = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
              "min": fmin, "max": fmax, "sqrt": f_sqrt}
        if op in ar:
            return L(lambda *xs: lift(ar[op], *[self.num(x) for x in xs]))
        cm = {"cmple": le, "cmplt": lt, "cmpge": lambda a, b: le(b, a), "cmpgt": lambda a, b: lt(b, a), "cmpeq": eq,
              "cmpneq": lambda a, b: Not(eq(a, b)), "cmpnlt": lambda a, b: Not(lt(a, b)), "cmpnle": lambda a, b: Not(le(a, b)),
              "cmpngt": lambda a, b: Not(lt(b, a)), "cmpnge": lambda a, b: Not(le(b, a))}
        if op in cm:
            return L(lambda *xs: tocond_v(lift(cm[op], *[self.num(x) for x in xs])))
        if op in ("and", "or", "andnot"):
            cs = [[tocond(v.f[k]) if isinstance(v.f[k], (Cond, Ite)) else None for v in V] for k in range(N)]
            if any(c is None for r in cs for c in r):
                return Unk(n)
            f = {"and": And, "or": Or, "andnot": lambda a, b: And(Not(a), b)}[op]
            return mk([f(*r) for r in cs])
        if op == "movemask":
            r = Rat.of(0)
            for k in range(N):
                c = tocond(V[0].f[k])
                if c is None:
                    return Unk(n)
                r = lift(lambda a, b: a + b, r, ite(c, Rat.of(2 ** k), Rat.of(0)))
            return r
        if op == "unpacklo":
            return mk([V[0].f[0], V[1].f[0]])
        if op == "unpackhi":
            return mk([V[0].f[1], V[1].f[1]])
        return Unk(n)

    def std(self, e, fr):
        n, qn = e.get("n"), e.get("qn", "").replace("std::__1::", "std::")
        A = e["a"]
        o = e.get("obj")
        if o is None and n and n.startswith("_mm_") and n.endswith("_pd"):
            return self.simd(n, e, A, fr)
        if o is None and n == "_mm_cvtsd_f64":
            v = self.value(A[0], fr)
            return v.f[0] if isinstance(v, Obj) and v.cls == "simd" else Unk(n)
        tm = e.get("tmpl", "").replace("std::__1::", "std::")
        if self.bytes and qn == "std::type_info::name":
            return Ptr(self.new_root(SVec([alg.sym("$type%d" % i, True) for i in range(2)]), fr.store, "type"), Rat.of(0))
        if o is None and n in self.stdmodels:
            r = self.stdmodels[n](self, e, fr)
            if r is not NotImplemented:
                return r
        if o is None and self.heap and n == "make_unique":
            t = self.P.under(self.P.under(e["t"])["targs"][0])
            return self.make(t, A, fr)
        if o is None:
            if n in ("move", "forward", "ref", "cref", "as_const") and len(A) == 1:
                return self.loc(A[0], fr) if self.isloc(A[0]) else self.ev(A[0], fr)
            if tm == "std::numeric_limits" or "numeric_limits" in qn or "numeric_limits" in e.get("cls", ""):
                t = self.P.under(e["t"])
                if t.get("c") == "fp" and t.get("w") == 64:
                    if n in CONSTS:
                        return Rat.of(CONSTS[n])
                    if n == "lowest":
                        return Rat.of(-CONSTS["max"])
                    if n == "infinity":
                        return alg.sym("inf")
                if t.get("c") == "int":
                    w, sg = t["w"], t["sg"]
                    if n == "max":
                        return Rat.of(2 ** (w - 1) - 1 if sg else 2 ** w - 1)
                    if n in ("min", "lowest"):
                        return Rat.of(-2 ** (w - 1) if sg else 0)
                if t.get("c") == "fp" and n in ("epsilon", "max", "min", "lowest"):
                    return app("f32const", Rat.of({"epsilon": 1, "max": 2, "min": 3, "lowest": 4}[n]))
            if n in UNARY and len(A) == 1:
                v = self.num(self.value(A[0], fr))
                if structural(v):
                    return Unk(n)
                g = UNARY[n]
                r = lift(g, v)
                if self.P.under(e["t"]).get("w") == 32 and self.P.under(e["t"]).get("c") == "fp":
                    r = lift(f32, r)
                return r
            if n == "pow" and len(A) == 2:
                a, b = self.num(self.value(A[0], fr)), self.num(self.value(A[1], fr))

                def pw(x, y):
                    c = y.const()
                    if c is not None and c.denominator == 1 and 0 <= c <= 8:
                        return x ** int(c)
                    if c is not None and c.denominator == 1 and -8 <= c < 0:
                        return Rat.of(1) / (x ** int(-c))
                    if c == Fraction(1, 2):
                        return f_sqrt(x)
                    return app("pow", x, y)
                return lift(pw, a, b)
            if n in ("atan2", "fmod", "remainder", "copysign") and len(A) == 2:
                return lift(lambda x, y: app(n, x, y), self.num(self.value(A[0], fr)), self.num(self.value(A[1], fr)))
            if n == "hypot":
                vs = [self.num(self.value(x, fr)) for x in A]
                return lift(lambda *xs: f_sqrt(sum((x * x for x in xs), Rat.of(0))), *vs)
            if n == "fma" and len(A) == 3:
                vs = [self.num(self.value(x, fr)) for x in A]
                return lift(lambda a, b, c: a * b + c, *vs)
            if n in ("min", "max", "fmin", "fmax") and len(A) == 2:
                a, b = self.num(self.value(A[0], fr)), self.num(self.value(A[1], fr))
                if structural(a) or structural(b):
                    return Unk(n)
                return lift(fmin if "min" in n else fmax, a, b)
            if n in ("min", "max") and len(A) == 1:
                v = self.value(A[0], fr)
                if isinstance(v, Obj) and v.f:
                    ks = sorted(v.f)
                    r = self.num(v.f[ks[0]])
                    for k in ks[1:]:
                        r = lift(fmin if n == "min" else fmax, r, self.num(v.f[k]))
                    return r
                return Unk(n)
            if n == "clamp" and len(A) == 3:
                v, lo, hi = [self.num(self.value(x, fr)) for x in A]
                return lift(lambda v, lo, hi: ite(lt(v, lo), lo, ite(lt(hi, v), hi, v)), v, lo, hi)
            if n == "get" and len(A) == 1:
                m = None
                t = self.P.under(A[0]["t"])
                l = self.loc(A[0], fr) if self.isloc(A[0]) else self.temp(self.ev(A[0], fr), fr)
                k = e.get("gi")
                if k is None:
                    return Unk("get")
                return self.sub(l, k)
            if n in ("make_pair", "make_tuple", "tuple", "pair"):
                return Obj("tuple", {i: self.value(x, fr) for i, x in enumerate(A)})
            if n == "swap" and len(A) == 2:
                l, m = self.loc(A[0], fr), self.loc(A[1], fr)
                a, b = self.read(l, fr.store), self.read(m, fr.store)
                self.write(l, b, fr.store)
                self.write(m, a, fr.store)
                return Unk("void")
            if n in ("isfinite", "isnan", "isinf", "signbit") and len(A) == 1:
                v = self.num(self.value(A[0], fr))
                if n == "isfinite" and not isinstance(v, Unk):
                    return T
                if n in ("isnan", "isinf") and not isinstance(v, Unk):
                    return F
                return tocond_v(lift(lambda x: Not(eq(app(n, x), 0)), v))
            if n in ("begin", "end", "data", "size") and len(A) == 1:
                return self.container(n, self.loc(A[0], fr) if self.isloc(A[0]) else self.temp(self.ev(A[0], fr), fr), [], e, fr)
            if n in RANGE_ALGS and qn.startswith("std::") or n in ("memcpy", "memmove"):
                snap = dict(fr.store)
                try:
                    r = self.known_range(n, e, fr)
                except (AttributeError, IndexError, TypeError):
                    r = None
                if r is not None:
                    return r
                fr.store = snap
            if n in ("fill", "fill_n", "copy", "accumulate", "inner_product", "transform"):
                return self.algorithm(n, e, fr)
            if e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and len(A) == 2 and qn.startswith("std::"):
                a, b = self.value(A[0], fr), self.value(A[1], fr)
                if self.bytes and "basic_string" in qn + e.get("tmpl", "") + str([self.P.under(x["t"]).get("tmpl") for x in A]):
                    # text against text
                    a, b = (self.slice(v, Ptr(v.loc, self.read(v.loc, fr.store).size), fr) if isinstance(v, Ptr) and v.i is not None else v for v in (a, b))
                if self.heap and is_ptr(a) and is_ptr(b):
                    return self.binop(e["op"], a, b, True)
                if isinstance(a, Ptr) and isinstance(b, (Ptr, Rat)) or isinstance(b, Ptr) and isinstance(a, Rat):
                    return self.binop(e["op"], a, b, True)
                if e["op"] not in ("-", "+"):
                    xs, ys = (vec(v) if isinstance(v, Seq) else None for v in (a, b))
                    if e["op"] in ("==", "!=") and xs is not None and ys is not None:
                        cs = [F] if len(xs) != len(ys) else [
                            None if structural(x) or structural(y) else tocond(lift(lambda p, q: eq(p, q), x, y)) for x, y in zip(xs, ys)]
                        if all(c is not None for c in cs):
                            return And(*cs) if e["op"] == "==" else Not(And(*cs))
                    # comparing changes nothing
                    return Unk("comparison of standard objects")
            return self.unknown_call(e, fr)
        # methods of standard types
        if self.objmodels:
            t = self.P.under(o["t"])
            m = self.objmodels.get((self.P.under(t["u"]) if t.get("c") in ("ref", "ptr") else t).get("tmpl", "").split("::")[-1])
            if m is not None:
                if any(x.get("k") in ("call", "mcall") for x in walk(o)):
                    self.ev(o, fr)       # calls in a chain: one after the other on the same object
                return m(self, e.get("op") and "op" + e["op"] or n, A, e, fr)
        if e.get("arrow"):
            l = self.deref(self.ev(o, fr))
        else:
            l = self.loc(o, fr) if self.isloc(o) else self.temp(self.ev(o, fr), fr)
        op = e.get("op")
        if op == "()" and isinstance(l, Loc):
            v = self.read(l, fr.store)
            if isinstance(v, Lam):
                return self.call_lambda(v, A, fr)
            if isinstance(v, Fun):
                ins = []
                for x in A:
                    y = self.value(x, fr)
                    if isinstance(y, Unk):
                        return y
                    if not isinstance(y, Ite):
                        y = self.flat(y)
                    else:
                        y = [y]
                    ins += y
                if any(isinstance(y, Ite) for y in ins):
                    return Unk("gated argument of a callable")
                return v.impl(*ins) if v.impl else self.element(e["t"], v.name, tuple(ins))
        if isinstance(l, Unk):
            return self.unknown_call(e, fr)
        return self.container(n if not op else "op" + op, l, A, e, fr)

    def owner(self, n, l, v, A, fr):
        if n in ("get", "op->"):
            return v
        if n == "operator bool":
            return truth(v)
        if n == "op*":
            return self.deref(v)
        if n == "release" or n == "reset":
            self.write(l, self.value(A[0], fr) if A and n == "reset" else NULL, fr.store)
            return v if n == "release" else Unk("void")
        if n == "swap":
            m = self.loc(A[0], fr)
            b = self.read(m, fr.store)
            self.write(l, b, fr.store)
            self.write(m, v, fr.store)
            return Unk("void")
        return NotImplemented

    def pointee(self, tid):
        t = self.P.under(tid)
        return self.P.under(t["u"]) if t.get("c") == "ref" else t

    def make(self, t, A, fr):
        """a new object built from constructor arguments"""
        return self.fresh(self.build(t, A, fr), fr)

    def build(self, t, A, fr):
        if t.get("c") != "rec" or not self.P.records.get(t.get("rec"), {}).get("root"):
            raise GiveUp("construction in place")
        vs = [self.value(x, fr) for x in A]
        if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == t.get("name"):
            return vs[0]

        def fits(p, x, v):
            u = self.pointee(p["vt"])
            if is_ptr(v):
                return u.get("c") == "ptr" or self.is_std(u, "unique_ptr") and self.is_std(self.P.under(x["t"]), "unique_ptr")
            if isinstance(v, Obj):
                return u.get("name") == v.cls
            return isinstance(v, (Rat, Cond, Ite)) and self.tclass(p["vt"]) == self.tclass(x["t"])
        for f in self.P.root:
            if f.get("ctor") and f.get("clsid") == t["rec"] and len(A) <= len(f["params"]) and not f.get("sp") and all(
                    fits(p, x, v) for p, x, v in zip(f["params"], A, vs)) and all(self.P.under(p["vt"]).get("c") == "ptr" for p in f["params"][len(A):]):
                argv = [(self.loc(x, fr) if self.isloc(x) and x["k"] != "cast" else self.temp(v, fr)) if self.P.is_ref(p["vt"]) else v
                        for p, x, v in zip(f["params"], A, vs)]
                argv += [NULL for p in f["params"][len(A):]]
                return self.construct(f, t, None, fr, argv)
        raise GiveUp("constructor for construction in place")

    def container(self, n, l, A, e, fr):
        if isinstance(l, Ite):
            return Unk("gated container")
        v = self.read(l, fr.store)
        if self.heap and is_ptr(v):      # owning pointers
            r = self.owner(n, l, v, A, fr)
            if r is not NotImplemented:
                return r
        if isinstance(v, Ptr):      # iterator operations
            if n in ("op*",):
                return self.deref(v)
            if n in ("op->",):
                d = self.deref(v)
                return Ptr(d) if isinstance(d, Loc) else d
            if n == "op++" or n == "op--":
                s = 1 if n == "op++" else -1
                nv = v.plus(Rat.of(s)) if v.i is not None else Unk("iterator")
                self.write(l, nv, fr.store)
                return v if A else l
            if n in ("op+", "op-") and len(A) == 1:
                return self.binop(n[2:], v, self.value(A[0], fr), True)
            if n in ("op+=", "op-=") and len(A) == 1:
                nv = self.binop(n[2], v, self.value(A[0], fr), True)
                self.write(l, nv, fr.store)
                return l
            if n == "base":
                return Ptr(v.loc, v.i)
            if n in ("op==", "op!=", "op<", "op>", "op<=", "op>=") and len(A) == 1:
                return self.binop(n[2:], v, self.value(A[0], fr), True)
            if n == "op[]":
                return self.deref(v, self.value(A[0], fr))
            return self.unknown_call(e, fr)
        if isinstance(v, Unk):
            return self.unknown_call(e, fr) if not e.get("mconst") else v
        if isinstance(v, Obj) and v.cls == "optional":
            if n in ("has_value", "operator bool"):
                return v.f["has"]
            if n in ("value", "op*", "op->"):
                if n == "value":
                    if v.f["has"].t != "T":
                        fr.pend.append(Not(v.f["has"]))
                elif v.f["has"].t != "T":
                    self.event(fr.store, "uninit", Not(v.f["has"]), "%s: value of an empty optional" % self.at)
                return Ptr(l.at("val")) if n == "op->" else l.at("val")
            if n == "value_or" and len(A) == 1:
                return vite(v.f["has"], v.f["val"], self.value(A[0], fr))
            if n == "reset":
                self.write(l, Obj("optional", dict(v.f, has=F)), fr.store)
                return Unk("void")
            if n == "emplace" and len(A) == 1:
                self.write(l, self.some(self.value(A[0], fr)), fr.store)
                return l.at("val")
            return self.unknown_call(e, fr)
        if isinstance(v, Lam) and n == "op()":
            return self.call_lambda(v, A, fr)
        size = v.size if isinstance(v, Seq) else Rat.of(len(v.f)) if isinstance(v, Obj) and v.cls == "array" else None
        if n in ("op[]", "at") and len(A) == 1:
            i = self.num(self.value(A[0], fr))
            return self.sub(l, i) if not isinstance(i, Unk) else Unk("index: " + i.why)
        if size is not None:
            if n in ("size", "length"):
                return size
            if n == "empty":
                return tocond(lift(lambda s: eq(s, 0), size))
            if n == "front":
                return self.sub(l, Rat.of(0))
            if n == "back":
                return self.sub(l, lift(lambda s: s - 1, size))
            if n in ("data", "begin", "cbegin"):
                return Ptr(l, Rat.of(0))
            if n in ("end", "cend"):
                return Ptr(l, size)
            if n in ("rbegin", "crbegin"):
                return Ptr(l, size, True)
            if n in ("rend", "crend"):
                return Ptr(l, Rat.of(0), True)
            if n in ("reserve", "shrink_to_fit"):
                return Unk("void")
            if n == "fill" and len(A) == 1:
                x = self.value(A[0], fr)
                self.write(l, SFill(size, x) if isinstance(v, Seq) else Obj(v.cls, {k: x for k in v.f}), fr.store)
                return Unk("void")
        if isinstance(v, Seq):
            t = self.P.under(e["obj"]["t"]) if e.get("obj") is not None else {}
            t = self.P.ty(t["u"]) if "ptr" in t else t
            if isinstance(v, SSet):
                return self.set_op(n, l, v, A, e, fr)
            if n in ("push", "emplace", "pop", "top", "pop_front", "push_front") and any(self.is_std(t, x) for x in LISTS):
                xs = vec(v)
                if xs is None:
                    return self.unknown_call(e, fr)
                if n in ("push", "emplace", "push_front"):
                    x = self.value(A[0], fr) if len(A) == 1 else self.emplace(t, A, fr)
                    xs = xs + [x] if n != "push_front" else [x] + xs
                    self.write(l, SVec(xs), fr.store)
                    return Unk("void")
                if not xs:
                    return Unk("empty container")
                if n == "top":
                    return self.sub(l, Rat.of(len(xs) - 1))
                self.write(l, SVec(xs[1:] if n == "pop_front" or self.is_std(t, "queue") else xs[:-1]), fr.store)
                return Unk("void")
            if n in ("insert", "erase"):
                r = self.splice(n, l, v, A, fr)
                if r is not None:
                    return r
            if n == "resize":
                k = self.num(self.value(A[0], fr))
                fill = self.value(A[1], fr) if len(A) > 1 else (
                    self.default(t["targs"][0]) if self.is_std(t, "vector") else Unk("element"))
                xs = vec(v)
                if xs is not None and isinstance(k, Rat) and k.const() is not None and 0 <= k.const() <= 64:
                    c = int(k.const())
                    self.write(l, SVec(xs[:c] + [fill] * (c - len(xs))), fr.store)
                elif isinstance(size, Rat) and size.const() == 0:
                    self.write(l, SFill(k, fill), fr.store)
                else:
                    self.write(l, SResize(v, k, fill), fr.store)
                return Unk("void")
            if n == "assign" and len(A) == 2:
                a, b = self.value(A[0], fr), self.value(A[1], fr)
                if isinstance(a, Ptr):
                    self.write(l, self.slice(a, b, fr), fr.store)
                else:
                    self.write(l, SFill(a, b), fr.store)
                return Unk("void")
            if n in ("push_back", "emplace_back") and A:
                et = self.P.under(t["targs"][0]) if self.heap and n == "emplace_back" and self.is_std(t, "vector") else {}
                if et.get("c") == "rec" and self.P.records.get(et.get("rec"), {}).get("root"):
                    x = self.build(et, A, fr)
                    v = self.read(l, fr.store)
                elif len(A) == 1:
                    x = self.value(A[0], fr)
                else:
                    x = self.emplace(t, A, fr)
                if isinstance(v, SVec):
                    self.write(l, SVec(v.xs + [x]), fr.store)
                else:
                    self.write(l, SStore(v, size, x, lift(lambda s: s + 1, size)), fr.store)
                return Unk("void")
            if n == "clear":
                self.write(l, SFill(Rat.of(0), Unk("element of an empty vector")), fr.store)
                return Unk("void")
            if n == "pop_back":
                self.write(l, SResize(v, lift(lambda s: s - 1, size), Unk("element")), fr.store)
                return Unk("void")
            if n == "swap" and len(A) == 1:
                m = self.loc(A[0], fr)
                b = self.read(m, fr.store)
                self.write(m, v, fr.store)
                self.write(l, b, fr.store)
                return Unk("void")
        return self.unknown_call(e, fr)

    def set_op(self, n, l, v, A, e, fr):
        if n in ("insert", "emplace", "find", "count", "contains", "erase") and len(A) == 1:
            x = self.value(A[0], fr)
            if isinstance(x, Ptr):
                return self.unknown_call(e, fr)
            i = v.find(x)
            if i is None:
                return self.unknown_call(e, fr)
            if n in ("insert", "emplace"):
                w = v.add(x)
                if w is None:
                    return self.unknown_call(e, fr)
                self.write(l, w, fr.store)
                return Obj("tuple", {0: Ptr(l, Rat.of(w.find(x))), 1: T if i < 0 else F})
            if n == "find":
                return Ptr(l, Rat.of(i if i >= 0 else len(v.xs)))
            if n == "erase":
                self.write(l, SSet(v.xs[:i] + v.xs[i + 1:] if i >= 0 else v.xs, v.ordered), fr.store)
            return Rat.of(1 if i >= 0 else 0) if n != "contains" else T if i >= 0 else F
        if n in ("insert",) and len(A) == 2:
            a, b = self.value(A[0], fr), self.value(A[1], fr)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                xs = vec(self.slice(a, b, fr))
                w = v if xs is not None else None
                for x in xs or []:
                    w = w and w.add(x)
                if w is not None:
                    self.write(l, w, fr.store)
                    return Unk("void")
        if n == "clear":
            self.write(l, SSet([], v.ordered), fr.store)
            return Unk("void")
        return self.unknown_call(e, fr)

    def splice(self, n, l, v, A, fr):
        """insertion into / removal from a vector of known length at a known place"""
        xs = vec(v)
        vs = [self.value(x, fr, x["t"]) for x in A]
        if not vs or not isinstance(vs[0], Ptr) or vs[0].rev or not isinstance(vs[0].i, Rat) or not vs[0].loc.same(l):
            return None
        c = vs[0].i.const()
        if xs is None or c is None or not 0 <= c <= len(xs):
            return None
        c = int(c)
        if n == "erase":
            m = c + 1
            if len(vs) == 2:
                if not isinstance(vs[1], Ptr) or not isinstance(vs[1].i, Rat) or vs[1].i.const() is None:
                    return None
                m = int(vs[1].i.const())
            xs[c:m] = []
        elif len(vs) == 2 and not isinstance(vs[1], Ptr):
            ys = vec(vs[1]) if isinstance(vs[1], Obj) and vs[1].cls == "array" and not (
                isinstance(v, Seq) and xs and isinstance(xs[0], Obj)) else None
            xs[c:c] = [vs[1]] if ys is None else ys
        elif len(vs) == 3 and isinstance(vs[1], Rat) and vs[1].const() is not None:
            xs[c:c] = [vs[2]] * int(vs[1].const())
        elif len(vs) == 3 and isinstance(vs[1], Ptr) and isinstance(vs[2], Ptr) and vs[1].i is not None:
            ys = vec(self.slice(vs[1], vs[2], fr))
            if ys is None:
                return None
            xs[c:c] = ys
        else:
            return None
        self.write(l, SVec(xs), fr.store)
        return Ptr(l, Rat.of(c))

    def apply(self, l, vals, fr):
        """call a lambda on values"""
        if isinstance(l, Fun):
            ins = []
            for y in vals:
                ins += self.flat(y)
            return l.impl(*ins) if l.impl else app("@" + l.name, *ins)
        if isinstance(l, Obj) and len(vals) == 2 and l.cls.startswith(("std::plus<", "std::multiplies<", "std::minus<")):
            op = (lambda a, b: a + b) if l.cls.startswith("std::plus") else (lambda a, b: a * b)
            if l.cls.startswith("std::minus"):
                op = lambda a, b: a - b
            return lift(op, self.num(vals[0]), self.num(vals[1]))
        if not isinstance(l, Lam):
            raise GiveUp("callable " + repr(l)[:60])
        env = dict(l.env)
        for p, x in zip(l.fn["params"], vals):
            env[p["d"]] = self.new_root(x, fr.store, p["n"] or "arg")
        sub = Frame(self, l.this, env, fr.store)
        self.depth += 1
        if self.depth > 24:
            raise GiveUp("call depth")
        try:
            out = self.body(l.fn, sub)
        finally:
            self.depth -= 1
        r = self.finish_call(l.fn, out, fr)
        return self.read(r, fr.store) if isinstance(r, Loc) else r

    def ranged(self, p, q, fr, anyorder=False):
        if p is None or q is None or not p.loc.same(q.loc):
            return None
        if anyorder:
            v = self.read(p.loc, fr.store)
            if isinstance(v, SSet) and p.i is not None and q.i is not None and isinstance(p.i, Rat) and isinstance(q.i, Rat) and p.i.const() == 0 and q.i == v.size:
                return list(v.xs)
        return vec(self.slice(p, q, fr))

    def put(self, r, ys, fr):
        for k, y in enumerate(ys):
            self.write(self.deref(r, Rat.of(k)), y, fr.store)

    def copy_bytes(self, p, pt, q, qt, n, ret, fr):
        a, b = self.layout(pt), self.layout(qt)
        if a is None or b is None:
            return None
        if n == 0:
            return ret

        def load(q, k):
            if q.i is None:
                return [self.read(q.loc, fr.store)] if k == 1 else None
            return self.ranged(q, q.plus(Rat.of(k)), fr)
        k = -(-n // b)
        ys = load(q, k)
        if ys is None:
            return None
        if b != 1:
            ys = [z for y in ys for z in self.tobytes(y, qt)]
        ys = ys[:n]
        if a != 1:
            k = -(-n // a)
            if n % a:           # a part of the last element stays
                old = load(p, k)
                if old is None:
                    return None
                ys = ys + self.tobytes(old[-1], pt)[n % a:]
            ys = [self.unbytes(ys[i * a:i * a + a], pt) for i in range(k)]
        if p.i is None:
            if len(ys) > 1:
                self.event(fr.store, "bounds", T, "%s: %d bytes written to one object" % (self.at, n))
            self.write(p.loc, ys[0], fr.store)
        else:
            self.put(p, ys, fr)
        return ret

    def known_range(self, n, e, fr):
        """standard algorithms over ranges of known length"""
        A = e["a"]
        vs = [self.value(x, fr, x["t"]) for x in A]
        ps = [self.asptr(v) for v in vs]
        for i, v in enumerate(vs):          # arrays decay to pointers
            if ps[i] is None and (isinstance(v, Seq) or isinstance(v, Obj) and v.cls == "array") and self.isloc(strip(A[i])):
                l = self.loc(strip(A[i]), fr)
                ps[i] = Ptr(l, Rat.of(0)) if isinstance(l, Loc) else None
        if n in ("advance", "next", "prev", "distance"):
            if ps[0] is None:
                return None
            if n == "distance":
                return self.binop("-", ps[1], ps[0], True) if ps[1] is not None else None
            k = vs[1] if len(vs) > 1 else Rat.of(1)
            np = ps[0].plus(k if n != "prev" else lift(lambda x: -x, k))
            if n != "advance":
                return np
            self.write(self.loc(A[0], fr), np, fr.store)
            return Unk("void")
        if n in ("memcpy", "memmove"):
            a = strip(A[0])
            if self.bytes:
                ps = [v if p is None and isinstance(v, Ptr) else p for p, v in zip(ps, vs)]
            t = self.P.under(a["t"])
            b = self.P.under(strip(A[1])["t"])
            if "u" not in t or "u" not in b or ps[0] is None or ps[1] is None:
                return None
            size = {("fp", 64): 8, ("fp", 32): 4, ("int", 32): 4, ("int", 64): 8}
            x, y = self.P.under(t["u"]), self.P.under(b["u"])
            if self.bytes and isinstance(vs[2], Rat) and vs[2].const() is not None:
                return self.copy_bytes(ps[0], t["u"], ps[1], b["u"], int(vs[2].const()), vs[0], fr)
            w = size.get((x.get("c"), x.get("w")))
            if w is None or x.get("c") != y.get("c") or x.get("w") != y.get("w") or not isinstance(vs[2], Rat):
                return None
            cnt = vs[2] / Rat.of(w)
            if cnt.const() is None or cnt.const().denominator != 1:
                return None
            ys = self.ranged(ps[1], ps[1].plus(cnt), fr)
            if ys is None:
                return None
            self.put(ps[0], ys, fr)
            return vs[0]
        if len(ps) < 2:
            return None
        xs = self.ranged(ps[0], ps[1], fr, n in ("find", "find_if", "any_of", "all_of", "none_of", "count", "count_if"))
        if xs is None:
            return None
        p = ps[0]
        if n in ("copy", "move", "reverse_copy", "swap_ranges") and len(vs) == 3 and ps[2] is not None:
            ys = list(reversed(xs)) if n == "reverse_copy" else xs
            if n == "swap_ranges":
                zs = self.ranged(ps[2], ps[2].plus(Rat.of(len(xs))), fr)
                if zs is None:
                    return None
                self.put(p, zs, fr)
            self.put(ps[2], ys, fr)
            return ps[2].plus(Rat.of(len(xs)))
        if n == "copy_backward" and ps[2] is not None:
            self.put(ps[2].plus(Rat.of(-len(xs))), xs, fr)
            return ps[2].plus(Rat.of(-len(xs)))
        if n == "fill":
            self.put(p, [vs[2]] * len(xs), fr)
            return Unk("void")
        if n == "iota":
            self.put(p, [lift(lambda x: x + k, self.num(vs[2])) for k in range(len(xs))], fr)
            return Unk("void")
        if n in ("reverse", "rotate"):
            if n == "reverse":
                ys = xs[::-1]
            else:
                k = self.binop("-", ps[1], p, True)
                q = self.ranged(ps[1], ps[2], fr)
                if q is None:
                    return None
                ys = q + xs
            self.put(p, ys, fr)
            return Unk("void")
        less = None
        if n in ("min_element", "max_element", "minmax_element", "sort", "stable_sort", "is_sorted"):
            if len(vs) == 2:
                less = lambda a, b: tocond(lift(lambda x, y: lt(x, y), self.num(a), self.num(b)))
            else:
                less = lambda a, b: tocond(self.apply(vs[2], [a, b], fr))
        if n in ("min_element", "max_element"):
            if not xs:
                return ps[1]
            bi, bv = Rat.of(0), xs[0]
            for k in range(1, len(xs)):
                c = less(xs[k], bv) if n == "min_element" else less(bv, xs[k])
                if c is None:
                    return None
                c = known(c)
                bi, bv = vite(c, Rat.of(k), bi), vite(c, xs[k], bv)
            return p.plus(bi)
        if n in ("sort", "stable_sort"):
            ys = []
            for x in xs:
                k = len(ys)
                while k > 0:
                    c = less(x, ys[k - 1])
                    c = known(c) if c is not None else None
                    if c is None or c.t not in ("T", "F"):
                        return None
                    if c.t == "F":
                        break
                    k -= 1
                ys.insert(k, x)
            self.put(p, ys, fr)
            return Unk("void")
        if n in ("any_of", "all_of", "none_of", "count_if"):
            cs = [tocond(self.apply(vs[2], [x], fr)) for x in xs]
            if any(c is None for c in cs):
                return None
            if n == "count_if":
                r = Rat.of(0)
                for c in cs:
                    r = lift(lambda a, b: a + b, r, ite(c, Rat.of(1), Rat.of(0)))
                return r
            return And(*cs) if n == "all_of" else Or(*cs) if n == "any_of" else Not(Or(*cs))
        if n in ("find", "find_if", "count"):
            r = Rat.of(len(xs))
            if n == "count":
                r = Rat.of(0)
            for k in range(len(xs) - 1, -1, -1):
                c = tocond(self.apply(vs[2], [xs[k]], fr)) if n == "find_if" else tocond(
                    lift(lambda a, b: eq(a, b), self.num(xs[k]), self.num(vs[2])))
                if c is None:
                    return None
                c = known(c)
                r = vite(c, Rat.of(k), r) if n != "count" else lift(lambda a, b: a + b, r, ite(c, Rat.of(1), Rat.of(0)))
            return r if n == "count" else p.plus(r)
        if n == "for_each":
            for k in range(len(xs)):
                f = vs[2]
                if not isinstance(f, Lam):
                    return None
                if self.P.is_ref(f.fn["params"][0]["vt"]):
                    t = self.new_root(xs[k], fr.store, "fe")
                    env = dict(f.env)
                    env[f.fn["params"][0]["d"]] = self.deref(p, Rat.of(k))
                    sub = Frame(self, f.this, env, fr.store)
                    self.finish_call(f.fn, self.body(f.fn, sub), fr)
                else:
                    self.apply(f, [xs[k]], fr)
            return vs[2]
        if n == "transform" and ps[2] is not None:
            if len(vs) == 4:
                ys = [self.apply(vs[3], [x], fr) for x in xs]
            else:
                zs = self.ranged(ps[2], ps[2].plus(Rat.of(len(xs))), fr)
                if zs is None or ps[3] is None:
                    return None
                ys = [self.apply(vs[4], [x, z], fr) for x, z in zip(xs, zs)]
            self.put(ps[2 if len(vs) == 4 else 3], ys, fr)
            return ps[2 if len(vs) == 4 else 3].plus(Rat.of(len(xs)))
        if n == "accumulate" and len(vs) in (3, 4):
            r = vs[2]
            for x in xs:
                r = self.apply(vs[3], [r, x], fr) if len(vs) == 4 else lift(lambda a, b: a + b, self.num(r), self.num(x))
            return r
        if n == "inner_product" and len(vs) == 4 and ps[2] is not None:
            zs = self.ranged(ps[2], ps[2].plus(Rat.of(len(xs))), fr)
            if zs is None:
                return None
            r = vs[3]
            for x, z in zip(xs, zs):
                r = lift(lambda a, b, c: a + b * c, self.num(r), self.num(x), self.num(z))
            return r
        return None

    def emplace(self, t, A, fr):
        if not self.is_std(t, "vector"):
            return Unk("emplace")
        et = self.P.under(t["targs"][0])
        if et.get("c") == "rec" and et["rec"] in self.P.records and self.P.records[et["rec"]].get("root"):
            for f in self.P.root:
                if f.get("ctor") and f.get("clsid") == et["rec"] and len(f["params"]) == len(A) and all(
                        self.tclass(p["vt"]) == self.tclass(x["t"]) for p, x in zip(f["params"], A)):
                    return self.construct(f, et, A, fr)
            return Unk("emplace")
        if self.is_std(et, "pair") or self.is_std(et, "tuple"):
            return Obj("tuple", {i: self.value(x, fr) for i, x in enumerate(A)})
        return Unk("emplace")

    def algorithm(self, n, e, fr):
        A = e["a"]
        if n == "fill" and len(A) == 3:
            p, q, v = self.value(A[0], fr, A[0]["t"]), self.value(A[1], fr, A[1]["t"]), self.value(A[2], fr)
            p, q = self.asptr(p), self.asptr(q)
            if p is not None and q is not None and p.loc.same(q.loc):
                s = self.read(p.loc, fr.store)
                if isinstance(s, Obj) and s.cls == "array" and p.i.const() == 0 and isinstance(q.i, Rat) and q.i.const() == len(s.f):
                    self.write(p.loc, Obj("array", {k: v for k in s.f}), fr.store)
                    return Unk("void")
                if isinstance(s, Seq):
                    iv = next(iter(alg.sym("$ix%d" % len(alg.SYM), True).atoms()))
                    self.write(p.loc, SMap(s, iv, p.i, q.i, v), fr.store)
                    return Unk("void")
        if n in ("accumulate", "inner_product"):
            p, q = self.asptr(self.value(A[0], fr, A[0]["t"])), self.asptr(self.value(A[1], fr, A[1]["t"]))
            if p and q and p.loc.same(q.loc) and len(A) == (3 if n == "accumulate" else 4):
                iv = alg.sym("$ix%d" % len(alg.SYM), True)
                ia = next(iter(iv.atoms()))
                init = self.num(self.value(A[-1], fr))
                s = self.elem(self.read(p.loc, fr.store), iv)
                if n == "inner_product":
                    r = self.asptr(self.value(A[2], fr, A[2]["t"]))
                    if r is None:
                        return self.unknown_call(e, fr)
                    s2 = self.elem(self.read(r.loc, fr.store), lift(lambda a, b: iv - a + b, p.i, r.i))
                    s = lift(lambda a, b: a * b, self.num(s), self.num(s2))
                if structural(s) or isinstance(s, Unk):
                    return self.unknown_call(e, fr)
                return lift(lambda a, b: a + b, init, mk_sum(p.i, q.i, ia, self.num(s)))
        return self.unknown_call(e, fr)

    def asptr(self, v):
        if isinstance(v, Ptr) and v.i is not None:
            return v
        if isinstance(v, Loc):
            return Ptr(v, Rat.of(0))
        return None

    # ---------------------------------------------------------------- statements
    # outcome: dict kind -> (guard, store, value); kinds next ret thr brk cnt
    def seq(self, stmts, fr):
        outs = {}
        guard = T
        for s in stmts:
            o = self.stmt(s, fr)
            for k, v in o.items():
                if k == "next":
                    continue
                self.add(outs, k, guard, v)
            if "next" not in o:
                return outs
            guard = And(guard, o["next"][0])
            fr.store = o["next"][1]
        outs["next"] = (guard, fr.store, None)
        return outs

    def add(self, outs, k, guard, v):
        g = And(guard, v[0])
        if k not in outs:
            outs[k] = (g, v[1], v[2])
            return
        g0, s0, v0 = outs[k]
        if k == "thr":
            outs[k] = (Or(g0, g), s0, None)
            return
        val = None
        if v0 is not None or v[2] is not None:
            val = vite(g0, v0 if v0 is not None else Unk("no value"), v[2] if v[2] is not None else Unk("no value"))
        outs[k] = (Or(g0, g), merge_store(g0, s0, v[1]), val)

    def flush(self, fr, o):
        """account for throws inside calls evaluated by this statement"""
        if fr.pend:
            g = Or(*fr.pend)
            fr.pend = []
            n = Not(g)
            if "thr" in o:
                o["thr"] = (Or(g, o["thr"][0]), o["thr"][1], None)
            else:
                o["thr"] = (g, fr.store, None)
            for k in list(o):
                if k != "thr":
                    gg = And(n, o[k][0])
                    if gg.t == "F":
                        del o[k]
                    else:
                        o[k] = (gg,) + o[k][1:]
        return o

    def stmt(self, s, fr):
        if s is None:
            return {"next": (T, fr.store, None)}
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise GiveUp("%s statement" % k)
        if s.get("l"):
            self.at = "%s:%s" % (fr.fn, s["l"])
        return m(s, fr)

    def s_null(self, s, fr):
        return {"next": (T, fr.store, None)}

    def s_block(self, s, fr):
        return self.seq(s["b"], fr)

    def s_expr(self, s, fr):
        e = strip(s["e"])
        if e["k"] == "throw":
            return {"thr": (T, fr.store, None)}
        if e["k"] == "cond" and (CFG.noreturn(e["a"]) or CFG.noreturn(e["b"])):
            c = self.cond(e["c"], fr)
            ok = c if CFG.noreturn(e["b"]) else Not(c)
            o = {"next": (ok, fr.store, None)}
            if ok.t == "F":
                o = {}
            if ok.t != "T":
                o["thr"] = (Not(ok), fr.store, None)
            return self.flush(fr, o)
        if s["e"]["k"] == "call":
            self.call(s["e"], fr)
        else:
            self.ev(s["e"], fr)
        return self.flush(fr, {"next": (T, fr.store, None)})

    def declare(self, v, fr):
        if v.get("static"):
            raise GiveUp("static local")
        init = v.get("init")
        if self.P.is_ref(v["vt"]):
            l = self.loc(init, fr)
            if isinstance(l, Unk):
                l = self.temp(l, fr)
            fr.env[v["d"]] = l
        else:
            if init is None:
                x = self.uninit(v["vt"])
            else:
                x = self.value(init, fr, v["vt"])
            t = self.P.under(v["vt"])
            if t.get("c") == "bool" and isinstance(x, Rat):
                x = tocond(x)
            fr.env[v["d"]] = self.new_root(x, fr.store, v["n"] or "v")
        for b in v.get("bind", []):
            base = fr.env[v["d"]]
            if b.get("e") is not None:
                be = b["e"]
                fr.env[b["d"]] = self.loc(be, fr)
            else:
                fr.env[b["d"]] = self.sub(base, b["i"])

    def s_decl(self, s, fr):
        for v in s["v"]:
            self.declare(v, fr)
        return self.flush(fr, {"next": (T, fr.store, None)})

    def s_if(self, s, fr):
        if s.get("init"):
            self.seq([s["init"]], fr)
        if s.get("cv"):
            self.declare(s["cv"], fr)
        c = self.cond(s["c"], fr)
        pend, fr.pend = fr.pend, []
        if c.t == "T":
            o = self.stmt(s["a"], fr)
        elif c.t == "F":
            o = self.stmt(s["b"], fr) if s.get("b") else {"next": (T, fr.store, None)}
        else:
            st = fr.store
            fr.store = dict(st)
            oa = self.stmt(s["a"], fr)
            fr.store = dict(st)
            ob = self.stmt(s["b"], fr) if s.get("b") else {"next": (T, fr.store, None)}
            o = self.join(c, oa, ob)
        fr.pend = pend
        if "next" in o:
            fr.store = o["next"][1]
        return self.flush(fr, o)

    def join(self, c, oa, ob):
        o = {}
        nc = Not(c)
        for k in set(oa) | set(ob):
            if k in oa and k in ob:
                ga, sa, va = oa[k]
                gb, sb, vb = ob[k]
                val = None
                if va is not None or vb is not None:
                    val = vite(c, va if va is not None else Unk("no value"), vb if vb is not None else Unk("no value"))
                g = T if ga.t == "T" and gb.t == "T" else Or(And(c, ga), And(nc, gb))
                o[k] = (g, sa if k == "thr" else merge_store(c, sa, sb), val)
            elif k in oa:
                o[k] = (And(c, oa[k][0]),) + oa[k][1:]
            else:
                o[k] = (And(nc, ob[k][0]),) + ob[k][1:]
        return o

    def s_ret(self, s, fr):
        v = None
        if s.get("e") is not None:
            if fr.rref:
                v = self.loc(s["e"], fr)
            else:
                v = self.value(s["e"], fr, fr.rt)
                if self.P.under(fr.rt).get("c") == "bool" and isinstance(v, Rat):
                    v = tocond(v)
        return self.flush(fr, {"ret": (T, fr.store, v)})

    def s_break(self, s, fr):
        return {"brk": (T, fr.store, None)}

    def s_cont(self, s, fr):
        return {"cnt": (T, fr.store, None)}

    def s_switch(self, s, fr):
        c = self.num(self.ev(s["c"], fr))
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten case labels
        flat = []
        for st in body:
            labs = []
            while st is not None and st["k"] in ("case", "default"):
                labs.append(st)
                st = st.get("b")
            flat.append((labs, st))
        entries = []
        dflt = None
        for i, (labs, st) in enumerate(flat):
            for l in labs:
                if l["k"] == "default":
                    dflt = i
                else:
                    entries.append((l["v"], i))
        base = fr.store
        conds, nots = [], T

        def run_from(i):
            fr.store = dict(base)
            o = self.seq([st for _, st in flat[i:]], fr)
            if "brk" in o:
                b = o.pop("brk")
                if "next" in o:
                    self.add(o, "next", T, b)
                else:
                    o["next"] = b
            return o
        res = run_from(dflt) if dflt is not None else {"next": (T, base, None)}
        for v, i in reversed(entries):
            cv = self.num(self.ev(v, fr))
            g = tocond(lift(lambda a, b: eq(a, b), c, cv))
            if g is None:
                raise GiveUp("switch")
            if g.t == "T":
                res = run_from(i)
            elif g.t != "F":
                res = self.join(g, run_from(i), res)
        if "next" in res:
            fr.store = res["next"][1]
        return res

    def s_try(self, s, fr):
        o = self.stmt(s["b"], fr)
        if "thr" in o:
            raise GiveUp("handled exception")
        return o

    def s_otherst(self, s, fr):
        raise GiveUp("statement")

    # ---------------------------------------------------------------- loops
    def s_for(self, s, fr):
        if s.get("init"):
            o = self.stmt(s["init"], fr)
            fr.store = o["next"][1]
        return self.loop(s, s.get("c"), s["b"], s.get("inc"), fr)

    def s_while(self, s, fr):
        return self.loop(s, s["c"], s["b"], None, fr)

    def s_do(self, s, fr):
        o = self.stmt(s["b"], fr)
        if set(o) - {"next", "cnt"}:
            raise GiveUp("do loop with exits")
        if "cnt" in o and "next" in o:
            st = merge_store(o["next"][0], o["next"][1], o["cnt"][1])
        else:
            st = (o.get("next") or o["cnt"])[1]
        fr.store = st
        return self.loop(s, s["c"], s["b"], None, fr)

    def s_rfor(self, s, fr):
        r = s["range"]
        l = self.loc(r, fr) if self.isloc(r) else self.temp(self.ev(r, fr), fr)
        v = self.read(l, fr.store)
        if isinstance(v, Obj) and v.cls == "array":
            n = Rat.of(len(v.f))
        elif isinstance(v, Seq):
            n = v.size
        else:
            return self.give_loop(s, fr, "range of unknown container")
        if isinstance(v, SSet) and vec(v) is None:
            return self.give_loop(s, fr, "order of an unordered set")
        isref = self.P.is_ref(s["var"]["vt"])

        def bind(i):
            el = self.sub(l, i)
            if isref:
                fr.env[s["var"]["d"]] = el
            else:
                fr.env[s["var"]["d"]] = self.new_root(self.read(el, fr.store), fr.store, s["var"]["n"])
            for b in s["var"].get("bind", []):
                if b.get("e") is not None:
                    fr.env[b["d"]] = self.loc(b["e"], fr)
                else:
                    fr.env[b["d"]] = self.sub(fr.env[s["var"]["d"]], b["i"])
        if isinstance(n, Rat) and n.const() is not None and n.const() <= self.unroll:
            outs = {}
            guard = T
            brk = None
            for i in range(int(n.const())):
                bind(Rat.of(i))
                o = self.stmt(s["b"], fr)
                o = self.fold_cnt(o)
                for k in ("ret", "thr"):
                    if k in o:
                        self.add(outs, k, guard, o[k])
                if "brk" in o:
                    self.add(outs, "brk", guard, o["brk"])
                if "next" not in o:
                    guard = F
                    break
                guard = And(guard, o["next"][0])
                fr.store = o["next"][1]
            return self.end_loop(outs, guard, fr)
        return self.summarise(s, fr, Rat.of(0), n, bind, s["b"], None)

    def fold_cnt(self, o):
        if "cnt" in o:
            c = o.pop("cnt")
            if "next" in o:
                self.add(o, "next", T, c)
            else:
                o["next"] = c
        return o

    def end_loop(self, outs, guard, fr):
        res = {k: v for k, v in outs.items() if k in ("ret", "thr")}
        if "brk" in outs:
            g, st, _ = outs["brk"]
            if guard.t == "F":
                fr.store = st
                res["next"] = (g, st, None)
            else:
                st = merge_store(g, st, fr.store)
                fr.store = st
                res["next"] = (Or(g, guard), st, None)
                if "ret" not in res and "thr" not in res:
                    res["next"] = (T, st, None)
        elif guard.t != "F":
            res["next"] = (guard, fr.store, None)
        return res

    def loop(self, s, c, body, inc, fr):
        outs = {}
        guard = T
        n = 0
        gated = None
        while True:
            # can the condition be decided?
            save = dict(fr.store)
            cv = self.cond(c, fr) if c is not None else T
            if cv.t == "F":
                break
            if cv.t != "T":
                if n == 0:
                    fr.store = save
                    if self.header(c, inc, body, fr) is not None or not self.assumed:
                        return self.counted(s, c, body, inc, fr)
                    gated = dict(save)
                if n >= 12:
                    if gated is None:
                        raise GiveUp("loop")
                    fr.store = gated
                    return self.give_loop(s, fr, "loop without a recognised counter")
                # bounded by data that became symbolic: gate the rest
                self.add(outs, "brk", And(guard, Not(cv)), (T, dict(fr.store), None))
                guard = And(guard, cv)
            n += 1
            if n > self.unroll:
                fr.store = save
                return self.give_loop(s, fr, "long loop")
            o = self.fold_cnt(self.stmt(body, fr))
            for k in ("ret", "thr", "brk"):
                if k in o:
                    self.add(outs, k, guard, o[k])
            if "next" not in o:
                guard = F
                break
            guard = And(guard, o["next"][0])
            fr.store = o["next"][1]
            if guard.t == "F":
                break
            if inc is not None:
                self.ev(inc, fr)
        return self.end_loop(outs, guard, fr)

    def counted(self, s, c, body, inc, fr):
        """for (i = lo; i < hi; ++i) with symbolic bounds"""
        r = self.header(c, inc, body, fr)
        if r is None:
            return self.give_loop(s, fr, "loop without a recognised counter")
        d, lo, hi, step = r
        l = fr.env[d]

        def bind(i):
            self.write(l, i, fr.store)
        return self.summarise(s, fr, lo, hi, bind, body, d)

    def header(self, c, inc, body, fr):
        x = strip(c) if c is not None else None
        if x is None or x["k"] != "bin" or x["op"] not in ("<", "<=", "!=", ">", ">=") or inc is None:
            return None
        y = strip(inc)
        if y["k"] == "un" and y["op"] in ("++",):
            v = strip(y["e"])
        elif y["k"] == "asg" and y["op"] == "+=" and strip(y["b"])["k"] == "int" and strip(y["b"])["v"] == 1:
            v = strip(y["a"])
        else:
            return None
        if v["k"] != "ref" or v["d"] not in fr.env:
            return None
        a, b = strip(x["a"]), strip(x["b"])
        if a["k"] == "ref" and a["d"] == v["d"] and x["op"] in ("<", "<=", "!="):
            be, le_ = x["b"], x["op"] == "<="
        elif b["k"] == "ref" and b["d"] == v["d"] and x["op"] in (">", ">=", "!="):
            be, le_ = x["a"], x["op"] == ">="
        else:
            return None
        # the counter is only changed by the header
        for n in walk(body):
            t = None
            if n.get("k") == "asg":
                t = strip(n["a"])
            elif n.get("k") == "un" and n["op"] in ("++", "--", "&"):
                t = strip(n["e"])
            if t is not None and t["k"] == "ref" and t["d"] == v["d"]:
                return None
        lo = self.num(self.read(fr.env[v["d"]], fr.store))
        hi = self.num(self.ev(be, fr))
        if isinstance(lo, Unk) or isinstance(hi, Unk) or structural(lo) or structural(hi):
            return None
        if le_:
            hi = lift(lambda a: a + 1, hi)
        # the bound must not change in the loop: checked by re-evaluation in summarise
        self._bound = (be, le_)
        return v["d"], lo, hi, 1

    def summarise(self, s, fr, lo, hi, bind, body, cd):
        bound = getattr(self, "_bound", None) if cd is not None else None
        self._bound = None
        if isinstance(lo, Ite) or isinstance(hi, Ite):
            # gate the whole loop
            x = lo if isinstance(lo, Ite) else hi
            k = x.c.key()
            st = dict(fr.store)
            oa = self.summarise(s, fr, restrict(lo, k, True), restrict(hi, k, True), bind, body, cd)
            sa = fr.store
            fr.store = st
            ob = self.summarise(s, fr, restrict(lo, k, False), restrict(hi, k, False), bind, body, cd)
            o = self.join(x.c, oa, ob)
            fr.store = o["next"][1]
            return o
        pre = dict(fr.store)
        iv = alg.sym("i%d" % len(alg.SYM), True)
        ia = next(iter(iv.atoms()))
        self.nsum = getattr(self, "nsum", 0) + 1
        if self.nsum > 400:
            raise GiveUp("too many loops")

        def once(store):
            fr.store = dict(store)
            mark = len(FACTS)
            FACTS.append((lo - iv, "<="))
            FACTS.append((iv - hi, "<"))
            try:
                bind(iv)
                o = self.fold_cnt(self.stmt(body, fr))
            finally:
                del FACTS[mark:]
            if set(o) - {"next", "thr"} or "next" not in o:
                return None
            return o
        snap = dict(fr.env)
        skip0 = {fr.env[cd].root} if cd is not None and isinstance(fr.env[cd], Loc) else set()
        r = self.exits(s, fr, pre, snap, lo, hi, iv, ia, bind, body, skip0)
        if r is not None:
            return r
        o = once(pre)
        if o is None:
            fr.store = pre
            return self.give_loop(s, fr, "loop with exits")
        post = o["next"][1]
        skip = {fr.env[cd].root} if cd is not None and isinstance(fr.env[cd], Loc) else set()
        changed = [k for k in pre if k in post and post[k] is not pre[k] and k not in skip]
        # refine to leaf paths
        carr = {}
        mp = {}

        def mk(v, w, name):
            """carry copy of v: changed scalars and sequences replaced by symbols"""
            if v is w:
                return v
            if isinstance(v, Obj) and isinstance(w, Obj) and set(v.f) == set(w.f):
                return Obj(v.cls, {k: mk(v.f[k], w.f[k], "%s.%s" % (name, k)) for k in v.f})
            if isinstance(v, Rat) and isinstance(w, Rat) and v == w:
                return v
            if isinstance(v, Seq):
                et = self.seq_et(v)
                if et is None:
                    return Unk("loop changes a sequence of unknown type")
                b = SBase(self, name + "[]", et, alg.sym(name + ".size", True), ())
                b.carry = v
                return b
            if isinstance(v, Unk) and v.why == "uninitialised":
                return v
            if isinstance(v, (Rat, Ite, Cond)) and not self.has_loc(v):
                if isinstance(v, Cond) or isinstance(v, Ite) and tocond(v) is not None and not isinstance(leaf0(v), Rat):
                    return Unk("loop-carried truth value")
                a = alg.sym(name, False)
                return a
            return Unk("loop-carried value")
        fresh = "c%d" % len(alg.SYM)
        st2 = dict(pre)
        for k in changed:
            st2[k] = mk(pre[k], post[k], "?%s.%s" % (fresh, k))
        fr.env = dict(snap)
        o = once(st2)
        if o is None:
            fr.store = pre
            return self.give_loop(s, fr, "loop with exits")
        post2 = o["next"][1]
        # anything else changed in the second pass?
        for k in st2:
            if k in post2 and post2[k] is not st2[k] and k not in changed and k not in skip:
                fr.store = pre
                return self.give_loop(s, fr, "loop effects")
        if bound is not None:
            fr.store = dict(post2)
            h2 = self.num(self.ev(bound[0], fr))
            if bound[1]:
                h2 = lift(lambda a: a + 1, h2)
            if not (isinstance(h2, Rat) and isinstance(hi, Rat) and h2 == hi):
                fr.store = pre
                return self.give_loop(s, fr, "loop bound changes")
        final = {}
        # 1. inductions: scalars with constant step
        ind = {}

        def scal(v, w, path):
            if isinstance(v, Obj) and isinstance(w, Obj):
                for k in v.f:
                    scal(v.f[k], w.f.get(k), path + (k,))
            elif isinstance(v, Rat) and len(v.atoms()) == 1 and isinstance(w, Rat):
                a = next(iter(v.atoms()))
                if ATOMS[a].name.startswith("?" + fresh):
                    dl = w - v
                    if dl.const() is not None:
                        ind[a] = (path, dl)
        pvals = {}
        for k in changed:
            scal(st2[k], post2.get(k), (k,))

        def collect(v, p, path):
            if isinstance(v, Obj) and isinstance(p, Obj):
                for k in v.f:
                    collect(v.f[k], p.f.get(k), path + (k,))
            elif isinstance(v, Rat) and len(v.atoms()) == 1:
                a = next(iter(v.atoms()))
                if ATOMS[a].name.startswith("?" + fresh):
                    pvals[a] = p
            elif isinstance(v, SBase) and v.name.startswith("?" + fresh):
                pvals[next(iter(v.size.atoms()))] = p.size
        for k in changed:
            collect(st2[k], pre[k], (k,))
        sub = {}
        for a, (path, dl) in ind.items():
            p0 = pvals.get(a)
            if isinstance(p0, Rat):
                sub[a] = p0 + (iv - lo) * dl
        # sizes of sequences that grow by a constant amount
        szdelta = {}

        def sizes(v, w):
            if isinstance(v, Obj) and isinstance(w, Obj):
                for k in v.f:
                    sizes(v.f[k], w.f.get(k))
            elif isinstance(v, SBase) and v.name.startswith("?" + fresh) and isinstance(w, Seq):
                a = next(iter(v.size.atoms()))
                if isinstance(w.size, Rat):
                    dl = w.size - v.size
                    if dl.const() is not None and isinstance(pvals.get(a), Rat):
                        sub[a] = pvals[a] + (iv - lo) * dl
                        szdelta[a] = dl
        for k in changed:
            sizes(st2[k], post2.get(k))
        n = hi - lo

        def close(v0, v, w):
            """value after the loop; v0 before, v carry, w after one iteration in terms of the carry"""
            if w is v:
                return v0
            if isinstance(v, Obj):
                if not isinstance(w, Obj) or not isinstance(v0, Obj):
                    return Unk("loop")
                return Obj(v.cls, {k: close(v0.f[k], v.f[k], w.f[k]) for k in v.f})
            if isinstance(v, SBase) and v.name.startswith("?" + fresh):
                return self.close_seq(v0, v, w, sub, ia, lo, hi, fresh)
            if isinstance(w, (Rat, Ite)) and isinstance(v, Rat):
                if v.atoms() and len(v.atoms()) == 1 and ATOMS[next(iter(v.atoms()))].name.startswith("?" + fresh):
                    a = next(iter(v.atoms()))
                    others = {x: y for x, y in sub.items() if x != a}
                    d = lift(lambda x: x - v, w)
                    d = gsubst(d, others) if others else d
                    if not self.carried(d, fresh):
                        r = mk_sum(lo, hi, ia, d)
                        return lift(lambda x, y: x + y, self.num(v0), r)
                    w2 = gsubst(w, others) if others else w
                    if not self.carried(w2, fresh):
                        # last iteration wins
                        c = lti(lo, hi)
                        return vite(c, gsubst(w2, {ia: hi - 1}), v0)
                    return self.fold(v0, v, w2, a, ia, lo, hi, fresh)
                return Unk("loop-carried value")
            if isinstance(v, Unk) and v.why == "uninitialised" and isinstance(w, (Rat, Ite)):
                w2 = gsubst(w, sub) if sub else w
                if not self.carried(w2, fresh):
                    return vite(lti(lo, hi), gsubst(w2, {ia: hi - 1}), v0)
            if isinstance(v, Unk):
                return v
            return Unk("loop-carried value")
        st3 = dict(pre)
        for k in changed:
            st3[k] = close(pre[k], st2[k], post2.get(k, Unk("loop")))
        fr.env = snap
        fr.store = st3
        if cd is not None and isinstance(fr.env[cd], Loc):
            self.write(fr.env[cd], ite(lti(lo, hi), hi, lo), fr.store)
        res = {"next": (T, fr.store, None)}
        if "thr" in o:
            g = o["thr"][0]
            if g.t != "F":
                nm = "?loop throws@%s" % s.get("l")
                res["thr"] = (Cond("op", nm), fr.store, None)
                res["next"] = (Not(Cond("op", nm)), fr.store, None)
        return res

    def exits(self, s, fr, pre, snap, lo, hi, iv, ia, bind, body, skip):
        """search loop: an iteration either leaves with a fixed outcome or changes nothing"""
        if not self.has_exit(body):
            return None
        fr.store = dict(pre)
        mark = len(FACTS)
        FACTS.append((lo - iv, "<="))
        FACTS.append((iv - hi, "<"))
        try:
            bind(iv)
            o = self.fold_cnt(self.stmt(body, fr))
        except GiveUp:
            return None
        finally:
            del FACTS[mark:]
            fr.env = dict(snap)
            fr.store = pre
        ks = set(o) - {"next"}
        if len(ks) != 1 or "next" not in o or not ks & {"ret", "brk"}:
            return None
        k = ks.pop()
        g, st, v = o[k]
        post = o["next"][1]
        if any(x in post and post[x] is not pre[x] for x in pre if x not in skip):
            return None

        def uses(x):
            if isinstance(x, Obj):
                return any(uses(y) for y in x.f.values())
            if isinstance(x, (Rat, Cond, Ite)):
                return ia in val_atoms(x) or any(uses(y) for y in self.leaves_of(x))
            return isinstance(x, (Seq, Loc, Ptr, Lam))
        if v is not None and uses(v):
            return None
        for x in pre:
            if x not in skip and st.get(x) is not pre[x] and uses(st[x]):
                return None
        if has_op(g):
            return None
        anyc = mk_any(lo, hi, ia, g)
        if anyc is None:
            return None
        end = dict(pre)
        if cd_root := (next(iter(skip)) if skip else None):
            end[cd_root] = ite(lti(lo, hi), hi, lo)
        stx = {x: (st[x] if x in st and x not in skip else pre[x]) for x in pre}
        if cd_root:
            stx[cd_root] = Unk("counter at exit")
        n = Not(anyc)
        if k == "ret":
            fr.store = end
            return {"ret": (anyc, stx, v), "next": (n, end, None)}
        st2 = merge_store(anyc, stx, end)
        fr.store = st2
        return {"next": (T, st2, None)}

    def leaves_of(self, x):
        if isinstance(x, Ite):
            return [x.a, x.b]
        return []

    def has_exit(self, body):
        """return or break that leaves this loop"""
        def go(n, inner):
            if isinstance(n, list):
                return any(go(x, inner) for x in n)
            if not isinstance(n, dict):
                return False
            k = n.get("k")
            if k == "ret":
                return True
            if k == "break" and not inner:
                return True
            if k == "lambda":
                return False
            inner = inner or k in ("for", "while", "do", "rfor", "switch")
            return any(go(x, inner) for x in n.values() if isinstance(x, (dict, list)))
        return go(body, False)

    def fold(self, v0, v, w, a, ia, lo, hi, fresh):
        """min/max reductions"""
        if isinstance(w, Ite) and isinstance(v0, Rat):
            for nm, f in (("min", fmin), ("max", fmax)):
                for cand in (w.a, w.b):
                    if isinstance(cand, Rat) and not self.carried(cand, fresh):
                        if decide_quiet(w, f(v, cand)):
                            k = bound_depth(cand)
                            bv = alg.sym("$%d" % k, True)
                            t = deep_subst(cand, {ia: bv + lo})
                            return app("fold" + nm, v0, hi - lo, Rat.of(k), t)
        return Unk("loop-carried value")

    def carried(self, v, fresh):
        for a in val_atoms(v):
            n = ATOMS[a].name
            if n.startswith("?" + fresh) or n.startswith("@?" + fresh):
                return True
        return False

    def seq_et(self, v):
        if isinstance(v, SBase):
            return v.et
        for x in ("prev", "a", "s"):
            if hasattr(v, x):
                t = self.seq_et(getattr(v, x))
                if t is not None:
                    return t
        if isinstance(v, (SFill, SStore, SMap, SResize)):
            x = v.body if isinstance(v, SMap) else v.v
            return self.type_of(x)
        return None

    def type_of(self, x):
        if isinstance(x, (Rat, Ite)) and isinstance(leaf0(x), Rat):
            for i, t in enumerate(self.P.types):
                if t["s"] == "double":
                    return i
        if isinstance(x, Obj):
            for i, t in enumerate(self.P.types):
                if t["s"] == x.cls or t["s"] == x.cls.replace("cmmcore::", ""):
                    return i
            if x.cls == "array":
                return None
        if isinstance(x, Seq):
            et = self.seq_et(x)
            if et is not None:
                for i, t in enumerate(self.P.types):
                    if t.get("tmpl", "").replace("std::__1::", "std::") == "std::vector" and t.get("targs", [None])[0] == et and \
                            "ref" not in t and not t.get("const"):
                        return i
        if isinstance(x, Unk) and x.why == "uninitialised":
            for i, t in enumerate(self.P.types):
                if t["s"] == "double":
                    return i
        return None

    def close_seq(self, v0, v, w, sub, ia, lo, hi, fresh):
        """sequence after the loop from the writes of one iteration"""
        stores = []
        x = w
        while isinstance(x, SStore):
            stores.append((x.i, x.v))
            x = x.prev
        if x is not v or len(stores) == 0:
            if isinstance(x, (SMap, SIte)) or stores == []:
                return Unk("loop writes a range of a sequence")
            return Unk("loop rewrites a sequence")
        stores.reverse()
        iv = Rat({((ia, 1),): Fraction(1)})
        cur = v0
        size = v0.size
        asz = next(iter(v.size.atoms()))
        if isinstance(w.size, Rat) and (w.size - v.size).const() is not None:
            size = lift(lambda s: s + (hi - lo) * (w.size - v.size).const(), v0.size)
        else:
            return Unk("loop changes a size irregularly")
        one = len(stores) == 1
        res = v0
        seen = []
        cells = []
        for (i, val) in stores:
            i2 = gsubst(i, sub) if sub else i
            if not isinstance(i2, Rat) or self.carried(i2, fresh):
                return Unk("loop writes at an irregular index")
            off = i2 - iv
            if ia in off.deep_atoms():
                if ia in i2.deep_atoms():
                    return Unk("loop writes at an irregular index")
                # fixed cell: accumulation (cells are distinct: equal indices were merged, others must differ)
                for (j, _) in cells:
                    if not isinstance((i2 - j).const(), Fraction) or (i2 - j).const() == 0:
                        return Unk("loop writes cells that may coincide")
                r = self.cell(v0, v, i2, val, sub, ia, lo, hi, fresh)
                cells.append((i2, r))
                continue
            # element off+iv: value may read the carry at the same index only (its previous content)
            val2 = vsubst(val, sub) if sub else val
            val3 = self.unprev(val2, v, v0, i2, fresh, iv)
            if isinstance(val3, Unk):
                return val3
            seen.append((off, val3))
        for (off, val3) in seen:
            # body as function of the element index e = iv + off
            e = alg.sym("$ix%d" % len(alg.SYM), True)
            ea = next(iter(e.atoms()))
            b = vsubst(val3, {ia: e - off})
            res = SMap(res, ea, lo + off, hi + off, b, size)
        for (i, r) in cells:
            if seen:
                return Unk("loop writes cells and elements")
            res = SStore(res, i, r)
        return res

    def cell(self, v0, v, i2, val, sub, ia, lo, hi, fresh):
        old = v.get(i2)
        val2 = vsubst(val, sub) if sub else val

        def go(o, w, o0):
            if isinstance(o, Obj) and isinstance(w, Obj):
                return Obj(o.cls, {k: go(o.f[k], w.f[k], o0.f[k]) for k in o.f})
            if isinstance(o, Rat) and isinstance(w, (Rat, Ite)):
                d = lift(lambda x: x - o, w)
                if not self.carried(d, fresh):
                    return lift(lambda x, y: x + y, self.num(o0), mk_sum(lo, hi, ia, d))
                if not self.carried(w, fresh):
                    return vite(lti(lo, hi), gsubst(w, {ia: hi - 1}), o0)
            return Unk("accumulation")
        return go(old, val2, v0.get(i2))

    def unprev(self, val, v, v0, i, fresh, iv):
        """replace reads of the carried sequence at the index being written by its value before the loop"""
        if not self.carried_deep(val, fresh):
            return val
        mp = {}

        def walkv(x):
            for a in val_atoms(x):
                n = ATOMS[a].name
                if n.startswith("@?" + fresh):
                    yield a

        def fix(x):
            if isinstance(x, Obj):
                return Obj(x.cls, {k: fix(y) for k, y in x.f.items()})
            if isinstance(x, Seq):
                if isinstance(x, SStore) or isinstance(x, SMap):
                    b = fix(x.prev)
                    if isinstance(b, Unk):
                        return b
                    if isinstance(x, SStore):
                        vv = fix(x.v)
                        return vv if isinstance(vv, Unk) else SStore(b, x.i, vv, x.size)
                    vv = fix(x.body)
                    return vv if isinstance(vv, Unk) else SMap(b, x.iv, x.lo, x.hi, vv, x.size)
                if isinstance(x, SBase) and x.name.startswith("?" + fresh):
                    if len(x.pre) == 1 and isinstance(x.pre[0], Rat) and x.pre[0] == i:
                        return v0.get(i)
                    return Unk("reads other elements of the sequence being written")
                if isinstance(x, SSub):
                    return Unk("nested sequence")
                return x
            for a in set(walkv(x)):
                at = ATOMS[a]
                if not (at.args and isinstance(at.args[0], Rat) and at.args[0] == i):
                    return Unk("reads other elements of the sequence being written")
                # value of the same cell before the loop
                o = v0.get(i)
                path = at.name[1:]
                base = v.name
                rest = path[len(base):]
                r = o
                if rest.startswith("[]"):
                    rest2 = at.args[1:]
                    r = o
                    for j in rest2:
                        r = self.elem(r, j)
                else:
                    for f in [y for y in rest.split(".") if y]:
                        r = self.elem(r, f)
                if not isinstance(r, Rat):
                    return Unk("previous content")
                mp[a] = r
            return gsubst_atoms(x, mp)
        return fix(val)

    def carried_deep(self, v, fresh):
        if isinstance(v, Obj):
            return any(self.carried_deep(x, fresh) for x in v.f.values())
        if isinstance(v, Seq):
            return True
        return self.carried(v, fresh)

    def give_loop(self, s, fr, why):
        """a loop the analysis cannot summarise: forget everything it may change"""
        why = "%s at line %s" % (why, s.get("l"))
        for n in walk(s):
            if n.get("k") in ("ret", "throw"):
                raise GiveUp(why + " with exits")
        for n in walk(s):
            if n.get("k") == "ref" and n.get("d") in fr.env:
                l = fr.env[n["d"]]
                if isinstance(l, Loc) and l.root in fr.store and not self.P.ty(n["t"]).get("const"):
                    v = self.read(l, fr.store)
                    if isinstance(v, Ptr):
                        self.havoc(v.loc, fr.store, why)
                    self.havoc(l, fr.store, why)
            elif n.get("k") == "this" and fr.this is not None:
                self.havoc(fr.this, fr.store, why)
        return {"next": (T, fr.store, None)}


def gsubst_atoms(v, mp):
    return gsubst(v, mp) if mp else v


def decide_quiet(a, b):
    try:
        return decide_equal(a, b, limit=200) is None
    except Undecided:
        return False


def leaf0(v):
    while isinstance(v, Ite):
        v = v.a
    return v


def tocond_v(v):
    c = tocond(v)
    return c if c is not None else v


def _e_call(self, e, fr):
    r = self.call(e, fr)
    if isinstance(r, Loc) or isinstance(r, Ite) and self.has_loc(r):
        if self.P.under(e["t"]).get("c") == "ptr" and not e.get("lv"):
            return r
        return self.read(r, fr.store)
    return r


Machine.e_call = _e_call


class Frame:
    def __init__(self, m, this, env, store):
        self.m, self.this, self.env, self.store = m, this, env, store
        self.pend = []
        self.fn = "?"
        self.rref = False
        self.rt = None


def okcond(v):
    c = tocond(v)
    return c if c is not None else Cond("op", "?event")


class Summary:
    """symbolic inputs of a function and the normal forms of its results"""
    def __init__(self):
        self.args, self.this0, self.ret, self.out, self.this1, self.throws, self.why = [], None, None, [], None, F, None
        self.events = {}


def summarize(P, f, opaque=(), alias=(), unroll=40, prep=None):
    """value-number one function.  alias: list of (param index, param index or 'this') sharing one object"""
    M = Machine(P, opaque, unroll)
    S = Summary()
    S.m = M
    store = {}
    env = {}
    this = None
    try:
        if f.get("cls") and not f.get("mstatic"):
            rec = f["clsid"]
            if f.get("ctor"):
                obj = Obj(f["cls"], {x["n"]: M.uninit(x["vt"]) for x in M.rec_fields(rec)})
            else:
                obj = Obj(f["cls"], {x["n"]: M.element(x["vt"], "this." + x["n"], ()) for x in M.rec_fields(rec)})
            this = M.new_root(obj, store, "this")
            S.this0 = obj
        for i, p in enumerate(f["params"]):
            t = P.under(p["vt"])
            if t.get("c") == "ptr":
                et = P.ty(t["u"])
                s = SBase(M, "p%d[]" % i, t["u"], alg.sym("p%d.size" % i, True))
                r = M.new_root(s, store, "arr%d" % i)
                env[p["d"]] = M.new_root(Ptr(r, Rat.of(0)), store, p["n"] or "p")
                S.args.append((s, r))
                continue
            v = M.element(p["vt"], "p%d" % i, ())
            l = None
            for (a, b) in alias:
                if a == i:
                    l = this if b == "this" else S.args[b][1]
                    v = store[l.root]
            if l is None:
                l = M.new_root(v, store, "p%d" % i)
            env[p["d"]] = l
            S.args.append((v, l))
        fr = Frame(M, this, env, store)
        if prep is not None:
            prep(M, fr, S)
        o = M.body(f, fr)
        g = o.get("thr", (F,))[0]
        S.throws = g
        ret = o.get("ret")
        nxt = o.get("next")
        if ret is not None and nxt is not None:
            st = merge_store(ret[0], ret[1], nxt[1])
        elif ret is not None or nxt is not None:
            st = (ret or nxt)[1]
        else:
            st = store
        val = ret[2] if ret is not None else None
        if isinstance(val, Loc) or isinstance(val, Ite) and M.has_loc(val):
            S.retloc = val
            val = M.read(val, st)
        S.ret = val
        S.store = st
        S.events = {k[4:]: c if isinstance(c, Cond) else okcond(c) for k, c in st.items() if k.startswith("$ev:")}
        S.out = [M.read(l, st) for _, l in S.args]
        S.this1 = M.read(this, st) if this is not None else None
    except (GiveUp, TooBig, RecursionError, Undecided) as e:
        S.why = str(e) or type(e).__name__
    return S
