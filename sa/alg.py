"""Algebraic normal forms: multivariate rational functions over interned atoms, conditions, decision trees.
Used as the value domain of the value-numbering analysis (sa/vn.py)."""
import math
from fractions import Fraction

BIG = 6000


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "name", "fn", "args", "int")

    def __init__(self, id, name, fn=None, args=(), isint=False):
        self.id, self.name, self.fn, self.args, self.int = id, name, fn, args, isint

    def __repr__(self):
        return self.name if self.fn is None else "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))


ATOMS = []
SYM = {}
APPS = {}


def reset():
    del ATOMS[:]
    SYM.clear()
    APPS.clear()
    del FACTS[:]
    del RIDS[:]
    RKEYS.clear()
    del RHARD[:]


def sym(name, isint=False):
    if name not in SYM:
        a = Atom(len(ATOMS), name, isint=isint)
        ATOMS.append(a)
        SYM[name] = a
    return Rat({((SYM[name].id, 1),): Fraction(1)}, ONE_P)


def same(a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a == b
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key() == b.key()
    return type(a) == type(b) and a == b


def app(fn, *args):
    """interned application of an uninterpreted function"""
    for a in APPS.get((fn, len(args)), ()):
        if all(same(x, y) for x, y in zip(a.args, args)):
            return Rat({((a.id, 1),): Fraction(1)}, ONE_P)
    a = Atom(len(ATOMS), fn, fn, tuple(args))
    ATOMS.append(a)
    APPS.setdefault((fn, len(args)), []).append(a)
    return Rat({((a.id, 1),): Fraction(1)}, ONE_P)


ONE_P = {(): Fraction(1)}


# ------------------------------------------------------------------ polynomials
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > BIG * 20:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > BIG:
        raise TooBig()
    return r


def ppow(p, n):
    r = ONE_P
    for _ in range(n):
        r = pmul(r, p)
    return r


def reduce_sqrt(r):
    """sqrt(e)^2 -> e ; abs(e)^2 -> e^2"""
    for _ in range(8):
        hit = None
        for part in (r.n, r.d):
            for m in part:
                for a, e in m:
                    if e >= 2 and ATOMS[a].fn in ("sqrt", "abs"):
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is not None:
                break
        if hit is None:
            return r
        at = ATOMS[hit]
        sq = at.args[0] if at.fn == "sqrt" else at.args[0] * at.args[0]

        def sub(p):
            out = Rat({}, ONE_P)
            for m, c in p.items():
                k = dict(m).get(hit, 0)
                rest = tuple((a, e) for a, e in m if a != hit)
                if k % 2:
                    rest = tuple(sorted(rest + ((hit, 1),)))
                t = Rat({rest: c}, ONE_P, True)
                for _ in range(k // 2):
                    t = Rat(pmul(t.n, sq.n), pmul(t.d, sq.d), True)
                out = Rat(padd(pmul(out.n, t.d), pmul(t.n, out.d)), pmul(out.d, t.d), True)
            return out
        a, b = sub(r.n), sub(r.d)
        r = Rat(pmul(a.n, b.d), pmul(a.d, b.n), True)
    return r


def content(p):
    """monomial gcd"""
    it = iter(p)
    m = next(it, None)
    if m is None:
        return ()
    g = dict(m)
    for n in it:
        d = dict(n)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g:
            return ()
    return tuple(sorted(g.items()))


def mdiv(m, g):
    d = dict(m)
    for a, e in g:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE_P, raw=False):
        if not n:
            self.n, self.d = {}, ONE_P
            return
        # cancel common monomial and normalise constant
        if len(d) == 1 and not raw or len(d) > 1:
            g1, g2 = content(n), content(d)
            if g1 and g2:
                g2d = dict(g2)
                g = tuple(sorted((a, min(e, g2d[a])) for a, e in g1 if a in g2d))
                if g:
                    n = {mdiv(m, g): c for m, c in n.items()}
                    d = {mdiv(m, g): c for m, c in d.items()}
        lead = d[min(d)] if len(d) else Fraction(1)
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if n == d:
            n, d = ONE_P, ONE_P
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        if isinstance(x, Rat):
            return x
        f = Fraction(x)
        return Rat({(): f} if f else {}, ONE_P)

    def const(self):
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and () in self.n and self.d == ONE_P:
            return self.n[()]
        return None

    def __add__(s, o):
        o = Rat.of(o)
        if s.d == o.d:
            return reduce_sqrt(Rat(padd(s.n, o.n), s.d))
        return reduce_sqrt(Rat(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d)))
    __radd__ = __add__

    def __neg__(s):
        return Rat({m: -c for m, c in s.n.items()}, s.d)

    def __sub__(s, o):
        return s + (-Rat.of(o))

    def __rsub__(s, o):
        return Rat.of(o) - s

    def __mul__(s, o):
        o = Rat.of(o)
        return reduce_sqrt(Rat(pmul(s.n, o.n), pmul(s.d, o.d)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = Rat.of(o)
        if not o.n:
            return app("div0", s)
        return reduce_sqrt(Rat(pmul(s.n, o.d), pmul(s.d, o.n)))

    def __rtruediv__(s, o):
        return Rat.of(o) / s

    def __pow__(s, k):
        r = Rat.of(1)
        for _ in range(k):
            r = r * s
        return r

    def __eq__(s, o):
        if not isinstance(o, Rat):
            if isinstance(o, (int, Fraction)):
                o = Rat.of(o)
            else:
                return False
        if s.n == o.n and s.d == o.d:
            return True
        if s.d == o.d:
            return False if not _hassq(s) and not _hassq(o) else zero(s - o)
        return zero(s - o)

    __hash__ = None

    def __repr__(s):
        def ps(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
                t = "*".join(repr(ATOMS[a]) + ("^%d" % e if e > 1 else "") for a, e in m)
                if t:
                    out.append(t if c == 1 else "-" + t if c == -1 else "%s*%s" % (c, t))
                else:
                    out.append(str(c))
            return " + ".join(out[:12]) + (" ..." if len(out) > 12 else "")
        return ps(s.n) if s.d == ONE_P else "(%s)/(%s)" % (ps(s.n), ps(s.d))

    def atoms(s):
        return {a for p in (s.n, s.d) for m in p for a, _ in m}

    def deep_atoms(s):
        out, st = set(), list(s.atoms())
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            for x in ATOMS[a].args:
                if isinstance(x, Rat):
                    st.extend(x.atoms())
                elif isinstance(x, Cond):
                    st.extend(x.atoms())
        return out


def _hassq(r):
    return any(ATOMS[a].fn in ("sqrt", "abs") for a in r.atoms())


def zero(r):
    return not r.n


# ------------------------------------------------------------------ conditions
class Cond:
    """t: 'T','F','lt','le','eq' (r vs 0), 'not','and','or','op' (opaque atom)"""
    __slots__ = ("t", "a", "_k", "_n")

    def __init__(self, t, *a):
        self.t, self.a = t, a
        self._k = self._n = None

    def key(self):
        if self._k is None:
            if self.t in ("T", "F"):
                self._k = self.t
            elif self.t in ("lt", "le", "eq"):
                self._k = (self.t, rid(self.a[0]))
            elif self.t == "op":
                self._k = ("op", self.a[0])
            else:
                self._k = (self.t,) + tuple(x.key() for x in self.a)
        return self._k

    def atoms(self):
        out = set()
        for x in self.a:
            if isinstance(x, (Rat, Cond)):
                out |= x.atoms()
        return out

    def __repr__(self):
        if self.t in ("T", "F"):
            return self.t
        if self.t == "lt":
            return "%r < 0" % self.a[0]
        if self.t == "le":
            return "%r <= 0" % self.a[0]
        if self.t == "eq":
            return "%r == 0" % self.a[0]
        if self.t == "not":
            return "!(%r)" % self.a[0]
        if self.t == "op":
            return str(self.a[0])
        return "(" + (" && " if self.t == "and" else " || ").join(map(repr, self.a)) + ")"


RIDS = []


RKEYS, RHARD = {}, []       # identifiers by exact form; identifiers of the forms that may be equal without being identical


def rid(r):
    k = (frozenset(r.n.items()), frozenset(r.d.items()) if r.d != ONE_P else None)
    i = RKEYS.get(k)
    if i is not None:
        return i
    hard = r.d != ONE_P or _hassq(r)
    for i in (range(len(RIDS)) if hard else RHARD):
        if RIDS[i] == r:
            RKEYS[k] = i
            return i
    RIDS.append(r)
    i = RKEYS[k] = len(RIDS) - 1
    if hard:
        RHARD.append(i)
    return i


T, F = Cond("T"), Cond("F")


def posnorm(r):
    """scale by a positive constant so that the first coefficient has absolute value 1"""
    if not r.n:
        return r
    c = abs(r.n[min(r.n)])
    if c != 1:
        return Rat({m: v / c for m, v in r.n.items()}, r.d)
    return r


def csign(r):
    """sign of an expression in square roots of constants (rational enclosure), or None"""
    if not r.n or len(r.n) > 40:
        return None
    ids = r.atoms()
    if not ids or any(ATOMS[a].fn != "sqrt" for a in ids):
        return None
    lo_hi = {}
    for a in ids:
        x = ATOMS[a].args[0]
        c = x.const() if isinstance(x, Rat) else None
        if c is None or c < 0:
            return None
        k = 1 << 200
        v = math.isqrt(c.numerator * k * k // c.denominator)
        lo_hi[a] = (Fraction(v, k), Fraction(v + 1, k))

    def rng(p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            l = h = Fraction(1)
            for a, e in m:
                l, h = l * lo_hi[a][0] ** e, h * lo_hi[a][1] ** e
            if c < 0:
                l, h = h, l
            lo, hi = lo + c * l, hi + c * h
        return lo, hi
    s = 1
    for p in (r.n, r.d):
        lo, hi = rng(p)
        if lo > 0:
            pass
        elif hi < 0:
            s = -s
        else:
            return None
    return s


def known_sign(r):
    """a number with the sign of a compared quantity, when it is known"""
    c = r.const()
    return c if c is not None else csign(r)


def lt(a, b):
    r = posnorm(Rat.of(a) - Rat.of(b))
    c = known_sign(r)
    if c is not None:
        return T if c < 0 else F
    return Cond("lt", r)


def le(a, b):
    r = posnorm(Rat.of(a) - Rat.of(b))
    c = known_sign(r)
    if c is not None:
        return T if c <= 0 else F
    return Cond("le", r)


def eq(a, b):
    r = posnorm(Rat.of(a) - Rat.of(b))
    c = known_sign(r)
    if c is not None:
        return T if c == 0 else F
    if r.n[min(r.n)] < 0:
        r = -r
    return Cond("eq", r)


def Not(c):
    if c.t == "T":
        return F
    if c.t == "F":
        return T
    if c._n is None:
        if c.t == "not":
            return c.a[0]
        if c.t == "lt":
            n = Cond("le", -c.a[0])
        elif c.t == "le":
            n = Cond("lt", -c.a[0])
        elif c.t == "and":
            n = Or(*[Not(x) for x in c.a])
        elif c.t == "or":
            n = And(*[Not(x) for x in c.a])
        else:
            n = Cond("not", c)
        c._n = n
    return c._n


def _join(cs, op, unit, top):
    out, keys = [], set()
    for c in cs:
        if c.t == top.t:
            return top
        if c.t == unit.t:
            continue
        for x in (c.a if c.t == op else (c,)):
            k = x.key()
            if k in keys:
                continue
            if x.t not in ("and", "or") and Not(x).key() in keys:
                return top
            keys.add(k)
            out.append(x)
    if not out:
        return unit
    return out[0] if len(out) == 1 else Cond(op, *out)


def And(*cs):
    return _join(cs, "and", T, F)


def Or(*cs):
    return _join(cs, "or", F, T)


class Ite:
    """decision node over values (Rat / Cond / BOT)"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "ite(%r, %r, %r)" % (self.c, self.a, self.b)


class Bot:
    def __repr__(self):
        return "<none>"


BOT = Bot()


class Unk:
    """value the analysis cannot express"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<unknown: %s>" % self.why


def vsame(a, b):
    if a is b:
        return True
    if isinstance(a, Ite) and isinstance(b, Ite):
        return a.c.key() == b.c.key() and vsame(a.a, b.a) and vsame(a.b, b.b)
    if isinstance(a, (Ite, Unk)) or isinstance(b, (Ite, Unk)):
        return False
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key() == b.key()
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a == b
    return a == b


def ite(c, a, b):
    if c.t == "T":
        return a
    if c.t == "F":
        return b
    if a is BOT:
        return b
    if b is BOT:
        return a
    if vsame(a, b):
        return a
    return Ite(c, a, b)


def restrict(v, key, val):
    """simplify a decision tree knowing the truth value of one condition"""
    if isinstance(v, Ite):
        if v.c.key() == key:
            return restrict(v.a if val else v.b, key, val)
        a, b = restrict(v.a, key, val), restrict(v.b, key, val)
        return v if a is v.a and b is v.b else ite(v.c, a, b)
    return v


def lift(fn, *vs):
    """apply fn to leaf values under decision nodes"""
    for v in vs:
        if isinstance(v, Unk):
            return v
        if v is BOT:
            return v
    for v in vs:
        if isinstance(v, Ite):
            k = v.c.key()
            l = lift(fn, *[restrict(x, k, True) for x in vs])
            r = lift(fn, *[restrict(x, k, False) for x in vs])
            return ite(v.c, l, r)
    return fn(*vs)


def cite(c, a, b):
    """decision between conditions, as a condition"""
    return Or(And(c, a), And(Not(c), b))


def tocond(v):
    """condition denoted by a (possibly gated) truth value; None when unknown"""
    if isinstance(v, Cond):
        return v
    if isinstance(v, Ite):
        a, b = tocond(v.a), tocond(v.b)
        if a is None or b is None:
            return None
        return cite(v.c, a, b)
    if isinstance(v, Rat):
        return Not(eq(v, 0))
    return None


def has_unk(v):
    if isinstance(v, Unk):
        return v
    if isinstance(v, Ite):
        return has_unk(v.a) or has_unk(v.b)
    return None


# ------------------------------------------------------------------ deciding equality of decision trees
def subst(r, atom, val):
    def sp(p):
        out = Rat.of(0)
        for m, c in p.items():
            k = dict(m).get(atom, 0)
            rest = tuple((a, e) for a, e in m if a != atom)
            out = out + Rat({rest: c}) * (val ** k)
        return out
    return sp(r.n) / sp(r.d)


def deep_subst(v, mp):
    """replace symbols (atom id -> Rat) everywhere, inside applications and conditions too"""
    memo = {}

    def atom(a):
        if a in memo:
            return memo[a]
        at = ATOMS[a]
        if a in mp:
            r = mp[a]
        elif at.fn is None:
            r = Rat({((a, 1),): Fraction(1)}, ONE_P)
        else:
            args = [go(x) for x in at.args]
            if any(isinstance(x, (Ite, Unk)) for x in args):
                r = lift(lambda *xs: rebuild(at.fn, xs), *args)
            elif all(same(x, y) for x, y in zip(args, at.args)):
                r = Rat({((a, 1),): Fraction(1)}, ONE_P)
            else:
                r = rebuild(at.fn, args)
        memo[a] = r
        return r

    def poly(p):
        out = Rat.of(0)
        for m, c in p.items():
            t = Rat.of(c)
            for a, e in m:
                x = atom(a)
                for _ in range(e):
                    t = lift(lambda u, w: u * w, t, x)
            out = lift(lambda u, w: u + w, out, t)
        return out

    def touched(r):
        return any(a in mp or ATOMS[a].fn is not None for a in r.atoms())

    def go(x):
        if isinstance(x, Rat):
            if not touched(x):
                return x
            n = poly(x.n)
            if x.d == ONE_P:
                return n
            return lift(lambda u, w: u / w, n, poly(x.d))
        if isinstance(x, Cond):
            if x.t in ("T", "F", "op"):
                return x
            if x.t in ("lt", "le", "eq"):
                f = {"lt": lt, "le": le, "eq": eq}[x.t]
                r = go(x.a[0])
                c = tocond(lift(lambda u: f(u, 0), r))
                return c if c is not None else Cond("op", "?%r" % x)
            cs = [go(y) for y in x.a]
            return Not(cs[0]) if x.t == "not" else And(*cs) if x.t == "and" else Or(*cs)
        if isinstance(x, Ite):
            return ite(go(x.c), go(x.a), go(x.b))
        return x
    return go(v)


REBUILD = {}


def rebuild(fn, args):
    if fn in REBUILD:
        return REBUILD[fn](*args)
    return app(fn, *args)


def zero_mod(r, zeros):
    """r == 0 given that every quantity in zeros is 0 (sufficient test by linear elimination)"""
    zs = list(zeros)
    for _ in range(len(zs) + 1):
        if zero(r):
            return True
        if not zs:
            return False
        z = zs.pop()
        cands = {}
        for m in z.n:
            for a, e in m:
                cands[a] = max(cands.get(a, 0), e)
        for a, e in sorted(cands.items(), key=lambda x: (ATOMS[x[0]].fn is not None, x[0])):
            if e != 1:
                continue
            co, rest = {}, {}
            for m, c in z.n.items():
                if dict(m).get(a):
                    co[mdiv(m, ((a, 1),))] = c
                else:
                    rest[m] = c
            val = -(Rat(rest) / Rat(co))
            try:
                r2 = deep_subst(r, {a: val})
                zs2 = [deep_subst(x, {a: val}) for x in zs]
            except TooBig:
                continue
            if not isinstance(r2, Rat) or not all(isinstance(x, Rat) for x in zs2):
                continue
            r, zs = r2, zs2
            break
    return zero(r)


class Alt:
    """specification leaf: any of several values is acceptable"""
    def __init__(self, *vs):
        self.vs = vs

    def __repr__(self):
        return " or ".join(map(repr, self.vs))


class Any:
    def __repr__(self):
        return "<any>"


ANY = Any()


class Undecided(Exception):
    pass


class _Need(Exception):
    def __init__(self, what):
        self.what = what


class Case:
    """sign assignment of the tested quantities, kept feasible over the reals/integers"""
    def __init__(self):
        self.rs, self.sg, self.ops = [], [], {}

    def sign(self, r):
        c = r.const()
        if c is not None:
            return (c > 0) - (c < 0)
        for x, s in zip(self.rs, self.sg):
            if x == r:
                return s
            if x == -r:
                return -s
        raise _Need(r)

    def cond(self, c):
        if c.t == "T":
            return True
        if c.t == "F":
            return False
        if c.t == "op":
            if c.a[0] not in self.ops:
                raise _Need(c.a[0])
            return self.ops[c.a[0]]
        if c.t == "not":
            return not self.cond(c.a[0])
        if c.t == "and":
            return all(self.cond(x) for x in c.a)
        if c.t == "or":
            return any(self.cond(x) for x in c.a)
        v = self.sign(c.a[0])
        return v < 0 if c.t == "lt" else v <= 0 if c.t == "le" else v == 0

    def pick(self, v):
        while isinstance(v, Ite):
            v = v.a if self.cond(v.c) else v.b
        if isinstance(v, Cond):
            return self.cond(v)
        return v

    def show(self):
        cs = ["%r %s 0" % (r, {-1: "<", 0: "=", 1: ">"}[s]) for r, s in zip(self.rs, self.sg)]
        cs += ["%s%s" % ("" if v else "!", k) for k, v in self.ops.items()]
        return ", ".join(cs)[:400]


LAST = []       # the differing case found last


def decide_equal(v, s, assume=(), limit=20000):
    """None if v and s denote the same value for every input satisfying the assumed conditions, else a
    description of the differing case; raises Undecided when v contains something the analysis cannot express"""
    n = [0]

    def match(a, b, zs):
        if isinstance(b, Any):
            return True
        if isinstance(b, Alt):
            return any(match(a, x, zs) for x in b.vs)
        if isinstance(a, Unk):
            raise Undecided(a.why)
        if isinstance(b, Unk):
            raise Undecided(b.why)
        if isinstance(a, Rat) and isinstance(b, Rat):
            if a == b:
                return True
            u = unknown_atoms(a)
            if zs and zero_mod(a - b, zs):
                return True
            if u:
                raise Undecided("depends on " + u)
            return False
        if isinstance(a, Rat) and isinstance(b, bool):
            if a.const() is None:
                raise Undecided("truth of a number")
            return bool(a.const()) == b
        return type(a) == type(b) and a == b

    def go(case):
        n[0] += 1
        if n[0] > limit:
            raise Undecided("more than %d cases" % limit)
        try:
            for c in assume:
                if not case.cond(c):
                    return None
            b = case.pick(s)
            if isinstance(b, Any):
                return None
            if isinstance(b, Alt):
                b = Alt(*[case.pick(x) for x in b.vs])
            a = case.pick(v)
        except _Need as e:
            if isinstance(e.what, str):
                for val in (True, False):
                    case.ops[e.what] = val
                    d = go(case)
                    del case.ops[e.what]
                    if d:
                        return d
                return None
            for sg in (-1, 1, 0):
                case.rs.append(e.what)
                case.sg.append(sg)
                d = go(case) if feasible(case.rs, case.sg) else None
                case.rs.pop()
                case.sg.pop()
                if d:
                    return d
            return None
        zs = [r for r, x in zip(case.rs, case.sg) if x == 0]
        if match(a, b, zs):
            return None
        if any(k.startswith("?") for k in case.ops):
            raise Undecided("opaque condition")
        w = case.show()
        LAST[:] = [list(case.rs), list(case.sg), dict(case.ops)]
        return "computes %s where %s is required%s" % (str(a)[:300], str(b)[:300], " when " + w if w else "")
    return go(Case())


def unknown_atoms(r):
    for a in r.deep_atoms():
        if ATOMS[a].name.startswith("?") or (ATOMS[a].fn or "").startswith("?"):
            return ATOMS[a].name
    return None


# ------------------------------------------------------------------ feasibility of sign patterns (Fourier-Motzkin on monomials)
def intpoly(p):
    return all(c.denominator == 1 and all(ATOMS[a].int for a, _ in m) for m, c in p.items())


def lin(r):
    if r.d == ONE_P:
        return r.n
    return None


def feasible(rs, sg):
    """False only if no assignment of the monomials satisfies the signs (sound over-approximation of reality)"""
    return feas([(r, {-1: "<", 0: "=", 1: ">"}[s]) for r, s in zip(rs, sg)])


def feas(items):
    cons = []      # (poly, strict): poly < 0 / <= 0
    mons = set()
    for r, rel in items:
        p = lin(r)
        if p is None:
            # a quotient: an atom of its own, except that a sum of squares keeps its sign
            if _nnp(r.d):
                p = r.n
            else:
                continue
        neg = {m: -c for m, c in p.items()}
        if rel == "=":
            cons.append((p, False))
            cons.append((neg, False))
        else:
            q = p if rel[0] == "<" else neg
            if len(rel) == 2:
                cons.append((q, False))
            elif intpoly(q):
                cons.append((padd(q, ONE_P), False))
            else:
                cons.append((q, True))
        mons |= set(p)
    mons.discard(())
    for m in mons:
        if all(e % 2 == 0 or ATOMS[a].fn in ("sqrt", "abs", "exp") or ATOMS[a].name.endswith(".size")
               for a, e in m):
            cons.append(({m: Fraction(-1)}, False))
    # independent groups of constraints
    up = {}

    def find(x):
        while up.setdefault(x, x) != x:
            up[x] = up[up[x]]
            x = up[x]
        return x
    for p, st in cons:
        ms = [m for m in p if m != ()]
        for m in ms[1:]:
            a, b = find(ms[0]), find(m)
            if a != b:
                up[a] = b
    groups = {}
    for p, st in cons:
        m = next((m for m in p if m != ()), None)
        groups.setdefault(find(m) if m is not None else None, []).append((p, st))
    return all(feas_group(g) for g in groups.values())


def feas_group(cons):
    mons = set()
    for p, st in cons:
        mons |= set(p)
    mons.discard(())
    for m in sorted(mons, key=lambda m: sum(1 for p, st in cons if m in p)):
        pos, neg, rest = [], [], []
        for p, st in cons:
            c = p.get(m)
            (rest if not c else pos if c > 0 else neg).append((p, st))
        if len(pos) * len(neg) > 400:
            return True
        for p, st in pos:
            for q, su in neg:
                a, b = p[m], -q[m]
                r = padd({k: v / a for k, v in p.items()}, {k: v / b for k, v in q.items()})
                rest.append((r, st or su))
        cons = rest
        for p, st in cons:
            if not p or (len(p) == 1 and () in p):
                v = p.get((), 0)
                if v > 0 or (st and v >= 0):
                    return False
    for p, st in cons:
        v = p.get((), 0)
        if v > 0 or (st and v >= 0):
            return False
    return True


FACTS = []       # (Rat, relation): facts about bound variables in scope


def known(c):
    """truth value of a condition under the facts in scope: T, F or the condition itself"""
    if not FACTS or c.t in ("T", "F", "op"):
        return c
    if c.t in ("lt", "le", "eq"):
        r = c.a[0]
        ids = set()
        for f, _ in FACTS:
            ids |= f.atoms()
        if not (r.atoms() & ids):
            return c
        rel = {"lt": ("<", ">="), "le": ("<=", ">"), "eq": ("=", None)}[c.t]
        if rel[1] is None:
            if not feas(FACTS + [(r, "=")]):
                return F
            return c
        if not feas(FACTS + [(r, rel[1])]):
            return T
        if not feas(FACTS + [(r, rel[0])]):
            return F
        return c
    if c.t == "not":
        x = known(c.a[0])
        return c if x is c.a[0] else Not(x)
    cs = [known(x) for x in c.a]
    if all(x is y for x, y in zip(cs, c.a)):
        return c
    return And(*cs) if c.t == "and" else Or(*cs)


def simplify(v):
    """resolve decisions settled by the facts in scope"""
    if isinstance(v, Ite):
        c = known(v.c)
        if c.t == "T":
            return simplify(v.a)
        if c.t == "F":
            return simplify(v.b)
        a, b = simplify(v.a), simplify(v.b)
        return v if c is v.c and a is v.a and b is v.b else ite(c, a, b)
    if isinstance(v, Cond):
        return known(v)
    return v


def _nnp(p):
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and ATOMS[a].fn not in ("sqrt", "abs", "exp"):
                return False
    return True
