"""Refutation filter for normal forms: two formulas extracted from the source are reported as different only when
some assignment of their symbols makes them differ.  Evaluates formulas (never library code)."""
import math, random, struct, zlib
from fractions import Fraction
import alg
from alg import Rat, Cond, Ite, ATOMS, BOT, Unk, Any, Alt


class Skip(Exception):
    pass


class Hard(Exception):
    pass


class Env:
    def __init__(self, seed, mode):
        self.rnd = random.Random(seed)
        self.seed, self.mode = seed, mode
        self.v = {}
        self.ops = {}
        self.bound = {}
        self.memo = {}

    def real(self, r):
        m = self.mode
        if m == 0:
            return r.uniform(-2, 2)
        if m == 1:
            return float(r.randint(-3, 3))
        if m == 2:
            return r.uniform(0.05, 3)
        return r.choice([r.uniform(-5, 5), float(r.randint(-2, 2)), r.choice([0.0, 1.0]), 10.0 ** r.uniform(-13, 1)])

    def sym(self, a):
        if a.id not in self.v:
            n = a.name
            if n.startswith("?"):
                raise Hard(n)
            if a.int:
                self.v[a.id] = self.rnd.randint(1, 5) if n.endswith("size") else self.rnd.randint(-7 if n.startswith("~") else 0, 5)
            else:
                self.v[a.id] = self.real(self.rnd)
        return self.v[a.id]

    def op(self, k):
        if k.startswith("?"):
            raise Hard(k)
        if k not in self.ops:
            self.ops[k] = self.rnd.random() < 0.5
        return self.ops[k]


INTY = ("size", "@find_span")


def rat(r, E):
    n, mn = poly(r.n, E)
    if r.d == alg.ONE_P:
        return n, mn
    d, md = poly(r.d, E)
    if d == 0 or abs(d) < 1e-13 * md:
        raise Skip()
    return n / d, mn / abs(d) + abs(n) * md / (d * d) * 1e-3


def poly(p, E):
    ts = []
    for mon, c in p.items():
        t = float(c)
        for a, e in mon:
            t *= atom(a, E) ** e
        ts.append(t)
    return math.fsum(ts), math.fsum(map(abs, ts))


def num(x, E):
    if isinstance(x, Rat):
        return rat(x, E)[0]
    if isinstance(x, Cond):
        return 1.0 if cond(x, E) else 0.0
    if isinstance(x, Ite):
        return num(pick(x, E), E)
    if isinstance(x, (int, float)):
        return x
    raise Hard("value")


def f32r(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def cdiv(x, y):
    q = abs(int(x)) // abs(int(y))
    return q if (x < 0) == (y < 0) else -q


FN = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos,
      "atan": math.atan, "exp": math.exp, "log": math.log, "floor": math.floor, "ceil": math.ceil,
      "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "trunc": math.trunc, "atan2": math.atan2,
      "fmod": math.fmod, "remainder": math.remainder, "copysign": math.copysign, "pow": math.pow,
      "f32": f32r, "pow2": lambda k: 2.0 ** k,
      "idiv": cdiv, "imod": lambda x, y: math.fmod(int(x), int(y)),
      "bit&": lambda x, y: int(x) & int(y), "bit|": lambda x, y: int(x) | int(y), "bit^": lambda x, y: int(x) ^ int(y),
      "bit>>": lambda x, y: int(x) >> int(y), "bit<<": lambda x, y: int(x) << int(y)}


def atom(a, E):
    at = ATOMS[a]
    if at.fn is None:
        if at.name.startswith("$") and at.name[1:].isdigit():
            if at.name not in E.bound:
                raise Hard("free bound variable")
            return E.bound[at.name]
        return E.sym(at)
    fn = at.fn
    if fn == "sum":
        n = num(at.args[0], E)
        k = "$%d" % int(at.args[1].const())
        if n > 60:
            raise Skip()
        old = E.bound.get(k)
        t = 0.0
        for i in range(int(round(n))):
            E.bound[k] = float(i)
            t += num(at.args[2], E)
        if old is None:
            E.bound.pop(k, None)
        else:
            E.bound[k] = old
        return t
    if fn == "any":
        n = num(at.args[0], E)
        k = "$%d" % int(at.args[1].const())
        if n > 60:
            raise Skip()
        old = E.bound.get(k)
        t = 0.0
        for i in range(int(round(n))):
            E.bound[k] = float(i)
            if cond(at.args[2], E):
                t = 1.0
                break
        if old is None:
            E.bound.pop(k, None)
        else:
            E.bound[k] = old
        return t
    if fn.startswith("fold"):
        v = num(at.args[0], E)
        n = num(at.args[1], E)
        k = "$%d" % int(at.args[2].const())
        f = {"foldmin": min, "foldmax": max}.get(fn)
        if f is None:
            raise Hard(fn)
        old = E.bound.get(k)
        for i in range(int(round(n))):
            E.bound[k] = float(i)
            v = f(v, num(at.args[3], E))
        if old is None:
            E.bound.pop(k, None)
        else:
            E.bound[k] = old
        return v
    if fn.startswith("?"):
        raise Hard(fn)
    args = tuple(num(x, E) for x in at.args)
    if fn.startswith("@"):
        key = (fn, tuple(round(x, 9) for x in args))
        if key not in E.memo:
            r = random.Random(zlib.crc32(repr((E.seed, key)).encode()))
            if fn.endswith(".size") or fn.startswith("@find_span") or fn.startswith("@binomial"):
                E.memo[key] = float(r.randint(1, 5))
            else:
                E.memo[key] = E.real(r) if E.mode != 1 else float(r.randint(-3, 3))
        return E.memo[key]
    if fn not in FN:
        raise Hard(fn)
    try:
        return float(FN[fn](*args))
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Skip()


def cond(c, E):
    if c.t == "T":
        return True
    if c.t == "F":
        return False
    if c.t == "op":
        return E.op(c.a[0])
    if c.t == "not":
        return not cond(c.a[0], E)
    if c.t == "and":
        return all(cond(x, E) for x in c.a)
    if c.t == "or":
        return any(cond(x, E) for x in c.a)
    v, m = rat(c.a[0], E)
    if v != 0 and abs(v) < 1e-12 * m:
        raise Skip()        # too close to call in floating point
    return v < 0 if c.t == "lt" else v <= 0 if c.t == "le" else v == 0


def pick(v, E):
    while isinstance(v, Ite):
        v = v.a if cond(v.c, E) else v.b
    return v


def differs(v, s, E):
    """True when the two formulas differ at this assignment"""
    s = pick(s, E)
    if isinstance(s, Any):
        return False
    if isinstance(s, Alt):
        return all(differs(v, x, E) for x in s.vs)
    v = pick(v, E)
    if isinstance(v, Unk) and v.why == "uninitialised" and not isinstance(s, Unk):
        return True
    if isinstance(v, Unk) or isinstance(s, Unk) or v is BOT or s is BOT:
        raise Hard("unknown")
    if isinstance(v, bool) or isinstance(s, bool) or isinstance(v, Cond) or isinstance(s, Cond):
        def b(x):
            return x if isinstance(x, bool) else cond(x, E) if isinstance(x, Cond) else num(x, E) != 0
        return b(v) != b(s)
    if not isinstance(v, Rat) or not isinstance(s, Rat):
        raise Hard("shape")
    a, ma = rat(v, E)
    b, mb = rat(s, E)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) > 1e-9 * (ma + mb) + 1e-300


def atoms_of(v, out):
    if isinstance(v, Rat):
        out |= v.deep_atoms()
    elif isinstance(v, Cond):
        for x in v.a:
            atoms_of(x, out)
    elif isinstance(v, Ite):
        atoms_of(v.c, out)
        atoms_of(v.a, out)
        atoms_of(v.b, out)
    elif isinstance(v, Alt):
        for x in v.vs:
            atoms_of(x, out)


def nudge(E, r, target, rnd):
    """change one real symbol so that r takes the target value, if r is linear in it"""
    syms = [a for a in r.atoms() if ATOMS[a].fn is None and not ATOMS[a].int and not ATOMS[a].name.startswith("$")]
    rnd.shuffle(syms)
    for a in syms:
        E.sym(ATOMS[a])
        x0 = E.v[a]
        ys = []
        for x in (0.0, 1.0, 2.0):
            E.v[a] = x
            ys.append(rat(r, E)[0])
        k = ys[1] - ys[0]
        if abs(ys[2] - ys[1] - k) < 1e-9 * (abs(k) + 1) and abs(k) > 1e-9:
            E.v[a] = (target - ys[0]) / k
            return True
        E.v[a] = x0
    return False


def order(rnd):
    """values for the symbols of the order facts in scope (difference constraints), or None"""
    edges, syms = [], set()
    for r, rel in alg.FACTS:
        if r.d != alg.ONE_P or rel not in ("<", "<="):
            continue
        up = dn = -1
        c, ok = Fraction(0), True
        for m, k in r.n.items():
            if m == ():
                c = k
            elif len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and ATOMS[m[0][0]].fn is None:
                if k > 0 and up < 0:
                    up = m[0][0]
                elif k < 0 and dn < 0:
                    dn = m[0][0]
                else:
                    ok = False
            else:
                ok = False
        if ok and (up >= 0 or dn >= 0):
            edges.append((up, dn, c, rel))          # up - dn + c <(=) 0
            syms |= {up, dn}
    x = {}
    for a in sorted(syms):
        x[a] = Fraction(rnd.randint(-20, 20), 10)
        if a >= 0 and ATOMS[a].int:
            x[a] = Fraction(rnd.randint(0, 3))
    for _ in range(4 * len(syms) + 4):
        moved = False
        for up, dn, c, rel in edges:
            gap = x.get(up, Fraction(0)) + c - x.get(dn, Fraction(0))
            if gap > 0 or (gap == 0 and rel == "<"):
                isint = (up >= 0 and ATOMS[up].int) or (dn >= 0 and ATOMS[dn].int)
                step = Fraction(rnd.choice([1, 1, 2])) if isint else Fraction(rnd.randint(1, 30), 10)
                x[dn] = x.get(up, Fraction(0)) + c + (step if rel == "<" or not isint else 0)
                moved = True
        if not moved:
            break
    else:
        return None
    z = x.pop(-1, Fraction(0))
    if z:
        if any(ATOMS[a].int for a in x) and z.denominator != 1:
            return None
        x = {a: v - z for a, v in x.items()}
    return x


def facts_hold(E):
    for r, rel in alg.FACTS:
        v, m = rat(r, E)
        e = 1e-12 * m
        if not {"<": v < -e, "<=": v <= e, "=": abs(v) <= 1e-9 * (1 + m), ">": v > e, ">=": v >= -e}[rel]:
            return False
    return True


def witness(v, s, assume=(), case=None, tries=400, setup=None):
    """an assignment at which v and s differ, as text, or None; 'hard' when the formulas cannot be evaluated"""
    hard = False
    for t in range(tries):
        E = Env(t, t % 4)
        try:
            if setup is not None:
                setup(E)
            elif alg.FACTS and t % 8 < 6:
                xs = order(random.Random(t))
                if xs:
                    for a, val in xs.items():
                        E.v[a] = float(val)
            if case is not None and t % 2:
                rnd = random.Random(t)
                rs = list(zip(case.rs, case.sg))
                for _ in range(2):
                    rnd.shuffle(rs)
                    for r, sg in rs:
                        x = rat(r, E)[0]
                        if (x > 0) - (x < 0) != sg:
                            nudge(E, r, sg * 10.0 ** rnd.choice([rnd.uniform(-9, 0), rnd.uniform(-17, -9), 0]), rnd)
                for k, val in case.ops.items():
                    E.ops[k] = val
            if not all(cond(c, E) for c in assume) or not facts_hold(E):
                continue
            if differs(v, s, E):
                syms = sorted((ATOMS[a].name, x) for a, x in E.v.items())
                return "e.g. " + ", ".join("%s=%.6g" % x for x in syms[:14])
        except Skip:
            continue
        except Hard:
            hard = True
            break
        except (OverflowError, ZeroDivisionError):
            continue
    return "hard" if hard else None
