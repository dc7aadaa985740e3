"""Formula specifications: what a library function must compute, compared with its value-numbered normal form."""
import random
import re
from core import *
from report import Result
import alg, vn, wit, boolean
from alg import *


class SeqSpec:
    """sequence of the given size whose element i is fn(i)"""
    def __init__(self, size, fn, lo=0, hi=None):
        self.size, self.fn, self.lo, self.hi = size, fn, lo, hi


OBSERVE = None      # another check looks at the same summaries instead of comparing them


EVENTS = {"bounds": "access outside a container", "uninit": "use of an uninitialised value"}


class Homog:
    """homogeneous point with these Cartesian coordinates"""
    def __init__(self, xyz):
        self.xyz = xyz


class Valid:
    """a condition that must hold always"""
VALID = Valid()


class A:
    """access to the symbolic inputs of a summary"""
    def __init__(self, S):
        self.S = S
        self.this = S.this0

    def __getitem__(self, i):
        return self.S.args[i][0]


def deep_values(v, mp):
    """substitute symbols everywhere in a stored value"""
    if isinstance(v, (Rat, Cond, Ite)):
        return deep_subst(v, mp)
    if isinstance(v, vn.Obj):
        return vn.Obj(v.cls, {k: deep_values(x, mp) for k, x in v.f.items()})
    if isinstance(v, vn.SVec):
        return vn.SVec([deep_values(x, mp) for x in v.xs])
    return v


def only_uninit(v):
    """the unknown parts of a value are all uninitialised memory"""
    if isinstance(v, Unk):
        return v.why == "uninitialised"
    return not isinstance(v, Ite) or only_uninit(v.a) and only_uninit(v.b)


def symbols(v, out):
    if isinstance(v, (Rat, Cond, Ite)):
        wit.atoms_of(v, out)
    elif isinstance(v, vn.Obj):
        for x in v.f.values():
            symbols(x, out)
    elif isinstance(v, vn.SVec):
        for x in v.xs:
            symbols(x, out)


def comp(v):
    """components of a record / array value in declaration order"""
    return list(v.f.values()) if isinstance(v, vn.Obj) else v


def tname(s):
    s = s.replace("cmmcore::", "").replace("std::", "").replace("__1::", "")
    while True:                         # drop allocator arguments
        m = re.search(r",\s*allocator<", s)
        if not m:
            break
        i, d = m.end(), 1
        while i < len(s) and d:
            d += {"<": 1, ">": -1}.get(s[i], 0)
            i += 1
        s = s[:m.start()] + s[i:].lstrip()
    s = re.sub(r"\bconst\b", "", s).replace("&", "")
    return s.replace(" ", "")


def keyof(P, f):
    return "%s(%s)" % (f["qn"].replace("cmmcore::", ""), ",".join(tname(P.types[p["vt"]]["s"]) for p in f["params"]))


class Checker:
    def __init__(self, P, R, rule):
        self.P, self.R, self.rule = P, R, rule
        self.by = {}
        for f in P.root:
            if f.get("body") is None or f.get("lambda"):
                continue
            self.by.setdefault(keyof(P, f), []).append(f)
        self.absent, self.undecided, self.done = [], [], 0
        self.mp = {}          # symbols fixed at sample values in the current run

    def cmp(self, v, s, where, out, assume=()):
        """append (kind, text) to out"""
        if s is ANY or isinstance(s, Any):
            return
        if s is VALID:
            return self.valid(v, where, out, assume)
        if isinstance(s, Homog) and isinstance(v, vn.Obj) and all(isinstance(v.f.get(k), Rat) for k in "xyzw"):
            v = vn.Obj("point", {k: v.f[k] / v.f["w"] for k in "xyz"})
            s = s.xyz
        elif isinstance(s, Homog):
            return out.append(("und", "%s: %r" % (where, v)))
        if isinstance(s, SeqSpec):
            if isinstance(v, Ite):
                # same sequence on both sides up to the gate
                return out.append(("und", "%s: gated sequence" % where))
            if not isinstance(v, vn.Seq):
                if isinstance(v, vn.Obj) and v.cls == "array":
                    for i, x in v.f.items():
                        self.cmp(x, s.fn(Rat.of(i)), "%s[%d]" % (where, i), out, assume)
                    return
                return out.append(("und", "%s: %r" % (where, v)))
            if isinstance(s, SeqList):
                self.cmp(v.size, s.size, where + ".size", out, assume)
                for i, x in enumerate(s.xs):
                    self.cmp(v.get(Rat.of(i)), x, "%s[%d]" % (where, i), out, assume)
                return
            if s.size is not None:
                self.cmp(v.size, s.size, where + ".size", out, assume)
            i = alg.sym("#i%d" % len(where), True)
            hi = s.hi if s.hi is not None else s.size if s.size is not None else v.size
            g = list(assume) + [le(Rat.of(s.lo), i)]
            mark = len(FACTS)
            FACTS.append((Rat.of(s.lo) - i, "<="))
            if isinstance(hi, Rat):
                g.append(lt(i, hi))
                FACTS.append((i - hi, "<"))
            try:
                self.cmp(v.get(i), s.fn(i), where + "[i]", out, g)
            finally:
                del FACTS[mark:]
            return
        if isinstance(s, (tuple, list)):
            if isinstance(v, Unk):
                return out.append(("und", "%s: %s" % (where, v.why)))
            if isinstance(v, vn.Obj):
                vs = list(v.f.items())
            elif isinstance(v, vn.Seq):
                vs = [(i, v.get(Rat.of(i))) for i in range(len(s))]
            elif isinstance(v, Ite):
                for br, g in ((v.a, v.c), (v.b, Not(v.c))):
                    self.cmp(br, s, where, out, tuple(assume) + (g,))
                return
            else:
                return out.append(("und", "%s: %r" % (where, v)))
            if len(vs) != len(s):
                return out.append(("und", "%s has %d components, %d expected" % (where, len(vs), len(s))))
            for (k, x), y in zip(vs, s):
                self.cmp(x, y, "%s.%s" % (where, k), out, assume)
            return
        if isinstance(s, dict):
            if isinstance(v, Ite):
                for br, g in ((v.a, v.c), (v.b, Not(v.c))):
                    self.cmp(br, s, where, out, tuple(assume) + (g,))
                return
            if not isinstance(v, vn.Obj):
                return out.append(("und", "%s: %r" % (where, v)))
            for k, y in s.items():
                if k not in v.f:
                    out.append(("und", "%s has no member %s" % (where, k)))
                else:
                    self.cmp(v.f[k], y, "%s.%s" % (where, k), out, assume)
            return
        if isinstance(s, (int, Fraction)) and not isinstance(s, bool):
            s = Rat.of(s)
        if self.mp and isinstance(s, (Rat, Cond, Ite)):
            s = deep_subst(s, self.mp)
        if isinstance(v, bool):
            v = T if v else F
        if isinstance(v, Rat) and (isinstance(s, Cond) or isinstance(s, bool)):
            v = Not(eq(v, 0))
        if v is None or isinstance(v, (vn.Loc, vn.Ptr, vn.Lam, vn.Seq, vn.Obj)):
            return out.append(("und", "%s: %r" % (where, v)))
        if isinstance(v, Rat) and isinstance(s, Rat) and v == s and alg.unknown_atoms(v) is None:
            return out.append(("ok", where))
        u = has_unk(v)
        if isinstance(v, Cond) and isinstance(s, Cond) and s.t in ("T", "F") and u is None:
            try:
                if boolean.falsify(Or(*([Not(g) for g in assume] + [v if s.t == "T" else Not(v)]))) is None:
                    return out.append(("ok", where))
            except (boolean.TooHard, TooBig, RecursionError):
                pass
        try:
            d = decide_equal(v, s, assume)
        except (Undecided, TooBig, RecursionError) as e:
            case = None
            d = "?" + str(e)
            if u is not None and not only_uninit(v):
                return out.append(("und", "%s: %s" % (where, u.why)))
        if d is None:
            return out.append(("ok", where))
        if d.startswith("?"):
            case = None
        else:
            case = alg.Case()
            case.rs, case.sg, case.ops = alg.LAST
        w = wit.witness(v, s, assume, case)
        if w and w != "hard":
            m = d if not d.startswith("?") else "computes %s where %s is required" % (str(v)[:300], str(s)[:300])
            return out.append(("bad", "%s: %s (%s)" % (where, m, w)))
        out.append(("und", "%s: %s" % (where, ("no deciding witness: " + d) if w is None else d)))

    def valid(self, c, where, out, assume):
        c = Or(*([Not(g) for g in assume] + [deep_subst(c, self.mp) if self.mp else c]))
        try:
            lits = boolean.falsify(c)
        except (boolean.TooHard, TooBig, RecursionError):
            return out.append(("und", "%s: too many cases" % where))
        if lits is None:
            return out.append(("ok", where))
        names = [x.a[0] if x.t == "op" else x.a[0].a[0] for x in lits if x.t == "op" or x.t == "not" and x.a[0].t == "op"]
        if any(n.startswith("?") for n in names):
            return out.append(("und", "%s: opaque condition %s" % (where, [n for n in names if n.startswith("?")][0])))
        case = alg.Case()
        for x in lits:
            if x.t == "op":
                case.ops[x.a[0]] = True
            elif x.t == "not" and x.a[0].t == "op":
                case.ops[x.a[0].a[0]] = False
        mark = len(FACTS)
        for x in lits:
            if x.t in ("lt", "le", "eq"):
                FACTS.append((x.a[0], {"lt": "<", "le": "<=", "eq": "="}[x.t]))
                case.rs.append(x.a[0])
                case.sg.append({"lt": -1, "le": -1, "eq": 0}[x.t])
        try:
            w = wit.witness(c, T, (), case, 1200)
        finally:
            del FACTS[mark:]
        show = " and ".join(repr(x) for x in lits if len(repr(x)) < 160)[:700]
        if w and w != "hard":
            return out.append(("bad", "%s fails when %s" % (where, show)))
        out.append(("und", "%s: no deciding witness: %s" % (where, show)))

    def settled(self, prep, seed, full=False):
        """the same inputs with the ordered parameters fixed at sample values (full: every input symbol)"""
        def go(M, fr, S):
            prep(M, fr, S)
            xs = wit.order(random.Random(seed))
            if full:
                xs, rnd = dict(xs or {}), random.Random(seed)
                ids = set()
                for v in list(fr.store.values()) + [v for v, _ in S.args] + [S.this0]:
                    symbols(v, ids)
                for a in sorted(ids):
                    at = alg.ATOMS[a]
                    if at.fn is None and a not in xs and at.name[0] not in "$#?<" and not at.int:
                        xs[a] = Fraction(rnd.randint(1, 30), 10) if at.name.endswith("w") else Fraction(rnd.randint(-40, 40), 10)
            if not xs:
                raise vn.GiveUp("no sample values")
            self.mp = mp = {a: Rat.of(v) for a, v in xs.items()}
            for k in list(fr.store):
                fr.store[k] = deep_values(fr.store[k], mp)
            S.args = [(deep_values(v, mp), l) for v, l in S.args]
            if S.this0 is not None:
                S.this0 = deep_values(S.this0, mp)
            keep = []
            for r, rel in FACTS:
                r = deep_subst(r, mp)
                c = r.const()
                if c is None:
                    keep.append((r, rel))
                elif not {"<": c < 0, "<=": c <= 0, "=": c == 0, ">": c > 0, ">=": c >= 0}[rel]:
                    raise vn.GiveUp("no sample values")
            FACTS[:] = keep
        return go

    def one(self, key, *args, **kw):
        """compare one function with its specification; when the symbolic run stays undecided, again with the ordered
        parameters (knots, parameters) fixed at sample values"""
        n = len(self.undecided)
        self.partial = False
        self.one_(key, *args, **kw)
        if kw.get("prep") is None or (len(self.undecided) == n and not self.partial):
            return
        und = self.undecided[n:]
        for seed, full in ((3, False), (8, True)):
            kw2 = dict(kw, prep=self.settled(kw["prep"], seed, full),
                       label="%s; %s fixed, sample %d" % (kw.get("label") or "", "inputs" if full else "parameters", seed))
            self.one_(key, *args, **kw2)
        del self.undecided[n:]
        self.undecided.extend(und)

    def one_(self, key, ret=None, this=None, out=None, throws=None, assume=None, opaque=(), alias=(), prep=None,
            label=None, note=None, unroll=40, rel=None, defined=False):
        fs = self.by.get(key, [])
        if not fs:
            self.absent.append(key)
            return
        for f in fs:
            alg.reset()
            self.mp = {}
            try:
                S = vn.summarize(self.P, f, opaque, alias, unroll, prep)
            except Exception as e:          # the engine met a construct it cannot model
                self.undecided.append("%s: %s" % (key, e))
                continue
            if S.why:
                self.undecided.append("%s: %s" % (key, S.why))
                continue
            self.done += 1
            a = A(S)
            try:
                g = list(assume(a)) if assume else []
                if OBSERVE is not None:
                    OBSERVE(self, f, key, S, g, label, prep)
                    continue
                for what, c in S.events.items():
                    if what in EVENTS:
                        o = []
                        self.cmp(c, F, EVENTS[what], o, g + ([Not(S.throws)] if S.throws.t != "T" else []))
                        if any(k == "bad" for k, _ in o):
                            self.emit(f, key, EVENTS[what], [("bad", "; ".join(S.m.notes[:3]))], label)
                if throws is None and prep is not None and S.throws.t not in ("T", "F"):
                    self.partial = True
                if throws is not None or (prep is not None and S.throws.t == "T"):
                    sp = throws(a) if throws is not None else F
                    o = []
                    self.cmp(S.throws, sp, "throws", o, g)
                    self.emit(f, key, "failure condition", o, label)
                    g.append(Not(sp) if isinstance(sp, Cond) else T)
                elif S.throws.t != "F":
                    g.append(Not(S.throws))
                for what, spec, val in ([("result", ret, S.ret)] if ret else []) + \
                        ([("object", this, S.this1)] if this else []) + \
                        [("argument %d" % (i + 1), sp, S.out[i]) for i, sp in (out or {}).items()]:
                    o = []
                    self.cmp(val, spec(a), what, o, g)
                    self.emit(f, key, what, o, label)
                if defined and "div0(0)" in str(S.ret):
                    self.emit(f, key, "defined", [("bad", "the result hinges on the indeterminate quotient 0/0")], label)
                if rel:
                    a.ret, a.out, a.thisout = S.ret, S.out, S.this1
                    for what, extra, pairs in rel(a):
                        o = []
                        for w, val, sp in pairs:
                            self.cmp(val, sp, w, o, g + list(extra))
                        self.emit(f, key, what, o, label)
            except (TooBig, Undecided, RecursionError, KeyError, AttributeError, TypeError, IndexError) as e:
                self.undecided.append("%s: %s %s" % (key, type(e).__name__, e))

    def emit(self, f, key, what, o, label):
        inst = "%s: %s%s" % (key, what, " (%s)" % label if label else "")
        bad = [t for k, t in o if k == "bad"]
        und = [t for k, t in o if k == "und"]
        if bad:
            self.R.check(self.rule, inst, self.P.where(f), False, "; ".join(bad[:3]))
        elif und:
            self.undecided.append("%s: %s" % (inst, und[0]))
        else:
            self.R.check(self.rule, inst, self.P.where(f), True, "%d components match the required formula" % len(o))

    def finish(self):
        self.R.stats.setdefault("functions_compared", 0)
        self.R.stats["functions_compared"] += self.done
        self.R.stats.setdefault("specified_but_absent", []).extend(self.absent)
        self.R.stats.setdefault("undecided", []).extend(x[:300] for x in self.undecided)


class SeqList(SeqSpec):
    """sequence with exactly these elements"""
    def __init__(self, xs):
        SeqSpec.__init__(self, Rat.of(len(xs)), lambda i: xs[int(i.const())])
        self.xs = xs


def okc(v):
    """a boolean result as a condition"""
    if isinstance(v, bool):
        return T if v else F
    if isinstance(v, Ite):
        a, b = okc(v.a), okc(v.b)
        return Or(And(v.c, a), And(Not(v.c), b))
    if isinstance(v, Rat):
        return Not(eq(v, 0))
    return v


# ---------------------------------------------------------------- inputs of known shape
class Shape:
    """replaces symbolic inputs by inputs of known shape: vectors of known length with symbolic entries, and known
    order relations between parameters"""
    def __init__(self, M, fr, S):
        self.M, self.fr, self.S = M, fr, S

    def arg(self, w, v):
        if isinstance(v, bool):
            v = T if v else F
        if isinstance(v, (int, Fraction)):
            v = Rat.of(v)
        l = self.S.args[w][1]
        self.fr.store[l.root] = v
        self.S.args[w] = (v, l)
        return v

    def this(self, **kw):
        o = self.S.this0
        for k, v in kw.items():
            if isinstance(v, bool):
                v = T if v else F
            if isinstance(v, int):
                v = Rat.of(v)
            o = o.with_(k, v)
        self.S.this0 = o
        self.fr.store[self.fr.this.root] = o
        return o

    def fact(self, r, rel):
        FACTS.append((Rat.of(r), rel))
        self.M.assumed = True

    def less(self, *xs):
        for a, b in zip(xs, xs[1:]):
            self.fact(Rat.of(a) - Rat.of(b), "<")

    def apart(self, *xs, by=Fraction(1, 1000)):
        """increasing, by more than every tolerance the library uses"""
        for a, b in zip(xs, xs[1:]):
            self.fact(Rat.of(a) + Rat.of(by) - Rat.of(b), "<")

    def leq(self, *xs):
        for a, b in zip(xs, xs[1:]):
            self.fact(Rat.of(a) - Rat.of(b), "<=")

    def knots(self, mults, name="k", apart=False):
        """non-decreasing knot vector with these multiplicities"""
        ks = [alg.sym("%s%d" % (name, i)) for i in range(len(mults))]
        (self.apart if apart else self.less)(*ks)
        out = []
        for k, m in zip(ks, mults):
            out += [k] * m
        return vn.SVec(out)

    def points(self, n, name="P", dim=4):
        return vn.SVec([vn.Obj("cmmcore::vec%d" % dim, {k: alg.sym("%s%d.%s" % (name, i, k)) for k in "xyzw"[:dim]})
                        for i in range(n)])

    def grid(self, n, m, name="P", dim=4):
        return vn.SVec([self.points(m, "%s%d," % (name, i), dim) for i in range(n)])
