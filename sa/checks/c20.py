"""C20 orderings and keys handed to standard algorithms and containers meet their requirements."""
from core import *
from spec import *
from report import Result
import vn
from vn import gsubst, Obj, SVec, Ptr, GiveUp, Frame
from boolean import falsify, TooHard

ALGS = {"sort", "stable_sort", "nth_element", "partial_sort", "max_element", "min_element", "minmax_element", "lower_bound", "upper_bound",
        "equal_range", "binary_search", "inplace_merge", "merge", "make_heap", "push_heap", "pop_heap", "sort_heap"}
# hashed keys declared for users of the library: (hash, equality)
PAIRS = [("Vec2Hash", "Vec2Equal"), ("Vec3Hash", "Vec3Equal"), ("_hashimpl::PairDoubleHash", "_hashimpl::PairDoubleEqual"), ("PointKeyHash", None)]
CK = []
VENDORED = "_convexhull/quickhull"


def run(tier):
    P = load()
    R = Result("C20")
    R.rule("order", "a comparison handed to a sorting or searching algorithm is a strict weak order on the values it may meet")
    R.rule("key", "equality of keys is an equivalence and equal keys have equal hashes")
    CK[:] = [Checker(P, R, "order")]
    orders(P, R)
    keys(P, R)
    index(P, R)
    R.floor("order", 10)
    R.floor("key", 14)
    R.assumptions += ["exact reals; hash functions of the standard library are functions of their argument",
                      "the angular comparison of the planar convex hull is only required to be irreflexive and antisymmetric (transitivity holds on the half plane it is used on)"]
    return R


class Rel:
    """a callable of the library on symbolic arguments"""
    def __init__(self, P, f, functor=None, lam=None, site=None):
        self.P, self.f, self.functor, self.lam = P, f, functor, lam
        self.M = M = vn.Machine(P)
        M.heap = M.assumed = True
        M.objmodels = {"hash": self.hash}
        self.store = {}
        self.env, self.this = {}, None
        if functor is not None:
            r = P.records[functor]
            self.this = M.new_root(Obj(r["qn"], {x["n"]: M.element(x["vt"], "self." + x["n"], ()) for x in M.rec_fields(functor)}), self.store, "this")
        if lam is not None:
            tys = {}
            for c in lam["caps"]:
                if not c.get("this"):
                    tys[c["d"]] = c
            for d in walk(f.get("body") or []):
                if d.get("k") == "ref" and d.get("d") in tys and d["d"] not in self.env:
                    self.env[d["d"]] = M.new_root(M.element(d["t"], "cap." + d["n"], ()), self.store, "cap")

    @staticmethod
    def hash(M, n, A, e, fr):
        x = M.value(A[0], fr)
        if isinstance(x, Cond) or isinstance(x, (Rat, Ite)):
            return lift(lambda y: app("@hash", y), M.num(x))
        return Unk("hash")

    def arg(self, i, name):
        return self.M.element(self.f["params"][i]["vt"], name, ())

    def __call__(self, *vals):
        M = self.M
        fr = Frame(M, self.this, dict(self.env), dict(self.store))
        ls = []
        ps = self.f["params"]
        this = self.this
        if len(vals) == len(ps) + 1:            # a member comparing itself with its argument
            this, vals = M.temp(vals[0], fr), vals[1:]
        if self.lam is None:
            ls = [M.temp(v, fr) for v in vals]
            r = M.invoke(self.f, this, None, fr, ls)
        else:
            env = dict(self.env)
            for p, v in zip(ps, vals):
                env[p["d"]] = M.new_root(v, fr.store, "arg")
            sub = Frame(M, None, env, fr.store)
            r = M.finish_call(self.f, M.body(self.f, sub), fr)
        if isinstance(r, vn.Loc):
            r = M.read(r, fr.store)
        return r


def cond(v):
    c = tocond(v)
    if c is None:
        raise GiveUp("no truth value: %r" % (v,))
    return c


def holds(R, rule, inst, where, c, msg):
    """c must be valid"""
    try:
        lits = falsify(split(c))
    except TooHard:
        R.stats.setdefault("undecided", []).append(inst)
        return
    if lits is None:
        R.check(rule, inst, where, True, "valid")
        return
    out = []
    Checker.cmp(CK[0], c, T, msg, out)
    bad = [t for k, t in out if k == "bad"]
    if bad:
        R.check(rule, inst, where, False, bad[0])
    else:
        R.stats.setdefault("undecided", []).append("%s: no deciding witness when %s" % (inst, " and ".join(show(x) for x in lits[:5])))


def split(c):
    """(in)equalities as orders, so that linear arithmetic sees them"""
    if c.t in ("and", "or"):
        cs = [split(x) for x in c.a]
        return And(*cs) if c.t == "and" else Or(*cs)
    if c.t in ("eq", "ne"):
        lo, hi = Cond("lt", c.a[0]), Cond("lt", -c.a[0])
        return Or(lo, hi) if c.t == "ne" else And(Not(lo), Not(hi))
    return c


def show(c):
    return repr(c)[:80]


def comparators(P):
    """(name, where, callable record/lambda, element name) of every comparison handed to an algorithm or an ordered container"""
    seen = set()
    for f in P.root:
        if f.get("body") is None or VENDORED in f.get("file", ""):
            continue
        lams = {}
        for x in walk(f["body"]):
            if x.get("k") == "decl":        # comparisons named before they are used
                for v in x["v"]:
                    i = v.get("init")
                    while isinstance(i, dict) and i.get("k") in ("cast", "ctor", "paren") and not i.get("caps"):
                        i = i.get("e") or (i.get("a") or [None])[0]
                    if isinstance(i, dict) and i.get("k") == "lambda":
                        lams[v["d"]] = i
        for x in walk(f["body"]):
            if x.get("k") != "call" or x.get("n") not in ALGS or not x.get("qn", "").startswith("std::") or x.get("obj") is not None:
                continue
            a = x["a"][-1]
            t = P.under(a["t"])
            y = strip(a)
            while isinstance(y, dict) and y.get("k") in ("ctor", "cast") and (y.get("e") or y.get("a")) and y.get("k") != "lambda":
                z = y.get("e") or y["a"][0]
                if P.under(z["t"]).get("rec") != t.get("rec"):
                    break
                y = strip(z)
            if y.get("k") == "ref" and y.get("d") in lams:
                y = lams[y["d"]]
            where = "%s:%s" % (f.get("file", "").split("/repo/")[-1], x.get("l"))
            if y.get("k") == "lambda":
                g = P.funcs.get(y["fn"])
                if g is not None and id(g) not in seen:
                    seen.add(id(g))
                    yield "%s, %s" % (f["qn"].replace("cmmcore::", ""), x["n"]), where, g, None, y
            elif t.get("rec") in P.records and P.records[t["rec"]].get("root"):
                for g in P.root:
                    if g.get("clsid") == t["rec"] and g["n"] == "operator()" and id(g) not in seen:
                        seen.add(id(g))
                        yield "%s, %s" % (f["qn"].replace("cmmcore::", ""), x["n"]), where, g, t["rec"], None
    for g in P.root:
        if g["n"] == "operator<" and g.get("body") is not None and not g.get("lambda") and VENDORED not in g.get("file", "") and id(g) not in seen:
            if len(g["params"]) == (1 if g.get("cls") else 2):
                yield "%s" % g["qn"].replace("cmmcore::", ""), P.where(g), g, None, None


def orders(P, R):
    for name, where, g, functor, lam in comparators(P):
        alg.reset()
        try:
            r = Rel(P, g, functor, lam)
            a, b, c = (r.arg(0, n) for n in "abc")
            ab, ba, bc, ac, aa = (cond(r(*p)) for p in ((a, b), (b, a), (b, c), (a, c), (a, a)))
            cb, ca = cond(r(c, b)), cond(r(c, a))
        except GiveUp as e:
            R.stats.setdefault("undecided", []).append("%s: %s" % (name, e))
            continue
        except (AttributeError, TypeError, KeyError, TooBig, Undecided, RecursionError) as e:
            R.stats.setdefault("undecided", []).append("%s: %s %s" % (name, type(e).__name__, e))
            continue
        holds(R, "order", name + ": irreflexive", where, Not(aa), "an element is less than itself")
        holds(R, "order", name + ": antisymmetric", where, Not(And(ab, ba)), "two elements are less than each other")
        if "convexhull" in where:
            continue
        holds(R, "order", name + ": transitive", where, Or(Not(And(ab, bc)), ac), "a < b < c but not a < c")
        inc = And(Not(ab), Not(ba), Not(bc), Not(cb))
        holds(R, "order", name + ": ties are transitive", where, Or(Not(inc), And(Not(ac), Not(ca))), "a ~ b ~ c but not a ~ c")


def functor(P, name):
    for rid, r in P.records.items():
        if r.get("root") and r["qn"].replace("cmmcore::", "") == name:
            for g in P.root:
                if g.get("clsid") == rid and g["n"] == "operator()":
                    return rid, g
    return None, None


def conj(c):
    return [y for x in c.a for y in conj(x)] if c.t == "and" else [] if c.t == "T" else [c]


def keys(P, R):
    pairs = list(PAIRS)
    for t in (P.types if isinstance(P.types, list) else P.types.values()):
        if isinstance(t, dict) and t.get("tmpl", "").split("::")[-1] in ("unordered_set", "unordered_map", "unordered_multiset", "unordered_multimap"):
            k = 1 if "set" in t["tmpl"].split("::")[-1] else 2
            rs = [P.under(t["targs"][i]) for i in (k, k + 1)]
            n = [P.records[x["rec"]]["qn"].replace("cmmcore::", "") if P.records.get(x.get("rec"), {}).get("root") else None for x in rs]
            if n[0] and "quick_hull" not in n[0] and (n[0], n[1]) not in pairs:
                pairs.append((n[0], n[1]))
    for h, q in pairs:
        alg.reset()
        rid, hf = functor(P, h)
        if hf is None:
            continue
        where = P.where(hf)
        try:
            H = Rel(P, hf, rid)
            if q is None:
                kt = P.under(hf["params"][0]["vt"])
                es = [g for g in P.root if g["n"] == "operator==" and g.get("clsid") == kt.get("rec") and len(g["params"]) == 1
                      and P.under(g["params"][0]["vt"]).get("rec") == kt.get("rec")]
                if not es:
                    raise GiveUp("no equality")
                E = Rel(P, es[0])
                q = "operator=="
            else:
                qid, qf = functor(P, q)
                if qf is None:
                    raise GiveUp("no equality " + q)
                E = Rel(P, qf, qid)
            a, b, c = (H.arg(0, n) for n in "abc")
            aa, ab, ba, bc, ac = (cond(E(*p)) for p in ((a, a), (a, b), (b, a), (b, c), (a, c)))
            ha, hb = H(a), H(b)
        except GiveUp as e:
            R.stats.setdefault("undecided", []).append("%s: %s" % (h, e))
            continue
        except (AttributeError, TypeError, KeyError, TooBig, Undecided, RecursionError) as e:
            R.stats.setdefault("undecided", []).append("%s: %s %s" % (h, type(e).__name__, e))
            continue
        n = "%s/%s" % (h, q)
        holds(R, "key", n + ": reflexive", where, aa, "a key differs from itself")
        holds(R, "key", n + ": symmetric", where, And(Or(Not(ab), ba), Or(Not(ba), ab)), "equality depends on the order of its arguments")
        holds(R, "key", n + ": transitive", where, Or(Not(And(ab, bc)), ac), "equality is not transitive")
        consistent(R, n, where, ab, ha, hb)


def consistent(R, n, where, ab, ha, hb):
    """equal keys hash equally: replace what equality equates and compare"""
    mp = {}
    for c in conj(ab):
        if c.t != "eq":
            continue
        p = vn.vsubst(c.a[0], mp) if mp else c.a[0]
        ats = [m for m in p.n if len(m) == 1 and m[0][1] == 1]
        if len(p.n) == 2 and len(ats) == 2 and p.d == {(): 1} and p.n[ats[0]] == -p.n[ats[1]]:
            x, y = sorted((ats[0][0][0], ats[1][0][0]))
            mp[y] = Rat({((x, 1),): 1}, {(): 1})
    for _ in range(3):
        ha, hb = (vn.vsubst(v, mp) if mp else v for v in (ha, hb))
    inst = n + ": equal keys hash equally"
    if isinstance(ha, Rat) and isinstance(hb, Rat):
        if ha == hb:
            R.check("key", inst, where, True, "the hash is a function of what equality compares")
            return
        out = []
        Checker.cmp(CK[0], ha, hb, "hash", out, [gsubst(ab, mp) if mp else ab])
        if not any(k == "bad" for k, _ in out):
            R.stats.setdefault("undecided", []).append(inst)
            return
        loose = sorted({alg.ATOMS[i].name for i in (ha - hb).deep_atoms() if i not in mp and not alg.ATOMS[i].args and "." in alg.ATOMS[i].name})
        R.check("key", inst, where, False, "the hash depends on more than equality compares (%s)" % ", ".join(loose[:4]))
        return
    R.stats.setdefault("undecided", []).append(inst)


# ---------------------------------------------------------------- the index of segment ends
class Table(vn.Seq):
    """a hash table of which only the keys asked for are recorded"""
    def __init__(self, fr):
        self.size = alg.sym("$table", True)


def index(P, R):
    """an end is filed, looked for and removed under one key"""
    def one(name):
        fs = [g for g in P.root if g["qn"] == "cmmcore::" + name and g.get("body") is not None]
        if len(fs) != 1:
            raise GiveUp("no function " + name)
        return fs[0]

    def keys_of(name, ptr):
        f = one(name)
        got = []

        def prep(M, fr, S):
            M.heap = M.assumed = True
            ks = [alg.sym("p" + k) for k in "xyz"]
            pt = Obj("cmmcore::vec3", dict(zip("xyz", ks)))
            ls = list(fr.env.values())
            ep = [p for p, d in zip(f["params"], ls) if P.under(p["vt"]).get("c") == "ptr"]
            for p, l in zip(f["params"], ls):
                t = P.under(p["vt"])
                if t.get("c") == "ptr":
                    o = M.element(t["u"], "e", ())
                    o = Obj(o.cls, dict(o.f))
                    o.f["point"] = pt
                    S.ep = Ptr(M.new_root(o, fr.store, "end"))
                    fr.store[l.root] = S.ep
                elif t.get("rec") and P.records.get(t["rec"], {}).get("qn") == "cmmcore::vec3":
                    fr.store[l.root] = pt

            def table(M, n, A, e, fr):
                if n in ("op[]", "find", "erase", "count", "at", "contains", "try_emplace", "emplace", "insert"):
                    k = M.value(A[0], fr)
                    if isinstance(k, Ptr):
                        return Unk("iterator")
                    got.append((n, k))
                    if n in ("op[]", "at"):
                        return M.new_root(SVec([S.ep] if ptr == "filed" else []), fr.store, "cell")
                    if n in ("count",):
                        return Rat.of(1)
                    return Unk("iterator")
                if n in ("end", "begin"):
                    return Unk("iterator")
                raise GiveUp("table operation " + n)
            M.objmodels = {"unordered_map": table}
        S = vn.summarize(P, f, prep=prep)
        if S.why and not got:
            raise GiveUp("%s: %s" % (name, S.why))
        return f, got
    alg.reset()
    try:
        f, add = keys_of("add_to_index", "empty")
        g, rem = keys_of("remove_from_index", "filed")
        h, look = keys_of("find_nearby_endpoints", "empty")
    except (GiveUp, AttributeError, TypeError, KeyError, TooBig, Undecided) as e:
        R.stats.setdefault("undecided", []).append("index of segment ends: %s" % e)
        return
    base = {tuple(sorted((k, repr(x)) for k, x in v.f.items())) for _, v in add if isinstance(v, Obj)}
    if len(base) != 1:
        R.stats.setdefault("undecided", []).append("index of segment ends: %d keys" % len(base))
        return
    for who, fn, got in (("remove_from_index", g, rem), ("find_nearby_endpoints", h, look)):
        ks = {tuple(sorted((k, repr(x)) for k, x in v.f.items())) for _, v in got if isinstance(v, Obj)}
        if not ks:
            R.stats.setdefault("undecided", []).append("index of segment ends: %s" % who)
            continue
        R.check("key", "%s: uses the key the end was filed under" % who, P.where(fn), base <= ks,
                "%d keys" % len(ks) if base <= ks else "filed under %s, asked for under %s" % (dict(next(iter(base))), dict(sorted(ks)[0])))
