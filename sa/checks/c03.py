"""C03 copy fidelity: every user-provided special member function transfers every field of its source on every
path (must-dataflow over the CFG, delegations and helpers summarised)."""
from core import *
from report import Result
import effects as EFF

DERIVED = {"_aabb", "_bbox", "_hull", "_interval"}     # recomputable from the defining data (confirmed by reading)
TRANSPARENT = {"move", "forward", "as_const", "exchange", "make_unique", "make_shared", "move_if_noexcept", "addressof", "make_optional", "ref", "cref"}


class Xfer:
    """summary(f, roles): fields of `dst` that equal the same field of `src` at every normal exit"""

    def __init__(self, P, A):
        self.P, self.A = P, A
        self.memo = {}

    def fields(self, rec):
        return [x["n"] for x in rec["fields"]]

    def run(self, f, rec, dst, srcs, depth=0):
        key = (f["id"], dst, tuple(sorted(srcs)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (frozenset(), [])
        r = self._run(f, rec, dst, srcs, depth)
        self.memo[key] = r
        return r

    def _run(self, f, rec, dst, srcs, depth):
        P = self.P
        F = frozenset(self.fields(rec))
        cfg = P.cfg(f)
        src0 = set(srcs)
        self_ = self

        def isobj(e, who, st):
            """does expression e denote object `who` ('this' or decl id)"""
            e = strip(e)
            if e is None:
                return False
            if e["k"] == "un" and e["op"] in ("*", "&"):
                return isobj(e["e"], who, st)
            if e["k"] == "call" and e.get("n") in ("move", "forward", "as_const", "addressof") and not e.get("root") and e["a"]:
                return isobj(e["a"][0], who, st)
            if e["k"] == "ctor" and len(e["a"]) == 1 and e.get("cp") in ("copy", "move"):
                return isobj(e["a"][0], who, st)
            if e["k"] == "this":
                return who == "this"
            if e["k"] == "ref":
                return e["d"] == who
            return False

        def issrc(e, st):
            return any(isobj(e, s, st) for s in st[1])

        def isdst(e, st):
            return isobj(e, dst, st)

        def memof(e, pred, st):
            """field name if e is <obj>.F (possibly an element of it) with pred(obj)"""
            e = strip(e)
            while e is not None:
                if e["k"] == "mem":
                    if pred(e["b"], st):
                        return e["n"]
                    e = strip(e["b"])
                elif e["k"] == "idx":
                    e = strip(e["b"])
                elif e["k"] == "call" and e.get("obj") is not None and e.get("n") in ("operator[]", "at", "operator*", "operator->", "get", "begin", "end", "data", "cbegin", "cend"):
                    e = strip(e["obj"])
                elif e["k"] == "call" and e.get("n") in ("begin", "end", "data", "cbegin", "cend", "move", "forward") and e.get("a"):
                    e = strip(e["a"][0])
                elif e["k"] == "un" and e["op"] in ("*", "&"):
                    e = strip(e["e"])
                elif e["k"] == "cast":
                    e = e["e"]
                else:
                    return None
            return None

        def copyof(e, fld, st):
            """value of e is (a deep or plain copy of) src.fld"""
            e = strip(e)
            if e is None:
                return False
            k = e["k"]
            if memof(e, issrc, st) == fld:
                return True
            if k == "ref" and e["d"] in st[3]:
                return st[3][e["d"]] == fld
            if k == "ctor":
                return len(e["a"]) >= 1 and all(copyof(a, fld, st) for a in e["a"]) 
            if k == "list":
                return len(e["a"]) >= 1 and all(copyof(a, fld, st) for a in e["a"])
            if k == "arrcopy":
                return copyof(e["e"], fld, st)
            if k == "new":
                return e.get("init") is not None and copyof(e["init"], fld, st)
            if k == "call" and e.get("n") in TRANSPARENT and e.get("a"):
                return copyof(e["a"][0], fld, st)
            if k == "call" and e.get("root") and e.get("obj") is not None and isinstance(e.get("fn"), int):
                # accessor on the source returning the field
                g = P.funcs.get(e["fn"])
                if g is not None and issrc(e["obj"], st) and not e["a"]:
                    if self_.accessor(g) == fld:
                        return True
                    # a clone function of the source: reads the field, yields a value of the field's type
                    return g.get("mconst") and self_.clone_of(g, rec, fld)
            if k == "call" and e.get("a") and e.get("obj") is None and e.get("n") not in ("min", "max", "abs", "fabs", "sqrt", "floor", "round"):
                # helper applied to the source's field only (deep-copy helper)
                oks = [copyof(x, fld, st) for x in e["a"]]
                if any(oks) and all(o or self_.nullish(x) for o, x in zip(oks, e["a"])):
                    return True
            if k == "cond":
                # test ? src.F : null/self-guard
                c, a, b = e["c"], e["a"], e["b"]
                ca, cb = copyof(a, fld, st), copyof(b, fld, st)
                if ca and cb:
                    return True
                pol, y = self_.nulltest(c)
                if memof(y, issrc, st) == fld:
                    if (pol and ca and self_.nullish(b)) or (not pol and cb and self_.nullish(a)):
                        return True
                return False
            return False

        # state: (transferred, sources, derived-written, local copies of single fields as sorted tuple)
        def transfer(n, s):
            tr, srcs_, der, loc = set(s[0]), set(s[1]), set(s[2]), dict(s[3])
            st = (tr, srcs_, der, loc)

            def setf(fld, ok):
                if ok:
                    tr.add(fld)
                else:
                    tr.discard(fld)

            def visit(e, top=True):
                if e is None:
                    return
                k = e.get("k")
                if k == "lambda":
                    return
                for c in kids(e):
                    visit(c, False)
                if k == "asg":
                    tgt = e["a"]
                    fld = memof(tgt, isdst, st)
                    if fld is not None:
                        whole = strip(tgt)["k"] == "mem"
                        if e["op"] != "=":
                            setf(fld, False)
                        elif copyof(e["b"], fld, st):
                            setf(fld, True)
                        elif whole or fld in tr:
                            setf(fld, False)
                    elif isdst(tgt, st) and e["op"] == "=":
                        if issrc(e["b"], st):
                            tr.update(F)
                        else:
                            tr.clear()
                    else:
                        t = strip(tgt)
                        if t["k"] == "ref":
                            loc.pop(t["d"], None)
                            srcs_.discard(t["d"])
                elif k == "un" and e["op"] in ("++", "--"):
                    fld = memof(e["e"], isdst, st)
                    if fld is not None:
                        setf(fld, False)
                elif k in ("call", "ctor"):
                    call(e)

            def call(e):
                n_ = e.get("n", "")
                obj = e.get("obj")
                a = e["a"]
                if e["k"] == "call" and n_ == "operator=" and obj is not None:
                    fld = memof(obj, isdst, st)
                    if fld is not None:
                        okc = copyof(a[0], fld, st)
                        if okc:
                            setf(fld, True)
                        elif strip(obj)["k"] == "mem" or fld in tr:
                            # null assignment on the branch where the source is null
                            setf(fld, fld in st_null and self_.nullish(a[0]))
                        return
                    tl, tr_ = strip(obj), strip(a[0])
                    if tl["k"] == "call" and tl.get("n") == "tie":
                        rs = tr_["a"] if tr_["k"] in ("call", "ctor") else []
                        for q, x in enumerate(tl["a"]):
                            f1 = memof(x, isdst, st)
                            if f1 is not None:
                                setf(f1, q < len(rs) and copyof(rs[q], f1, st))
                        return
                    if isdst(obj, st):
                        if issrc(a[0], st):
                            tr.update(F)
                        else:
                            tr.clear()
                        return
                if n_ in ("swap", "iter_swap") and (len(a) == 2 or (obj is not None and len(a) == 1)):
                    x, y = (obj, a[0]) if obj is not None else (a[0], a[1])
                    for p, q in ((x, y), (y, x)):
                        if isdst(p, st) and issrc(q, st):
                            if e.get("root") and e["fn"] in P.funcs and P.funcs[e["fn"]].get("body") and depth < 4:
                                g = P.funcs[e["fn"]]
                                self_.callsum(e, g, rec, st, isdst, issrc, tr, F, depth)
                            else:
                                tr.update(F)
                            return
                        f1, f2 = memof(p, isdst, st), memof(q, issrc, st)
                        if f1 is not None and f2 is not None:
                            setf(f1, f1 == f2)
                            return
                if obj is not None and e["k"] == "call" and not e.get("root"):
                    fld = memof(obj, isdst, st)
                    if fld is not None and not e.get("mconst"):
                        if n_ in ("reset",):
                            if a and copyof(a[0], fld, st):
                                setf(fld, True)
                            else:
                                setf(fld, fld in st_null and (not a or self_.nullish(a[0])))
                        elif n_ in ("assign", "insert", "push_back", "emplace_back", "fill"):
                            if a and all(copyof(x, fld, st) or memof(x, isdst, st) == fld for x in a) and any(copyof(x, fld, st) for x in a):
                                setf(fld, True)
                            elif n_ in ("push_back", "emplace_back") and loopvar(a, fld):
                                setf(fld, True)
                            else:
                                setf(fld, False)
                        elif n_ in ("resize", "clear"):
                            setf(fld, False)
                        return
                if e["k"] == "call" and not e.get("root") and obj is None and n_ in ("copy", "copy_n", "move", "memcpy", "memmove", "transform"):
                    fd = None
                    for x in a:
                        fld = memof(x, isdst, st)
                        if fld is not None:
                            fd = fld
                    if fd is not None:
                        srcf = {memof(x, issrc, st) for x in a} - {None}
                        setf(fd, srcf == {fd} and n_ != "transform")
                    return
                if e.get("root") and e["fn"] in P.funcs:
                    g = P.funcs[e["fn"]]
                    self_.callsum(e, g, rec, st, isdst, issrc, tr, F, depth)

            def loopvar(a, fld):
                x = strip(a[0]) if a else None
                while x is not None and x["k"] in ("ctor",) and len(x["a"]) == 1:
                    x = strip(x["a"][0])
                return x is not None and x["k"] == "ref" and loc.get(x["d"]) == fld

            st_null = set(s[4])
            if n.kind == "init":
                i = n.e
                if i.get("deleg"):
                    c = strip(i["e"])
                    if c["k"] == "ctor" and c["fn"] in P.funcs:
                        self_.callsum(c, P.funcs[c["fn"]], rec, st, isdst, issrc, tr, F, depth, ctor_this=True)
                elif "n" in i and dst == "this":
                    visit(i["e"])
                    fld = i["n"]
                    if fld in F:
                        setf(fld, bool(i.get("written")) and copyof(i["e"], fld, st))
                        if not i.get("written") and not i["e"] is None and self_.nullish(i["e"]):
                            pass
            elif n.kind == "decl":
                v = n.e
                if v.get("init"):
                    visit(v["init"])
                    if issrc(v["init"], st):
                        srcs_.add(v["d"])
                    else:
                        for fld in F:
                            if copyof(v["init"], fld, st):
                                loc[v["d"]] = fld
            elif n.kind == "rforvar":
                r = memof(n.e["range"], issrc, st)
                if r is not None:
                    loc[n.e["var"]["d"]] = r
            elif n.kind in ("expr", "cond", "ret", "throw", "switch", "rforinit"):
                visit(n.e["range"] if n.kind == "rforinit" else n.e)
            return (frozenset(tr), frozenset(srcs_), frozenset(der), tuple(sorted(loc.items())), s[4])

        def edge(n, lab, succ, o):
            if n.kind == "cond" and lab in (True, False):
                e = n.e
                x = strip(e)
                # self-assignment test
                if x["k"] == "bin" and x["op"] in ("==", "!="):
                    st = (set(o[0]), set(o[1]), None, dict(o[3]))
                    a, b = x["a"], x["b"]
                    if (isdst(a, st) and issrc(b, st)) or (isdst(b, st) and issrc(a, st)):
                        if (x["op"] == "==") == (lab is True):
                            return (F, o[1], o[2], o[3], o[4])
                        return o
                # null test of a source pointer: on the null branch the copy is null as well
                st = (set(o[0]), set(o[1]), None, dict(o[3]))
                pol, y = self_.nulltest(x)
                neg = not pol
                fld = memof(y, issrc, st)
                if fld is not None and self_.isptr(rec, fld):
                    isnull = (lab is False) != neg
                    if isnull:
                        tr = set(o[0])
                        # a constructor's default-initialised smart pointer is already null
                        if f.get("ctor") and self_.smart(rec, fld) and not self_.written_init(f, fld):
                            tr.add(fld)
                        return (frozenset(tr), o[1], o[2], o[3], o[4] | {fld})
            # a loop copying element-wise counts as executed
            if n.kind in ("rfor", "cond") and lab is False:
                for lp in cfg.loops:
                    if lp["kind"] in ("for", "rfor", "while") and (lp["head"] is n or (n.kind == "cond" and lp["rng"][0] <= n.id < lp["rng"][1])):
                        b = bodyfields(lp, o)
                        if b:
                            return (frozenset(set(o[0]) | b), o[1], o[2], o[3], o[4])
            return o

        lbm = {}

        def bodyfields(lp, o):
            """fields whose elements are all assigned from the source inside the loop"""
            key = (lp["head"].id, o[1])
            if key in lbm:
                return lbm[key]
            lbm[key] = set()
            lo, hi = lp["rng"]
            res = set()
            base = (frozenset(), o[1], o[2], o[3], o[4])
            s = base
            bad = set()
            for m in cfg.nodes[lo:hi]:
                if m.id not in cfg.reach or m.kind == "cond":
                    continue
                before = s[0]
                s = transfer(m, s)
            res = set(s[0])
            lbm[key] = res
            return res

        init = (frozenset(), frozenset(src0), frozenset(), (), frozenset())

        def join(a, b):
            return (a[0] & b[0], a[1] & b[1], a[2] & b[2], tuple(sorted(set(a[3]) & set(b[3]))), a[4] & b[4])
        inn, out = cfg.forward(init, transfer, join, edge)
        if cfg.exit.id not in inn:
            return (F, [])
        got = inn[cfg.exit.id][0]
        bad = []
        for lab, p in cfg.exit.pred:
            if p.id in out:
                miss = F - out[p.id][0]
                if miss:
                    bad.append((p.line, sorted(miss)))
        return (got, bad)

    def callsum(self, e, g, rec, st, isdst, issrc, tr, F, depth, ctor_this=False):
        """apply the effect of a library call: what it transfers, then what else it may overwrite"""
        P = self.P
        a = e["a"]
        obj = e.get("obj")
        dstrole, srcroles = None, []
        if ctor_this or (obj is not None and isdst(obj, st)):
            dstrole = "this"
        elif obj is not None and issrc(obj, st):
            srcroles.append("this")
        for i, x in enumerate(a):
            if i >= len(g["params"]):
                break
            if isdst(x, st) and P.is_ref(g["params"][i]["vt"]) or (isdst(x, st) and "ptr" in P.ty(g["params"][i]["vt"])):
                dstrole = g["params"][i]["d"]
            elif issrc(x, st):
                srcroles.append(g["params"][i]["d"])
        if dstrole is None:
            # a member function on a field of dst etc: handled by effects
            sm = self.A.summary(e["fn"])
            for (r, s_) in sm.mods:
                pass
            return
        sm = self.A.summary(e["fn"])
        mods = set()
        allm = False
        for (r, s_) in sm.mods:
            hit = (r == ("this",) and dstrole == "this") or (r[0] == "p" and dstrole == g["params"][r[1]]["d"])
            if hit:
                if s_:
                    mods.add(s_[0])
                else:
                    allm = True
        got = frozenset()
        if srcroles and depth < 5 and g.get("body") is not None or g.get("inits"):
            if srcroles:
                got = self.run(g, rec, dstrole, srcroles, depth + 1)[0]
        if g.get("defaulted") and srcroles and g.get("sp"):
            got = F
        if ctor_this:
            allm = True
        kill = set(F) if allm else mods
        tr -= {x for x in kill if x not in got}
        tr |= set(got)
        if not srcroles:
            # recomputation of derived data from the object's own (already transferred) fields
            for fld in mods:
                if fld in DERIVED:
                    tr.add(fld)

    def nulltest(self, c):
        """(True, p) if the condition means 'p is not null', (False, p) for 'p is null'"""
        y = strip(c)
        if y["k"] == "un" and y["op"] == "!":
            pol, z = self.nulltest(y["e"])
            return not pol, z
        if y["k"] == "bin" and y["op"] in ("==", "!=") and (self.nullish(y["a"]) or self.nullish(y["b"])):
            return y["op"] == "!=", (y["b"] if self.nullish(y["a"]) else y["a"])
        if y["k"] == "call" and y.get("n") == "operator bool" and y.get("obj") is not None:
            return True, y["obj"]
        if y["k"] == "call" and y.get("n") in ("operator==", "operator!="):
            ops = ([y["obj"]] if y.get("obj") is not None else []) + y["a"]
            nn = [q for q in ops if not self.nullish(q)]
            if len(ops) == 2 and len(nn) == 1:
                return y["n"] == "operator!=", nn[0]
        return True, y

    def clone_of(self, g, rec, fld):
        ft = self._ft(rec, fld).get("s")
        if ft is None or self.P.ty(g["rt"]).get("s") != ft or g.get("body") is None:
            return False
        return any(e.get("k") == "mem" and e["n"] == fld and strip(e["b"])["k"] == "this" for e in walk(g["body"]))

    def accessor(self, g):
        """field returned by a trivial accessor"""
        b = g.get("body")
        if not b or len(b.get("b", [])) != 1 or b["b"][0]["k"] != "ret":
            return None
        x = strip(b["b"][0]["e"])
        while x is not None and x["k"] == "ctor" and len(x["a"]) == 1:
            x = strip(x["a"][0])
        if x is not None and x["k"] == "mem" and strip(x["b"])["k"] == "this":
            return x["n"]
        return None

    def nullish(self, e):
        e = strip(e)
        while e is not None and e["k"] == "ctor" and len(e["a"]) <= 1:
            if not e["a"]:
                return True
            e = strip(e["a"][0])
        if e is not None and e["k"] == "list" and not e["a"]:
            return True
        return e is not None and (e["k"] in ("null", "zero") or (e["k"] == "int" and e["v"] == 0))

    def _ft(self, rec, fld):
        for x in rec["fields"]:
            if x["n"] == fld:
                return self.P.ty(x["vt"])
        return {}

    def isptr(self, rec, fld):
        t = self._ft(rec, fld)
        return "ptr" in t or t.get("c") == "ptr" or "unique_ptr<" in t.get("s", "") or "shared_ptr<" in t.get("s", "")

    def smart(self, rec, fld):
        s = self._ft(rec, fld).get("s", "")
        return s.startswith("std::unique_ptr<") or s.startswith("std::shared_ptr<")

    def written_init(self, f, fld):
        return any(i.get("n") == fld and i.get("written") for i in f.get("inits", []))


class Owning:
    """which raw pointer members a class's destructor releases (directly or through functions that release the
    pointer they are given)"""

    def __init__(self, P):
        self.P = P
        self.pm = {}

    def body(self, f):
        for i in f.get("inits") or []:
            yield from walk(i["e"])
        if f.get("body") is not None:
            yield from walk(f["body"])

    def released(self, f):
        """(expression) operands released in f, plus operands passed on to releasing parameters"""
        for e in self.body(f):
            if e.get("k") == "delete":
                yield e["e"]
            elif e.get("k") == "call":
                if e.get("n") in ("free", "cfree", "deallocate") and not e.get("root") and e.get("a"):
                    yield e["a"][0]
                elif isinstance(e.get("fn"), int) and e["fn"] in self.P.funcs:
                    g = self.P.funcs[e["fn"]]
                    ps = self.params(g)
                    for i, x in enumerate(e.get("a", [])):
                        if i in ps:
                            yield x

    def params(self, g):
        if g["id"] in self.pm:
            return self.pm[g["id"]]
        self.pm[g["id"]] = set()
        ds = {p["d"]: i for i, p in enumerate(g["params"])}
        out = set()
        for x in self.released(g):
            x = strip(x)
            while x is not None and x["k"] == "cast":
                x = strip(x["e"])
            if x is not None and x["k"] == "ref" and x["d"] in ds:
                out.add(ds[x["d"]])
        self.pm[g["id"]] = out
        return out

    def this_field(self, x):
        x = strip(x)
        while x is not None and x["k"] == "cast":
            x = strip(x["e"])
        if x is not None and x["k"] == "mem" and strip(x["b"])["k"] == "this":
            return x["n"]
        return None

    def fields(self, f, seen=None):
        seen = seen if seen is not None else set()
        if f["id"] in seen:
            return set()
        seen.add(f["id"])
        out = set()
        al = {}
        for e in self.body(f):
            if e.get("k") == "decl" and isinstance(e.get("vars"), list):
                for v in e["vars"]:
                    fl = self.this_field(v["init"]) if v.get("init") else None
                    if fl:
                        al[v["d"]] = fl
        for x in self.released(f):
            fl = self.this_field(x)
            if fl is None:
                y = strip(x)
                fl = al.get(y.get("d")) if y is not None and y["k"] == "ref" else None
            if fl:
                out.add(fl)
        for e in self.body(f):
            if e.get("k") == "call" and e.get("obj") is not None and strip(e["obj"])["k"] == "this" and e.get("fn") in self.P.funcs:
                out |= self.fields(self.P.funcs[e["fn"]], seen)
        return out


def plain_member(e):
    """name of the member if e is just <object>.F"""
    e = strip(e)
    while e is not None and (e["k"] == "cast" or (e["k"] == "list" and len(e["a"]) == 1)):
        e = strip(e["e"] if e["k"] == "cast" else e["a"][0])
    if e is not None and e["k"] == "mem" and strip(e["b"])["k"] == "ref":
        return e["n"], strip(e["b"])["d"]
    return None, None


def run(tier):
    P = load()
    R = Result("C03")
    R.rule("owning-pointer", "a class whose destructor releases a raw pointer member has no compiler-generated copy operation "
           "(it would share the member and release it twice), and its own copy operations do not store the source's pointer")
    R.rule("field-transferred", "on every path to a normal return of a user-provided copy/move constructor or assignment, the field "
           "holds a copy of the same field of the source (cached bounding data may be recomputed instead)")
    R.rule("defaulted-member-wise", "a compiler-generated copy/move is member-wise by definition; bit-fields, references and "
           "raw owning pointers are excluded by the rule owning-pointer")
    A = EFF.Effects(P)
    X = Xfer(P, A)
    recs = {r["qn"]: r for r in P.records.values() if (r["root"] or r.get("proot")) and not r["lambda"]}
    O = Owning(P)
    nown = 0
    for r in recs.values():
        owned = set()
        for f in P.root:
            if f.get("dtor") and f.get("clsid") == r["id"]:
                owned |= O.fields(f)
        owned &= {x["n"] for x in r["fields"] if "ptr" in P.ty(x["vt"]) or P.ty(x["vt"]).get("s", "").endswith("*")}
        where = "%s:%s" % (r.get("file", ""), r.get("line", ""))
        if not owned:
            R.check("owning-pointer", r["qn"][:80], where, True, "the destructor releases no raw pointer member")
            continue
        nown += 1
        for k in ("copyctor", "copyassign"):
            R.check("owning-pointer", "%s %s" % (r["qn"][:80], k), where, r.get(k) in ("user", "deleted", "none"),
                    "the destructor releases %s, but the %s is generated by the compiler and shares it" % (
                        sorted(owned), {"copyctor": "copy constructor", "copyassign": "copy assignment"}[k]))
        for f in P.root:
            if f.get("clsid") != r["id"] or f.get("sp") not in ("copyctor", "copyassign") or f.get("defaulted"):
                continue
            src = f["params"][0]["d"] if P.is_ref(f["params"][0]["vt"]) else None
            bad = []
            for i in f.get("inits") or []:
                if i.get("n") in owned and plain_member(i["e"]) == (i["n"], src):
                    bad.append(i.get("l"))
            for e in O.body(f):
                if e.get("k") == "asg" and e["op"] == "=" and O.this_field(e["a"]) in owned and plain_member(e["b"]) == (O.this_field(e["a"]), src):
                    bad.append(e.get("l"))
            R.check("owning-pointer", "%s %s stores its own" % (r["qn"][:80], f["sp"]), P.where(f), not bad,
                    "the pointer of the source is stored (line %s) although the destructor releases it" % bad)
    n = 0
    for f in P.root:
        if f.get("sp") not in ("copyctor", "movector", "copyassign", "moveassign"):
            continue
        if f.get("cls") not in recs:
            continue
        rec = recs[f["cls"]]
        if f.get("defaulted") or f.get("implicit"):
            R.check("defaulted-member-wise", "%s %s" % (f["cls"][:80], f["sp"]), P.where(f), True, "%d fields" % len(rec["fields"]))
            continue
        if f.get("body") is None and not f.get("inits"):
            continue
        n += 1
        got, bad = X.run(f, rec, "this", [f["params"][0]["d"]])
        for fld in [x["n"] for x in rec["fields"]]:
            lines = sorted({l for l, m in bad if fld in m and l})
            R.check("field-transferred", "%s %s: %s" % (f["cls"], f["sp"], fld), P.where(f), fld in got,
                    "'%s' does not hold the source's value at return%s" % (fld, " (line %s)" % lines if lines else ""))
    # classes whose copy operations confirmed by hand to carry data must still be found
    for c in ("cmmcore::NURBSCurve", "cmmcore::NURBSSurface", "cmmcore::Monomial2D", "cmmcore::BVHNode", "cmmcore::AABB"):
        if c not in recs:
            raise AnalysisError("class %s not found" % c)
    R.stats = {"owning_classes": nown, "user_provided_special_members": n, "records": len(recs)}
    R.floor("field-transferred", 10)
    R.floor("owning-pointer", 15)
    R.assumptions = ["copying a standard-library value or a memberwise-copied class yields an equal value"]
    return R
