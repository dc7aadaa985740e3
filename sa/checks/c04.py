"""C04 derived-data coherence: dirty-bit typestate over every operation that can change a curve or a surface."""
import os
from core import *
from report import Result
import effects as EFF
import loops as loops_

TRACK = {
    "cmmcore::NURBSCurve": {
        "src": {"knots": ["lo", "hi"], "control_points": ["box"]},
        "der": {"_interval": {0: ["lo"], 1: ["hi"], None: ["lo", "hi"]}, "_aabb": {None: ["box"]}},
    },
    "cmmcore::NURBSSurface": {
        "src": {"_knots_u": ["ulo", "uhi"], "_knots_v": ["vlo", "vhi"], "_control_points": ["size", "box"]},
        "der": {"_interval": {(0, 0): ["ulo"], (0, 1): ["uhi"], (1, 0): ["vlo"], (1, 1): ["vhi"], (0,): ["ulo", "uhi"], (1,): ["vlo", "vhi"],
                              None: ["ulo", "uhi", "vlo", "vhi"]}, "_aabb": {None: ["box"]}, "_size": {None: ["size"]}},
    },
    "cmmcore::Monomial2D": {
        "src": {"n": ["Mu"], "m": ["Mv"], "Mu": ["Mui"], "Mv": ["Mvi"], "coefficients": ["dims"]},
        "der": {"Mu": {None: ["Mu"]}, "Mv": {None: ["Mv"]}, "Mu_inv": {None: ["Mui"]}, "Mv_inv": {None: ["Mvi"]},
                "n": {None: []}, "m": {None: []}},
    },
}
NAMES = {"lo": "start of parameter interval", "hi": "end of parameter interval", "box": "bounding box", "size": "grid size",
         "ulo": "start of u interval", "uhi": "end of u interval", "vlo": "start of v interval", "vhi": "end of v interval",
         "Mu": "u basis matrix", "Mv": "v basis matrix", "Mui": "inverse u basis matrix", "Mvi": "inverse v basis matrix"}
# low-level building blocks whose contract is to leave part of the object to the caller, confirmed by reading
EXEMPT = {
    ("cmmcore::NURBSCurve::NURBSCurve", "box", 3, "cpt_size"): "blank curve: its control points carry no weight yet, so no box exists",
}
SIZE_ELEM_OK = True
CLS = {k: k.split("::")[-1] for k in TRACK}
ALLSRC = {f for t in TRACK.values() for f in t["src"]}
ALLDER = {f for t in TRACK.values() for f in t["der"]}


class Coh:
    def __init__(self, P, A):
        self.P, self.A = P, A
        self.memo = {}
        self.stack = set()
        self.trec = {}
        for r in P.root_records:
            if r["qn"] in TRACK:
                self.trec[r["id"]] = r["qn"]

    # ---- typing of paths
    def rootty(self, f, root):
        if root[0] == "this":
            return f.get("cls")
        return None

    def clsof(self, f, fe, root, steps):
        """class name of object at (root, steps) or None"""
        if root[0] == "this":
            r = self.P.recname.get(f.get("cls"))
            t = None
        elif root[0] == "p":
            t = f["params"][root[1]]["vt"]
        elif root[0] == "l":
            t = self.ltypes(f).get(root[1])
            if t is None:
                return None
        elif root[0] == "ret":
            t = f["rt"]
        else:
            return None
        if t is not None:
            u = self.P.ty(t)
            if "ref" in u:
                u = self.P.types[u["u"]]
        else:
            u = {"rec": r["id"] if r else None, "name": f.get("cls")}
        for s in steps:
            if s == "[]":
                if u.get("c") == "arr":
                    u = self.P.types[u["u"]]
                elif u.get("targs") and isinstance(u["targs"][0], int):
                    u = self.P.types[u["targs"][0]]
                else:
                    return None
            elif s == "*":
                if "u" in u:
                    u = self.P.types[u["u"]]
                elif u.get("targs") and isinstance(u["targs"][0], int):
                    u = self.P.types[u["targs"][0]]
                else:
                    return None
            elif s.startswith("#"):
                ta = u.get("targs") or []
                i = int(s[1:])
                if u.get("s", "").replace("const ", "").startswith("std::array<"):
                    i = 0
                if i < len(ta) and isinstance(ta[i], int):
                    u = self.P.types[ta[i]]
                else:
                    return None
            elif s in ("first", "second") and u.get("targs"):
                u = self.P.types[u["targs"][0 if s == "first" else 1]]
            else:
                r = self.P.records.get(u.get("rec"))
                if r is None:
                    return None
                ft = [x["vt"] for x in r["fields"] if x["n"] == s]
                if not ft:
                    return None
                u = self.P.ty(ft[0])
                if "ref" in u:
                    u = self.P.types[u["u"]]
        nm = u.get("name") or u.get("s", "")
        r = self.P.records.get(u.get("rec"))
        if r is not None and r["qn"] in TRACK:
            return r["qn"]
        return None

    def ltypes(self, f):
        if "_lt" not in f:
            d = {}
            fe = self.A.fn.get(f["id"])
            nodes = fe.all_nodes() if fe else list(walk_fn(f))
            for n in nodes:
                if n.get("k") == "decl":
                    for v in n["v"]:
                        d[v["d"]] = v["vt"]
                elif n.get("k") == "rfor":
                    d[n["var"]["d"]] = n["var"]["vt"]
                elif n.get("k") == "lambda":
                    lf = self.P.funcs.get(n["fn"])
                    for p in (lf or {}).get("params", []):
                        d[p["d"]] = p["vt"]
            f["_lt"] = d
        return f["_lt"]

    def split(self, f, fe, path):
        """path -> (object path, class, field, rest) if it lies inside a tracked object"""
        root, steps = path
        for i, s in enumerate(steps):
            if s in ALLSRC or s in ALLDER:
                c = self.clsof(f, fe, root, steps[:i])
                if c:
                    return (root, steps[:i]), c, s, steps[i + 1:]
        return None

    def bits(self, cls):
        return sorted({b for bs in TRACK[cls]["src"].values() for b in bs} - {"dims"})

    # ---- per function analysis
    def summary(self, f):
        """obj path (callee coords) -> {bit: subset of {'D','I'}} at normal exit (absent: {'I'}), plus returned-object bits"""
        k = f["id"]
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            return ({}, {}, [])
        self.stack.add(k)
        r = self.analyse(f)
        self.stack.discard(k)
        self.memo[k] = r
        return r

    def relevant(self, f):
        return True

    def analyse(self, f):
        P, A = self.P, self.A
        fe = A.fn.get(f["id"])
        if fe is None or (f.get("body") is None and not f.get("inits")):
            return ({}, {}, [])
        # quick skip: nothing tracked can be touched
        cfg = P.cfg(f)
        me = self
        isctor = f.get("ctor")
        why = {}

        def get(st, obj, bit):
            v = st.get((obj, bit))
            if v is None:
                if obj[0][0] == "l" or obj[0][0] == "t":
                    return frozenset()
                if obj == (("this",), ()) and isctor:
                    return frozenset()
                return frozenset("I")
            return v

        def dirty(st, obj, cls, fld, rest, line):
            structural = True
            for b in TRACK[cls]["src"].get(fld, []):
                if b == "dims":
                    continue
                if b == "size" and len([x for x in rest if x == "[]"]) >= 2:
                    continue        # a coordinate write cannot change the grid size
                if b == "size" and rest and rest[0] == "[]" and len(rest) == 1 and self.elem_same_size:
                    continue
                st[(obj, b)] = frozenset("D")
                why.setdefault((obj, b), []).append(line)

        def clean(st, obj, cls, fld, comps):
            tab = TRACK[cls]["der"].get(fld)
            if tab is None:
                return
            key = None
            if comps:
                key = comps if comps in tab else (comps[0] if comps[0] in tab else (comps[:1] if comps[:1] in tab else None))
            for b in tab.get(key, tab[None]):
                st[(obj, b)] = frozenset()

        def comps_of(e):
            """constant index components applied after the member access"""
            c = []
            e = strip(e)
            while e is not None:
                if e["k"] == "mem":
                    return tuple(reversed(c))
                if e["k"] == "idx":
                    i = strip(e["i"])
                    if i["k"] != "int":
                        return ()
                    c.append(i["v"])
                    e = strip(e["b"])
                elif e["k"] == "call" and e.get("n") in ("operator[]", "at") and e.get("obj") is not None:
                    i = strip(e["a"][0])
                    if i["k"] != "int":
                        return ()
                    c.append(i["v"])
                    e = strip(e["obj"])
                elif e["k"] == "call" and e.get("n") == "get" and e.get("a"):
                    return ()
                elif e["k"] == "call" and e.get("n") in ("front", "back") and e.get("obj") is not None:
                    c.append(0 if e["n"] == "front" else 1)
                    e = strip(e["obj"])
                elif e["k"] == "un":
                    e = strip(e["e"])
                else:
                    return ()
            return ()

        def write(st, paths, line, comps=()):
            for p in sorted(paths, key=str):
                sp = me.split(f, fe, p)
                if sp is None:
                    # whole-object or container overwrite handled by the callers
                    continue
                obj, cls, fld, rest = sp
                if fld in TRACK[cls]["der"]:
                    clean(st, obj, cls, fld, comps)
                if fld in TRACK[cls]["src"]:
                    dirty(st, obj, cls, fld, rest, line)

        def objs(paths):
            out = []
            for p in sorted(paths, key=str):
                c = me.clsof(f, fe, p[0], p[1])
                if c:
                    out.append((p, c))
            return out

        def copystate(st, dst, cls, srcs, weak=False):
            for b in me.bits(cls):
                v = frozenset()
                for s in srcs:
                    v |= get(st, s, b)
                if weak:
                    v |= get(st, dst, b)
                st[(dst, b)] = v
                for s in srcs:
                    if "D" in v and why.get((s, b)):
                        why.setdefault((dst, b), []).extend(why[(s, b)])

        def valueobjs(e):
            """tracked objects whose value the expression yields (through copies, moves, aggregates)"""
            x = strip(e)
            if x is None:
                return []
            if x["k"] == "call" and x.get("root"):
                return []
            if x["k"] == "ctor" and x.get("cp") not in ("copy", "move") and x.get("cls") in TRACK:
                return []
            if x["k"] in ("ctor", "list"):
                r = []
                for a in x["a"]:
                    r += valueobjs(a)
                return r
            if x["k"] == "call" and x.get("n") in ("move", "forward", "make_pair", "make_tuple", "tie"):
                r = []
                for a in x["a"]:
                    r += valueobjs(a)
                return r
            if x["k"] == "cond":
                return valueobjs(x["a"]) + valueobjs(x["b"])
            if x["k"] in ("ref", "mem", "idx", "un", "call"):
                return objs(fe.lv(x))
            return []

        def retbits(e, st):
            """bits of a fresh object produced by e (call or constructor)"""
            x = strip(e)
            while x is not None and x["k"] == "ctor" and x.get("cp") in ("copy", "move") and len(x["a"]) == 1:
                x = strip(x["a"][0])
            if x is None:
                return {}
            if x["k"] == "ctor" and x.get("root") and x.get("cls") in TRACK and x["fn"] in P.funcs:
                sm = me.summary(P.funcs[x["fn"]])[0]
                return {b: v for (o, b), v in sm.items() if o == (("this",), ())}
            if x["k"] == "call" and x.get("root") and x["fn"] in P.funcs:
                g = P.funcs[x["fn"]]
                if me.obligated(g):
                    return {}
                return me.summary(g)[1]
            return {}

        def visit(e, st):
            if e is None or e.get("k") == "lambda":
                if e is not None and e.get("k") == "lambda":
                    lf = P.funcs.get(e["fn"])
                    if lf and lf.get("body"):
                        visit_stmt(lf["body"], st)
                return
            if "k" not in e:
                return
            for c in kids(e):
                visit(c, st)
            k = e["k"]
            line = e.get("l")
            if k == "asg":
                write(st, fe.lv(e["a"]), line, comps_of(e["a"]))
            elif k == "un" and e["op"] in ("++", "--"):
                write(st, fe.lv(e["e"]), line, comps_of(e["e"]))
            elif k in ("call", "ctor"):
                call(e, st)

        def visit_stmt(s, st):
            if s is None:
                return
            if s.get("k") == "decl":
                for v in s["v"]:
                    declare(v, st)
                return
            if s.get("k") in ("block", "if", "for", "while", "do", "rfor", "expr", "ret", "switch", "case", "default", "try", "label", "otherst"):
                for c in kids(s):
                    visit_stmt(c, st)
                return
            visit(s, st)

        def call(e, st):
            n = e.get("n", "")
            obj = e.get("obj")
            line = e.get("l")
            a = e["a"]
            if e["k"] == "call" and n == "operator=" and obj is not None:
                dst = objs(fe.lv(obj))
                if dst:
                    src = [o for o, _ in valueobjs(a[0])] if a else []
                    rb = retbits(a[0], st) if a else {}
                    for d, c in dst:
                        copystate(st, d, c, src)
                        for b, v in rb.items():
                            st[(d, b)] = st[(d, b)] | v
                    return
                write(st, fe.lv(obj), line, comps_of(obj))
                return
            if e["k"] == "ctor" and e.get("cp") in ("copy", "move"):
                return
            if e.get("root"):
                if e["k"] == "call" and e["fn"] in A.lamfns:
                    return
                g = P.funcs.get(e["fn"])
                if g is None:
                    return
                sm, rb, _ = me.summary(g)
                done = set()
                pend = {}
                for (co, b), v in sorted(sm.items(), key=str):
                    for (r2, s2) in fe.mapin(e, co):
                        if r2[0] == "t":
                            continue
                        cls = me.clsof(f, fe, r2, s2)
                        if cls is None:
                            continue
                        o = (r2, s2)
                        nv = frozenset("D") if "D" in v else frozenset()
                        if "I" in v:
                            nv |= get(st, o, b)
                        pend[(o, b)] = pend.get((o, b), frozenset()) | nv
                        if "D" in v:
                            why.setdefault((o, b), []).append(line)
                st.update(pend)
                # fields handed to the callee directly (out-parameters that alias a field)
                direct = set()
                for p in A.summary(e["fn"]).mods:
                    ge = A.fn.get(e["fn"])
                    if ge is not None and me.split(g, ge, p) is not None:
                        continue
                    direct |= fe.mapin(e, p)
                write(st, direct, line)
                # whole-object out-parameters
                return
            if obj is not None and n in ("push_back", "emplace_back", "insert", "emplace", "push") and a:
                for (r2, s2) in fe.lv(obj) if not e.get("arrow") else fe.pv(obj):
                    el = (r2, s2 + ("[]",))
                    c = me.clsof(f, fe, *el)
                    if c:
                        for x in a:
                            for o, _ in valueobjs(x):
                                copystate(st, el, c, [o], weak=True)
                            for b, v in retbits(x, st).items():
                                st[(el, b)] = get(st, el, b) | v
            if n in ("swap", "exchange") and len(a) == 2 and obj is None:
                l, r = objs(fe.lv(a[0])), objs(fe.lv(a[1]))
                if l and r:
                    for b in me.bits(l[0][1]):
                        u = get(st, l[0][0], b) | get(st, r[0][0], b)
                        st[(l[0][0], b)] = st[(r[0][0], b)] = u
                    return
            m = fe.node_mods(e)
            if m:
                write(st, m, line, ())

        def declare(v, st):
            if v.get("init") is None:
                return
            visit(v["init"], st)
            if "bind" in v and not P.is_ref(v["vt"]):
                for b in v["bind"]:
                    c = me.clsof(f, fe, ("l", v["d"]), ("#%d" % b["i"],))
                    if c:
                        for bit in me.bits(c):
                            st[((("l", v["d"]), ("#%d" % b["i"],)), bit)] = frozenset()
                        for bit, vv in retbits(v["init"], st).items():
                            st[((("l", v["d"]), ("#%d" % b["i"],)), bit)] = vv
                return
            if P.is_ref(v["vt"]):
                return
            o = (("l", v["d"]), ())
            c = me.clsof(f, fe, *o)
            if c:
                copystate(st, o, c, [s for s, _ in valueobjs(v["init"])])
                for b, vv in retbits(v["init"], st).items():
                    st[(o, b)] = st.get((o, b), frozenset()) | vv

        rets = []

        def transfer(n, s):
            st = dict(s)
            if n.kind == "decl":
                declare(n.e, st)
            elif n.kind == "init":
                i = n.e
                if i.get("deleg"):
                    x = strip(i["e"])
                    for y in x.get("a", []):
                        visit(y, st)
                    if x["k"] == "ctor" and x["fn"] in P.funcs:
                        for (co, b), v in me.summary(P.funcs[x["fn"]])[0].items():
                            if co == (("this",), ()):
                                st[(co, b)] = frozenset("D") if "D" in v else frozenset()
                elif "n" in i:
                    visit(i.get("e"), st)
                    if i.get("written"):
                        write(st, {(("this",), (i["n"],))}, i.get("l"))
            elif n.kind in ("expr", "cond", "switch", "throw"):
                visit(n.e, st)
            elif n.kind == "rforinit":
                visit(n.e["range"], st)
            elif n.kind == "ret":
                visit(n.e, st)
                if n.e is not None and not P.is_ref(f["rt"]):
                    for o, c in valueobjs(n.e):
                        for b in me.bits(c):
                            v = get(st, o, b)
                            if why.get((o, b)):
                                why.setdefault(((("ret",), ()), b), []).extend(why[(o, b)])
                            key = ((("ret",), ()), b)
                            st[key] = st.get(key, frozenset()) | (v & frozenset("D"))
                    for b, v in retbits(n.e, st).items():
                        key = ((("ret",), ()), b)
                        st[key] = st.get(key, frozenset()) | (v & frozenset("D"))
            return frozenset(st.items())

        def join(a, b):
            if a == b:
                return a
            x, y = dict(a), dict(b)
            out = {}
            for k in set(x) | set(y):
                out[k] = get(x, *k) | get(y, *k)
            return frozenset(out.items())

        init = {}
        inn, out = cfg.forward(frozenset(init.items()), transfer, join)
        ex = dict(inn.get(cfg.exit.id, frozenset()))
        res, ret = {}, {}
        for (o, b), v in ex.items():
            if o == (("ret",), ()):
                ret[b] = v
            elif o[0][0] in ("this", "p", "g"):
                if o[0][0] == "p" and not P.is_ref(f["params"][o[0][1]]["vt"]) and "*" not in o[1]:
                    continue
                res[(o, b)] = v
        return (res, ret, why)

    def obligated(self, f):
        return f["qn"] in self.api or not self.callers.get(f["id"])

    elem_same_size = True


def grid_writes(P):
    pass


def covers_all(P, A, R):
    """every function that rebuilds a bounding box from scratch visits every control point"""
    n = 0
    for f in P.root:
        if f.get("lambda") or f.get("body") is None:
            continue
        if f.get("cls") not in ("cmmcore::NURBSCurve", "cmmcore::NURBSSurface"):
            continue
        cps = {"cmmcore::NURBSCurve": ("control_points", 1), "cmmcore::NURBSSurface": ("_control_points", 2)}[f["cls"]]
        exps = []
        for node, loops, conds in nest(f["body"]):
            if node.get("k") == "call" and node.get("n") == "expand" and node.get("obj") is not None:
                exps.append((node, loops, conds))
        if not exps:
            continue
        box = None
        ok_any, msgs = False, []
        for node, loops, conds in exps:
            ok, msg = full(P, f, node, loops, conds, cps)
            ok_any |= ok
            msgs.append(msg)
        n += 1
        if ok_any:
            ok_any, m2 = reset_first(exps[0][0], f)
            msgs.append(m2)
        R.check("box-covers-all", P.fname(f), P.where(f, exps[0][0].get("l")), ok_any, "; ".join(m for m in msgs if m))
    return n


def reset_first(call, f):
    """a member box is emptied or seeded before points are added, so nothing stale survives"""
    o = strip(call["obj"])
    if o["k"] != "mem":
        return True, ""
    name = o["n"]
    got = set()
    for node, loops, conds in nest(f["body"]):
        if node is call:
            break
        if conds or loops:
            continue
        t = None
        if node.get("k") == "asg" and node["op"] == "=":
            t = node["a"]
        elif node.get("k") == "call" and node.get("n") in ("operator=", "set") and node.get("obj") is not None:
            t = node["obj"]
        elif node.get("k") == "call" and node.get("obj") is not None and not node.get("mconst") and strip(node["obj"]).get("n") == name:
            got |= {"min", "max"}
        t = strip(t)
        if t is None or t["k"] != "mem":
            continue
        if t["n"] == name:
            got |= {"min", "max"}
        elif t["n"] in ("min", "max") and strip(t["b"])["k"] == "mem" and strip(t["b"])["n"] == name:
            got.add(t["n"])
    miss = {"min", "max"} - got
    return not miss, ("the stored box is expanded without first being reset (%s)" % ", ".join(sorted(miss))) if miss else ""


def nest(body):
    """all nodes with their enclosing loops and conditions"""
    out = []

    def go(n, loops, conds):
        if n is None:
            return
        k = n.get("k")
        out.append((n, loops, conds))
        if k in ("for", "while", "do", "rfor"):
            for key in ("init", "c", "inc", "range", "var"):
                if isinstance(n.get(key), dict):
                    go(n[key], loops, conds)
            go(n.get("b"), loops + [n], conds)
            return
        if k == "if":
            go(n.get("c"), loops, conds)
            go(n.get("a"), loops, conds + [n])
            go(n.get("b"), loops, conds + [n])
            return
        for c in kids(n):
            go(c, loops, conds)
    go(body, [], [])
    return out


def full(P, f, node, loops, conds, cps):
    field, dims = cps
    if conds:
        return False, "control points are added to the box only conditionally (line %s)" % conds[0].get("l")
    if len(loops) != dims:
        return False, "box is built inside %d nested loops, expected %d" % (len(loops), dims)
    for lp in loops:
        for x in walk(lp.get("b")):
            if x.get("k") in ("break", "ret") or (x.get("k") == "cont"):
                return False, "loop over control points can be left early (line %s)" % x.get("l")
        if lp["k"] == "rfor":
            continue
        lr = [l for l in P.cfg(f).loops if l["s"] is lp]
        cs = loops_.counted(P, P.cfg(f), lr[0]) if lr else []
        if not cs:
            return False, "loop over control points is not a counted loop (line %s)" % lp.get("l")
        best = ""
        for c in cs:
            iv = c["init"]
            iv0 = loops_.intlit(iv) if iv is not None else None
            it = strip(iv) if iv is not None else None
            while it is not None and it["k"] == "ctor" and len(it["a"]) == 1:
                it = strip(it["a"][0])
            start_ok = iv0 == 0 or (iv0 == 1 and dims == 1) or (it is not None and it["k"] == "call" and it.get("n") in ("begin", "cbegin"))
            if not start_ok:
                best = "loop over control points does not start at the first one (line %s)" % lp.get("l")
                continue
            if not (c["every"] and c.get("min") == 1 and c.get("max") == 1 and len(c["steps"]) == 1):
                best = "loop over control points skips some (line %s)" % lp.get("l")
                continue
            if c["op"] in ("<", "!=") and any(x.get("k") == "bin" and x["op"] in ("-", "/") for t in loops_.expand(f, c["bound"]) for x in walk(t)):
                best = "loop over control points ends before the last one (line %s)" % lp.get("l")
                continue
            best = None
            break
        if best:
            return False, best
    return True, ""


LOFORM, HIFORM = "first/smallest knot", "last/largest knot"


def end_form(P, e):
    """which end of which knot vector an expression denotes: ('lo'|'hi', field name) or None"""
    e = strip(e)
    if e is None:
        return None
    k = e["k"]
    if k == "ctor" and len(e["a"]) == 1:
        return end_form(P, e["a"][0])

    def fieldof(x):
        x = strip(x)
        while x is not None and x["k"] == "ctor" and len(x["a"]) == 1:
            x = strip(x["a"][0])
        if x is not None and x["k"] == "mem":
            return x["n"]
        if x is not None and x["k"] == "ref":
            return x.get("n")
        return None

    def itform(x):
        """iterator expression: ('lo'|'hi'|'end', field)"""
        x = strip(x)
        while x is not None and x["k"] == "ctor" and len(x["a"]) == 1:
            x = strip(x["a"][0])
        if x is None:
            return None
        if x["k"] == "call":
            n = x.get("n")
            o = x.get("obj") if x.get("obj") is not None else (x["a"][0] if x.get("a") else None)
            if n in ("begin", "cbegin", "data"):
                return ("lo", fieldof(o))
            if n in ("rbegin", "crbegin"):
                return ("hi", fieldof(o))
            if n in ("end", "cend"):
                return ("end", fieldof(o))
            if n in ("min_element", "max_element") and x.get("a"):
                b = itform(x["a"][0])
                if b and b[0] == "lo" and (len(x["a"]) < 3):
                    return ("lo" if n == "min_element" else "hi", b[1])
                return None
            if n in ("operator-", "prev"):
                b = itform(o)
                amt = x["a"][-1] if (n == "operator-" or len(x["a"]) > 1) else None
                av = strip(amt).get("v") if amt is not None and strip(amt)["k"] == "int" else (1 if n == "prev" else None)
                if b and b[0] == "end" and av == 1:
                    return ("hi", b[1])
                if b and b[0] == "end" and av is not None:
                    return ("inner", b[1])
                return None
            if n in ("operator+", "next"):
                b = itform(o)
                return ("inner", b[1]) if b and b[0] == "lo" else None
        return None
    if k == "un" and e["op"] == "*":
        return itform(e["e"])
    if k == "call" and e.get("n") == "operator*" and e.get("obj") is not None:
        return itform(e["obj"])
    if k == "call" and e.get("n") in ("front", "back") and e.get("obj") is not None:
        return ("lo" if e["n"] == "front" else "hi", fieldof(e["obj"]))
    if k in ("call", "idx"):
        if k == "call" and e.get("n") not in ("operator[]", "at"):
            return None
        o = e.get("obj") if k == "call" else e["b"]
        i = strip(e["a"][0] if k == "call" else e["i"])
        it = itform(o)
        if it:
            return it if i["k"] == "int" and i["v"] == 0 else None
        fn = fieldof(o)
        if i["k"] == "int":
            return ("lo", fn) if i["v"] == 0 else ("inner", fn)
        if i["k"] == "bin" and i["op"] == "-" and strip(i["b"]).get("k") == "int":
            s = strip(i["a"])
            if s["k"] == "call" and s.get("n") == "size" and fieldof(s["obj"]) == fn:
                return ("hi", fn) if strip(i["b"])["v"] == 1 else ("inner", fn)
    return None


def interval_values(P, R):
    """a value stored into an interval slot comes from the matching end of the matching knot vector"""
    n = 0
    for f in P.root:
        if f.get("cls") not in ("cmmcore::NURBSCurve", "cmmcore::NURBSSurface"):
            continue
        surf = f["cls"].endswith("Surface")
        for x in walk_fn(f):
            if x.get("k") != "asg" or x["op"] != "=":
                continue
            c, t = [], strip(x["a"])
            while t is not None and t["k"] in ("idx", "call"):
                i = strip(t["i"] if t["k"] == "idx" else (t["a"][0] if t.get("a") else {"k": "?"}))
                if t["k"] == "call" and t.get("n") not in ("operator[]", "at"):
                    break
                c.append(i.get("v") if i["k"] == "int" else None)
                t = strip(t["b"] if t["k"] == "idx" else t["obj"])
            if t is None or t["k"] != "mem" or t["n"] != "_interval" or None in c:
                continue
            c = c[::-1]
            if len(c) != (2 if surf else 1):
                continue
            want = "lo" if c[-1] == 0 else "hi"
            fld = "knots" if not surf else ("_knots_u" if c[0] == 0 else "_knots_v")
            ef = end_form(P, x["b"])
            n += 1
            if ef is None or ef[1] not in ("knots", "_knots_u", "_knots_v"):
                continue
            R.check("interval-value", "%s %s" % (P.fname(f), "".join("[%d]" % q for q in c)), P.where(f, x.get("l")),
                    ef == (want, fld), "interval slot %s is set from the %s of %s" % (c, {"lo": "start", "hi": "end"}.get(ef[0], "interior"), ef[1]))
    return n


def run(tier):
    P = load()
    R = Result("C04")
    R.rule("coherent-at-exit", "no path from a write of knots / control points / dimensions to a normal exit of an operation "
           "avoids a later refresh of the data derived from them (interval, grid size, bounding box, basis matrices)")
    R.rule("box-covers-all", "a bounding box rebuilt from control points visits every one of them unconditionally")
    R.rule("interval-value", "an interval end is taken from the matching end of the matching knot vector")
    A = EFF.Effects(P)
    C = Coh(P, A)
    C.api = set(open(os.path.join(VERIF, "sa", "api.txt")).read().split("\n"))
    C.callers = {}
    for f in P.root:
        for n in walk_fn(f):
            if n.get("k") in ("call", "ctor") and n.get("root"):
                C.callers.setdefault(n["fn"], set()).add(f["id"])
    for f in P.root:
        if f.get("lambda") or f.get("defaulted") or f.get("implicit"):
            continue
        if f.get("sp") in ("copyctor", "movector", "copyassign", "moveassign"):
            continue     # decided by C03
        if not C.obligated(f):
            continue
        if f.get("body") is None and not f.get("inits"):
            continue
        res, ret, why = C.summary(f)
        fe = A.fn.get(f["id"])
        seen = {}
        for (o, b), v in list(res.items()) + [(((("ret",), ()), b), v) for b, v in ret.items()]:
            nm = ("result" if o[0][0] == "ret" else EFF.pstr(f, o))
            ex = [k for k in EXEMPT if k[0] == f["qn"] and k[1] == b and k[2] == len(f["params"]) and f["params"][0]["n"] == k[3]]
            if ex:
                R.check("exempt", "%s %s" % (P.fname(f), b), P.where(f), True, EXEMPT[ex[0]])
                continue
            lines = sorted({l for l in (why.get((o, b)) or []) if l})
            R.check("coherent-at-exit", "%s: %s of %s" % (P.fname(f), NAMES.get(b, b), nm), P.where(f, lines[0] if lines else None),
                    "D" not in v, "the %s may be out of date at return (changed at line %s)" % (NAMES.get(b, b), lines))
    nb = covers_all(P, A, R)
    ni = interval_values(P, R)
    R.stats = {"functions_summarised": len(C.memo), "box_builders": nb, "interval_writes": ni}
    R.floor("coherent-at-exit", 60)
    if nb + ni < 2:
        raise AnalysisError("no bounding-box builder and no interval refresh recognised")
    R.assumptions = ["code outside the library that writes through a non-const accessor or public field refreshes the derived data itself",
                     "rows of a control grid are replaced only by rows of the same length within one loop"]
    return R
