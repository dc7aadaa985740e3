"""Loop shapes: counted loops recognised on the CFG, whatever their syntax (for / while / do)."""
from core import *


def intlit(e):
    e = strip(e)
    while e is not None and e["k"] == "ctor" and len(e["a"]) == 1:
        e = strip(e["a"][0])
    if e is None:
        return None
    if e["k"] == "int":
        return e["v"]
    if e["k"] == "un" and e["op"] == "-":
        v = intlit(e["e"])
        return -v if v is not None else None
    return None


def var_of(e):
    e = strip(e)
    return e["d"] if e is not None and e["k"] == "ref" and e.get("vk") in ("local", "param") else None


def atoms(c):
    """conjuncts of a loop condition"""
    c2 = strip(c)
    if c2 is None:
        return []
    if c2["k"] == "bin" and c2["op"] == "&&":
        return atoms(c2["a"]) + atoms(c2["b"])
    return [c2]


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "==", "==": "!="}


def compare(a):
    """(var decl, op, bound expr) pairs of a comparison, both orientations"""
    out = []
    a = strip(a)
    if a is None:
        return out
    op = None
    if a["k"] == "bin" and a["op"] in FLIP:
        op, l, r = a["op"], a["a"], a["b"]
    elif a["k"] == "call" and a.get("op") in FLIP:
        ops = ([a["obj"]] if a.get("obj") is not None else []) + a["a"]
        if len(ops) == 2:
            op, l, r = a["op"], ops[0], ops[1]
    if op is None:
        return out
    for x, o, y in ((l, op, r), (r, FLIP[op], l)):
        v = var_of(x)
        if v is not None:
            out.append((v, o, y))
        x2 = strip(x)
        if x2 is not None and x2["k"] == "un" and x2["op"] in ("++", "--") and var_of(x2["e"]) is not None:
            out.append((var_of(x2["e"]), o, y))
    # v + c < bound
    return out


def steps(n, v):
    """modifications of v inside node tree n: list of (kind, delta) ; kind 'add' const delta, 'mul' factor, 'other'"""
    out = []
    for x in walk(n):
        k = x.get("k")
        if k == "un" and x["op"] in ("++", "--") and var_of(x["e"]) == v:
            out.append(("add", 1 if x["op"] == "++" else -1, x))
        elif k == "call" and x.get("n") in ("operator++", "operator--") and x.get("obj") is not None and var_of(x["obj"]) == v:
            out.append(("add", 1 if x["n"] == "operator++" else -1, x))
        elif k == "asg" and var_of(x["a"]) == v:
            if x["op"] in ("+=", "-="):
                d = intlit(x["b"])
                out.append(("add", d if x["op"] == "+=" else (-d if d is not None else None), x) if d is not None else ("addx", x["b"], x))
            elif x["op"] == "=":
                b = strip(x["b"])
                if b["k"] == "bin" and b["op"] in ("+", "-") and var_of(b["a"]) == v and intlit(b["b"]) is not None:
                    out.append(("add", intlit(b["b"]) * (1 if b["op"] == "+" else -1), x))
                elif b["k"] == "bin" and b["op"] == "+" and var_of(b["b"]) == v and intlit(b["a"]) is not None:
                    out.append(("add", intlit(b["a"]), x))
                elif b["k"] == "bin" and b["op"] == "/" and var_of(b["a"]) == v:
                    out.append(("div", intlit(b["b"]), x))
                else:
                    out.append(("other", None, x))
            elif x["op"] in ("*=",):
                out.append(("mul", intlit(x["b"]), x))
            elif x["op"] in ("/=", ">>="):
                out.append(("div", intlit(x["b"]), x))
            elif x["op"] == "<<=":
                out.append(("mul", 2, x))
            else:
                out.append(("other", None, x))
        elif k == "call" and x.get("n") in ("operator+=", "operator-=", "operator=") and x.get("obj") is not None and var_of(x["obj"]) == v:
            d = intlit(x["a"][0]) if x["a"] else None
            if x["n"] != "operator=" and d is not None:
                out.append(("add", d if x["n"] == "operator+=" else -d, x))
            else:
                out.append(("other", None, x))
        elif k == "call" and x.get("n") in ("operator=",):
            pass
        if k == "un" and x["op"] == "&" and var_of(x["e"]) == v:
            out.append(("other", None, x))
        if k in ("call", "ctor"):
            for a, pt in zip(x.get("a", []), x.get("pt", [])):
                pass
    return out


def reftaken(P, n, v):
    """v passed by non-const reference or captured by reference somewhere in n"""
    for x in walk(n):
        if x.get("k") in ("call", "ctor"):
            pts = x.get("pt", [])
            for i, a in enumerate(x.get("a", [])):
                if i < len(pts) and a.get("k") == "ref" and a["d"] == v:
                    t = P.ty(pts[i])
                    if t.get("ref") == "l" and not P.types[t["u"]].get("const"):
                        return True
        if x.get("k") == "lambda":
            for c in x.get("caps", []):
                if c.get("d") == v and c.get("byref"):
                    lf = P.funcs.get(x["fn"])
                    if lf and lf.get("body") and steps(lf["body"], v):
                        return True
        if x.get("k") == "decl":
            for q in x["v"]:
                if P.is_ref(q["vt"]) and q.get("init") is not None and q["init"].get("k") == "ref" and q["init"]["d"] == v and not P.is_const_ref(q["vt"]):
                    return True
    return False


def loop_tree(lp):
    """AST parts executed on each iteration"""
    s = lp["s"]
    return [x for x in (s.get("c"), s.get("b"), s.get("inc")) if x is not None]


def step_nodes(cfg, lp, v):
    lo, hi = lp["rng"]
    res = {}
    for n in cfg.nodes[lo:hi]:
        if n.id not in cfg.reach or n.e is None:
            continue
        tree = n.e
        if n.kind == "decl":
            tree = n.e.get("init")
        elif n.kind in ("rfor", "rforvar", "rforinit"):
            tree = n.e.get("range") if n.kind == "rforinit" else None
        if tree is None:
            continue
        st = steps(tree, v)
        if st:
            res[n.id] = st
    return res


def every_path(cfg, lp, ids):
    """every path head -> ... -> head inside the loop passes a node in ids"""
    lo, hi = lp["rng"]
    head = lp["head"]
    seen = set()
    st = [head]
    while st:
        n = st.pop()
        for lab, s in n.succ:
            if not (lo <= s.id < hi):
                continue
            if s.id in ids:
                continue
            if s.id == head.id:
                return False
            if s.id not in seen:
                seen.add(s.id)
                st.append(s)
    return True


def init_of(P, f, lp, v):
    """expression a loop variable starts from (its only definition outside the loop), or None"""
    defs = []
    inside = {id(x) for t in loop_tree(lp) for x in walk(t)}
    for x in walk_fn(f):
        if id(x) in inside:
            continue
        if x.get("k") == "decl":
            for q in x["v"]:
                if q["d"] == v:
                    defs.append(q.get("init"))
        elif x.get("k") == "asg" and var_of(x["a"]) == v:
            defs.append(x["b"] if x["op"] == "=" else None)
        elif x.get("k") == "un" and x["op"] in ("++", "--") and var_of(x["e"]) == v:
            defs.append(None)
    init = lp["s"].get("init")
    if init is not None:
        for x in walk(init):
            if x.get("k") == "decl":
                for q in x["v"]:
                    if q["d"] == v:
                        return q.get("init")
            if x.get("k") == "asg" and var_of(x["a"]) == v and x["op"] == "=":
                return x["b"]
    defs = [d for d in defs]
    if len(defs) == 1:
        return defs[0]
    return None


def counted(P, cfg, lp):
    """list of counted-loop readings: {var, op, bound, step, init}.  The loop exits when 'var op bound' fails."""
    f = cfg.f
    out = []
    s = lp["s"]
    if lp["kind"] == "rfor":
        return out
    conds = []
    for a in atoms(s.get("c")):
        conds += compare(a)
    # leading 'if (cond) break;' guards
    b = s.get("b")
    if b is not None:
        for st in (b["b"] if b.get("k") == "block" else [b]):
            if st.get("k") == "if" and st.get("b") is None and st.get("a") is not None:
                a = st["a"]
                body = a["b"] if a.get("k") == "block" else [a]
                if body and body[-1].get("k") in ("break", "ret") or (body and body[-1].get("k") == "expr" and strip(body[-1]["e"])["k"] == "throw"):
                    c = strip(st["c"])
                    disj = []

                    def dj(x):
                        x = strip(x)
                        if x["k"] == "bin" and x["op"] == "||":
                            dj(x["a"])
                            dj(x["b"])
                        else:
                            disj.append(x)
                    dj(c)
                    for d in disj:
                        conds += [(v, NEG[o], y) for v, o, y in compare(d)]
    for v, op, bound in conds:
        sn = step_nodes(cfg, lp, v)
        if not sn:
            continue
        if any(reftaken(P, t, v) for t in loop_tree(lp)):
            continue
        alls = [x for l in sn.values() for x in l]
        kinds = {x[0] for x in alls}
        ep = every_path(cfg, lp, set(sn))
        r = {"var": v, "op": op, "bound": bound, "init": init_of(P, f, lp, v), "every": ep, "steps": alls, "kinds": kinds}
        if kinds == {"add"}:
            ds = [x[1] for x in alls]
            r["min"], r["max"] = min(ds), max(ds)
        out.append(r)
    return out


def exits(cfg, lp):
    """edges leaving the loop other than through its own condition: [(node, label)]"""
    lo, hi = lp["rng"]
    out = []
    for n in cfg.nodes[lo:hi]:
        if n.id not in cfg.reach:
            continue
        for lab, s in n.succ:
            if not (lo <= s.id < hi):
                out.append((n, lab, s))
    return out


def single_defs(f):
    """local variables defined exactly once (their initialiser), never modified afterwards"""
    if "_sd" in f:
        return f["_sd"]
    d, bad = {}, set()
    for x in walk_fn(f):
        k = x.get("k")
        if k == "decl":
            for q in x["v"]:
                if q["d"] in d:
                    bad.add(q["d"])
                if q.get("init") is not None:
                    d[q["d"]] = q["init"]
        elif k == "asg" and var_of(x["a"]) is not None:
            bad.add(var_of(x["a"]))
        elif k == "un" and x["op"] in ("++", "--") and var_of(x["e"]) is not None:
            bad.add(var_of(x["e"]))
    f["_sd"] = {k: v for k, v in d.items() if k not in bad}
    return f["_sd"]


def expand(f, e, depth=3):
    """all trees an expression stands for, following once-defined locals"""
    out = [e]
    if depth == 0 or e is None:
        return out
    sd = single_defs(f)
    for x in walk(e):
        if x.get("k") == "ref" and x["d"] in sd:
            out += expand(f, sd[x["d"]], depth - 1)
    return out
