"""Best-so-far bookkeeping of a minimiser: a must dataflow over the control-flow graph.

Facts about the local variables (and the fields of the result) at a point of the function:
  same(a, b)   both hold the same number
  pair(x, f)   f is the value of the objective at x
  least(f)     f is <= every value of the objective evaluated so far, except possibly the one held by `fresh`
Facts of several paths are intersected, so they hold whatever the number of rounds of the loops."""
from core import *
from loops import var_of, FLIP, NEG


def place(e):
    """variable, or field of a variable"""
    e = strip(e)
    if e is None:
        return None
    v = var_of(e)
    if v is not None:
        return v
    if e["k"] == "mem" and isinstance(e.get("b"), dict):
        b = var_of(e["b"])
        if b is not None:
            return (b, e["n"])
    return None


class State:
    """same: pairs of equal variables; pair: (x, f) with f the objective at x; least: variables holding the least value so far
    (leaving out the value held by all variables of `fresh`, which is still to be compared); bools: (variable, x, op, y) comparisons
    held by a variable; begun: something was evaluated; lost: the bookkeeping goes through a construct outside this analysis"""
    __slots__ = ("same", "pair", "least", "fresh", "bools", "begun", "lost")

    def __init__(self, same=frozenset(), pair=frozenset(), least=frozenset(), fresh=frozenset(), bools=frozenset(), begun=False, lost=False):
        self.same, self.pair, self.least, self.fresh, self.bools, self.begun, self.lost = same, pair, least, fresh, bools, begun, lost

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return State(**d)

    def __eq__(self, o):
        return all(getattr(self, k) == getattr(o, k) for k in self.__slots__)

    def join(self, o):
        if self == o:
            return self
        fresh = self.fresh & o.fresh
        least = self.least & o.least
        if bool(self.fresh) != bool(o.fresh) or not fresh and self.fresh:
            least, fresh = frozenset(), frozenset()         # a value not yet compared on one side only
        return State(self.same & o.same, self.pair & o.pair, least, fresh, self.bools & o.bools, self.begun or o.begun, self.lost or o.lost)


class Pairs:
    def __init__(self, P, f, fn):
        self.P, self.f, self.fn = P, f, fn
        self.cfg = P.cfg(f)
        self.evals, self.copies = 0, 0

    def run(self):
        inn, _ = self.cfg.forward(State(), self.node, lambda a, b: a.join(b), self.edge)
        return inn.get(self.cfg.exit.id)

    # ---------------------------------------------------------------- transfer
    def is_eval(self, e):
        """argument of a call of the objective"""
        e = strip(e)
        while e is not None and e["k"] == "ctor" and len(e.get("a", ())) == 1:
            e = strip(e["a"][0])
        if e is not None and e["k"] == "call" and e.get("op") == "()" and var_of(e.get("obj")) == self.fn and len(e["a"]) == 1:
            return e["a"][0]
        return None

    def kill(self, s, v):
        least, fresh = s.least - {v}, s.fresh - {v}
        if s.fresh and not fresh:
            least = frozenset()                 # the new value was never compared
        return s.but(same=frozenset(p for p in s.same if v not in p), pair=frozenset(p for p in s.pair if v not in p),
                     least=least, fresh=fresh, bools=frozenset(b for b in s.bools if v not in b))

    def assign(self, s, v, rhs):
        x = self.is_eval(rhs)
        w = place(rhs)
        if x is not None:
            self.evals += 1
            p = place(x)
            s = self.kill(s, v)
            if p is not None:
                eq = {p} | {next(iter(q - {p})) for q in s.same if p in q}
                s = s.but(pair=s.pair | {(y, v) for y in eq})
            if not s.begun:                     # the very first value is the least of all
                return s.but(least=frozenset({v}), begun=True)
            return s.but(least=frozenset() if s.fresh else s.least, fresh=frozenset({v}))
        if w is not None:
            if w == v:
                return s
            self.copies += 1
            eq = {w} | {next(iter(q - {w})) for q in s.same if w in q}
            eq.discard(v)
            px = [f for (y, f) in s.pair if y == w and f != v]
            pf = [y for (y, f) in s.pair if f == w and y != v]
            ismin, isnew = w in s.least, w in s.fresh
            bs = {(v,) + b[1:] for b in s.bools if b[0] == w}
            if isnew and v in s.fresh:
                return s
            s = self.kill(s, v)
            return s.but(same=s.same | {frozenset((v, y)) for y in eq}, pair=s.pair | {(v, f) for f in px} | {(y, v) for y in pf},
                         least=s.least | ({v} if ismin else set()), fresh=s.fresh | ({v} if isnew else set()), bools=s.bools | bs)
        neg, e = False, strip(rhs)
        while e is not None and e["k"] == "un" and e["op"] == "!":
            neg, e = not neg, strip(e["e"])
        if e is not None and e["k"] == "bin" and e["op"] in FLIP and place(e["a"]) is not None and place(e["b"]) is not None:
            s = self.kill(s, v)
            return s.but(bools=s.bools | {(v, place(e["a"]), NEG[e["op"]] if neg else e["op"], place(e["b"]))})
        if neg and place(e) is not None:
            bs = {(v, b[1], NEG[b[2]], b[3]) for b in s.bools if b[0] == place(e)}
            if bs:
                s = self.kill(s, v)
                return s.but(bools=s.bools | bs)
        if s.fresh and self.reads(s, rhs):
            return State(lost=True)             # the new value enters something this analysis does not follow
        return self.kill(s, v)

    def reads(self, s, e):
        """the expression depends on a value not yet compared, or on a comparison of one"""
        ps = {place(y) for y in walk(e) if y.get("k") in ("ref", "mem")}
        return bool(ps & s.fresh) or any(b[0] in ps and (b[1] in s.fresh or b[3] in s.fresh) for b in s.bools)

    def node(self, n, s):
        e = n.e
        if e is None:
            return s
        if n.kind == "decl":
            v = e
            if v.get("init") is not None and v.get("d") is not None:
                s = self.effects(v["init"], s, top=True)
                return self.assign(s, v["d"], v["init"])
            return s
        if n.kind in ("expr", "cond", "ret", "init"):
            return self.effects(e, s)
        return s

    def effects(self, e, s, top=False):
        """assignments inside an expression, inner ones first"""
        if e is None:
            return s
        k = e.get("k")
        if k == "asg":
            s = self.effects(e["b"], s, True)
            v = place(e["a"])
            if v is None:
                return s
            if e["op"] != "=":
                return self.kill(s, v)
            return self.assign(s, v, e["b"])
        if k == "un" and e.get("op") in ("++", "--"):
            v = place(e["e"])
            return self.kill(s, v) if v is not None else s
        if k == "call":
            if self.is_eval(e) is not None and not top:
                self.evals += 1
                return State(lost=True)         # evaluated inside a larger expression
            if self.is_eval(e) is None:
                if self.touches(e):
                    return State(lost=True)
        if k == "lambda":
            return State(lost=True)
        for x in kids(e):
            s = self.effects(x, s)
        return s

    def touches(self, e):
        """a call that may write variables behind our back: arguments by reference, addresses, callables"""
        if e.get("op") == "()":
            return True
        f = self.P.funcs.get(e.get("fn"))
        for i, a in enumerate(e.get("a", [])):
            a0 = strip(a)
            if a0 is None:
                continue
            if var_of(a0) == self.fn:
                return True
            if a0["k"] == "un" and a0.get("op") == "&":
                return True
            if place(a0) is not None and f is not None and i < len(f["params"]):
                vt = f["params"][i]["vt"]
                if self.P.is_ref(vt) and not self.P.is_const_ref(vt):
                    return True
            elif place(a0) is not None and e.get("n") in ("swap", "exchange", "tie"):
                return True
        return False

    # ---------------------------------------------------------------- branches
    def edge(self, n, lab, succ, s):
        if n.kind != "cond" or lab not in (True, False) or not s.fresh:
            return s
        e = strip(n.e)
        b = place(e)
        if b is not None:
            held = [x for x in s.bools if x[0] == b]
            if not held:
                return s
            _, a, op, b = held[0]
        elif e["k"] == "bin" and e["op"] in FLIP:
            a, b, op = place(e["a"]), place(e["b"]), e["op"]
        elif self.reads(s, e):
            return State(lost=True)
        else:
            return s
        if not lab:
            op = NEG[op]
        for x, o, y in ((a, op, b), (b, FLIP[op], a)):
            if x in s.fresh and y in s.least:
                if o in ("<=", "<"):
                    return s.but(least=s.fresh, fresh=frozenset())
                if o in (">", ">=", "=="):
                    return s.but(fresh=frozenset())
        return s
