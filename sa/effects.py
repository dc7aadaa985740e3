"""Interprocedural, field-sensitive may-modify analysis over access paths.

path = (root, steps).  root: ('this',) | ('p',i) | ('l',decl) | ('g',id) | ('t',) temporary | ('u',) unknown
steps: tuple of field names, '[]' (any element) and '*' (pointee); k-limited.
Locals are flow-insensitive; references, pointers, iterators, structured bindings
and range-for variables are resolved to the set of objects they may denote."""
import re
from core import *

K = 7
ITER = re.compile(r"__wrap_iter<|reverse_iterator<|_iterator<|__bit_iterator|__iterator<|move_iterator")
SMART = re.compile(r"^(const )?std::(shared_ptr|unique_ptr|optional|weak_ptr)<")
ACCESS = {"operator[]", "at", "front", "back", "begin", "end", "rbegin", "rend", "data", "cbegin", "cend", "find",
          "lower_bound", "upper_bound", "top", "get", "value", "operator*", "operator->", "c_str", "equal_range", "base"}
NOMOD = {"reserve", "shrink_to_fit", "flags", "good", "fail", "is_open", "capacity", "size", "empty", "str"}
# std algorithms that only read through their iterator arguments
READALG = {"min_element", "max_element", "minmax_element", "find", "find_if", "find_if_not", "accumulate", "inner_product",
           "distance", "any_of", "all_of", "none_of", "count", "count_if", "equal", "lower_bound", "upper_bound",
           "binary_search", "adjacent_find", "advance", "next", "prev", "is_sorted", "mismatch", "search",
           "lexicographical_compare", "equal_range", "cbegin", "cend", "begin", "end", "rbegin", "rend", "size",
           "make_move_iterator", "for_each", "empty", "data", "addressof"}
# algorithms writing only to their last iterator ("destination") argument -> index of dest iterator
DESTALG = {"copy": 2, "copy_if": 2, "transform": None, "adjacent_difference": 2, "partial_sum": 2, "copy_n": 2,
           "copy_backward": 2, "move": None, "back_inserter": 0, "inserter": 0, "unique_copy": 2, "reverse_copy": 2}


def trunc(p):
    r, s = p
    return (r, s[:K])


def ext(paths, *st):
    return {trunc((r, s + st)) for r, s in paths}


class FnEff:
    def __init__(self, f, A):
        self.f, self.A, self.P = f, A, A.P
        self.env = {}          # decl -> set(paths): referent of refs / pointee of pointers & iterators
        self.params = {p["d"]: i for i, p in enumerate(f["params"])}
        self.localrefs = set()
        self.lambdas = {}      # fn id -> node
        self.lamparams = {}    # decl -> True
        self.byvalcap = set()
        self.mods = set()
        self.ret = set()
        self.modsites = []     # (path, line, what)
        self.kindof = {}
        self.changed = False

    # ----- types
    def isptr(self, t):
        u = self.P.under(t)
        return u.get("c") == "ptr" or "ptr" in u or bool(ITER.search(u.get("s", "")))

    def bind(self, d, paths):
        s = self.env.setdefault(d, set())
        n = len(s)
        s |= paths
        if len(s) != n:
            self.changed = True

    # ----- lvalues
    def var(self, e):
        d = e["d"]
        vk = e.get("vk")
        if vk == "enum" or vk == "func":
            return {(("t",), ())}
        if vk in ("global", "slocal"):
            return {(("g", d), ())}
        if vk == "binding":
            return set(self.env.get(d, ())) or {(("l", d), ())}
        vt = e.get("vt", -1)
        if d in self.params:
            return {(("p", self.params[d]), ())}
        if self.P.is_ref(vt):
            return set(self.env.get(d, ()))
        return {(("l", d), ())}

    def lv(self, e):
        if e is None:
            return set()
        k = e["k"]
        if k == "ref":
            return self.var(e)
        if k == "mem":
            b = e["b"]
            base = self.pv(b) if e["arrow"] else self.lv(b)
            t = self.P.ty(e.get("t"))
            return ext(base, e["n"])
        if k == "idx":
            return self.pv(e["b"])
        if k == "un":
            if e["op"] == "*":
                return self.pv(e["e"])
            return self.lv(e["e"])
        if k == "asg":
            return self.lv(e["a"])
        if k == "cond":
            return self.lv(e["a"]) | self.lv(e["b"])
        if k == "cast":
            return self.lv(e["e"])
        if k == "bin" and e["op"] == ",":
            return self.lv(e["b"])
        if k == "call":
            return self.callpaths(e)
        if k == "ctor" and e.get("elid") and len(e["a"]) == 1:
            return self.lv(e["a"][0])
        if k == "this":
            return {(("this",), ())}
        return {(("t",), ())}

    def pv(self, e):
        """objects the pointer/iterator value of e may point to"""
        if e is None:
            return set()
        k = e["k"]
        t = e.get("t", -1)
        if k == "this":
            return {(("this",), ())}
        if k == "un":
            if e["op"] == "&":
                return self.lv(e["e"])
            if e["op"] in ("++", "--"):
                return self.pv(e["e"])
            if e["op"] == "*":
                return ext(self.pv(e["e"]), "*")
            return set()
        if k == "bin":
            if e["op"] == ",":
                return self.pv(e["b"])
            return self.pv(e["a"]) | self.pv(e["b"])
        if k == "asg":
            return self.pv(e["a"]) | self.pv(e["b"])
        if k == "cond":
            return self.pv(e["a"]) | self.pv(e["b"])
        if k == "cast":
            return self.pv(e["e"])
        if k in ("int", "fp", "null", "bool", "char", "str", "sizeof", "zero"):
            return set()
        u = self.P.under(t)
        if u.get("c") == "arr":
            return ext(self.lv(e), "[]")
        if k == "ref":
            d = e["d"]
            r = set(self.env.get(d, ()))
            if self.P.is_ref(e.get("vt", -1)) and d not in self.params:
                return ext(r, "*")
            if d in self.params:
                r |= {(("p", self.params[d]), ("*",))}
            elif e.get("vk") in ("global", "slocal"):
                r |= {(("g", d), ("*",))}
            return r
        if k in ("mem", "idx"):
            return ext(self.lv(e), "*")
        if k == "call":
            return self.callpaths(e)
        if k == "ctor":
            r = set()
            for a in e["a"]:
                if self.isptr(a.get("t", -1)):
                    r |= self.pv(a)
            return r
        if k == "new":
            return {(("t",), ())}
        if k == "list":
            r = set()
            for a in e["a"]:
                r |= self.pv(a)
            return r
        return set()

    def objpaths(self, e):
        o = e.get("obj")
        if o is None:
            return set()
        if e.get("arrow"):
            return self.pv(o)
        return self.lv(o)

    def callpaths(self, e):
        """paths denoted by a call result (reference, pointer or iterator)"""
        n = e.get("n", "")
        P = self.P
        rt_ptr = self.isptr(e.get("t", -1))
        if "callee" in e:
            return set()
        if e.get("root"):
            r = set()
            for p in self.A.summary(e["fn"]).ret:
                r |= self.mapin(e, p)
            if not r and not e.get("lv") and not rt_ptr:
                return {(("t",), ())}
            return r
        obj = e.get("obj")
        if obj is not None:
            ot = P.under(obj.get("t", -1)).get("s", "")
            op = self.objpaths(e)
            if ITER.search(ot) or P.under(obj.get("t", -1)).get("c") == "ptr":
                # operations on iterators
                pt = self.pv(obj)
                if n in ("operator*", "operator->", "operator[]", "base"):
                    return pt
                return pt
            if n in ("operator*", "operator->", "get", "value") and SMART.search(ot):
                return ext(op, "*")
            if n in ACCESS:
                return ext(op, "[]")
            if n in ("emplace_back", "insert", "emplace", "erase"):
                return ext(op, "[]")
            if n in ("operator=", "operator+=", "operator<<", "operator>>", "write", "read", "assign", "append", "operator++",
                     "operator--"):
                return op
            if e.get("lv"):
                return op
            return {(("t",), ())}
        a = e["a"]
        if n in ("move", "forward", "as_const", "ref", "cref", "move_if_noexcept") and len(a) == 1:
            return self.pv(a[0]) if rt_ptr else self.lv(a[0])
        if n == "get" and len(a) == 1:
            return ext(self.lv(a[0]), "get")
        if n in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "data") and a:
            return ext(self.lv(a[0]), "[]")
        if n in ("operator<<", "operator>>", "getline") and a:
            return self.lv(a[0])
        r = set()
        if rt_ptr:
            for x in a:
                if self.isptr(x.get("t", -1)):
                    r |= self.pv(x)
            return r
        if e.get("lv"):
            for x in a:
                if x.get("lv"):
                    r |= self.lv(x)
            return r
        return {(("t",), ())}

    def mapin(self, e, p):
        """map callee path into caller paths at call/ctor node e"""
        (r, s) = p
        if r[0] == "this":
            if e["k"] == "ctor":
                return {(("t",), ())}
            return {trunc((r2, s2 + s)) for r2, s2 in self.objpaths(e)}
        if r[0] == "p":
            i = r[1]
            a = e["a"]
            if i >= len(a):
                return set()
            pt = e["pt"][i] if i < len(e.get("pt", [])) else -1
            if self.P.is_ref(pt):
                base = self.lv(a[i])
                if s and s[0] == "*":
                    base2 = self.pv(a[i])
                    if base2:
                        return {trunc((r2, s2 + s[1:])) for r2, s2 in base2}
                return {trunc((r2, s2 + s)) for r2, s2 in base}
            if s and s[0] == "*":
                return {trunc((r2, s2 + s[1:])) for r2, s2 in self.pv(a[i])}
            if "*" in s:
                return {trunc((r2, s2 + s)) for r2, s2 in self.lv(a[i])}
            return set()
        if r[0] == "g":
            return {p}
        return set()

    # ----- modification effects of a single node
    def mod(self, paths, line, what):
        for p in paths:
            if p[0][0] == "t":
                continue
            if p not in self.mods:
                self.mods.add(p)
                self.changed = True
            self.modsites.append((p, line, what))

    def moved(self, e):
        x = strip(e)
        return x is not None and x["k"] == "call" and x.get("n") == "move" and not x.get("root") and len(x["a"]) == 1

    def call_mods(self, e):
        """paths possibly modified by this call/ctor itself (not nested)"""
        out = set()
        if e.get("root"):
            if e["k"] == "call" and e["fn"] in self.A.lamfns:
                return out   # lambda bodies are analysed in place
            sm = self.A.summary(e["fn"])
            for p in sm.mods:
                out |= self.mapin(e, p)
            # moved-from arguments of implicit/defaulted operations
            if sm.defaulted:
                for i, a in enumerate(e["a"]):
                    pt = e["pt"][i] if i < len(e.get("pt", [])) else -1
                    if self.P.ty(pt).get("ref") == "r" and self.moved(a):
                        out |= self.lv(a)
                if e["k"] == "call" and e.get("n") == "operator=":
                    out |= self.objpaths(e)
            return out
        if "callee" in e:
            return out
        n = e.get("n", "")
        a = e["a"]
        pts = e.get("pt", [])
        if e["k"] == "ctor":
            for i, x in enumerate(a):
                if i < len(pts) and self.P.ty(pts[i]).get("ref") == "r" and self.moved(x):
                    out |= self.lv(x)
            return out
        obj = e.get("obj")
        if obj is not None:
            ot = self.P.under(obj.get("t", -1)).get("s", "")
            if ITER.search(ot):
                if n in ("operator++", "operator--", "operator+=", "operator-=", "operator="):
                    out |= {p for p in self.lv(obj) if p[0][0] in ("p", "this", "g", "l")} if obj["k"] != "call" else set()
                return out
            if not e.get("mconst") and n not in ACCESS and n not in NOMOD and not e.get("mstatic"):
                if "std::function<" in ot and n == "operator()":
                    return out
                out |= self.objpaths(e)
            for i, x in enumerate(a):
                pt = pts[i] if i < len(pts) else -1
                tt = self.P.ty(pt)
                if tt.get("ref") == "l" and not self.P.types[tt["u"]].get("const"):
                    if not n.startswith(("emplace", "try_emplace")):
                        out |= self.lv(x)
                elif tt.get("ref") == "r" and self.moved(x):
                    out |= self.lv(x)
                elif "ptr" in tt and not self.P.types[tt["u"]].get("const") and self.P.types[tt["u"]].get("c") not in (None,):
                    out |= self.pv(x)
            return out
        # free functions outside the library
        if n in READALG and n not in ("advance",):
            return out
        if n in DESTALG and len(a) >= 3:
            its = [x for x in a if self.isptr(x.get("t", -1))]
            if n == "transform" or n == "move":
                d = its[-1:] if its else []
            else:
                d = its[2:3]
            for x in d:
                out |= self.pv(x)
            return out
        if n in ("move", "forward", "as_const", "get", "min", "max", "make_pair", "to_string", "tie", "back_inserter",
                 "clamp", "make_tuple", "abs", "hypot", "make_unique", "make_shared", "setprecision", "setw", "endl", "flush", "fixed"):
            return out
        if n in ("memcpy", "memmove", "strcpy", "strncpy", "memset", "fread", "snprintf", "sprintf", "strftime"):
            return out | self.pv(a[0]) if a else out
        if n.startswith("operator") and n[8:] in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
            return out
        for i, x in enumerate(a):
            pt = pts[i] if i < len(pts) else -1
            tt = self.P.ty(pt)
            if tt.get("ref") == "l" and not self.P.types[tt["u"]].get("const"):
                out |= self.lv(x)
            elif tt.get("ref") == "r" and self.moved(x):
                out |= self.lv(x)
            elif "ptr" in tt and not self.P.types[tt["u"]].get("const"):
                out |= self.pv(x)
            elif ITER.search(tt.get("s", "")) and not re.search(r"__wrap_iter<const ", tt.get("s", "")):
                out |= self.pv(x)
        return out

    def node_mods(self, x):
        """paths modified directly by AST node x (operators, calls) -> set"""
        k = x.get("k")
        if k == "asg":
            return self.lv(x["a"])
        if k == "un" and x["op"] in ("++", "--"):
            return self.lv(x["e"])
        if k in ("call", "ctor"):
            return self.call_mods(x)
        if k == "delete":
            return self.pv(x["e"])
        return ()

    def scan_decl(self, v):
        t = v["vt"]
        init = v.get("init")
        if "bind" in v:
            src = None
            if init is not None:
                src = self.lv(init) if self.P.is_ref(t) else {(("l", v["d"]), ())}
            for b in v["bind"]:
                self.bind(b["d"], ext(src or set(), "#%d" % b["i"]))
            return
        if init is None:
            return
        if self.P.is_ref(t):
            self.bind(v["d"], self.lv(init))
            if self.isptr(t):
                pass
        elif self.isptr(t):
            self.bind(v["d"], self.pv(init))

    def scan(self, n):
        k = n.get("k")
        if k == "decl":
            for v in n["v"]:
                self.scan_decl(v)
        elif k == "if" and n.get("cv"):
            self.scan_decl(n["cv"])
        elif k == "rfor":
            v = n["var"]
            src = self.lv(n["range"])
            elems = ext(src, "[]")
            t = v["vt"]
            if "bind" in v:
                if self.P.is_ref(t):
                    for b in v["bind"]:
                        self.bind(b["d"], ext(elems, "#%d" % b["i"]))
                else:
                    for b in v["bind"]:
                        self.bind(b["d"], {(("l", v["d"]), ("#%d" % b["i"],))})
            elif self.P.is_ref(t):
                self.bind(v["d"], elems)
            elif self.isptr(t):
                self.bind(v["d"], ext(elems, "*"))
        elif k == "asg" and n["op"] == "=":
            if self.isptr(n["a"].get("t", -1)):
                a = strip(n["a"])
                if a["k"] == "ref":
                    self.bind(a["d"], self.pv(n["b"]))
        elif k == "call" and n.get("n") == "operator=" and n.get("obj") is not None and self.isptr(n["obj"].get("t", -1)):
            a = strip(n["obj"])
            if a["k"] == "ref" and n["a"]:
                self.bind(a["d"], self.pv(n["a"][0]))
        elif k == "lambda":
            pass
        if k in ("call",) and n.get("root") and n["fn"] in self.A.lamfns:
            lf = self.P.funcs.get(n["fn"])
            for p, a in zip(lf["params"], n["a"]):
                if self.P.is_ref(p["vt"]):
                    self.bind(p["d"], self.lv(a))
                elif self.isptr(p["vt"]):
                    self.bind(p["d"], self.pv(a))
        if k == "call" and not n.get("root"):
            # lambda passed to an algorithm: parameters range over the elements
            for a in n["a"]:
                x = strip(a)
                while x is not None and x["k"] == "ctor" and len(x["a"]) == 1:
                    x = strip(x["a"][0])
                if x is not None and x["k"] == "lambda":
                    lf = self.P.funcs.get(x["fn"])
                    if lf:
                        els = set()
                        for y in n["a"]:
                            if self.isptr(y.get("t", -1)):
                                els |= self.pv(y)
                        for p in lf["params"]:
                            if self.P.is_ref(p["vt"]):
                                self.bind(p["d"], els)

    def all_nodes(self):
        """all AST nodes of this function including bodies of lambdas created in it"""
        if hasattr(self, "_all"):
            return self._all
        out = []
        todo = list(walk_fn(self.f))
        seen = set()
        while todo:
            n = todo.pop(0)
            out.append(n)
            if n.get("k") == "lambda" and n["fn"] not in seen:
                seen.add(n["fn"])
                lf = self.P.funcs.get(n["fn"])
                if lf:
                    todo.extend(walk_fn(lf))
        self._all = out
        return out

    def run(self):
        nodes = self.all_nodes()
        for it in range(12):
            self.changed = False
            self.modsites = []
            for n in nodes:
                self.scan(n)
                m = self.node_mods(n)
                if m:
                    self.mod(m, n.get("l"), n)
            for i in self.f.get("inits", []):
                if "f" in i and i.get("written"):
                    self.mod({(("this",), (i["n"],))}, i.get("l"), i)
            rt = self.f.get("rt", -1)
            if self.P.is_ref(rt) or self.isptr(rt):
                for n in walk_fn(self.f):
                    if n.get("k") == "ret" and n.get("e"):
                        r = self.lv(n["e"]) if self.P.is_ref(rt) else self.pv(n["e"])
                        r = {p for p in r if p[0][0] in ("p", "this", "g")}
                        if not r <= self.ret:
                            self.ret |= r
                            self.changed = True
            if not self.changed:
                break
        return self

    def visible_mods(self):
        """modifications visible to the caller"""
        out = set()
        for (r, s) in self.mods:
            if r[0] == "p":
                p = self.f["params"][r[1]]
                if not self.P.is_ref(p["vt"]) and "*" not in s:
                    continue
                out.add((r, s))
            elif r[0] in ("this", "g"):
                out.add((r, s))
        return out


class Summary:
    def __init__(self, defaulted=False):
        self.mods, self.ret, self.defaulted = set(), set(), defaulted


class Effects:
    def __init__(self, P):
        self.P = P
        self.lamfns = {f["id"] for f in P.root if f.get("lambda")}
        self.sum = {f["id"]: Summary(bool(f.get("defaulted"))) for f in P.root}
        self.fn = {}
        todo = [f for f in P.root if f.get("body") is not None and not f.get("lambda")]
        for f in todo:
            self.fn[f["id"]] = FnEff(f, self)
        for rnd in range(15):
            ch = False
            for f in todo:
                fe = self.fn[f["id"]]
                fe.run()
                s = self.sum[f["id"]]
                m, r = fe.visible_mods(), fe.ret
                if m != s.mods or r != s.ret:
                    ch = True
                    s.mods, s.ret = set(m), set(r)
            if not ch:
                break
        self.rounds = rnd + 1

    def summary(self, fid):
        return self.sum.get(fid) or Summary(True)


def pstr(f, p):
    (r, s) = p
    if r[0] == "this":
        b = "*this"
    elif r[0] == "p":
        b = "param '%s'" % f["params"][r[1]]["n"]
    elif r[0] == "g":
        b = "global"
    else:
        b = r[0]
    return b + "".join("." + x if x not in ("[]", "*") else x for x in s)
