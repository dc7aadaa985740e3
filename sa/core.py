"""Program model over the JSON produced by tool/astdump: functions, records,
types, control-flow graphs.  No code of the library is ever executed here."""
import json, os, subprocess, sys, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """analysis-broken: an anchor vanished or the tool chain failed"""


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "astdump.cpp")
    out = os.path.join(BUILD, "astdump")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    libdir = subprocess.check_output(["llvm-config-18", "--libdir"], text=True).strip()
    tmp = out + ".%d" % os.getpid()
    cmd = [CLANG, "-O1", "-w"] + flags + ["-fno-rtti", src, "-o", tmp, libdir + "/libclang-cpp.so.18.1",
           "-L" + libdir, "-lLLVM-18", "-Wl,-rpath," + libdir]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build astdump: " + r.stderr[-2000:])
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out


def cflags():
    rd = subprocess.check_output([CLANG, "-print-resource-dir"], text=True).strip()
    return ["-std=c++17", "-stdlib=libc++", "-resource-dir", rd, "-include",
            os.path.join(VERIF, "driver", "prefix.h"), "-mavx2", "-I" + REPO, "-w"]


def headers():
    d = os.path.join(REPO, "cmmcore")
    hs = sorted(f for f in os.listdir(d) if f.endswith((".h", ".hpp")))
    if len(hs) < 20:
        raise AnalysisError("only %d headers found under %s" % (len(hs), d))
    return hs


def workdir():
    d = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cleanup():
    import shutil
    shutil.rmtree(os.path.join(BUILD, "work.%d" % os.getpid()), ignore_errors=True)


def write_driver(wd):
    with open(os.path.join(wd, "all_headers.inc"), "w") as f:
        for h in headers():
            f.write('#include "cmmcore/%s"\n' % h)
    return os.path.join(VERIF, "driver", "driver.cpp")


class Program:
    def __init__(self, d):
        self.types = d["types"]
        self.funcs = {f["id"]: f for f in d["funcs"]}
        self.records = {r["id"]: r for r in d["records"]}
        self.globals = {g["id"]: g for g in d["globals"]}
        self.recname = {}
        for r in d["records"]:
            self.recname.setdefault(r["qn"], r)
        self.byname = {}
        for f in d["funcs"]:
            self.byname.setdefault(f["qn"], []).append(f)
        self.lambda_op = {}
        for f in d["funcs"]:
            f["relfile"] = os.path.relpath(f["file"], REPO)
        self._cfg = {}
        self.root = [f for f in d["funcs"]]
        self.root_records = [r for r in d["records"] if r["root"]]

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {}

    def under(self, i):
        t = self.ty(i)
        if "ref" in t:
            return self.types[t["u"]]
        return t

    def is_ref(self, i):
        return "ref" in self.ty(i)

    def is_const_ref(self, i):
        t = self.ty(i)
        return t.get("ref") == "l" and self.types[t["u"]].get("const", False)

    def fname(self, f):
        ps = ",".join(self.types[p["vt"]]["s"].replace("cmmcore::", "").replace("std::", "") for p in f["params"])
        n = f["qn"]
        return "%s(%s)%s" % (n, ps, " const" if f.get("mconst") else "")

    def where(self, f, line=None):
        return "%s:%s" % (f["relfile"], line or f["line"])

    def find(self, qn):
        return self.byname.get(qn, [])

    def cfg(self, f):
        if f["id"] not in self._cfg:
            self._cfg[f["id"]] = CFG(f, self)
        return self._cfg[f["id"]]


_prog = None


def load():
    global _prog
    if _prog is not None:
        return _prog
    tool = build_tools()
    wd = workdir()
    drv = write_driver(wd)
    out = os.path.join(wd, "ast.json")
    r = subprocess.run([tool, REPO.rstrip("/") + "/cmmcore/", out, drv, "--"] + cflags() + ["-I" + wd],
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError("astdump failed on current tree:\n" + r.stderr[-3000:])
    d = json.load(open(out))
    _prog = Program(d)
    if len(_prog.root) < 300:
        raise AnalysisError("only %d functions parsed" % len(_prog.root))
    return _prog


# ---------------------------------------------------------------- tree walks
def kids(n):
    """direct sub-nodes (expressions/statements) of a node, evaluation order"""
    if n is None:
        return
    k = n.get("k")
    for key in ("init", "cv", "obj", "callee", "c", "e", "b", "i", "sz", "inc", "fill", "range", "var"):
        v = n.get(key)
        if key == "b" and isinstance(v, list):
            continue
        if isinstance(v, dict):
            yield v
    for key in ("a", "b", "pa", "v", "h"):
        v = n.get(key)
        if key == "a" and isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        cs = list(kids(x))
        st.extend(reversed(cs))


def walk_fn(f):
    for i in f.get("inits", []):
        if i.get("e"):
            yield from walk(i["e"])
    if f.get("body"):
        yield from walk(f["body"])


def strip(e, casts=True):
    while e is not None and e.get("k") == "cast" and casts:
        e = e["e"]
    return e


# ---------------------------------------------------------------- CFG
class Node:
    __slots__ = ("id", "kind", "e", "line", "succ", "pred", "loop", "trys")

    def __init__(self, id, kind, e, line):
        self.id, self.kind, self.e, self.line = id, kind, e, line
        self.succ, self.pred = [], []
        self.loop = None
        self.trys = ()

    def __repr__(self):
        return "N%d:%s@%s" % (self.id, self.kind, self.line)


class CFG:
    """kinds: entry exit(normal) thr(exceptional exit) expr decl cond ret throw init rfor(range head) join"""

    def __init__(self, f, prog):
        self.f, self.prog = f, prog
        self.nodes = []
        self.entry = self.new("entry", None, f["line"])
        self.exit = self.new("exit", None, f.get("endline", f["line"]))
        self.thr = self.new("thr", None, f.get("endline", f["line"]))
        self.labels = {}
        self.gotos = []
        self.loops = []      # dicts: stmt, head node, kind, body nodes
        self.handlers = []   # stack of lists of handler entry nodes
        cur = [(self.entry, None)]
        for i in f.get("inits", []):
            n = self.new("init", i, i.get("l"))
            cur = self.link(cur, n)
            cur = [(n, None)]
        out = self.stmt(f.get("body"), cur, None, None)
        self.link(out, self.exit)
        for n, name in self.gotos:
            if name in self.labels:
                self.edge(n, self.labels[name], None)
        self._prune()

    def new(self, kind, e, line):
        n = Node(len(self.nodes), kind, e, line)
        self.nodes.append(n)
        if hasattr(self, "handlers"):
            n.trys = tuple(self.handlers)
        return n

    def edge(self, a, b, lab):
        a.succ.append((lab, b))
        b.pred.append((lab, a))

    def link(self, outs, n):
        for (p, lab) in outs:
            self.edge(p, n, lab)
        return [(n, None)]

    def _prune(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(b for _, b in n.succ)
        self.reach = seen
        for n in self.nodes:
            n.pred = [(l, p) for l, p in n.pred if p.id in seen]

    def live(self):
        return [n for n in self.nodes if n.id in self.reach]

    # conditions: short-circuit decomposition
    def cond(self, e, cur):
        """returns (true_outs, false_outs)"""
        if e is None:
            return cur, []
        x = e
        if x["k"] == "bin" and x["op"] == "&&":
            t, f1 = self.cond(x["a"], cur)
            t, f2 = self.cond(x["b"], t)
            return t, f1 + f2
        if x["k"] == "bin" and x["op"] == "||":
            t1, f = self.cond(x["a"], cur)
            t2, f = self.cond(x["b"], f)
            return t1 + t2, f
        if x["k"] == "un" and x["op"] == "!":
            t, f = self.cond(x["e"], cur)
            return f, t
        if x["k"] == "bool" or (x["k"] == "int"):
            return (cur, []) if x["v"] else ([], cur)
        n = self.new("cond", x, x.get("l"))
        self.link(cur, n)
        self.exc(n)
        return [(n, True)], [(n, False)]

    def exc(self, n):
        """exceptional edges for nodes inside try blocks"""
        if n.trys:
            for h in n.trys[-1]:
                self.edge(n, h, "exc")

    @staticmethod
    def noreturn(e):
        e2 = strip(e)
        return e2 is not None and e2.get("k") == "call" and e2.get("noret")

    def expr(self, e, cur, kind="expr", line=None):
        if e is None:
            return cur
        x = strip(e)
        # top level ?: used for control (assert)
        if kind == "expr" and x["k"] == "cond" and (self.noreturn(x["a"]) or self.noreturn(x["b"])):
            t, f = self.cond(x["c"], cur)
            return self.expr(x["a"], t) + self.expr(x["b"], f)
        if kind == "expr" and x["k"] == "throw":
            n = self.new("throw", x, x.get("l"))
            self.link(cur, n)
            if n.trys:
                self.exc(n)
            else:
                self.edge(n, self.thr, None)
            return []
        n = self.new(kind, e, line or e.get("l"))
        self.link(cur, n)
        if kind == "expr" and self.noreturn(e):
            return []
        self.exc(n)
        return [(n, None)]

    def stmt(self, s, cur, brk, cnt):
        if s is None or not cur and s["k"] not in ("case", "default", "label", "block"):
            return cur if s is None else []
        k = s["k"]
        if k == "block":
            for c in s["b"]:
                cur = self.stmt(c, cur, brk, cnt)
            return cur
        if k == "expr":
            return self.expr(s["e"], cur, line=s.get("l"))
        if k == "decl":
            for v in s["v"]:
                n = self.new("decl", v, v.get("l"))
                cur = self.link(cur, n)
                self.exc(n)
            return cur
        if k == "null":
            return cur
        if k == "ret":
            n = self.new("ret", s["e"], s.get("l"))
            self.link(cur, n)
            self.exc(n)
            self.edge(n, self.exit, None)
            return []
        if k == "if":
            if s.get("init"):
                cur = self.stmt(s["init"], cur, brk, cnt)
            if s.get("cv"):
                n = self.new("decl", s["cv"], s.get("l"))
                cur = self.link(cur, n)
            t, f = self.cond(s["c"], cur)
            a = self.stmt(s["a"], t, brk, cnt) if s.get("a") else t
            b = self.stmt(s["b"], f, brk, cnt) if s.get("b") else f
            return a + b
        if k in ("while", "for"):
            if k == "for" and s.get("init"):
                cur = self.stmt(s["init"], cur, None, None)
            first = len(self.nodes)
            head = self.new("join", None, s.get("l"))
            self.link(cur, head)
            t, f = self.cond(s["c"], [(head, None)]) if s.get("c") else ([(head, None)], [])
            b, c = [], []
            out = self.stmt(s["b"], t, b, c) if s.get("b") else t
            out = out + c
            if k == "for" and s.get("inc"):
                inc_j = self.new("join", None, s.get("l"))
                self.link(out, inc_j)
                out = self.expr(s["inc"], [(inc_j, None)])
            self.link(out, head)
            self.loops.append({"s": s, "head": head, "rng": (first, len(self.nodes)), "kind": k})
            return f + b
        if k == "do":
            first = len(self.nodes)
            head = self.new("join", None, s.get("l"))
            self.link(cur, head)
            b, c = [], []
            out = self.stmt(s["b"], [(head, None)], b, c) + c
            j = self.new("join", None, s.get("l"))
            self.link(out, j)
            t, f = self.cond(s["c"], [(j, None)])
            self.link(t, head)
            self.loops.append({"s": s, "head": head, "rng": (first, len(self.nodes)), "kind": k})
            return f + b
        if k == "rfor":
            n0 = self.new("rforinit", s, s.get("l"))
            self.link(cur, n0)
            first = len(self.nodes)
            head = self.new("rfor", s, s.get("l"))
            self.link([(n0, None)], head)
            vd = self.new("rforvar", s, s.get("l"))
            self.edge(head, vd, True)
            b, c = [], []
            out = self.stmt(s["b"], [(vd, None)], b, c) if s.get("b") else [(vd, None)]
            self.link(out + c, head)
            self.loops.append({"s": s, "head": head, "rng": (first, len(self.nodes)), "kind": k})
            return [(head, False)] + b
        if k == "break":
            if brk is not None:
                brk.extend(cur)
            return []
        if k == "cont":
            if cnt is not None:
                cnt.extend(cur)
            return []
        if k == "switch":
            n = self.new("switch", s["c"], s.get("l"))
            self.link(cur, n)
            b = []
            self._sw = getattr(self, "_sw", [])
            self._sw.append([n, False])
            out = self.stmt(s["b"], [], b, cnt)
            hasdef = self._sw.pop()[1]
            res = out + b
            if not hasdef:
                res = res + [(n, "nomatch")]
            return res
        if k in ("case", "default"):
            sw = self._sw[-1]
            j = self.new("join", None, s.get("l"))
            if k == "default":
                sw[1] = True
                self.edge(sw[0], j, "default")
            else:
                self.edge(sw[0], j, ("case", json.dumps(s["v"], sort_keys=True)))
            self.link(cur, j)
            return self.stmt(s["b"], [(j, None)], brk, cnt)
        if k == "try":
            hs = []
            ents = []
            for h in s["h"]:
                e = self.new("join", None, None)
                ents.append(e)
            self.handlers.append(tuple(ents))
            out = self.stmt(s["b"], cur, brk, cnt)
            self.handlers.pop()
            res = out
            for e, h in zip(ents, s["h"]):
                res = res + self.stmt(h["b"], [(e, None)], brk, cnt)
            return res
        if k == "label":
            j = self.new("join", None, s.get("l"))
            self.labels[s["n"]] = j
            self.link(cur, j)
            return self.stmt(s["b"], [(j, None)], brk, cnt)
        if k == "goto":
            n = self.new("join", None, s.get("l"))
            self.link(cur, n)
            self.gotos.append((n, s["n"]))
            return []
        if k == "otherst":
            for c in s["b"]:
                cur = self.stmt(c, cur, brk, cnt)
            return cur
        # bare expression used as statement
        return self.expr(s, cur)

    # ---- dominance
    def rpo(self):
        seen, order = set(), []
        st = [(self.entry, iter([b for _, b in self.entry.succ]))]
        seen.add(self.entry.id)
        while st:
            n, it = st[-1]
            for b in it:
                if b.id not in seen:
                    seen.add(b.id)
                    st.append((b, iter([c for _, c in b.succ])))
                    break
            else:
                order.append(n)
                st.pop()
        return order[::-1]

    def forward(self, init, transfer, join, edge=None):
        """generic worklist; transfer(node, state)->state; edge(node,label,succ,state)->state or None (infeasible)"""
        order = self.rpo()
        pos = {n.id: i for i, n in enumerate(order)}
        inn = {self.entry.id: init}
        out = {}
        import heapq
        work = [pos[self.entry.id]]
        inw = {self.entry.id}
        cnt = {}
        while work:
            n = order[heapq.heappop(work)]
            inw.discard(n.id)
            cnt[n.id] = cnt.get(n.id, 0) + 1
            if cnt[n.id] > 4000:
                raise AnalysisError("dataflow diverges in %s" % self.f["qn"])
            o = transfer(n, inn[n.id])
            out[n.id] = o
            for lab, s in n.succ:
                v = o if edge is None else edge(n, lab, s, o)
                if v is None:
                    continue
                if s.id not in inn:
                    nv = v
                else:
                    nv = join(inn[s.id], v)
                    if nv == inn[s.id]:
                        continue
                inn[s.id] = nv
                if s.id not in inw:
                    inw.add(s.id)
                    heapq.heappush(work, pos[s.id])
        return inn, out
