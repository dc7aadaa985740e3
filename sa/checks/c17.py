"""C17 spatial indexes: tree queries return what a scan of all stored objects returns.

One step of every recursion is value-numbered over a node whose subtrees are abstract; the recursive calls are replaced by
their contract, so the statement holds for every tree by induction over its height."""
from core import *
from spec import *
from report import Result
import vn
from vn import Obj, SVec, Loc, Ptr, NULL, GiveUp, ptr_leaves
from search import box, vec3, leaves

PT = "cmmcore::vec3"
KD = "KDTree<vec3, PointComparator3D>::"


def run(tier):
    P = load()
    R = Result("C17")
    R.rule("index", "a tree query visits every subtree that can hold an answer, with the query unchanged; builders file every object once, on the side the queries look for it")
    K = Checker(P, R, "index")
    K.by = {k.replace("KDTree<vec3,PointComparator3D>", "KDTree<vec3, PointComparator3D>"): v for k, v in K.by.items()}
    kd_range(K)
    kd_nearest(K)
    kd_insert(K)
    kd_build(K)
    kd_public(K)
    bvh_traverse(K)
    bvh_pairs(K)
    bvh_worklist(K)
    bvh_split(K)
    bvh_build(K)
    K.finish()
    R.floor("index", 20)
    return R


class Heap:
    """inputs that live on the heap"""
    def __init__(self, M, fr, S):
        self.M, self.fr, self.S = M, fr, S
        M.heap = M.assumed = True

    def ref(self, i):
        return list(self.fr.env.values())[i]

    def set(self, i, v):
        l = self.ref(i)
        self.fr.store[l.root] = v
        if i < len(self.S.args):
            self.S.args[i] = (v, l)
        return v

    def obj(self, v, name="node"):
        return Ptr(self.M.new_root(v, self.fr.store, name))

    def fact(self, r, rel):
        FACTS.append((Rat.of(r), rel))


def scalar(M, x, fr):
    return M.num(M.read(x, fr.store) if isinstance(x, Loc) else x)


def val(M, x, fr):
    return M.read(x, fr.store) if isinstance(x, Loc) else x


def same(a, b):
    """the same record value"""
    if isinstance(a, Obj) and isinstance(b, Obj):
        return set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    return isinstance(a, Rat) and isinstance(b, Rat) and a == b


def ev(S, n):
    return S.events.get(n, F)


def implies(a, b):
    return Or(Not(a), b)


def within(p, lo, hi):
    return And(*[And(le(lo.f[k], p.f[k]), le(p.f[k], hi.f[k])) for k in "xyz"])


def dist2(a, b):
    return sum(((a.f[k] - b.f[k]) ** 2 for k in "xyz"), Rat.of(0))


def kdnode(p, axis, l, r):
    return Obj("cmmcore::KDNode<cmmcore::vec3>", {"point": p, "axis": Rat.of(axis), "left": l, "right": r})


# ---------------------------------------------------------------- k-d tree
def two_sided(h, axis):
    """a node whose subtrees are abstract"""
    L = h.obj(Obj("$tree", {}), "left")
    Rt = h.obj(Obj("$tree", {}), "right")
    p = vec3("p")
    n = h.obj(kdnode(p, axis, L, Rt))
    return n, p, L, Rt


def kd_range(K):
    key = KD + "rangeSearchRec(KDNode<vec3>*,vec3,vec3,vector<vec3>)"
    for axis in (None, 0, 1, 2):
        st = {}

        def prep(M, fr, S, axis=axis):
            h = Heap(M, fr, S)
            lo, hi = vec3("lo"), vec3("hi")
            old = [vec3("o%d" % i) for i in range(2)]
            h.set(1, lo), h.set(2, hi), h.set(3, SVec(old))
            st.update(lo=lo, hi=hi, old=old)
            if axis is None:
                h.set(0, NULL)
                return
            n, p, L, Rt = two_sided(h, axis)
            h.set(0, n)
            st["p"] = p

            def rec(M, f, this, a, fr):
                if same(val(M, a[1], fr), lo) and same(val(M, a[2], fr), hi) and isinstance(a[3], Loc) and a[3].root == h.ref(3).root:
                    for g, c in ptr_leaves(val(M, a[0], fr)):
                        for nm, t in (("left", L), ("right", Rt)):
                            if isinstance(c, Ptr) and c.loc.root == t.loc.root:
                                M.event(fr.store, "go:" + nm, g)
                return vn.Unk("void")
            M.models = {"rangeSearchRec": rec}

        def rel(a, axis=axis):
            S = a.S
            rs = [(g, vn.vec(v)) for g, v in leaves(S.out[3])]
            if any(v is None for g, v in rs):
                raise TypeError("result list of unknown length")
            out = []
            kept = [("kept", T if len(v) >= 2 and same(v[0], st["old"][0]) and same(v[1], st["old"][1]) else Not(g), VALID) for g, v in rs]
            out.append(("earlier results kept", [], kept))
            extra = Or(*[g for g, v in rs if len(v) > 2])
            if axis is None:
                return out + [("empty tree reports nothing", [], [("reports", extra, F)])]
            p, k = st["p"], "xyz"[axis]
            more = [("once", Not(g), VALID) for g, v in rs if len(v) > 3 or len(v) == 3 and not same(v[2], p)]
            out.append(("only the point of the node is added, once", [], more or [("once", T, VALID)]))
            out.append(("the point of the node is reported exactly when it is in the box", [], [("reports", extra, within(p, st["lo"], st["hi"]))]))
            out.append(("left subtree is searched when it can hold a point of the box", [],
                        [("searched", Or(ev(S, "go:left"), lt(p.f[k], st["lo"].f[k])), VALID)]))
            out.append(("right subtree is searched when it can hold a point of the box", [],
                        [("searched", Or(ev(S, "go:right"), lt(st["hi"].f[k], p.f[k])), VALID)]))
            return out
        K.one(key, prep=prep, rel=rel, label="no node" if axis is None else "node splitting along %s" % "xyz"[axis])


def eqv(a, b):
    return And(*[eq(a.f[k], b.f[k]) for k in "xyz"])


def kd_nearest(K):
    key = KD + "nearestNeighborRec(KDNode<vec3>*,vec3,vec3,double)"
    for axis in (0, 1, 2):
        st = {}

        def prep(M, fr, S, axis=axis):
            h = Heap(M, fr, S)
            t, b = vec3("t"), vec3("b")
            D = alg.sym("D")
            h.fact(D, ">=")
            h.set(1, t), h.set(2, b), h.set(3, D)
            n, p, L, Rt = two_sided(h, axis)
            h.set(0, n)
            q = {}
            for nm in ("left", "right"):
                q[nm] = (vec3("q" + nm), alg.sym("X" + nm))
                h.fact(q[nm][1], ">=")
            st.update(t=t, b=b, D=D, p=p, q=q)

            def rec(M, f, this, a, fr):
                tv = val(M, a[1], fr)
                if not same(tv, t) or not isinstance(a[2], Loc) or not isinstance(a[3], Loc) or a[2].root != h.ref(2).root or a[3].root != h.ref(3).root:
                    return vn.Unk("void")
                for g, c in ptr_leaves(val(M, a[0], fr)):
                    for nm, tr in (("left", L), ("right", Rt)):
                        if isinstance(c, Ptr) and c.loc.root == tr.loc.root:
                            # the subtree delivers its nearest point when that is nearer than what is known
                            bv, dv = M.read(a[2], fr.store), M.read(a[3], fr.store)
                            near = And(g, tocond_(lift(lambda x: lt(q[nm][1], x), dv)))
                            M.event(fr.store, "go:" + nm, g)
                            M.write(a[3], vn.vite(near, q[nm][1], dv), fr.store)
                            M.write(a[2], vn.vite(near, q[nm][0], bv), fr.store)
                return vn.Unk("void")
            M.models = {"nearestNeighborRec": rec}

        def rel(a, axis=axis):
            S, k = a.S, "xyz"[axis]
            t, p, D, q = st["t"], st["p"], st["D"], st["q"]
            fb, fd = S.out[2], S.out[3]
            go = {n: ev(S, "go:" + n) for n in q}
            dp = dist2(t, p)
            lv = lambda fn: tocond_(lift(fn, fd))
            out = [("the point of the node is taken into account", [], [("nearer", lv(lambda x: le(x, dp)), VALID), ("known", lv(lambda x: le(x, D)), VALID)])]
            beyond = (t.f[k] - p.f[k]) ** 2
            side = {"left": le(p.f[k], t.f[k]), "right": le(t.f[k], p.f[k])}
            for n in q:
                out.append(("%s subtree is left out only when it lies beyond the best distance" % n, [],
                            [("left out", Or(go[n], And(side[n], lv(lambda x: le(x, beyond)))), VALID)]))
                out.append(("what the %s subtree delivers is used" % n, [], [("used", implies(go[n], lv(lambda x: le(x, q[n][1]))), VALID)]))
            cand = [(D, st["b"]), (dp, p)] + [(x, pt) for pt, x in q.values()]

            def tag(m):
                def go(v):
                    for d, pt in cand:
                        if isinstance(v, Rat) and v == pt.f[m]:
                            return d
                    raise TypeError("point reported is none of the known ones")
                return go
            out.append(("the distance reported belongs to the point reported", [], [("pair " + m, lift(tag(m), fb.f[m]), fd) for m in "xyz"]))
            return out
        K.one(key, prep=prep, rel=rel, label="node splitting along %s" % "xyz"[axis])


def tocond_(v):
    c = tocond(v)
    if c is None:
        raise TypeError("unknown condition")
    return c


def kd_insert(K):
    key = KD + "insertRec(KDNode<vec3>*,vec3,int)"
    for depth in range(4):
        for axis in ([None] if depth != 1 else [None, 0, 1, 2]):
            st = {}

            def prep(M, fr, S, axis=axis, depth=depth):
                h = Heap(M, fr, S)
                x = vec3("x")
                h.set(1, x), h.set(2, Rat.of(depth))
                st.update(x=x, size=S.this0.f["size_"])
                if axis is None:
                    h.set(0, NULL)
                    return
                n, p, L, Rt = two_sided(h, axis)
                h.set(0, n)
                new = {"left": h.obj(Obj("$tree", {}), "new"), "right": h.obj(Obj("$tree", {}), "new")}
                st.update(n=n, p=p, L=L, R=Rt, new=new)

                def rec(M, f, this, a, fr):
                    d = scalar(M, a[2], fr)
                    r = NULL
                    ok = same(val(M, a[1], fr), x) and isinstance(d, Rat) and d.const() is not None and d.const() >= 0
                    for g, c in ptr_leaves(val(M, a[0], fr)):
                        for nm, t in (("left", L), ("right", Rt)):
                            if ok and isinstance(c, Ptr) and c.loc.root == t.loc.root:
                                M.event(fr.store, "go:" + nm, g)
                                r = vn.vite(g, new[nm], r)
                    return r
                M.models = {"insertRec": rec}

            def rel(a, axis=axis):
                S = a.S
                out = []
                if axis is None:
                    rs = ptr_leaves(S.ret)
                    for g, r in rs:
                        o = S.m.read(r.loc, S.store) if isinstance(r, Ptr) else None
                        if o is None:
                            return [("a new node is returned", [], [("node", Not(g), VALID)])]
                        ax = o.f["axis"]
                        out.append(("the new node holds the point and an axis, without subtrees", [g], [
                            ("axis", tocond_(lift(lambda v: Or(*[eq(v, i) for i in range(3)]), ax)), VALID),
                            ("point", o.f["point"], [st["x"].f[k] for k in "xyz"]),
                            ("empty", T if o.f["left"] is NULL and o.f["right"] is NULL else F, VALID)]))
                    out.append(("the count grows by one", [], [("size", S.this1.f["size_"], st["size"] + Rat.of(1))]))
                    return out
                k = "xyz"[axis]
                go = {n: ev(S, "go:" + n) for n in ("left", "right")}
                x, p = st["x"], st["p"]
                out.append(("filed on the side where the queries look for it", [], [
                    ("left", implies(go["left"], le(x.f[k], p.f[k])), VALID), ("right", implies(go["right"], le(p.f[k], x.f[k])), VALID),
                    ("once", Or(And(go["left"], Not(go["right"])), And(go["right"], Not(go["left"]))), VALID)]))
                kept = [("root", T if isinstance(r, Ptr) and r.loc.root == st["n"].loc.root else Not(g), VALID) for g, r in ptr_leaves(S.ret)]
                o = S.m.read(st["n"].loc, S.store)
                for nm, t in (("left", st["L"]), ("right", st["R"])):
                    for g, c in ptr_leaves(o.f[nm]):
                        root = c.loc.root if isinstance(c, Ptr) else None
                        if root == t.loc.root:
                            kept.append(("link", implies(g, Not(go[nm])), VALID))
                        elif root == st["new"][nm].loc.root:
                            kept.append(("link", implies(g, go[nm]), VALID))
                        else:
                            kept.append(("link", Not(g), VALID))
                kept.append(("point", o.f["point"], [p.f[k] for k in "xyz"]))
                kept.append(("axis", o.f["axis"], Rat.of(axis)))
                out.append(("the tree keeps its nodes and takes the new subtree", [], kept))
                return out
            K.one(key, prep=prep, rel=rel, label="depth %d, %s" % (depth, "no node" if axis is None else "node splitting along %s" % "xyz"[axis]))


def split_model(st):
    """std::nth_element: afterwards nothing before the middle is after it in the comparator's order, and conversely; the
    elements are arbitrary, so their names may stay"""
    def go(M, e, fr):
        A = e["a"]
        b, m, q = [M.asptr(M.value(x, fr, x["t"])) for x in A[:3]]
        b0, m0, q0 = [int(x.i.const()) for x in (b, m, q)]
        if not 0 <= b0 <= m0 <= q0:
            raise GiveUp("range of nth_element")
        if m0 == q0:
            return vn.Unk("void")
        xs = vn.vec(M.read(b.loc, fr.store))
        for i in range(b0, q0):
            if i != m0:
                lo, hi = (i, m0) if i < m0 else (m0, i)
                c = compare(M, A[3], xs[hi], xs[lo], fr)
                for g in ([Not(c)] if Not(c).t != "and" else Not(c).a):
                    if g.t not in ("le", "lt", "eq"):
                        raise GiveUp("order used for the split")
                    FACTS.append((g.a[0], {"le": "<=", "lt": "<", "eq": "="}[g.t]))
        return vn.Unk("void")
    return go


def compare(M, e, x, y, fr):
    """what a comparator argument answers on two values"""
    v = M.value(e, fr)
    if isinstance(v, vn.Lam):
        raise GiveUp("comparator")
    for f in M.P.root:
        if f["n"] == "operator()" and isinstance(v, Obj) and f.get("cls") == v.cls and len(f["params"]) == 2:
            r = M.invoke(f, M.temp(v, fr), None, fr, [M.temp(x, fr), M.temp(y, fr)])
            return tocond_(r)
    raise GiveUp("comparator")


def kd_build(K):
    key = KD + "buildKDTree(__wrap_iter<vec3*>,__wrap_iter<vec3*>,int)"
    for n in range(5):
        for depth in ((0, 1, 2, 3) if n == 3 else (n,)):
            st = {}

            def prep(M, fr, S, n=n, depth=depth):
                h = Heap(M, fr, S)
                xs = [vec3("x%d" % i) for i in range(n + 2)]
                l = M.new_root(SVec(xs), fr.store, "points")
                h.set(0, Ptr(l, Rat.of(1))), h.set(1, Ptr(l, Rat.of(n + 1))), h.set(2, Rat.of(depth))
                st.update(xs=xs, calls={}, l=l)
                M.stdmodels = {"nth_element": split_model(st)}

                def rec(M, f, this, a, fr):
                    p, q = [M.asptr(val(M, x, fr)) for x in a[:2]]
                    d = scalar(M, a[2], fr)
                    if any(not isinstance(x, Rat) or x.const() is None for x in (p.i, q.i, d)) or p.loc.root != l.root or d.const() < 0:
                        return vn.Unk("subtree")
                    r = h.obj(Obj("$tree", {}), "sub")
                    st["calls"][r.loc.root] = list(range(int(p.i.const()), int(q.i.const())))
                    fr.store[r.loc.root] = Obj("$tree", {})
                    return r
                M.models = {"buildKDTree": rec}

            def rel(a, n=n):
                S, xs = a.S, st["xs"]
                out = []
                for g, r in ptr_leaves(S.ret):
                    if n == 0:
                        out.append(("an empty range gives no tree", [], [("none", T if r is NULL else Not(g), VALID)]))
                        continue
                    if not isinstance(r, Ptr):
                        out.append(("a node for a non-empty range", [], [("node", Not(g), VALID)]))
                        continue
                    o = S.m.read(r.loc, S.store)
                    ax = o.f["axis"]
                    if not isinstance(ax, Rat) or ax.const() is None:
                        raise TypeError("axis")
                    ax = ax.const()
                    if ax not in (0, 1, 2):
                        out.append(("axis", [], [("axis", Not(g), VALID)]))
                        continue
                    k = "xyz"[int(ax)]
                    parts = {}
                    for nm in ("left", "right"):
                        c = o.f[nm]
                        parts[nm] = [] if c is NULL else st["calls"].get(c.loc.root) if isinstance(c, Ptr) else None
                        if parts[nm] is None:
                            raise TypeError("subtree")
                    at = [i for i in range(1, n + 1) if same(o.f["point"], xs[i])]
                    if not at:
                        raise TypeError("point of the node")
                    whole = sorted(parts["left"] + parts["right"] + at[:1])
                    out.append(("every point of the range is filed exactly once", [], [("parts", T if whole == list(range(1, n + 1)) else Not(g), VALID)]))
                    p = xs[at[0]]
                    side = [("left", le(xs[i].f[k], p.f[k]), VALID) for i in parts["left"] if i < len(xs)] + \
                        [("right", le(p.f[k], xs[i].f[k]), VALID) for i in parts["right"] if i < len(xs)]
                    out.append(("the halves lie on the sides where the queries look for them", [], side or [("sides", T, VALID)]))
                return out
            K.one(key, prep=prep, rel=rel, label="%d points at depth %d" % (n, depth))
    for ax in range(3):
        def prep(M, fr, S, ax=ax):
            h = Shape(M, fr, S)
            h.this(axis=ax)
        K.one("PointComparator3D::operator()(vec3,vec3)", prep=prep, label="axis %d" % ax,
              ret=lambda a, ax=ax: lt(a[0].f["xyz"[ax]], a[1].f["xyz"[ax]]))


def kd_public(K):
    for empty in (True, False):
        st = {}

        def root(M, fr, S, empty=empty):
            h = Heap(M, fr, S)
            if empty:
                r = NULL
            else:
                p = vec3("p")
                r = h.obj(kdnode(p, 0, h.obj(Obj("$tree", {}), "left"), h.obj(Obj("$tree", {}), "right")))
                st["p"] = p
            S.this0 = S.this0.with_("root", r)
            fr.store[fr.this.root] = S.this0
            st["root"] = r
            return h

        def is_root(M, x, fr):
            v = val(M, x, fr)
            return v is st["root"] or isinstance(v, Ptr) and isinstance(st["root"], Ptr) and v.loc.root == st["root"].loc.root
        lab = "empty tree" if empty else "non-empty tree"

        def prep1(M, fr, S):
            h = root(M, fr, S)
            x = vec3("found")
            st["x"], lo, hi = x, S.args[0][0], S.args[1][0]

            def rec(M, f, this, a, fr):
                if is_root(M, a[0], fr) and same(val(M, a[1], fr), lo) and same(val(M, a[2], fr), hi) and not empty:
                    M.write(a[3], SVec((vn.vec(M.read(a[3], fr.store)) or []) + [x]), fr.store)
                return vn.Unk("void")
            M.models = {"rangeSearchRec": rec}
        K.one(KD + "rangeSearch(vec3,vec3)", prep=prep1, throws=lambda a: F, label=lab,
              rel=lambda a: [("returns what the search of the whole tree finds", [], [("found", a.ret, SeqList([] if empty else [[st["x"].f[k] for k in "xyz"]]))])])

        def prep2(M, fr, S):
            h = root(M, fr, S)
            st["t"] = S.args[0][0]
            st["q"], st["X"] = vec3("q"), alg.sym("X")

            def rec(M, f, this, a, fr):
                if not is_root(M, a[0], fr) or not same(val(M, a[1], fr), st["t"]) or empty:
                    return vn.Unk("void")
                bv, dv = M.read(a[2], fr.store), M.read(a[3], fr.store)
                near = tocond_(lift(lambda x: lt(st["X"], x), dv))
                M.write(a[2], vn.vite(near, st["q"], bv), fr.store)
                M.write(a[3], vn.vite(near, st["X"], dv), fr.store)
                M.event(fr.store, "searched")
                return vn.Unk("void")
            M.models = {"nearestNeighborRec": rec}

        def rel2(a):
            if empty:
                return []
            S = a.S
            q, X, p, t = st["q"], st["X"], st["p"], st["t"]
            r = a.ret
            isq = And(*[tocond_(lift(lambda v, y=q.f[k]: eq(v, y), r.f[k])) for k in "xyz"])
            isp = And(*[tocond_(lift(lambda v, y=p.f[k]: eq(v, y), r.f[k])) for k in "xyz"])
            return [("returns the nearest point the search of the whole tree finds", [], [
                ("searched", ev(S, "searched"), VALID), ("nearest", Or(isq, And(isp, le(dist2(t, p), X))), VALID)])]
        K.one(KD + "nearestNeighbor(vec3)", prep=prep2, throws=(lambda a: T) if empty else (lambda a: F), rel=rel2, label=lab)

        def prep3(M, fr, S):
            h = root(M, fr, S)
            st["y"] = S.args[0][0]
            st["new"] = h.obj(Obj("$tree", {}), "new")

            def rec(M, f, this, a, fr):
                d = scalar(M, a[2], fr)
                if is_root(M, a[0], fr) and same(val(M, a[1], fr), st["y"]) and isinstance(d, Rat) and d.const() is not None and d.const() >= 0:
                    return st["new"]
                return NULL
            M.models = {"insertRec": rec}
        K.one(KD + "insert(vec3)", prep=prep3, label=lab, rel=lambda a: [("the tree with the new point becomes the tree", [], [
            ("root", T if isinstance(a.thisout.f["root"], Ptr) and a.thisout.f["root"].loc.root == st["new"].loc.root else F, VALID)])])
        K.one(KD + "empty()", prep=lambda M, fr, S: root(M, fr, S) and None, ret=lambda a: eq(a.this.f["size_"], 0), label=lab)
        K.one(KD + "size()", prep=lambda M, fr, S: root(M, fr, S) and None, ret=lambda a: a.this.f["size_"], label=lab)
        for n in range(3):
            def prep4(M, fr, S, n=n):
                h = root(M, fr, S)
                h.set(0, SVec([vec3("x%d" % i) for i in range(n)]))
                st["new"] = h.obj(Obj("$tree", {}), "new")

                def rec(M, f, this, a, fr):
                    p, q = [M.asptr(val(M, x, fr)) for x in a[:2]]
                    d = scalar(M, a[2], fr)
                    ok = [isinstance(x, Rat) and x.const() is not None for x in (p.i, q.i, d)]
                    if all(ok) and p.loc.root == h.ref(0).root and p.i.const() == 0 and q.i.const() == n and d.const() >= 0:
                        return st["new"]
                    return NULL
                M.models = {"buildKDTree": rec, "deleteKDTree": lambda M, f, this, a, fr: vn.Unk("void")}
            K.one(KD + "build(vector<vec3>)", prep=prep4, label="%s, %d points" % (lab, n), rel=lambda a, n=n: [("the tree holds all points", [], [
                ("root", T if isinstance(a.thisout.f["root"], Ptr) and a.thisout.f["root"].loc.root == st["new"].loc.root else F, VALID),
                ("size", a.thisout.f["size_"], Rat.of(n))])])


# ---------------------------------------------------------------- bounding volume hierarchy
def bvh(bx, l=NULL, r=NULL, o=NULL):
    return Obj("cmmcore::BVHNode", {"bounding_box": bx, "left": l, "right": r, "object": o})


def overlap(a, b):
    return And(*[And(le(a.f["min"].f[k], b.f["max"].f[k]), le(b.f["min"].f[k], a.f["max"].f[k])) for k in "xyz"])


def proper(*bs):
    for b in bs:
        for k in "xyz":
            FACTS.append((b.f["min"].f[k] - b.f["max"].f[k], "<="))


def bvh_traverse(K):
    key = "traverse_bvh(BVHNode*,AABB,vector<Object3D*>)"
    for kind in ("none", "leaf", "inner"):
        st = {}

        def prep(M, fr, S, kind=kind):
            h = Heap(M, fr, S)
            old = h.obj(Obj("$object", {}), "old")
            q, b = box("q"), box("b")
            proper(q, b)
            h.set(1, q), h.set(2, SVec([old]))
            L, Rt, o = [h.obj(Obj("$tree", {}), x) for x in ("left", "right", "object")]
            h.set(0, NULL if kind == "none" else h.obj(bvh(b, o=o)) if kind == "leaf" else h.obj(bvh(b, L, Rt)))
            st.update(q=q, b=b, old=old, o=o)

            def rec(M, f, this, a, fr):
                if same_box(val(M, a[1], fr), q) and isinstance(a[2], Loc) and a[2].root == h.ref(2).root:
                    for g, c in ptr_leaves(val(M, a[0], fr)):
                        for nm, t in (("left", L), ("right", Rt)):
                            if isinstance(c, Ptr) and c.loc.root == t.loc.root:
                                M.event(fr.store, "go:" + nm, g)
                return vn.Unk("void")
            M.models = {"traverse_bvh": rec}

        def rel(a, kind=kind):
            S = a.S
            out, got, kept = [], F, []
            for g, v in leaves(S.out[2]):
                xs = vn.vec(v)
                if xs is None:
                    raise TypeError("result list of unknown length")
                if not xs or not isinstance(xs[0], Ptr) or xs[0].loc.root != st["old"].loc.root:
                    kept.append(("kept", Not(g), VALID))
                elif len(xs) == 2 and isinstance(xs[1], Ptr) and xs[1].loc.root == st["o"].loc.root:
                    got = Or(got, g)
                elif len(xs) > 1:
                    kept.append(("added", Not(g), VALID))
            out.append(("earlier results kept, nothing else added", [], kept or [("kept", T, VALID)]))
            want = overlap(st["b"], st["q"]) if kind == "leaf" else F
            out.append(("the object is reported exactly when its box meets the query", [], [("reports", got, want)]))
            if kind == "inner":
                for n in ("left", "right"):
                    out.append(("%s subtree is searched whenever the box of the node meets the query" % n, [],
                                [("searched", implies(overlap(st["b"], st["q"]), ev(S, "go:" + n)), VALID)]))
            return out
        K.one(key, prep=prep, rel=rel, throws=lambda a: F, label=kind)

    st = {}

    def prep(M, fr, S):
        h = Heap(M, fr, S)
        n = h.obj(Obj("$tree", {}), "tree")
        h.set(0, n), h.set(2, SVec([]))
        pt = S.args[1][0]

        def rec(M, f, this, a, fr):
            b, c = val(M, a[1], fr), val(M, a[0], fr)
            if isinstance(c, Ptr) and c.loc.root == n.loc.root and isinstance(a[2], Loc) and a[2].root == h.ref(2).root \
                    and isinstance(b, Obj) and same(b.f["min"], pt) and same(b.f["max"], pt):
                M.event(fr.store, "searched")
            return vn.Unk("void")
        M.models = {"traverse_bvh": rec}
    K.one("contains_point(BVHNode*,vec3,vector<Object3D*>)", prep=prep,
          rel=lambda a: [("the whole tree is searched with the box of the point", [], [("searched", ev(a.S, "searched"), VALID)])])


def same_box(a, b):
    return isinstance(a, Obj) and isinstance(b, Obj) and set(a.f) == {"min", "max"} and all(same(a.f[k], b.f[k]) for k in a.f)


def common_volume(a, b):
    e = [vn.fmin(a.f["max"].f[k], b.f["max"].f[k]) - vn.fmax(a.f["min"].f[k], b.f["min"].f[k]) if False else
         lift(lambda x, y: x - y, vn.fmin(a.f["max"].f[k], b.f["max"].f[k]), vn.fmax(a.f["min"].f[k], b.f["min"].f[k])) for k in "xyz"]
    return lift(lambda x, y, z: x * y * z, *e)


def bvh_pairs(K):
    key = "intersect_bvh(BVHNode*,BVHNode*,vector<pair<BVHNode*,BVHNode*>>)"
    for k1 in ("none", "leaf", "inner"):
        for k2 in ("none", "leaf", "inner"):
            if k2 == "none" and k1 != "inner":
                continue
            st = {}

            def prep(M, fr, S, k1=k1, k2=k2):
                h = Heap(M, fr, S)
                b = [box("b1"), box("b2")]
                proper(*b)
                kids, node = [], []
                for i, k in enumerate((k1, k2)):
                    kids.append({nm: h.obj(Obj("$tree", {}), "%s%d" % (nm, i)) for nm in ("left", "right")})
                    o = h.obj(Obj("$object", {}), "object%d" % i)
                    node.append(NULL if k == "none" else h.obj(bvh(b[i], o=o) if k == "leaf" else bvh(b[i], kids[i]["left"], kids[i]["right"]), "node%d" % i))
                h.set(0, node[0]), h.set(1, node[1]), h.set(2, SVec([]))
                names = {}
                for i in range(2):
                    if isinstance(node[i], Ptr):
                        names[node[i].loc.root] = "self"
                    for nm, p in kids[i].items():
                        names[p.loc.root] = nm
                st.update(b=b, node=node)

                def rec(M, f, this, a, fr):
                    if not isinstance(a[2], Loc) or a[2].root != h.ref(2).root:
                        return vn.Unk("void")
                    for g1, c1 in ptr_leaves(val(M, a[0], fr)):
                        for g2, c2 in ptr_leaves(val(M, a[1], fr)):
                            if isinstance(c1, Ptr) and isinstance(c2, Ptr):
                                n1, n2 = names.get(c1.loc.root), names.get(c2.loc.root)
                                M.event(fr.store, "go:%s|%s" % (n1, n2), And(g1, g2))
                    return vn.Unk("void")
                M.models = {"intersect_bvh": rec}

            def rel(a, k1=k1, k2=k2):
                S = a.S
                rep, other = F, []
                for g, v in leaves(S.out[2]):
                    xs = vn.vec(v)
                    if xs is None:
                        raise TypeError("result list of unknown length")
                    if len(xs) == 1 and isinstance(xs[0], Obj) and all(isinstance(xs[0].f[i], Ptr) and isinstance(st["node"][i], Ptr) and
                                                                    xs[0].f[i].loc.root == st["node"][i].loc.root for i in range(2)):
                        rep = Or(rep, g)
                    elif xs:
                        other.append(("other", Not(g), VALID))
                out = [("nothing but the pair itself is reported", [], other or [("other", T, VALID)])]
                if "none" in (k1, k2):
                    return out + [("nothing reported without a tree", [], [("reports", rep, F)])]
                b = st["b"]
                ov = overlap(*b)
                small = tocond_(lift(lambda v: lt(v, Rat.of(Fraction(1, 10**6))), common_volume(*b)))
                if k1 == k2 == "leaf":
                    out.append(("two objects are reported when their boxes share a volume", [], [("reports", Or(rep, Not(ov), small), VALID)]))
                    out.append(("two objects are reported only when their boxes meet", [], [("reports", implies(rep, ov), VALID)]))
                    return out
                out.append(("an inner node is not reported", [], [("reports", rep, F)]))
                for n1 in ("left", "right") if k1 == "inner" else ("self",):
                    for n2 in ("left", "right") if k2 == "inner" else ("self",):
                        got = ev(S, "go:%s|%s" % (n1, n2))
                        if n1 != "self" and n2 != "self":
                            got = Or(got, ev(S, "go:self|%s" % n2), ev(S, "go:%s|self" % n1))
                        out.append(("subtrees %s and %s are compared whenever the boxes share a volume" % (n1, n2), [], [("compared", Or(got, Not(ov), small), VALID)]))
                return out
            K.one(key, prep=prep, rel=rel, throws=lambda a: F, label="%s with %s" % (k1, k2))


def bvh_worklist(K):
    """one round of the work-list variant: the list is asked for any pair it may hold, and takes the pairs to look at next"""
    key = "intersect_bvh_iterative(BVHNode*,BVHNode*,vector<pair<BVHNode*,BVHNode*>>)"
    for k1 in ("leaf", "inner"):
        for k2 in ("leaf", "inner"):
            st = {}

            def prep(M, fr, S, k1=k1, k2=k2):
                h = Heap(M, fr, S)
                b = [box("b1"), box("b2")]
                proper(*b)
                kids, node, names = [], [], {}
                for i, k in enumerate((k1, k2)):
                    kids.append({nm: h.obj(Obj("$tree", {}), "%s%d" % (nm, i)) for nm in ("left", "right")})
                    o = h.obj(Obj("$object", {}), "object%d" % i)
                    node.append(h.obj(bvh(b[i], o=o) if k == "leaf" else bvh(b[i], kids[i]["left"], kids[i]["right"]), "node%d" % i))
                    names[node[i].loc.root] = "self"
                    for nm, p in kids[i].items():
                        names[p.loc.root] = nm
                start = [h.obj(Obj("$tree", {}), "start%d" % i) for i in range(2)]
                h.set(0, start[0]), h.set(1, start[1]), h.set(2, SVec([]))
                st.update(b=b, node=node)

                def push(M, v, fr):
                    for g0, q in leaves(v):
                        if not isinstance(q, Obj):
                            raise GiveUp("entry of the work list")
                        for g1, c1 in ptr_leaves(q.f[0]):
                            for g2, c2 in ptr_leaves(q.f[1]):
                                if isinstance(c1, Ptr) and isinstance(c2, Ptr):
                                    if c1.loc.root == start[0].loc.root and c2.loc.root == start[1].loc.root:
                                        M.event(fr.store, "start", And(g0, g1, g2))
                                    M.event(fr.store, "go:%s|%s" % (names.get(c1.loc.root), names.get(c2.loc.root)), And(g0, g1, g2))

                def stack(M, n, A, e, fr):
                    if n == "empty":
                        return ev_(fr.store, "popped")
                    if n in ("top", "back", "front"):
                        return Obj("tuple", {0: node[0], 1: node[1]})
                    if n in ("pop", "pop_back", "pop_front"):
                        M.event(fr.store, "popped")
                        return vn.Unk("void")
                    if n in ("emplace", "emplace_back", "emplace_front") and len(A) == 2:
                        push(M, Obj("tuple", {i: M.value(x, fr) for i, x in enumerate(A)}), fr)
                        return vn.Unk("void")
                    if n in ("push", "push_back", "push_front", "emplace") and len(A) == 1:
                        push(M, M.value(A[0], fr), fr)
                        return vn.Unk("void")
                    raise GiveUp("work list")
                M.objmodels = {x: stack for x in ("stack", "deque", "queue", "list")}

            def rel(a, k1=k1, k2=k2):
                S = a.S
                if ev(S, "popped").t != "T":
                    raise TypeError("no work list")
                rep, other = F, []
                for g, v in leaves(S.out[2]):
                    xs = vn.vec(v)
                    if xs is None:
                        raise TypeError("result list of unknown length")
                    if len(xs) == 1 and isinstance(xs[0], Obj) and all(isinstance(xs[0].f[i], Ptr) and xs[0].f[i].loc.root == st["node"][i].loc.root for i in range(2)):
                        rep = Or(rep, g)
                    elif xs:
                        other.append(("other", Not(g), VALID))
                out = [("the search starts with the two trees", [], [("start", ev(S, "start"), VALID)]),
                       ("nothing but the pair itself is reported", [], other or [("other", T, VALID)])]
                ov = overlap(*st["b"])
                if k1 == k2 == "leaf":
                    return out + [("two objects are reported exactly when their boxes meet", [], [("reports", rep, ov)])]
                out.append(("an inner node is not reported", [], [("reports", rep, F)]))
                for n1 in ("left", "right") if k1 == "inner" else ("self",):
                    for n2 in ("left", "right") if k2 == "inner" else ("self",):
                        got = ev(S, "go:%s|%s" % (n1, n2))
                        if n1 != "self" and n2 != "self":
                            got = Or(got, ev(S, "go:self|%s" % n2), ev(S, "go:%s|self" % n1))
                        out.append(("subtrees %s and %s are compared whenever the boxes meet" % (n1, n2), [], [("compared", Or(got, Not(ov)), VALID)]))
                return out
            K.one(key, prep=prep, rel=rel, throws=lambda a: F, label="%s with %s" % (k1, k2))


def ev_(store, n):
    return store.get("$ev:" + n, F)


def bvh_split(K):
    key = "split_objects(vector<Object3D*>)"
    for n in range(5):
        orders = [(0, 1, 2)] if n != 2 else [(0, 1, 2), (1, 0, 2), (2, 1, 0)]
        cuts = [(c, c, c) for c in range(n + 1)] if n > 1 else [(0, 0, 0)]
        if n > 1:
            cuts += [(0, n, 1), (n, 0, 0), (n, 1, 1)]
        for od in orders:
            for cut in cuts:
                st = {}

                def prep(M, fr, S, n=n, od=od, cut=cut):
                    h = Heap(M, fr, S)
                    bs = [box("b%d" % i) for i in range(n)]
                    proper(*bs)
                    os = [h.obj(Obj("cmmcore::Object3D", {"bounding_box": b, "id": Rat.of(i)}), "object%d" % i) for i, b in enumerate(bs)]
                    h.set(0, SVec(os))
                    st.update(os=os, k=0)

                    def sort(M, e, fr):
                        a = [M.asptr(M.value(x, fr, x["t"])) for x in e["a"][:2]]
                        v = M.read(a[0].loc, fr.store)
                        if isinstance(v, Obj) and len(v.f) == 3:
                            M.write(a[0].loc, Obj(v.cls, {i: v.f[od[i]] for i in range(3)}), fr.store)
                            return vn.Unk("void")
                        return NotImplemented if isinstance(v, Obj) else vn.Unk("void")

                    def part(M, e, fr):
                        # any number of objects may satisfy the predicate; the objects are arbitrary, so they may stay in place
                        a = [M.asptr(M.value(x, fr, x["t"])) for x in e["a"][:2]]
                        if a[0].i.const() != 0 or a[1].i.const() != n:
                            raise GiveUp("partition of a part")
                        st["k"] += 1
                        return Ptr(a[0].loc, Rat.of(cut[min(st["k"] - 1, 2)]))
                    M.stdmodels = {"sort": sort, "stable_sort": sort, "partition": part, "stable_partition": part}

                    def merge(M, f, this, a, fr):
                        b = box("m%d" % len(FACTS))
                        proper(b)
                        return b
                    M.models = {"merge": merge, "compute_extents": lambda M, f, this, a, fr: vec3("e%d" % len(FACTS))}

                def rel(a, n=n):
                    S = a.S
                    lost, none = [], []
                    for g, r in leaves(S.ret):
                        if not isinstance(r, Obj):
                            raise TypeError("result")
                        for g1, l in leaves(r.f[0]):
                            for g2, q in leaves(r.f[1]):
                                x, y = vn.vec(l), vn.vec(q)
                                if x is None or y is None:
                                    raise TypeError("parts of unknown length")
                                if sorted(p.loc.root for p in x + y) != sorted(p.loc.root for p in st["os"]):
                                    lost.append(("parts", Not(And(g, g1, g2)), VALID))
                                if n > 1 and not (x and y):
                                    none.append(("parts", Not(And(g, g1, g2)), VALID))
                    ok = [("parts", T, VALID)]
                    return [("the parts hold every object exactly once", [], lost or ok), ("neither part is empty", [], none or ok)]
                K.one(key, prep=prep, rel=rel, throws=lambda a: F, label="%d objects, axes %s, cuts %s" % (n, od, cut))
    K.one("compute_extents(AABB)", ret=lambda a: [a[0].f["max"].f[k] - a[0].f["min"].f[k] for k in "xyz"])


def covers(out, inn):
    return [("covers", tocond_(lift(lambda x, y: le(x, y), out.f["min"].f[k], inn.f["min"].f[k])), VALID) for k in "xyz"] + \
        [("covers", tocond_(lift(lambda x, y: le(y, x), out.f["max"].f[k], inn.f["max"].f[k])), VALID) for k in "xyz"]


def walk(S, p, objs, subs, g, out, seen):
    """obligations of a finished tree; collects the objects filed under it"""
    o = S.m.read(p.loc, S.store)
    root = p.loc.root
    if root in subs:
        seen.extend(subs[root][1])
        return subs[root][0]
    bx = o.f["bounding_box"]
    ob = o.f["object"]
    if isinstance(ob, Ptr):
        out.append(("a leaf has the box of its object", [g], covers(bx, objs[ob.loc.root])))
        seen.append(ob.loc.root)
    elif ob is not NULL:
        raise TypeError("object of a node")
    for nm in ("left", "right"):
        c = o.f[nm]
        if isinstance(c, Ptr):
            out.append(("a node's box covers its subtrees", [g], covers(bx, walk(S, c, objs, subs, g, out, seen))))
            if isinstance(ob, Ptr):
                out.append(("a node with subtrees has no object of its own", [], [("object", Not(g), VALID)]))
        elif c is not NULL:
            raise TypeError("subtree of a node")
        elif ob is NULL:
            out.append(("an inner node has both subtrees", [], [("subtree", Not(g), VALID)]))
    return bx


def contracts(M, h):
    """merging boxes and taking extremes, as far as the builders need: the result covers / bounds its operands"""
    def merge(M, f, this, a, fr):
        b, x, y = box("m%d" % len(FACTS)), val(M, this, fr), val(M, a[0], fr)
        for z in (x, y):
            if not isinstance(z, Obj):
                raise GiveUp("box")
            for k in "xyz":
                for lo, hi in ((b.f["min"].f[k], z.f["min"].f[k]), (z.f["max"].f[k], b.f["max"].f[k])):
                    if not isinstance(lo, Rat) or not isinstance(hi, Rat):
                        raise GiveUp("gated box")
                    FACTS.append((lo - hi, "<="))
        return b

    def extreme(sign):
        def go(M, e, fr):
            v = [M.num(M.value(x, fr)) for x in e["a"]]
            if len(v) != 2 or not all(isinstance(x, Rat) for x in v):
                return NotImplemented
            m = alg.sym("e%d" % len(FACTS))
            for x in v:
                FACTS.append(((m - x) * Rat.of(sign), "<="))
            return m
        return go
    M.models.update(merge=merge)
    M.stdmodels.update(min=extreme(1), max=extreme(-1))


def bvh_build(K):
    def finish(a, st, n):
        S, out = a.S, []
        for g, r in ptr_leaves(S.ret):
            if n == 0:
                out.append(("no objects, no tree", [], [("none", T if r is NULL else Not(g), VALID)]))
                continue
            if not isinstance(r, Ptr) and r is not NULL:
                raise TypeError("result %r" % (r,))
            if not isinstance(r, Ptr):
                out.append(("a tree for the objects", [], [("tree", Not(g), VALID)]))
                continue
            seen = []
            walk(S, r, st["boxes"], st["subs"], g, out, seen)
            out.append(("every object is filed exactly once", [], [("filed", T if sorted(seen) == sorted(st["boxes"]) else Not(g), VALID)]))
        return out

    def inputs(M, fr, S, n, st):
        h = Heap(M, fr, S)
        bs = [box("b%d" % i) for i in range(n)]
        proper(*bs)
        os = [h.obj(Obj("cmmcore::Object3D", {"bounding_box": b, "id": Rat.of(i)}), "object%d" % i) for i, b in enumerate(bs)]
        h.set(0, SVec(os))
        st.clear()
        st.update(os=os, boxes={o.loc.root: b for o, b in zip(os, bs)}, subs={})
        return h
    for n in range(4):
        for k in range(1, n) if n > 1 else (0,):
            st = {}

            def prep(M, fr, S, n=n, k=k, st=st):
                h = inputs(M, fr, S, n, st)

                def split(M, f, this, a, fr):
                    xs = vn.vec(M.read(a[0], fr.store))
                    return Obj("tuple", {0: SVec(xs[:k]), 1: SVec(xs[k:])})

                def rec(M, f, this, a, fr):
                    xs = vn.vec(val(M, a[0], fr))
                    if xs is None:
                        raise GiveUp("gated list of objects")
                    if not xs:
                        return NULL
                    b = box("s%d" % len(st["subs"]))
                    proper(b)
                    r = h.obj(Obj("cmmcore::BVHNode", {"bounding_box": b, "left": vn.Unk("sub"), "right": vn.Unk("sub"), "object": vn.Unk("sub")}), "sub")
                    fr.store[r.loc.root] = M.read(r.loc, h.fr.store)
                    st["subs"][r.loc.root] = (b, [x.loc.root for x in xs])
                    return r
                M.models = {"split_objects": split, "build_bvh_top_down": rec}
                contracts(M, h)
            K.one("build_bvh_top_down(vector<Object3D*>)", prep=prep, rel=lambda a, st=st, n=n: finish(a, st, n), throws=lambda a: F,
                  label="%d objects%s" % (n, ", %d to the left" % k if n > 1 else ""))
    for n in range(6):
        for rev in ((False,) if n < 3 else (False, True)):
            st = {}

            def prep(M, fr, S, n=n, rev=rev, st=st):
                h = inputs(M, fr, S, n, st)

                def sort(M, e, fr):
                    # the objects are arbitrary: any order the sort may leave is one renaming of the order shown
                    a = [M.asptr(M.value(x, fr, x["t"])) for x in e["a"][:2]]
                    xs = vn.vec(M.read(a[0].loc, fr.store))
                    if xs is None:
                        raise GiveUp("list of unknown length")
                    if rev:
                        M.write(a[0].loc, SVec(xs[::-1]), fr.store)
                    return vn.Unk("void")
                M.stdmodels = {"sort": sort, "stable_sort": sort}
                contracts(M, h)
            K.one("build_bvh_bottom_up(vector<Object3D*>)", prep=prep, rel=lambda a, st=st, n=n: finish(a, st, n), throws=lambda a: F,
                  label="%d objects%s" % (n, ", sorted to the opposite order" if rev else ""))
    for b in (True, False):
        st = {}

        def prep(M, fr, S, b=b):
            h = Heap(M, fr, S)
            t = {x: h.obj(Obj("$tree", {}), x) for x in ("bottom", "top")}
            h.set(1, T if b else F)
            st.update(t=t)
            M.models = {"build_bvh_bottom_up": lambda M, f, this, a, fr: t["bottom"], "build_bvh_top_down": lambda M, f, this, a, fr: t["top"]}
        K.one("build_bvh(vector<Object3D*>,bool)", prep=prep, label="bottom up" if b else "top down", rel=lambda a: [
            ("returns a tree of the objects", [], [("tree", T if isinstance(a.ret, Ptr) and a.ret.loc.root in [x.loc.root for x in st["t"].values()] else F, VALID)])])
