"""Recursive subdivision searches: abstract pieces of curves and surfaces, and the obligation that every pair of pieces is
searched, reported or proven apart.

A piece stands for a sub-curve or sub-surface: it has symbolic bounds (box, parameter interval) and a name; splitting it gives
its children.  Callees that work on pieces are replaced by their contracts (which other properties check)."""
import vn, alg
from alg import *
from vn import Obj, SVec, Loc, Ptr, GiveUp


def box(n):
    return Obj("cmmcore::AABB", {m: Obj("cmmcore::vec3", {k: alg.sym("%s.%s.%s" % (n, m, k)) for k in "xyz"}) for m in ("min", "max")})


def arr(*xs):
    return Obj("array", dict(enumerate(xs)))


def vec3(n, *ins):
    return Obj("cmmcore::vec3", {k: app("@%s.%s" % (n, k), *ins) if ins else alg.sym("%s.%s" % (n, k)) for k in "xyz"})


class Pieces:
    """universe of pieces of one analysed function"""
    def __init__(self):
        self.tag, self.kids, self.parent, self.obj, self.root, self.preds, self.kind, self.side = {}, {}, {}, {}, {}, [], {}, {}
        self.calls, self.cuts = [], {}

    # ------------------------------------------------------------ construction
    def new(self, kind, tag, iv, parent=None, side=None):
        i = len(self.tag) + 1
        self.tag[i], self.kids[i], self.parent[i], self.kind[i] = tag, {}, parent, kind
        self.root[i] = self.root[parent] if parent else i
        self.side[i] = side
        b = box(tag)
        for k in "xyz":
            FACTS.append((b.f["min"].f[k] - b.f["max"].f[k], "<="))
        f = {"$piece": Rat.of(i), "_aabb": b, "_interval": iv}
        if kind != "curve":
            f["_bbox"] = b
        self.obj[i] = Obj("cmmcore::NURBSCurve" if kind == "curve" else "cmmcore::NURBSSurface", f)
        return self.obj[i]

    def curve(self, tag):
        a, b = alg.sym(tag + ".t0"), alg.sym(tag + ".t1")
        FACTS.append((a - b, "<"))
        return self.new("curve", tag, arr(a, b))

    def surface(self, tag, kind="surface"):
        vs = [alg.sym("%s.%s" % (tag, n)) for n in ("u0", "u1", "v0", "v1")]
        FACTS.append((vs[0] - vs[1], "<"))
        FACTS.append((vs[2] - vs[3], "<"))
        return self.new(kind, tag, arr(arr(*vs[:2]), arr(*vs[2:])))

    def split(self, M, i, d, at, fr):
        """children of piece i cut at parameter `at` in direction d (None for curves)"""
        iv = self.obj[i].f["_interval"]
        if d is not None:
            iv = iv.f[d]
        lo, hi = iv.f[0], iv.f[1]
        out = Or(*[And(g, le(x, lo)) for g, x in leaves(at)] + [And(g, le(hi, x)) for g, x in leaves(at)])
        if any(not isinstance(x, Rat) for g, x in leaves(at)):
            raise GiveUp("split parameter")
        c = known(out)
        if c.t != "F":
            fr.pend.append(c)
        k = (d, repr(at))
        if not isinstance(at, Rat):         # any parameter inside will do
            at = self.cuts.setdefault((i,) + k, alg.sym("cut%d" % len(self.cuts)))
        if k not in self.kids[i]:
            t = [self.tag[i] + "/" + ("" if d is None else "uv"[d]) + s for s in "01"]
            ivs = [arr(lo, at), arr(at, hi)]
            if d is not None:
                ivs = [arr(*(x if n == d else self.obj[i].f["_interval"].f[n] for n in range(2))) for x in ivs]
            mark = len(FACTS)
            self.kids[i][k] = [self.new(self.kind[i], t[n], ivs[n], i, (d, n)) for n in range(2)]
        return self.kids[i][k]

    # ------------------------------------------------------------ access
    def of(self, v):
        if isinstance(v, Obj) and "$piece" in v.f:
            c = v.f["$piece"]
            if isinstance(c, Rat) and c.const() is not None:
                return int(c.const())
            raise GiveUp("gated piece")
        return None

    def at(self, l, fr, M):
        """the piece an argument is; None for an object that is no piece of what is searched"""
        v = M.read(l, fr.store)
        if not isinstance(v, Obj):
            raise GiveUp("argument is not one known object")
        return self.of(v)

    def points(self, i):
        return Obj("$points", {"$of": Rat.of(i)})

    def pointsof(self, v):
        if isinstance(v, Obj) and v.cls == "$points":
            c = v.f["$of"]
            if isinstance(c, Rat) and c.const() is not None:
                return int(c.const())
        raise GiveUp("points of an unknown piece")

    def same_path(self, i, j):
        """pieces cut the same way from their roots (a patch and its gauss map)"""
        def path(i):
            out = []
            while self.parent[i]:
                out.append(self.side[i])
                i = self.parent[i]
            return sorted(out, key=repr)
        return path(i) == path(j)

    # ------------------------------------------------------------ contracts of callees
    def models(self):
        P = self

        def member(fn):
            def go(M, f, this, argv, fr):
                if this is None:
                    return NotImplemented
                v = M.read(this, fr.store)
                i = P.of(v)
                if i is None:
                    return NotImplemented
                return fn(M, f, this, i, argv, fr)
            return go

        def field(n):
            return member(lambda M, f, this, i, a, fr: this.at(n))

        def nothing(M, f, this, i, a, fr):
            return vn.Unk("void")

        def scalar(M, l, fr):
            return M.num(M.read(l, fr.store) if isinstance(l, Loc) else l)

        def deliver(M, f, objs, outs, fr):
            """children returned by value or through result parameters"""
            rt = M.P.under(f["rt"])
            if rt.get("c") == "void":
                for l, o in zip(outs, objs):
                    M.write(l, o, fr.store)
                return vn.Unk("void")
            if M.is_std(rt, "array"):
                return arr(*objs)
            if M.is_std(rt, "vector"):
                return SVec(list(objs))
            return Obj("tuple", dict(enumerate(objs)))

        def is_num(M, p):
            return M.P.under(p["vt"]).get("c") in ("fp", "int")

        def csplit(M, f, this, i, a, fr):
            nums = [x for x, p in zip(a, f["params"]) if M.P.under(p["vt"]).get("c") == "fp"]
            outs = [x for x, p in zip(a, f["params"]) if M.P.is_ref(p["vt"]) and not M.P.is_const_ref(p["vt"])]
            return deliver(M, f, P.split(M, i, None, scalar(M, nums[0], fr), fr), outs, fr)

        def ssplit(d):
            def go(M, f, this, i, a, fr):
                nums = [x for x, p in zip(a, f["params"]) if M.P.under(p["vt"]).get("c") == "fp"]
                outs = [x for x, p in zip(a, f["params"]) if M.P.is_ref(p["vt"]) and not M.P.is_const_ref(p["vt"])]
                return deliver(M, f, P.split(M, i, d, scalar(M, nums[0], fr), fr), outs, fr)
            return member(go)

        def subdivide(M, f, this, i, a, fr):
            nums = [scalar(M, x, fr) for x, p in zip(a, f["params"]) if M.P.under(p["vt"]).get("c") == "fp"]
            outs = [x for x, p in zip(a, f["params"]) if M.P.is_ref(p["vt"]) and not M.P.is_const_ref(p["vt"])]
            iv = P.obj[i].f["_interval"]
            mid = [(iv.f[d].f[0] + iv.f[d].f[1]) * Rat.of(Fraction(1, 2)) for d in range(2)]
            u, v = nums if len(nums) == 2 else mid
            out = []
            for s in P.split(M, i, 0, u, fr):
                out += P.split(M, P.of(s), 1, v, fr)
            return deliver(M, f, out, outs, fr)

        def points(M, f, this, i, a, fr):
            if a:
                M.write(a[0], P.points(i), fr.store)
                return vn.Unk("void")
            return P.points(i)

        def evaluate(M, f, this, i, a, fr):
            nums = [scalar(M, x, fr) for x, p in zip(a, f["params"]) if M.P.under(p["vt"]).get("c") == "fp"]
            outs = [x for x, p in zip(a, f["params"]) if M.P.is_ref(p["vt"]) and not M.P.is_const_ref(p["vt"])]
            if any(isinstance(x, (vn.Unk, vn.Ite)) for x in nums):
                raise GiveUp("evaluation at a gated parameter")
            v = vec3("%s.%s" % (f["n"], P.tag[P.root[i]]), *nums)
            if outs:
                M.write(outs[0], v, fr.store)
                return outs[0] if M.P.is_ref(f["rt"]) else vn.Unk("void") if M.P.under(f["rt"]).get("c") == "void" else v
            return v

        m = {"split": member(csplit), "split_surface_u": ssplit(0), "split_surface_v": ssplit(1), "subdivide": member(subdivide),
             "aabb": field("_aabb"), "bbox": field("_aabb"), "rebuildAABB": member(nothing), "interval": field("_interval"),
             "update_interval": member(nothing), "update_interval_u": member(nothing), "update_interval_v": member(nothing)}
        for n in ("get_control_points3d", "control_points_flat3d", "control_points3d", "get_control_points", "control_points_flat"):
            m[n] = member(points)
        for n in ("evaluate", "derivative", "second_derivative", "normal", "operator()", "derivative_u", "derivative_v", "derivative_fdm"):
            m[n] = member(evaluate)
        m["length"] = member(lambda M, f, this, i, a, fr: alg.sym("length." + P.tag[P.root[i]]))
        return m

    def separator(self, name, nth=(0, 1), check=None):
        """a predicate on two point sets that answers true only when they are apart"""
        def go(M, f, this, argv, fr):
            pts = [self.pointsof(M.read(argv[k], fr.store) if isinstance(argv[k], Loc) else argv[k]) for k in nth]
            extra = check(M, argv, fr) if check else ""
            c = Cond("op", "apart:%s:%s|%s%s" % (name, self.tag[pts[0]], self.tag[pts[1]], extra))
            if extra is not None:
                self.preds.append((pts[0], pts[1], c))
            return c
        return go

    def excuse(self, a, b, c):
        self.preds.append((a, b, c))

    def visit(self, M, fr, a, b, what="visit"):
        M.event(fr.store, "%s:%d|%d" % (what, a, b))

    # ------------------------------------------------------------ the obligation
    def apart(self, i, j):
        x, y = self.obj[i].f["_aabb"].f, self.obj[j].f["_aabb"].f
        return Or(*[Or(lt(x["max"].f[k], y["min"].f[k]), lt(y["max"].f[k], x["min"].f[k])) for k in "xyz"])

    def handled(self, S, i, j, extra):
        """conditions under which the pair of pieces itself is taken care of"""
        c = [self.apart(i, j)]
        for a, b, p in self.preds:
            if (a, b) in ((i, j), (j, i)):
                c.append(p)
        for n in ("visit", "simple"):
            for k in {"%s:%d|%d" % (n, i, j), "%s:%d|%d" % (n, j, i)}:
                if k in S.events and not (n == "visit" and (i, j) == extra.get("root")):
                    c.append(S.events[k])
        return c + extra.get((i, j), [])

    def points_of(self, i):
        """one chain of pieces for every place a point of piece i can be, whichever way the piece is cut"""
        out = [(i,)]
        for ks in self.kids[i].values():
            out = [x + y for x in out for k in ks for y in self.points_of(self.of(k))]
        return out

    def obligations(self, S, i, j, extra):
        """(name, condition) for every pair of places"""
        seen = {}
        for x in self.points_of(i):
            for y in self.points_of(j):
                c = []
                for a in x:
                    for b in y:
                        c += self.handled(S, a, b, extra)
                n = "%s with %s" % ("+".join(self.tag[a] for a in x if not any(self.kids[a])) or self.tag[i],
                                    "+".join(self.tag[b] for b in y if not any(self.kids[b])) or self.tag[j])
                seen[n] = Or(*c)
        return seen


def leaves(v, g=T):
    """(guard, sequence) alternatives of a value"""
    if isinstance(v, vn.SIte) or isinstance(v, Ite):
        return leaves(v.a, And(g, v.c)) + leaves(v.b, And(g, Not(v.c)))
    return [(g, v)]
