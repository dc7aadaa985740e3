"""C10 axis-aligned boxes and interval projections."""
from core import *
from spec import *
from report import Result
from checks.c06 import dot, sub, add, mul, cross, sq

BIG = Rat.of(vn.CONSTS["max"])


def run(tier):
    P = load()
    R = Result("C10")
    R.rule("box", "normal form of the result is the interval-wise definition for all real inputs")
    K = Checker(P, R, "box")
    o = K.one
    c = comp
    lo = lambda t: c(t.f["min"])
    hi = lambda t: c(t.f["max"])
    mn, mx = vn.fmin, vn.fmax

    o("AABB::AABB()", this=lambda a: {"min": [BIG] * 3, "max": [-BIG] * 3})
    o("AABB::AABB(vec3,vec3)", this=lambda a: {"min": c(a[0]), "max": c(a[1])})
    meets = lambda p, q: And(*[And(le(lo(p)[i], hi(q)[i]), le(lo(q)[i], hi(p)[i])) for i in range(3)])
    o("AABB::intersects(AABB)", ret=lambda a: meets(a.this, a[0]))

    def inter(a):
        m = meets(a.this, a[0])
        r = a.out[1]
        return [("report", (), [("result", a.ret, m)]),
                ("common box", (m,), [("min.%s" % "xyz"[i], lo(r)[i], mx(lo(a.this)[i], lo(a[0])[i])) for i in range(3)] +
                 [("max.%s" % "xyz"[i], hi(r)[i], mn(hi(a.this)[i], hi(a[0])[i])) for i in range(3)])]
    o("AABB::intersection(AABB,AABB)", rel=inter)
    o("AABB::merge(AABB)", ret=lambda a: {"min": [mn(x, y) for x, y in zip(lo(a.this), lo(a[0]))],
                                         "max": [mx(x, y) for x, y in zip(hi(a.this), hi(a[0]))]})
    ext = lambda t: sub(hi(t), lo(t))

    def vol(a):
        e = ext(a.this)
        return e[0] * e[1] * e[2]
    o("AABB::volume()", ret=vol)
    o("AABB::expand(vec3)", this=lambda a: {"min": [mn(x, y) for x, y in zip(lo(a.this), c(a[0]))],
                                           "max": [mx(x, y) for x, y in zip(hi(a.this), c(a[0]))]})
    o("AABB::infinity()", ret=lambda a: And(*[eq(x, BIG) for x in lo(a.this)] + [eq(x, -BIG) for x in hi(a.this)]))
    o("compute_extents(AABB)", ret=lambda a: ext(a[0]))
    o("Object3D::Object3D(AABB)", this=lambda a: {"bounding_box": {"min": lo(a[0]), "max": hi(a[0])}})
    o("Object3D::Object3D(AABB,int)", this=lambda a: {"bounding_box": {"min": lo(a[0]), "max": hi(a[0])}, "id": a[1]})

    # boxes and projections of point lists, by number of points
    def pts(*wn, dim=3):
        def prep(M, fr, S):
            for w, n in wn:
                v = vn.SFill(Rat.of(n), vn.Unk("no element"))
                for i in range(n):
                    v = vn.SStore(v, Rat.of(i), vn.Obj("cmmcore::vec%d" % dim, {k: alg.sym("q%d.%d.%s" % (w, i, k)) for k in "xyz"[:dim]}))
                l = S.args[w][1]
                fr.store[l.root] = v
                S.args[w] = (v, l)
        return prep

    def hull(s, n):
        p = [c(s.get(Rat.of(i))) for i in range(n)]
        r = []
        for f in (mn, mx):
            v = p[0]
            for q in p[1:]:
                v = [lift(f, x, y) for x, y in zip(v, q)]
            r.append(v)
        return r
    for n in (1, 2, 3, 4):
        o("AABB::AABB(vector<vec3>)", prep=pts((0, n)), label="%d points" % n,
          this=lambda a: dict(zip(("min", "max"), hull(a[0], n))))

    for n, m in ((1, 1), (2, 1), (1, 2)):
        def disj(a):
            (l1, h1), (l2, h2) = hull(a[0], n), hull(a[1], m)
            ov = lambda x, y: tocond(lift(lambda p, q: le(p, q), x, y))
            return Not(And(*[And(ov(l1[i], h2[i]), ov(l2[i], h1[i])) for i in range(3)]))
        o("AABBTest(vector<vec3>,vector<vec3>)", prep=pts((0, n), (1, m)), label="%d and %d points" % (n, m), ret=disj)
    for n in (1, 2, 3):
        def pr(a):
            d = c(a[1])
            ps = [dot(c(a[0].get(Rat.of(i))), d) / dot(d, d) for i in range(n)]
            l = h = ps[0]
            for x in ps[1:]:
                l, h = lift(mn, l, x), lift(mx, h, x)
            return [l, h]
        inside = lambda a: [And(lt(dot(c(a[0].get(Rat.of(i))), c(a[1])) / dot(c(a[1]), c(a[1])), BIG),
                                lt(-BIG, dot(c(a[0].get(Rat.of(i))), c(a[1])) / dot(c(a[1]), c(a[1])))) for i in range(n)]
        o("polygonProject(vector<vec2>,vec2,vec2)", prep=pts((0, n), dim=2), out={2: pr}, assume=inside, label="%d points" % n)

    def swp(a):
        g = lt(c(a[1])[1], c(a[0])[1])
        return [[ite(g, y, x) for x, y in zip(c(a[0]), c(a[1]))], [ite(g, x, y) for x, y in zip(c(a[0]), c(a[1]))]]
    o("swapIntervals(vec2,vec2)", rel=lambda a: [("ordered by upper end", (), pairs_(a, swp))])

    # point in polygon (even-odd rule), polygon edge normals
    for n in (3, 4):
        def parity(a):
            q = c(a[1])
            P_ = [c(a[0].get(Rat.of(i))) for i in range(n)]
            r = F
            for i in range(n):
                u, v = P_[i], P_[i - 1]
                span = Or(And(le(u[1], q[1]), lt(q[1], v[1])), And(le(v[1], q[1]), lt(q[1], u[1])))
                x = u[0] + (v[0] - u[0]) * (q[1] - u[1]) / (v[1] - u[1])
                h = And(span, lt(q[0], x))
                r = Or(And(r, Not(h)), And(Not(r), h))
            return r
        o("pointInPolygon2D(vector<vec2>,vec2)", prep=pts((0, n), dim=2), ret=parity, label="%d corners" % n)

        def norms(a, unit=False):
            P_ = [c(a[0].get(Rat.of(i))) for i in range(n)]
            r = []
            for i in range(n):
                u, v = P_[i], P_[(i + 1) % n]
                r.append([v[1] - u[1], u[0] - v[0]])
            return SeqList(r)
        o("polygonNormals(vector<vec2>,vector<vec2>,bool)", prep=empty_out(pts((0, n), dim=2)), out={1: norms}, label="%d corners" % n)
    K.finish()
    R.floor("box", 14)
    R.assumptions += ["coordinates are compared as real numbers: rounding is out of scope",
                      "point lists of up to 4 points are expanded; longer lists go through the same loop"]
    return R


def pairs_(a, swp):
    r = a.ret
    w = swp(a)
    if not isinstance(r, vn.Obj):
        raise KeyError("result is not a pair")
    out = []
    for k in (0, 1):
        for i, (x, y) in enumerate(zip(comp(r.f[k]), w[k])):
            out.append(("interval %d.%s" % (k + 1, "xy"[i]), x, y))
    return out


def empty_out(base):
    def prep(M, fr, S):
        base(M, fr, S)
        v = vn.SFill(Rat.of(0), vn.Unk("no element"))
        fr.store[S.args[1][1].root] = v
        S.args[1] = (v, S.args[1][1])
        fr.store[S.args[2][1].root] = F
        S.args[2] = (F, S.args[2][1])
    return prep
