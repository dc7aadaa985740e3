"""C08 planes and local frames: constructors, distances, intersections and frame coordinates against plane geometry."""
from core import *
from spec import *
from report import Result
from checks.c06 import dot, sub, add, mul, cross, sq, length

PF = ["denominator", "equation", "normal", "origin"]


def s_(n):
    return alg.sym(n)


def put(M, fr, S, w, o):
    l = fr.this if w == "this" else S.args[w][1]
    fr.store[l.root] = o
    if w == "this":
        S.this0 = o
    else:
        S.args[w] = (o, l)


def planes(*ws, frame=False):
    """plane objects whose parts agree: unit normal (rational parametrisation), positive scale, origin on the plane"""
    def prep(M, fr, S):
        for w in ws:
            o = S.this0 if w == "this" else S.args[w][0]
            if [k for k in PF if k not in o.f] or len(o.f) != (6 if frame else 4):
                raise vn.GiveUp("plane has other fields than expected")
            nm = str(w)
            p, q, r = s_(nm + ".p"), s_(nm + ".q"), s_(nm + ".r")
            n = [2 * p / (1 + p * p + q * q), 2 * q / (1 + p * p + q * q), (1 - p * p - q * q) / (1 + p * p + q * q)]
            s = r * r + Fraction(1, 7)
            og = [s_(nm + ".o" + c) for c in "xyz"]
            e = mul(n, s) + [-dot(mul(n, s), og)]
            V = lambda c, xs: vn.Obj("cmmcore::vec%d" % len(xs), dict(zip("xyzw", xs)))
            o = o.with_("denominator", s).with_("equation", V(4, e)).with_("normal", V(3, n)).with_("origin", V(3, og))
            put(M, fr, S, w, o)
    return prep


def abs_lt(x, e):
    return And(lt(x, Rat.of(e)), lt(-x, Rat.of(e)))


def run(tier):
    P = load()
    R = Result("C08")
    R.rule("geometry", "normal form of the result satisfies the plane equations for all real inputs")
    K = Checker(P, R, "geometry")
    o = K.one
    c = comp
    E = lambda x: c(x.f["equation"])
    at = lambda e, p: dot(e[:3], p) + e[3]
    N3 = lambda p, q, r: cross(sub(q, p), sub(r, p))

    def eqn(a):
        p, q, r = c(a[0]), c(a[1]), c(a[2])
        n = N3(p, q, r)
        return n + [-dot(n, p)]
    o("plane_eq_from_pts(vec3,vec3,vec3,vec4)", out={3: eqn})
    o("planeSignedDistance(vec3,vec4)", ret=lambda a: at(c(a[1]), c(a[0])))

    def built(e, og=None):
        def f(a):
            q = e(a)
            L = length(q[:3])
            n = [x / L for x in q[:3]]
            r = {"denominator": L, "equation": q, "normal": n}
            if og:
                r["origin"] = og(a)
            else:
                r["origin"] = mul(q[:3], -q[3] / sq(q[:3]))
            return r
        return f
    o("plane::plane(double,double,double,double)", this=built(lambda a: [a[0], a[1], a[2], a[3]]))
    o("plane::plane(vec3)", this=built(lambda a: c(a[0]) + [Rat.of(0)]))
    o("plane::plane(vec3,vec3)", this=built(lambda a: c(a[1]) + [-dot(c(a[0]), c(a[1]))], lambda a: c(a[0])))

    # three-point planes: points in a plane parallel to a coordinate plane, then in general position (equation only)
    # orthogonal integer triples of length 3 keep every square root rational
    FR = [([1, 2, 2], [2, 1, -2]), ([2, 2, 1], [1, -2, 2]), ([2, -1, 2], [2, 2, -1]), ([3, 0, 0], [0, 3, 0]), ([0, 0, 3], [3, 0, 0])]
    vec_ = lambda v: [Rat.of(x) for x in v]

    def flat3(u, v):
        def prep(M, fr, S):
            o3 = [s_("o" + k) for k in "xyz"]
            m = s_("m")
            pts = [o3, add(o3, vec_(u)), add(o3, add(mul(vec_(u), m), mul(vec_(v), Rat.of(2))))]
            t = S.args[0][0]
            put(M, fr, S, 0, vn.Obj("tuple", {i: vn.Obj("cmmcore::vec3", dict(zip("xyz", p))) for i, p in enumerate(pts)}))
        return prep
    for u, v in FR:
        xa, ya = mul(vec_(u), Rat.of(Fraction(1, 3))), mul(vec_(v), Rat.of(Fraction(1, 3)))
        nz = cross(xa, ya)
        for cl, flds in (("plane", 4), ("cplane", 6)):
            def rel(a, nz=nz, cl=cl, xa=xa, ya=ya):
                t = a.thisout
                pts = [c(a[0].f[i]) for i in range(3)]
                e = E(t)
                nn = c(t.f["normal"])
                res = [("equation holds at point %d" % (i + 1), at(e, pts[i]), Rat.of(0)) for i in range(3)]
                res += [("normal.%s" % "xyz"[i], nn[i], nz[i]) for i in range(3)]
                res.append(("origin on the plane", at(e, c(t.f["origin"])), Rat.of(0)))
                res.append(("denominator^2", t.f["denominator"] * t.f["denominator"], sq(e[:3])))
                if cl == "cplane":
                    res += [("xaxis.%s" % "xyz"[i], c(t.f["xaxis"])[i], xa[i]) for i in range(3)]
                    res += [("yaxis.%s" % "xyz"[i], c(t.f["yaxis"])[i], ya[i]) for i in range(3)]
                return [("object", (), res)]
            o("%s::%s(tuple<vec3,vec3,vec3>)" % (cl, cl), prep=flat3(u, v), rel=rel, label="edges along %s and %s" % (u, v))
    o("plane::plane(tuple<vec3,vec3,vec3>)", label="general position",
      rel=lambda a: [("equation", (), [("point %d" % (i + 1), at(E(a.thisout), c(a[0].f[i])), Rat.of(0)) for i in range(3)])])
    o("cplane::cplane(vec3,vec3,vec3)", this=lambda a: {"equation": cross(c(a[1]), c(a[2])) + [-dot(cross(c(a[1]), c(a[2])), c(a[0]))],
                                                       "origin": c(a[0]), "xaxis": c(a[1]), "yaxis": c(a[2])})

    # distances
    d = lambda t, p: dot(c(t.f["normal"]), sub(p, c(t.f["origin"])))
    for cl in ("plane", "cplane"):
        pr = planes("this", frame=cl == "cplane")
        if cl == "cplane":
            o(cl + "::signedDistance(vec3)", prep=pr, ret=lambda a: d(a.this, c(a[0])))
            continue
        o(cl + "::signedDistance(vec3)", prep=pr, ret=lambda a: d(a.this, c(a[0])))
        o(cl + "::signedDistance(vector<vec3>,vector<double>)", prep=pr,
          out={1: lambda a: SeqSpec(a[0].size, lambda i: d(a.this, c(a[0].get(i))))})

    # line and ray intersections
    def hit(segment, D, Np, start, direc, ret, pt):
        t = Np / D
        ok = Or(le(Rat.of(Fraction(1, 10 ** 6)), D), le(D, Rat.of(-Fraction(1, 10 ** 6))))
        inside = And(le(Rat.of(0), t), le(t, Rat.of(1))) if segment else T
        p = add(start, mul(direc, t))
        return [("report", (), [("result", ret, ite(ok, inside, ite(And(eq(D, 0), Not(abs_lt(Np, Fraction(1, 10 ** 6)))), F, ANY)))]),
                ("point", (ok, inside), [("point.%s" % "xyz"[i], c(pt)[i], p[i]) for i in range(3)])]

    def ray(a):
        e = E(a.this)
        return hit(False, dot(e[:3], c(a[1])), -at(e, c(a[0])), c(a[0]), c(a[1]), a.ret, a.out[2])

    def line(a):
        e = E(a.this)
        dr = sub(c(a[1]), c(a[0]))
        return hit(True, dot(e[:3], dr), -at(e, c(a[0])), c(a[0]), dr, a.ret, a.out[2])

    o("plane::planeRayIntersection(vec3,vec3,vec3)", rel=ray)
    o("plane::planeLineIntersection(vec3,vec3,vec3)", rel=line)

    # two and three planes
    def two(a):
        e1, e2 = E(a.this), E(a[0])
        u, v = c(a.out[1]), c(a.out[2])
        return [("points on both planes", (okc(a.ret),), [
            ("plane %d at point %d" % (k, j), atv(e, p), Rat.of(0)) for k, e in ((1, e1), (2, e2)) for j, p in ((1, u), (2, v))])]

    def atv(e, p):
        t = e[3]
        for x, y in zip(e, p):
            t = lift(lambda s, u, w: s + u * w, t, x, y)
        return t

    def unitplanes(*axes):
        """planes with given integer normals, arbitrary offsets"""
        def prep(M, fr, S):
            for w, n in zip(("this", 0, 1), axes):
                o = S.this0 if w == "this" else S.args[w][0]
                if sorted(o.f) != sorted(PF):
                    raise vn.GiveUp("plane has other fields than expected")
                n = [Rat.of(x) for x in n]
                d = s_("d%s" % w)
                L = vn.f_sqrt(sq(n))
                nn = [x / L for x in n]
                V = lambda xs: vn.Obj("cmmcore::vec%d" % len(xs), dict(zip("xyzw", xs)))
                put(M, fr, S, w, vn.Obj(o.cls, {"denominator": L, "equation": V(n + [d]), "normal": V(nn),
                                               "origin": V(mul(n, -d / sq(n)))}))
        return prep
    PAIRS = [((1, 0, 0), (0, 1, 0)), ((1, 0, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((1, 2, 3), (3, -1, 2)),
             ((2, 1, 0), (1, 3, 0)), ((2, 0, 1), (1, 0, 3)), ((0, 2, 1), (0, 1, 3)), ((1, 1, 1), (1, -1, 0)), ((0, 0, 2), (1, 1, 5))]
    for m, n in PAIRS + [(n, m) for m, n in PAIRS]:
        def rel(a, m=m, n=n):
            r = two(a)
            d = sub(c(a.out[2]), c(a.out[1])) if all(isinstance(x, Rat) for x in c(a.out[1]) + c(a.out[2])) else None
            r.append(("meeting planes are reported", (), [("result", a.ret, T)]))
            if d is not None:
                r.append(("the two points differ", (), [("distance", Not(eq(sq(d), 0)), T)]))
            return r
        o("plane::planePlaneIntersection(plane,vec3,vec3)", prep=unitplanes(m, n), rel=rel, label="normals %s %s" % (m, n))
    for m, n in (((1, 2, 3), (2, 4, 6)), ((0, 0, 1), (0, 0, -1))):
        o("plane::planePlaneIntersection(plane,vec3,vec3)", prep=unitplanes(m, n), ret=lambda a: F, label="parallel %s %s" % (m, n))

    def three(a):
        es = [E(a.this), E(a[0]), E(a[1])]
        det = dot(es[0][:3], cross(es[1][:3], es[2][:3]))
        big = Not(abs_lt(det, Fraction(1, 10 ** 6)))
        p = c(a.out[2])
        return [("report", (), [("result", a.ret, ite(eq(det, 0), F, ite(big, T, ANY)))]),
                ("point on all planes", (big,), [("plane %d" % (k + 1), atv(e, p), Rat.of(0)) for k, e in enumerate(es)])]
    o("plane::planePlanePlaneIntersection(plane,plane,vec3)", rel=three)

    # coplanarity
    def onplane(k, off, line=False):
        def prep(M, fr, S):
            base = [[0, 0, 0], [1, 2, 2], [3, 3, 0]]
            o3 = [s_("o" + x) for x in "xyz"]
            pts = [add(o3, [Rat.of(x) for x in b]) for b in base]
            u, v = sub(pts[1], pts[0]), sub(pts[2], pts[0])
            n = cross(u, v)
            if line:          # the first points coincide or lie on one line
                pts = [pts[0], add(pts[0], mul(u, Rat.of(line[0]))), add(pts[0], mul(u, Rat.of(line[1]))), pts[2]]
                if k == 5:
                    pts.append(add(add(pts[0], add(u, v)), mul(n, Rat.of(off))))
            for i in range(0 if line else k - 3):
                q = add(pts[0], add(mul(u, s_("u%d" % i)), mul(v, s_("v%d" % i))))
                if i == off:
                    q = add(q, mul(n, Rat.of(Fraction(1, 1000))))
                pts.append(q)
            s = S.args[0][0]
            v = vn.SFill(Rat.of(k), vn.Unk("no element"))
            for i, p in enumerate(pts):
                v = vn.SStore(v, Rat.of(i), vn.Obj("cmmcore::vec3", dict(zip("xyz", p))))
            put(M, fr, S, 0, v)
            put(M, fr, S, 1, Rat.of(Fraction(1, 10 ** 9)))
        return prep
    for k in (3, 4, 5, 6):
        o("isPtsCoplanar(vector<vec3>,double)", prep=onplane(k, None), ret=lambda a: T, label="%d coplanar points" % k)
        for off in range(k - 3):
            o("isPtsCoplanar(vector<vec3>,double)", prep=onplane(k, off), ret=lambda a: F, label="point %d of %d off the plane" % (off + 4, k))

    for ln in ((1, 2), (2, 1), (0, 1), (1, 1), (0, 0)):
        o("isPtsCoplanar(vector<vec3>,double)", prep=onplane(4, None, ln), defined=True, ret=lambda a: T, label="4 points, first three collinear %s %s" % ln)
        o("isPtsCoplanar(vector<vec3>,double)", prep=onplane(5, 0, ln), defined=True, ret=lambda a: T, label="5 coplanar points, first three collinear %s %s" % ln)
        if ln != (0, 0):
            o("isPtsCoplanar(vector<vec3>,double)", prep=onplane(5, 1, ln), defined=True, ret=lambda a: F, label="fifth point off, first three collinear %s %s" % ln)

    # frames
    def fr6(a):
        t = a.this
        return c(t.f["origin"]), c(t.f["xaxis"]), c(t.f["yaxis"]), c(t.f["normal"])

    def ev(a):
        g, x, y, n = fr6(a)
        return add(g, add(mul(x, a[0]), mul(y, a[1])))

    def inv(a, p):
        g, x, y, n = fr6(a)
        d = sub(p, g)
        return [dot(d, x), dot(d, y), dot(d, n)]
    o("cplane::evaluate(double,double,vec3)", out={2: ev})
    o("cplane::evaluateInv(vec3,vec3)", out={1: lambda a: inv(a, c(a[0]))})
    o("cplane::evaluateInv(vec3,vec3)", out={1: lambda a: inv(a, c(a[0]))}, alias=[(1, 0)], label="in place")
    o("cplane::evaluateInv(vector<vec3>,vector<vec3>)", out={1: lambda a: SeqSpec(a[0].size, lambda i: inv(a, c(a[0].get(i))))})
    K.finish()
    R.floor("geometry", 40)
    R.assumptions += ["coordinates are compared as real numbers: rounding and overflow are out of scope",
                      "tolerances below 1e-6 on directions and determinants are the library's choice"]
    return R
