"""C09 closest points, distances, central projection: compared with the defining minimisation."""
from core import *
from spec import *
from report import Result
from checks.c06 import dot, sub, add, mul, cross, sq, length


def put(fr, S, w, o):
    l = S.args[w][1]
    fr.store[l.root] = o
    S.args[w] = (o, l)


def V3(xs):
    return vn.Obj("cmmcore::vec3", dict(zip("xyz", xs)))


def tri(a, b, c):
    """the point of the triangle abc nearest to the origin (region classification of the minimiser)"""
    ab, ac = sub(b, a), sub(c, a)
    n = lambda p: mul(p, Rat.of(-1))
    d1, d2 = dot(ab, n(a)), dot(ac, n(a))
    d3, d4 = dot(ab, n(b)), dot(ac, n(b))
    d5, d6 = dot(ab, n(c)), dot(ac, n(c))
    va, vb, vc = d3 * d6 - d5 * d4, d5 * d2 - d1 * d6, d1 * d4 - d3 * d2
    z = Rat.of(0)
    ra = And(le(d1, z), le(d2, z))
    rb = And(le(z, d3), le(d4, d3))
    rc = And(le(z, d6), le(d5, d6))
    rab = And(le(vc, z), le(z, d1), le(d3, z))
    rac = And(le(vb, z), le(z, d2), le(d6, z))
    rbc = And(le(va, z), le(z, d4 - d3), le(z, d5 - d6))
    pab = add(a, mul(ab, d1 / (d1 - d3)))
    pac = add(a, mul(ac, d2 / (d2 - d6)))
    pbc = add(b, mul(sub(c, b), (d4 - d3) / ((d4 - d3) + (d5 - d6))))
    s = va + vb + vc
    pin = add(a, add(mul(ab, vb / s), mul(ac, vc / s)))
    out = []
    for i in range(3):
        out.append(ite(ra, a[i], ite(rb, b[i], ite(rab, pab[i], ite(rc, c[i], ite(rac, pac[i], ite(rbc, pbc[i], pin[i])))))))
    return out


def run(tier):
    P = load()
    R = Result("C09")
    R.rule("nearest", "normal form of the result is the minimiser of the distance for all real inputs")
    K = Checker(P, R, "nearest")
    o = K.one
    c = comp
    proj = lambda p, s, d: add(s, mul(d, dot(sub(p, s), d) / sq(d)))

    def seg(p, s, e):
        d = sub(e, s)
        t = dot(sub(p, s), d) / sq(d)
        q = add(s, mul(d, t))
        return [ite(lt(t, Rat.of(0)), s[i], ite(lt(Rat.of(1), t), e[i], q[i])) for i in range(3)]
    line = lambda a: proj(c(a[0]), c(a[1]), sub(c(a[2]), c(a[1])))
    segm = lambda a: seg(c(a[0]), c(a[1]), c(a[2]))
    zero = [Rat.of(0)] * 3
    # carrier lines
    o("closestPointOnLine(vec3,vec3,vec3,vec3)", out={3: line})
    o("closestPointOnLine(vec3,vec3,vec3)", ret=line)
    ahead = lambda a: [le(Rat.of(0), dot(sub(c(a[0]), c(a[1])), c(a[2])))]
    ray = lambda a: proj(c(a[0]), c(a[1]), c(a[2]))
    o("closestPointOnRay(vec3,vec3,vec3,vec3)", out={3: ray}, assume=ahead)
    o("closestPointOnRay(vec3,vec3,vec3)", ret=ray, assume=ahead)
    o("closestPointOnSegm(vec3,vec3,vec3,vec3)", out={3: segm})
    o("closestPointOnSegm(vec3,vec3,vec3)", ret=segm)
    o("closestPointOnSegm(vec3,vec3)", ret=lambda a: seg(zero, c(a[0]), c(a[1])))

    # triangles
    s_ = alg.sym
    o("closestPointOnTriangle(vec3,vec3,vec3)", ret=lambda a: tri(c(a[0]), c(a[1]), c(a[2])))
    off = lambda a: [lift(lambda x, y: x + y, p, q) for p, q in zip(c(a[0]), tri(*[sub(c(a[i]), c(a[0])) for i in (1, 2, 3)]))]

    def around(M, fr, S):          # corners written relative to the query point
        for w in (1, 2, 3):
            put(fr, S, w, V3([x + s_("t%d%d" % (w, i)) for i, x in enumerate(comp(S.args[0][0]))]))
    o("closestPointOnTriangle(vec3,vec3,vec3,vec3)", ret=off, prep=around)

    # two lines: the reported points lie on the lines at the reported parameters and their connection is perpendicular to both
    def lines(vals):
        def prep(M, fr, S):
            for w, p in enumerate(vals()):
                put(fr, S, w, V3(p))
        return prep
    z, one = Rat.of(0), Rat.of(1)
    n_ = Rat.of

    def fam(o3, d1, q, d2):
        return lambda: [o3(), add(o3(), d1()), q(), add(q(), d2())]
    org = lambda: [z, z, z]
    gen = lambda: [s_("q0"), s_("q1"), s_("q2")]
    FAM = [("first along x", fam(org, lambda: [s_("l"), z, z], gen, lambda: [s_("d0"), s_("d1"), z])),
           ("first along y", fam(org, lambda: [z, s_("l"), z], gen, lambda: [z, s_("d1"), s_("d2")])),
           ("first along z", fam(org, lambda: [z, z, s_("l")], gen, lambda: [s_("d0"), z, s_("d2")])),
           ("fixed directions", fam(lambda: [s_("p0"), s_("p1"), s_("p2")], lambda: [n_(1), n_(2), n_(3)], gen, lambda: [n_(2), n_(-1), n_(1)])),
           ("oblique", fam(lambda: [s_("p0"), n_(1), z], lambda: [n_(1), n_(1), z], gen, lambda: [n_(1), n_(-2), n_(4)]))]
    for lab, vals in FAM:
        def rel(a):
            p1, p2, q1, q2 = (c(a[i]) for i in range(4))
            d1, d2 = sub(p2, p1), sub(q2, q1)
            skew = Not(eq(sq(d1) * sq(d2) - dot(d1, d2) * dot(d1, d2), 0))
            r = []
            if len(a.S.args) > 4:
                t, u, x, y = a.out[4], a.out[5], c(a.out[6]), c(a.out[7])
                A3 = lambda p, d, s: [lift(lambda v, pp=pp, dd=dd: pp + v * dd, s) for pp, dd in zip(p, d)]
                D = [lift(lambda m, n: n - m, m, n) for m, n in zip(x, y)]
                dt = lambda d: lift(lambda p, q, s: p * d[0] + q * d[1] + s * d[2], *D)
                r.append(("point on the first line", (skew,), list(zip("xyz", x, A3(p1, d1, t)))))
                r.append(("point on the second line", (skew,), list(zip("xyz", y, A3(q1, d2, u)))))
                r.append(("connection perpendicular", (skew,), [("to line 1", dt(d1), z), ("to line 2", dt(d2), z)]))
            n = cross(d1, d2)
            w = dot(sub(q1, p1), n)
            r.append(("distance", (skew,), [("square", lift(lambda v: v * v, a.ret), w * w / sq(n))]))
            return r
        for key in ("segmentsDistance(vec3,vec3,vec3,vec3,double,double,vec3,vec3)", "segmentsDistance(vec3,vec3,vec3,vec3)"):
            o(key, prep=lines(vals), rel=rel, label=lab)

    def cen(a):
        p, q = c(a[0]), c(a[1])
        t = p[2] / (p[2] - q[2])
        return [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]
    o("centerProjectionToXY(vec3,vec3,vec2)", out={2: cen}, assume=lambda a: [Not(eq(c(a[0])[2], c(a[1])[2]))])
    K.finish()
    R.floor("nearest", 12)
    R.assumptions += ["coordinates are compared as real numbers: rounding and overflow are out of scope"]
    return R
