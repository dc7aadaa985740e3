"""C12 reshaping operations keep the geometry: knot insertion, splitting, sub-patches, isocurves, layout conversions."""
from core import *
from spec import *
from report import Result
from nurbs_spec import *
from search import leaves


class Kn:
    """knot vector with the order of its entries: list of (value, ordinal)"""
    def __init__(self, xs, ords):
        self.xs, self.ords = list(xs), list(ords)

    @staticmethod
    def of(mults, xs):
        return Kn(xs, [i for i, m in enumerate(mults) for _ in range(m)])

    def insert(self, u, o, times):
        k = sum(1 for x in self.ords if x <= o)
        return Kn(self.xs[:k] + [u] * times + self.xs[k:], self.ords[:k] + [o] * times + self.ords[k:])


def refined(p, K, pts, L, keys="xyzw"):
    """control points that describe the curve (K, pts) over the knot vector L (L refines K, or a piece of it):
    polar form of a segment inside the support, at the interior knots of the support"""
    out = []
    for i in range(len(L.xs) - p - 1):
        lo, hi = L.ords[i], L.ords[i + p + 1]
        s = next(s for s in range(len(K.xs) - 1) if K.ords[s] < K.ords[s + 1] and K.ords[s] < hi and K.ords[s + 1] > lo)
        out.append([blossom(p, K.xs, pts, s, L.xs[i + 1:i + p + 1], c) for c in keys])
    return out


def places(mults, full):
    """parameters to insert: (ordinal, existing multiplicity)"""
    out = [(i + Fraction(1, 2), 0) for i in range(len(mults) - 1)]
    return out + [(i, m) for i, m in enumerate(mults) if 0 < i < len(mults) - 1]


CURVES = [(1, (2, 2)), (1, (2, 1, 2)), (2, (3, 3)), (2, (3, 1, 3)), (3, (4, 4)), (2, (3, 1, 1, 3)), (2, (3, 2, 3)), (3, (4, 1, 4))]
SURFS = [((1, (2, 2)), (1, (2, 2))), ((2, (3, 3)), (1, (2, 2))), ((1, (2, 2)), (2, (3, 3))), ((1, (2, 1, 2)), (1, (2, 2))),
         ((1, (2, 2)), (1, (2, 1, 2)))]


def run(tier):
    P = load()
    R = Result("C12")
    R.rule("shape", "normal form of the new knots and control points is the polar form of the original, for symbolic knots, parameters and points")
    K = Checker(P, R, "shape")
    o = K.one

    def param(h, U, mults, at, u=None):
        """a parameter strictly inside a span, or an existing interior knot"""
        ks = [U[sum(mults[:i])] for i in range(len(mults))]
        if at == int(at):
            return ks[int(at)]
        u = alg.sym("t") if u is None else u
        i = int(at)
        h.apart(ks[i], u, ks[i + 1])
        return u

    row = lambda r: SeqList([SeqList(x) if isinstance(x[0], list) else x for x in r])

    for p, mults in CURVES:
        N = sum(mults) - p - 1
        for at, m in places(mults, True):
            span = sum(mults[:int(at) + 1]) - 1
            for num in range(1, p - m + 1):
                lab = "degree %d, knots %s, %d at %s" % (p, mults, num, float(at))

                def ki(M, fr, S):
                    h = Shape(M, fr, S)
                    h.arg(0, p)
                    U = h.arg(1, h.knots(mults, apart=True)).xs
                    h.arg(2, h.points(N))
                    h.arg(3, param(h, U, mults, at))
                    h.arg(4, num), h.arg(5, m), h.arg(6, span)
                    if len(S.args) > 7:
                        h.arg(7, vn.SVec([]))

                def want(a):
                    k = Kn.of(mults, a[1].xs)
                    return SeqList(refined(p, k, a[2].xs, k.insert(a[3], at, num)))
                key = "knot_insertion(int,vector<double>,vector<vec4>,double,int,int,int"
                o(key + ")", prep=ki, ret=want, label=lab)
                if num == 1:
                    o(key + ",vector<vec4>)", prep=ki, out={7: want}, label=lab)

                def kv(M, fr, S):
                    h = Shape(M, fr, S)
                    U = h.arg(0, h.knots(mults, apart=True)).xs
                    h.arg(1, param(h, U, mults, at))
                    h.arg(2, span), h.arg(3, num)
                o("knot_insertion_kv(vector<double>,double,int,int)", prep=kv, label=lab,
                  ret=lambda a: SeqList(Kn.of(mults, a[0].xs).insert(a[1], at, num).xs))

                def ci(M, fr, S):
                    h = Shape(M, fr, S)
                    t = h.this(_degree=p, knots=h.knots(mults, apart=True), control_points=h.points(N), _periodic=False)
                    h.arg(0, param(h, t.f["knots"].xs, mults, at))
                    h.arg(1, num)

                def nc(a):
                    k = Kn.of(mults, a.this.f["knots"].xs)
                    l = k.insert(a[0], at, num)
                    return {"knots": SeqList(l.xs), "control_points": SeqList(refined(p, k, a.this.f["control_points"].xs, l)),
                            "_degree": Rat.of(p)}
                o("NURBSCurve::insert_knot(double,int)", prep=ci, this=nc, label=lab, opaque=("expand",))

            # splitting
            if m < p:
                def sp(M, fr, S):
                    h = Shape(M, fr, S)
                    U = h.knots(mults, apart=True)
                    h.this(_degree=p, knots=U, control_points=h.points(N), _periodic=False,
                           _interval=M.arr([U.xs[0], U.xs[-1]]))
                    h.arg(0, param(h, U.xs, mults, at))
                    h.arg(1, False)

                def halves(a):
                    k = Kn.of(mults, a.this.f["knots"].xs)
                    l = k.insert(a[0], at, p - m)
                    e = max(i for i, x in enumerate(l.ords) if x == at) + 1
                    l1 = Kn(l.xs[:e] + [a[0]], l.ords[:e] + [at])
                    l2 = Kn([a[0]] * (p + 1) + l.xs[e:], [at] * (p + 1) + l.ords[e:])
                    return [{"knots": SeqList(x.xs), "_degree": Rat.of(p),
                             "control_points": SeqList(refined(p, k, a.this.f["control_points"].xs, x))} for x in (l1, l2)]
                o("NURBSCurve::split(double,bool)", prep=sp, ret=halves, label="degree %d, knots %s, at %s" % (p, mults, float(at)),
                  opaque=("expand",))

        # decomposition into single-span pieces
        def dc(M, fr, S):
            h = Shape(M, fr, S)
            U = h.knots(mults, apart=True)
            h.this(_degree=p, knots=U, control_points=h.points(N), _periodic=False, _interval=M.arr([U.xs[0], U.xs[-1]]))
            h.arg(0, vn.SVec([]))

        def pieces(a):
            k = Kn.of(mults, a.this.f["knots"].xs)
            out = []
            for i in range(len(mults) - 1):
                x, y = k.xs[k.ords.index(i)], k.xs[k.ords.index(i + 1)]
                l = Kn([x] * (p + 1) + [y] * (p + 1), [i] * (p + 1) + [i + 1] * (p + 1))
                out.append({"knots": SeqList(l.xs), "_degree": Rat.of(p),
                            "control_points": SeqList(refined(p, k, a.this.f["control_points"].xs, l))})
            return SeqList(out)
        if all(m < p for m in mults[1:-1]):
            o("NURBSCurve::decompose(vector<NURBSCurve>)", prep=dc, out={0: pieces}, label="degree %d, knots %s" % (p, mults),
              opaque=("expand",))

        # rescaling the parameter
        def nk(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_degree=p, knots=h.knots(mults), control_points=h.points(N), _periodic=False)
        o("NURBSCurve::normalize_knots()", prep=nk, label="degree %d, knots %s" % (p, mults),
          this=lambda a: {"knots": SeqList([(x - a.this.f["knots"].xs[0]) / (a.this.f["knots"].xs[-1] - a.this.f["knots"].xs[0])
                                            for x in a.this.f["knots"].xs]),
                          "control_points": SeqList([list(q.f.values()) for q in a.this.f["control_points"].xs])})

    # ---- default knot vectors
    for p, n in ((1, 2), (1, 3), (2, 3), (2, 5), (3, 4), (3, 6)):
        clamped = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1)

        def gk(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_degree=p, control_points=h.points(n), knots=vn.SVec([]), _periodic=False)
        o("NURBSCurve::generate_knots()", prep=gk, label="degree %d, %d points" % (p, n),
          this=lambda a: {"knots": SeqList([Rat.of(x) for x in clamped]), "_interval": [Rat.of(0), Rat.of(n - p)]})
        o("NURBSCurve::generate_knots_periodic()", prep=gk, label="degree %d, %d points" % (p, n),
          this=lambda a: {"knots": SeqList([Rat.of(x - p) for x in range(n + p + 1)])})
        for d in (0, 1):
            def gs(M, fr, S):
                h = Shape(M, fr, S)
                h.this(_degree=M.arr([Rat.of(p), Rat.of(p)]), _size=M.arr([Rat.of(n), Rat.of(n)]))
            o("NURBSSurface::generate_knots_%s()" % "uv"[d], prep=gs, label="degree %d, %d points" % (p, n),
              this=lambda a: {"_knots_" + "uv"[d]: SeqList([Rat.of(x) for x in clamped])})
        for kind, w in (("vec4", 4), ("vec3", 3)):
            def mk(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(0, h.points(n, dim=w)), h.arg(1, p)
                if len(S.args) > 2:
                    h.arg(2, False)
            for tail in (",int)", ",int,bool)"):
                o("NURBSCurve::NURBSCurve(vector<%s>%s" % (kind, tail), prep=mk, label="degree %d, %d points" % (p, n), opaque=("expand",),
                  this=lambda a: {"knots": SeqList([Rat.of(x) for x in clamped]), "_degree": Rat.of(p),
                                  "control_points": SeqList([[q.f[k] for k in "xyz"] + [q.f.get("w", Rat.of(1))] for q in a[0].xs])})

    # ---- surfaces
    def surf(h, M, p, mu, q, mv, name="P"):
        U, V = h.knots(mu, apart=True), h.knots(mv, "l", apart=True)
        nu, nv = sum(mu) - p - 1, sum(mv) - q - 1
        return dict(_degree=M.arr([Rat.of(p), Rat.of(q)]), _size=M.arr([Rat.of(nu), Rat.of(nv)]), _knots_u=U, _knots_v=V,
                    _control_points=h.grid(nu, nv, name),
                    _interval=M.arr([M.arr([U.xs[0], U.xs[-1]]), M.arr([V.xs[0], V.xs[-1]])]))

    def rows(g):
        return [list(r.xs) for r in g.xs]

    def ob(l):
        return vn.Obj("cmmcore::vec4", dict(zip("xyzw", l)))

    def refine2(t, p, mu, q, mv, LU=None, LV=None):
        """control grid over refined knot vectors, by polar forms in each direction"""
        G = rows(t["_control_points"])
        if LU is not None:
            k = Kn.of(mu, t["_knots_u"].xs)
            cols = [refined(p, k, [G[i][j] for i in range(len(G))], LU) for j in range(len(G[0]))]
            G = [[ob(cols[j][i]) for j in range(len(cols))] for i in range(len(cols[0]))]
        if LV is not None:
            k = Kn.of(mv, t["_knots_v"].xs)
            G = [[ob(x) for x in refined(q, k, r, LV)] for r in G]
        return G

    def sspec(t, p, q, G, U, V):
        return {"_degree": [Rat.of(p), Rat.of(q)], "_size": [Rat.of(len(G)), Rat.of(len(G[0]))],
                "_knots_u": SeqList(U), "_knots_v": SeqList(V),
                "_control_points": SeqList([SeqList([list(x.f.values()) for x in r]) for r in G])}

    for (p, mu), (q, mv) in SURFS:
        for d in (0, 1):
            deg, mm = ((p, mu), (q, mv))[d]
            for at, m in places(mm, True):
                for num in range(1, deg - m + 1):
                    lab = "degree %dx%d, knots %s x %s, %d at %s" % (p, q, mu, mv, num, float(at))

                    def si(M, fr, S, three=False):
                        h = Shape(M, fr, S)
                        t = h.this(**surf(h, M, p, mu, q, mv))
                        h.arg(0, param(h, t.f["_knots_u" if d == 0 else "_knots_v"].xs, mm, at))
                        if three:
                            h.arg(1, d), h.arg(2, num)
                        else:
                            h.arg(1, num)

                    def ns(a):
                        t = a.this.f
                        k = Kn.of(mm, t["_knots_u" if d == 0 else "_knots_v"].xs)
                        l = k.insert(a[0], at, num)
                        G = refine2(t, p, mu, q, mv, LU=l) if d == 0 else refine2(t, p, mu, q, mv, LV=l)
                        return sspec(t, p, q, G, l.xs if d == 0 else t["_knots_u"].xs, l.xs if d == 1 else t["_knots_v"].xs)
                    o("NURBSSurface::insert_knot_%s(double,int)" % "uv"[d], prep=si, this=ns, label=lab, opaque=("expand",))
                    if num == 1:
                        o("NURBSSurface::insert_knot(double,int,int)", prep=lambda M, fr, S: si(M, fr, S, True), this=ns,
                          label=lab + " along " + "uv"[d], opaque=("expand",))
                if m < deg:
                    def ss(M, fr, S):
                        h = Shape(M, fr, S)
                        t = h.this(**surf(h, M, p, mu, q, mv))
                        h.arg(0, param(h, t.f["_knots_u" if d == 0 else "_knots_v"].xs, mm, at))
                        h.arg(1, Fraction(1, 10 ** 7))

                    def parts(a):
                        t = a.this.f
                        return [sspec(t, p, q, *x) for x in cut(t, d, deg, mm, a[0], at, m)]

                    def cut(t, d, deg, mm, u, at, m):
                        k = Kn.of(mm, t["_knots_u" if d == 0 else "_knots_v"].xs)
                        out = []
                        for l in pieces2(k, deg, u, at, m):
                            G = refine2(t, p, mu, q, mv, LU=l) if d == 0 else refine2(t, p, mu, q, mv, LV=l)
                            out.append((G, l.xs if d == 0 else t["_knots_u"].xs, l.xs if d == 1 else t["_knots_v"].xs))
                        return out
                    o("NURBSSurface::split_surface_%s(double,double)" % "uv"[d], prep=ss, ret=parts, opaque=("expand",),
                      label="degree %dx%d, knots %s x %s, at %s" % (p, q, mu, mv, float(at)))

        # four sub-patches
        half = Fraction(1, 2)
        lab = "degree %dx%d, knots %s x %s" % (p, q, mu, mv)
        if len(mu) == 2 and len(mv) == 2:
            def four(a, um, vm):
                t = a.this.f
                ku, kv = Kn.of(mu, t["_knots_u"].xs), Kn.of(mv, t["_knots_v"].xs)
                return [sspec(t, p, q, refine2(t, p, mu, q, mv, lu, lv), lu.xs, lv.xs)
                        for lu in pieces2(ku, p, um, half, 0) for lv in pieces2(kv, q, vm, half, 0)]

            def mid(a):
                t = a.this.f
                f = lambda k: (t[k].xs[0] + t[k].xs[-1]) / Rat.of(2)
                return f("_knots_u"), f("_knots_v")

            def sd(M, fr, S, n=0, two=False):
                h = Shape(M, fr, S)
                t = h.this(**surf(h, M, p, mu, q, mv))
                if two:
                    h.arg(n, param(h, t.f["_knots_u"].xs, mu, half, S.args[n][0]))
                    h.arg(n + 1, param(h, t.f["_knots_v"].xs, mv, half, S.args[n + 1][0]))
            N_ = "NURBSSurface,NURBSSurface,NURBSSurface,NURBSSurface"
            o("NURBSSurface::subdivide()", prep=sd, ret=lambda a: four(a, *mid(a)), label=lab, opaque=("expand",))
            o("NURBSSurface::subdivide(double,double)", prep=lambda M, fr, S: sd(M, fr, S, 0, True),
              ret=lambda a: four(a, a[0], a[1]), label=lab, opaque=("expand",))
            each = lambda f: {i: (lambda a, i=i: f(a)[i]) for i in range(4)}
            o("NURBSSurface::subdivide(%s)" % N_, prep=sd, out=each(lambda a: four(a, *mid(a))), label=lab, opaque=("expand",))
            o("NURBSSurface::subdivide(%s,double,double)" % N_, prep=lambda M, fr, S: sd(M, fr, S, 4, True),
              out=each(lambda a: four(a, a[4], a[5])), label=lab, opaque=("expand",))

        # curves on the surface
        def iso(t, d, u, s):
            G = rows(t["_control_points"])
            if d == 0:
                b = basis_ders(lambda k: t["_knots_u"].xs[s + k], p, u, 0)[0]
                pts = [[sum((b[r] * G[s - p + r][j].f[c] for r in range(p + 1)), Rat.of(0)) for c in "xyzw"]
                       for j in range(len(G[0]))]
                return {"_degree": Rat.of(q), "knots": SeqList(t["_knots_v"].xs), "control_points": SeqList(pts),
                        "_interval": [t["_knots_v"].xs[0], t["_knots_v"].xs[-1]]}
            b = basis_ders(lambda k: t["_knots_v"].xs[s + k], q, u, 0)[0]
            pts = [[sum((b[r] * G[i][s - q + r].f[c] for r in range(q + 1)), Rat.of(0)) for c in "xyzw"]
                   for i in range(len(G))]
            return {"_degree": Rat.of(p), "knots": SeqList(t["_knots_u"].xs), "control_points": SeqList(pts),
                    "_interval": [t["_knots_u"].xs[0], t["_knots_u"].xs[-1]]}

        enum = {"U": Rat.of(0), "V": Rat.of(1)}
        for d in (0, 1):
            deg, mm = ((p, mu), (q, mv))[d]
            for s in spans(mm):
                lab2 = lab + ", %s in span %d" % ("uv"[d], s)

                def pm(M, fr, S):
                    h = Shape(M, fr, S)
                    t = h.this(**surf(h, M, p, mu, q, mv))
                    U = t.f["_knots_u" if d == 0 else "_knots_v"].xs
                    h.leq(U[s], S.args[0][0]), h.less(S.args[0][0], U[s + 1])
                    h.arg(1, d)
                o("NURBSSurface::extract_isocurve(double,SurfaceParameter)", prep=pm, ret=lambda a: iso(a.this.f, d, a[0], s),
                  label=lab2, opaque=("expand",))

                def pf(M, fr, S):
                    h = Shape(M, fr, S)
                    t = h.arg(0, vn.Obj("cmmcore::NURBSSurface", dict(S.args[0][0].f, **surf(h, M, p, mu, q, mv))))
                    U = t.f["_knots_u" if d == 0 else "_knots_v"].xs
                    h.leq(U[s], S.args[1][0]), h.less(S.args[1][0], U[s + 1])
                    h.arg(2, d)
                o("extract_isocurve(NURBSSurface,double,SurfaceParameter)", prep=pf, ret=lambda a: iso(a[0].f, d, a[1], s),
                  label=lab2, opaque=("expand",))

        def bnd(t):
            G = rows(t["_control_points"])
            U, V = t["_knots_u"].xs, t["_knots_v"].xs
            f = lambda pts, n, k: {"_degree": Rat.of(n), "knots": SeqList(k),
                                   "control_points": SeqList([list(x.f.values()) for x in pts])}
            return [f(G[0], q, V), f(G[-1], q, V), f([r[0] for r in G], p, U), f([r[-1] for r in G], p, U)]

        o("NURBSSurface::extract_surface_boundaries(array<NURBSCurve,4>)", label=lab, opaque=("expand",),
          prep=lambda M, fr, S: Shape(M, fr, S).this(**surf(Shape(M, fr, S), M, p, mu, q, mv)), out={0: lambda a: bnd(a.this.f)})
        o("extract_surface_boundaries(NURBSSurface,array<NURBSCurve,4>)", label=lab, opaque=("expand",),
          prep=lambda M, fr, S: Shape(M, fr, S).arg(0, vn.Obj("cmmcore::NURBSSurface", dict(S.args[0][0].f, **surf(Shape(M, fr, S), M, p, mu, q, mv)))),
          out={1: lambda a: bnd(a[0].f)})

    # ---- grid layouts
    for nu, nv in ((2, 3), (3, 2), (1, 2)):
        def gr(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_size=M.arr([Rat.of(nu), Rat.of(nv)]), _control_points=h.grid(nu, nv))
        lab = "%d x %d" % (nu, nv)
        W = lambda x: [x.f[k] / x.f["w"] for k in "xyz"]
        H = lambda x: list(x.f.values())
        g = lambda a: rows(a.this.f["_control_points"])
        o("NURBSSurface::control_points_flat()", prep=gr, label=lab, ret=lambda a: SeqList([H(x) for r in g(a) for x in r]))
        o("NURBSSurface::control_points_flat3d()", prep=gr, label=lab, ret=lambda a: SeqList([W(x) for r in g(a) for x in r]))
        o("NURBSSurface::control_points_flat3d(vector<vec3>)", prep=gr, label=lab,
          out={0: lambda a: SeqList([W(x) for r in g(a) for x in r])})
        o("NURBSSurface::control_points3d()", prep=gr, label=lab, ret=lambda a: SeqList([SeqList([W(x) for x in r]) for r in g(a)]))

        def fl(M, fr, S):
            h = Shape(M, fr, S)
            h.arg(0, h.grid(nu, nv)), h.arg(1, vn.SVec([]))
        o("nurbs_helpers::flipControlPointsU(vector<vector<vec4>>,vector<vector<vec4>>)", prep=fl, label=lab,
          out={1: lambda a: SeqList([SeqList([H(a[0].xs[i].xs[j]) for i in range(nu)]) for j in range(nv)])})

    reshape2(K, o, param, surf, rows, refine2, sspec)
    K.finish()
    R.floor("shape", 60)
    R.assumptions += ["coordinates, knots and parameters are compared as real numbers: rounding is out of scope",
                      "distinct knots are further apart than the library's knot tolerances",
                      "degrees up to 3 and the listed knot multiplicity patterns; knots, parameters, points and weights are symbolic"]
    return R


def reshape2(K, o, param, surf, rows, refine2, sspec):
    """removal, refinement, closing, joining, conversions"""
    H = lambda x: list(x.f.values())
    # removing a knot that was inserted gives the curve back
    for p, mults, at, m, num in [(1, (2, 2), .5, 0, 1), (2, (3, 3), .5, 0, 1), (2, (3, 3), .5, 0, 2), (3, (4, 4), .5, 0, 1), (3, (4, 4), .5, 0, 2),
                                 (2, (3, 1, 3), 1, 1, 1), (2, (3, 1, 3), .5, 0, 1), (2, (3, 1, 3), 1.5, 0, 1), (3, (4, 1, 4), 1, 1, 1),
                                 (3, (4, 1, 4), .5, 0, 1)]:
        N = sum(mults) - p - 1
        at = Fraction(at)
        box = {}

        def kr(M, fr, S):
            h = Shape(M, fr, S)
            U = h.knots(mults, apart=True).xs
            u = param(h, U, mults, at)
            k = Kn.of(mults, U)
            l = k.insert(u, at, num)
            P = h.points(N)
            h.arg(0, p), h.arg(1, vn.SVec(l.xs))
            h.arg(2, vn.SVec([vn.Obj("cmmcore::vec4", dict(zip("xyzw", x))) for x in refined(p, k, P.xs, l)]))
            h.arg(3, u), h.arg(4, Fraction(1, 10 ** 4)), h.arg(5, num), h.arg(6, False)
            box["P"] = P
        o("knot_removal(int,vector<double>,vector<vec4>,double,double,int,bool)", prep=kr,
          ret=lambda a: SeqList([H(x) for x in box["P"].xs]), label="degree %d, knots %s, %d at %s" % (p, mults, num, float(at)))

    # a knot of an arbitrary curve goes only when the curve without it passes within the tolerance, weight included
    for p, mults in [(1, (2, 1, 2)), (1, (2, 1, 1, 2)), (2, (3, 1, 3)), (2, (3, 1, 1, 3)), (3, (4, 1, 4))]:
        N = sum(mults) - p - 1
        box2 = {}

        def kn(M, fr, S, p=p, mults=mults, N=N, box2=box2):
            h = Shape(M, fr, S)
            U = h.knots(mults, apart=True).xs
            P, tol = h.points(N), alg.sym("tol")
            h.less(0, tol)
            h.arg(0, p), h.arg(1, vn.SVec(U)), h.arg(2, P), h.arg(3, U[p + 1]), h.arg(4, tol), h.arg(5, 1), h.arg(6, False)
            first, last = 1, p
            pt = [[q.f[k] for k in "xyzw"] for q in P.xs]
            u = U[p + 1]
            al = lambda i: (u - U[i]) / (U[i + p + 1] - U[i])
            i, j, ql, qr = first, last, pt[first - 1], pt[last + 1]
            while j > i:
                a, b = al(i), al(j)
                ql = [(x - (1 - a) * y) / a for x, y in zip(pt[i], ql)]
                qr = [(x - b * y) / (1 - b) for x, y in zip(pt[j], qr)]
                i, j = i + 1, j - 1
            if j < i:
                r = [x - y for x, y in zip(ql, qr)]
            else:
                a = al(i)
                r = [x - a * y - (1 - a) * z for x, y, z in zip(pt[i], qr, ql)]
            box2.update(fits=le(vn.f_sqrt(sum((x * x for x in r), Rat.of(0))), tol), pt=pt)

        def gone(a, N=N, box2=box2):
            cut, kept = F, []
            for g, v in leaves(a.ret):
                for g1, n in leaves(v.size):
                    if not isinstance(n, Rat) or n.const() is None:
                        raise TypeError("control points of unknown number")
                    if n.const() == N - 1:
                        cut = Or(cut, And(g, g1))
                    elif n.const() != N:
                        kept.append(("number of points", Not(And(g, g1)), VALID))
            return [("a point goes exactly when the curve without the knot is within the tolerance", [], [("removed", cut, box2["fits"])] + kept)]
        o("knot_removal(int,vector<double>,vector<vec4>,double,double,int,bool)", prep=kn, rel=gone, label="any curve of degree %d, knots %s" % (p, mults))

    # refinement: every knot up to full multiplicity, plus halves of the spans and extra knots
    for p, mults in [(1, (2, 2)), (2, (3, 1, 3)), (2, (3, 1, 1, 3)), (3, (4, 1, 4)), (3, (4, 2, 4)), (2, (3, 3)), (3, (4, 4))]:
        N = sum(mults) - p - 1
        for dens in (1, 2):
            if dens == 1 and all(m >= p for m in mults) or dens == 2 and len(mults) > 3:
                continue

            def rf(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(0, p), h.arg(1, h.knots(mults, apart=True)), h.arg(2, h.points(N))
                h.arg(3, vn.SVec([])), h.arg(4, vn.SVec([])), h.arg(5, dens), h.arg(6, False)

            def rw(a):
                k = Kn.of(mults, a[1].xs)
                l = k
                for i in range(1, len(mults) - 1):
                    l = l.insert(k.xs[k.ords.index(i)], i, p - mults[i])
                if dens == 2:
                    for i in range(len(mults) - 1):
                        x, y = k.xs[k.ords.index(i)], k.xs[k.ords.index(i + 1)]
                        l = l.insert((x + y) / Rat.of(2), i + Fraction(1, 2), p)
                return [SeqList(refined(p, k, a[2].xs, l)), SeqList(l.xs)]
            o("knot_refinement(int,vector<double>,vector<vec4>,vector<double>,vector<double>,int,bool)", prep=rf, ret=rw,
              label="degree %d, knots %s, density %d" % (p, mults, dens))

    # closing a curve
    for p, n in ((1, 3), (2, 4), (3, 4)):
        def mp(M, fr, S):
            h = Shape(M, fr, S)
            P = h.points(n)
            h.this(_degree=p, control_points=P, knots=vn.SVec([]), _periodic=False)
            h.apart(P.xs[0].f["x"], P.xs[n - p].f["x"])
        o("NURBSCurve::make_periodic()", prep=mp, label="degree %d, %d points" % (p, n),
          this=lambda a: {"control_points": SeqList([H(x) for x in list(a.this.f["control_points"].xs) + list(a.this.f["control_points"].xs[:p])]),
                          "knots": SeqList([Rat.of(i - p) for i in range(n + 2 * p + 1)]), "_periodic": T,
                          "_interval": [Rat.of(-p), Rat.of(n + p)]})

        def ip(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_degree=p, control_points=h.points(n))

        def periodic(a):
            P = a.this.f["control_points"].xs
            return And(*[eq(P[j].f[c], P[n - p + j].f[c]) for j in range(p) for c in "xyzw"])
        o("NURBSCurve::is_periodic()", prep=ip, ret=periodic, label="degree %d, %d points" % (p, n))

    # joining at a shared end
    ends = {"end to start": ((0, 1), (1, 2)), "start to start": ((1, 0), (1, 2)), "end to end": ((0, 1), (2, 1)),
            "start to end": ((1, 0), (2, 1)), "apart": ((0, 1), (2, 3))}
    for what, (e1, e2) in ends.items():
        for p in (1, 2):
            def jn(M, fr, S):
                h = Shape(M, fr, S)

                def curve(e, nm, o_):
                    xs = [vn.Obj("cmmcore::vec4", dict(zip("xyzw", [Rat.of(2 * i), Rat.of(3 * i), Rat.of(-6 * i), Rat.of(1)]))) for i in e]
                    if p == 2:
                        xs.insert(1, vn.Obj("cmmcore::vec4", {"x": Rat.of(50), "y": alg.sym(nm + "y"), "z": alg.sym(nm + "z"), "w": Rat.of(1)}))
                    kn = [Rat.of(0)] * (p + 1) + [Rat.of(1)] * (p + 1)
                    return dict(_degree=Rat.of(p), control_points=vn.SVec(xs), knots=vn.SVec(kn), _periodic=F,
                                _interval=M.arr([Rat.of(0), Rat.of(1)]))
                h.this(**curve(e1, "m", None))
                h.arg(0, vn.Obj(S.args[0][0].cls, dict(S.args[0][0].f, **curve(e2, "n", None))))

            def joined(a):
                x, y = list(a.this.f["control_points"].xs), list(a[0].f["control_points"].xs)
                if "start to" in what:
                    x.reverse()
                if what.endswith("to end"):
                    y.reverse()
                return {"control_points": SeqList([H(q) for q in x + y]), "_degree": Rat.of(p), "_periodic": F}
            o("NURBSCurve::join(NURBSCurve,NURBSCurve)", prep=jn, ret=lambda a: F if what == "apart" else T,
              out={} if what == "apart" else {1: joined}, label="%s, degree %d" % (what, p), opaque=("expand",))

    # conversions and whole-grid operations
    for n in (2, 3):
        def cp(M, fr, S):
            h = Shape(M, fr, S)
            h.this(control_points=h.points(n))
        W = lambda x: [x.f[k] / x.f["w"] for k in "xyz"]
        o("NURBSCurve::get_control_points3d()", prep=cp, ret=lambda a: SeqList([W(x) for x in a.this.f["control_points"].xs]), label="%d points" % n)
        o("NURBSCurve::get_control_points3d(vector<vec3>)", prep=cp, label="%d points" % n,
          out={0: lambda a: SeqList([W(x) for x in a.this.f["control_points"].xs])})
    for nu, nv in ((2, 3), (3, 2)):
        for key in ("surfaceCrossProduct(NURBSSurface,NURBSSurface,NURBSSurface)", "cross(NURBSSurface,NURBSSurface,NURBSSurface)",
                    "cross(NURBSSurface,NURBSSurface)"):
            def cr(M, fr, S):
                h = Shape(M, fr, S)
                for i, nm in ((0, "P"), (1, "Q")):
                    kw = dict(_size=M.arr([Rat.of(nu), Rat.of(nv)]), _degree=M.arr([Rat.of(1), Rat.of(1)]), _control_points=h.grid(nu, nv, nm),
                              _knots_u=h.knots((2,) + (1,) * (nu - 2) + (2,), nm), _knots_v=h.knots((2,) + (1,) * (nv - 2) + (2,), nm + "v"))
                    h.arg(i, vn.Obj(S.args[i][0].cls, dict(S.args[i][0].f, **kw)))
                if len(S.args) > 2:
                    kw = dict(_control_points=vn.SVec([]), _knots_u=vn.SVec([]), _knots_v=vn.SVec([]), _size=M.arr([Rat.of(0), Rat.of(0)]))
                    h.arg(2, vn.Obj(S.args[2][0].cls, dict(S.args[2][0].f, **kw)))

            def xp(a):
                def x3(p, q):
                    p, q = [p.f[c] / p.f["w"] for c in "xyz"], [q.f[c] / q.f["w"] for c in "xyz"]
                    return [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]

                def grid():
                    A_, B_ = rows(a[0].f["_control_points"]), rows(a[1].f["_control_points"])
                    return SeqList([SeqList([Homog(x3(A_[i][j], B_[i][j])) for j in range(nv)]) for i in range(nu)])
                return {"_control_points": grid(), "_size": [Rat.of(nu), Rat.of(nv)]}
            kw = {"ret": xp} if key.endswith("NURBSSurface)") and key.count("NURBSSurface") == 2 else {"out": {2: xp}}
            o(key, prep=cr, label="%d x %d" % (nu, nv), opaque=("expand",), **kw)
    # decomposition of surfaces into single-span patches
    for (p, mu), (q, mv) in [((1, (2, 1, 2)), (1, (2, 2))), ((1, (2, 2)), (1, (2, 1, 2))), ((1, (2, 1, 2)), (1, (2, 1, 2)))]:
        def bez(a, du, dv):
            t = a.this.f
            ku, kv = Kn.of(mu, t["_knots_u"].xs), Kn.of(mv, t["_knots_v"].xs)

            def segs(k, d, m):
                out = []
                for i in range(len(m) - 1):
                    x, y = k.xs[k.ords.index(i)], k.xs[k.ords.index(i + 1)]
                    out.append(Kn([x] * (d + 1) + [y] * (d + 1), [i] * (d + 1) + [i + 1] * (d + 1)))
                return out
            return SeqList([sspec(t, p, q, refine2(t, p, mu, q, mv, lu, lv), lu.xs if lu else ku.xs, lv.xs if lv else kv.xs)
                            for lu in (segs(ku, p, mu) if du else [None]) for lv in (segs(kv, q, mv) if dv else [None])])

        def ds(M, fr, S):
            h = Shape(M, fr, S)
            h.this(**surf(h, M, p, mu, q, mv))
            h.arg(len(S.args) - 1, vn.SVec([]))
        lab = "degree %dx%d, knots %s x %s" % (p, q, mu, mv)
        o("NURBSSurface::decompose(vector<NURBSSurface>)", prep=ds, out={0: lambda a: bez(a, True, True)}, label=lab, opaque=("expand",))
        for d in (0, 1):
            def dd(M, fr, S):
                ds(M, fr, S)
                Shape(M, fr, S).arg(0, d)
            o("NURBSSurface::decompose(SurfaceParameter,vector<NURBSSurface>)", prep=dd, out={1: lambda a: bez(a, d == 0, d == 1)},
              label=lab + ", along " + "uv"[d], opaque=("expand",))


def pieces2(k, p, u, at, m):
    """knot vectors of the two parts of a split at u"""
    l = k.insert(u, at, p - m)
    e = max(i for i, x in enumerate(l.ords) if x == at) + 1
    return [Kn(l.xs[:e] + [u], l.ords[:e] + [at]), Kn([u] * (p + 1) + l.xs[e:], [at] * (p + 1) + l.ords[e:])]
