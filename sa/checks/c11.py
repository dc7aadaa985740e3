"""C11 evaluation of rational B-spline curves and surfaces and their derivatives."""
from core import *
from spec import *
from report import Result
from nurbs_spec import *
from checks.c06 import cross, unit


def run(tier):
    P = load()
    R = Result("C11")
    R.rule("nurbs", "normal form of the result is the B-spline / rational definition, for symbolic knots, parameters, control points and weights")
    K = Checker(P, R, "nurbs")
    o = K.one
    c = comp

    # ---- knot spans: the span holds the parameter
    for p, ex in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2)):
        n = p + ex
        mults = (p + 1,) + (1,) * ex + (p + 1,)
        for s in spans(mults):
            def prep(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(0, n), h.arg(1, p)
                U = h.arg(3, h.knots(mults)).xs
                u = S.args[2][0]
                h.leq(U[s], u)
                h.less(u, U[s + 1])
            o("find_span(int,int,double,vector<double>,bool)", prep=prep, ret=lambda a: Rat.of(s),
              label="degree %d, span %d of %s" % (p, s, mults))

        def prep(M, fr, S):
            h = Shape(M, fr, S)
            h.arg(0, n), h.arg(1, p)
            U = h.arg(3, h.knots(mults)).xs
            h.arg(2, U[-1])
        o("find_span(int,int,double,vector<double>,bool)", prep=prep, ret=lambda a: Rat.of(n),
          label="degree %d, end of %s" % (p, mults))

    # ---- basis functions, any span
    for p in (1, 2, 3):
        def bf(a):
            b = basis_ders(lambda k: a[3].get(a[0] + k), p, a[1], 0)[0]
            return [b[k] if k <= p else ANY for k in range(9)]
        o("basis_funs(int,double,int,vector<double>,array<double,9>)",
          prep=lambda M, fr, S: Shape(M, fr, S).arg(2, p), out={4: bf}, label="degree %d" % p)
        for n in range(p + 1):
            def db(a):
                D = basis_ders(lambda k: a[4].get(a[0] + k), p, a[1], n)
                return SeqList([[x[k] if k <= p else ANY for k in range(9)] for x in D])

            def prep(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(2, p), h.arg(3, n)
            o("ders_basis_funs(int,double,int,int,vector<double>,vector<array<double,9>>)", prep=prep, out={5: db},
              label="degree %d, order %d" % (p, n))

    # ---- curves
    for p, mults in shapes(tier):
        N = sum(mults) - p - 1
        for s in spans(mults):
            lab = "degree %d, knots %s, span %d" % (p, mults, s)

            def within(h, U, u):
                h.leq(U[s], u)
                h.less(u, U[s + 1])

            def free(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(0, N - 1), h.arg(1, p), h.arg(6, False)
                U = h.arg(2, h.knots(mults)).xs
                h.arg(3, h.points(N))
                within(h, U, S.args[4][0])
            pt = lambda a: [rational(curve_ders(p, a[2].xs, a[3].xs, a[4], s, 0))[0][k] for k in "xyz"]
            o("curve_point(int,int,vector<double>,vector<vec4>,double,vec3,bool)", prep=free, out={5: pt}, label=lab)
            for d in (0, 1, 2):
                for per in (False, True) if d == 1 else (False,):
                    def fd(M, fr, S):
                        h = Shape(M, fr, S)
                        h.arg(0, N - 1), h.arg(1, p), h.arg(5, d), h.arg(7, per)
                        U = h.arg(2, h.knots(mults)).xs
                        h.arg(3, h.points(N))
                        within(h, U, S.args[4][0])
                    cd = lambda a: SeqList([[x[k] for k in "xyzw"] for x in
                                            curve_ders(p, a[2].xs, a[3].xs, a[4], s, min(d, p))])
                    o("curve_derivs_alg1(int,int,vector<double>,vector<vec4>,double,int,vector<vec4>,bool)", prep=fd,
                      out={6: cd}, label=lab + ", order %d%s" % (d, ", periodic" if per else ""))

            def obj(M, fr, S, extra=None):
                h = Shape(M, fr, S)
                t = h.this(_degree=p, knots=h.knots(mults), control_points=h.points(N), _periodic=False)
                within(h, t.f["knots"].xs, S.args[0][0])
                if extra:
                    extra(h)
            ders = lambda a, n: rational(curve_ders(p, a.this.f["knots"].xs, a.this.f["control_points"].xs, a[0], s, n))
            xyz = lambda r: [r[k] for k in "xyz"]
            o("NURBSCurve::evaluate(double,vec3)", prep=obj, out={1: lambda a: xyz(ders(a, 0)[0])}, label=lab)
            o("NURBSCurve::operator()(double,vec3)", prep=obj, out={1: lambda a: xyz(ders(a, 0)[0])}, label=lab)
            o("NURBSCurve::operator()(double)", prep=obj, ret=lambda a: xyz(ders(a, 0)[0]), label=lab)
            o("NURBSCurve::derivative(double,vec3)", prep=obj, out={1: lambda a: xyz(ders(a, 1)[1])}, label=lab)
            for d in (1, 2, 3):
                if d == 3 and (p > 2 or len(mults) > 2) and tier != "thorough":
                    continue
                o("NURBSCurve::derivative(double,vector<vec3>,unsignedlong)",
                  prep=lambda M, fr, S: obj(M, fr, S, lambda h: (h.arg(1, vn.SVec([])), h.arg(2, d))),
                  out={1: lambda a: SeqList([xyz(x) for x in ders(a, d - 1)])}, label=lab + ", %d values" % d)

            # control points of the derivative curve (equal weights: the polynomial case)
            def dcp(M, fr, S):
                h = Shape(M, fr, S)
                h.arg(0, p)
                h.arg(1, h.knots(mults))
                w = alg.sym("w")
                h.fact(-w, "<")
                h.arg(2, vn.SVec([vn.Obj(q.cls, dict(q.f, w=w)) for q in h.points(N).xs]))
                h.arg(4, vn.SVec([])), h.arg(5, vn.SVec([]))
            if s == spans(mults)[0] and p > 0:
                def hod(a):
                    U, Q = a[1].xs, a[2].xs
                    return SeqList([[Rat.of(p) * (Q[i + 1].f[k] - Q[i].f[k]) / Q[i].f["w"] / (U[i + p + 1] - U[i + 1])
                                     for k in "xyz"] + [Rat.of(1)] for i in range(N - 1)])
                o("get_nurbs_derivative(int,vector<double>,vector<vec4>,int,vector<double>,vector<vec4>)", prep=dcp,
                  out={3: lambda a: Rat.of(p - 1), 4: lambda a: SeqList(a[1].xs[1:-1]), 5: hod}, label=lab)
                for d in range(1, p + 1):
                    def cdc(M, fr, S):
                        h = Shape(M, fr, S)
                        h.arg(0, p), h.arg(1, h.knots(mults)), h.arg(2, h.points(N))
                        h.arg(3, d), h.arg(4, 0), h.arg(5, N - 1), h.arg(6, vn.SVec([]))

                    def pk(a):
                        U, Q = a[1].xs, [[q.f[k] for k in "xyzw"] for q in a[2].xs]
                        rows = [list(Q)]
                        for k in range(1, d + 1):
                            L = rows[-1]
                            rows.append([[Rat.of(p - k + 1) * (y - x) / (U[i + p + 1] - U[i + k])
                                          for x, y in zip(L[i], L[i + 1])] for i in range(N - k)])
                        return SeqList([SeqList(r + [ANY] * (N - len(r))) for r in rows])
                    if d == 1 or len(mults) == 2:
                        o("curve_deriv_cpts(int,vector<double>,vector<vec4>,int,int,int,vector<vector<vec4>>)", prep=cdc,
                          out={6: pk}, label=lab + ", order %d" % d)

    # ---- surfaces
    for (p, mu), (q, mv) in SURF[:4] if tier != "thorough" else SURF:
        nu, nv = sum(mu) - p - 1, sum(mv) - q - 1
        for su in spans(mu):
            for sv in spans(mv):
                lab = "degree %dx%d, spans %d,%d of %s x %s" % (p, q, su, sv, mu, mv)

                def inside(h, U, V, u, v):
                    h.leq(U[su], u), h.less(u, U[su + 1])
                    h.leq(V[sv], v), h.less(v, V[sv + 1])

                for per in ((False, False), (True, False), (False, True)):
                    def sp(M, fr, S):
                        h = Shape(M, fr, S)
                        h.arg(0, nu - 1), h.arg(1, p), h.arg(3, nv - 1), h.arg(4, q), h.arg(9, per[0]), h.arg(10, per[1])
                        U, V = h.arg(2, h.knots(mu)).xs, h.arg(5, h.knots(mv, "l")).xs
                        h.arg(6, h.grid(nu, nv))
                        inside(h, U, V, S.args[7][0], S.args[8][0])
                    o("surface_point(int,int,vector<double>,int,int,vector<double>,vector<vector<vec4>>,double,double,bool,bool,vec3)",
                      prep=sp, label=lab + (", periodic u" if per[0] else ", periodic v" if per[1] else ""),
                      out={11: lambda a: [rational2(surface_ders(p, q, a[2].xs, a[5].xs, a[6].xs, a[7], a[8], su, sv, 0, 0))[0][0][k]
                                          for k in "xyz"]})

                def srf(M, fr, S):
                    h = Shape(M, fr, S)
                    t = h.this(_degree=M.arr([Rat.of(p), Rat.of(q)]), _size=M.arr([Rat.of(nu), Rat.of(nv)]),
                               _knots_u=h.knots(mu), _knots_v=h.knots(mv, "l"), _control_points=h.grid(nu, nv))
                    inside(h, t.f["_knots_u"].xs, t.f["_knots_v"].xs, S.args[0][0], S.args[1][0])
                o("NURBSSurface::evaluate(double,double,vec3)", prep=srf, label=lab,
                  out={2: lambda a: [rational2(surface_ders(p, q, a.this.f["_knots_u"].xs, a.this.f["_knots_v"].xs,
                                                            a.this.f["_control_points"].xs, a[0], a[1], su, sv, 0, 0))[0][0][k]
                                     for k in "xyz"]})

    # ---- rational derivatives of a surface from homogeneous ones
    for d in (0, 1, 2):
        def rs(M, fr, S):
            h = Shape(M, fr, S)
            h.arg(0, h.grid(d + 1, d + 1, "S")), h.arg(1, d), h.arg(2, vn.SVec([]))

        def rsd(a):
            A = [[dict(x.f) for x in row.xs] for row in a[0].xs]
            return SeqList([SeqList([[x[k] for k in "xyz"] + [ANY] for x in row]) for row in rational2(A)])
        o("rat_surface_derivs(vector<vector<vec4>>,int,vector<vector<vec4>>)", prep=rs, out={2: rsd}, label="order %d" % d)

    # ---- derivative surfaces (homogeneous control points)
    for (p, mu), (q, mv) in SURF:
        nu, nv = sum(mu) - p - 1, sum(mv) - q - 1
        for d in (0, 1):
            def gd(M, fr, S):
                h = Shape(M, fr, S)
                h.this(_degree=M.arr([Rat.of(p), Rat.of(q)]), _size=M.arr([Rat.of(nu), Rat.of(nv)]),
                       _knots_u=h.knots(mu), _knots_v=h.knots(mv, "l"), _control_points=h.grid(nu, nv))
                h.arg(0, d)

            def dsurf(a):
                t = a.this.f
                U, V, Q = t["_knots_u"].xs, t["_knots_v"].xs, [r.xs for r in t["_control_points"].xs]
                if d == 0:
                    G = [[[Rat.of(p) * (Q[i + 1][j].f[k] - Q[i][j].f[k]) / (U[i + p + 1] - U[i + 1]) for k in "xyzw"]
                          for j in range(nv)] for i in range(nu - 1)]
                else:
                    G = [[[Rat.of(q) * (Q[i][j + 1].f[k] - Q[i][j].f[k]) / (V[j + q + 1] - V[j + 1]) for k in "xyzw"]
                          for j in range(nv - 1)] for i in range(nu)]
                U2, V2 = (U[1:-1], V) if d == 0 else (U, V[1:-1])
                return {"_degree": [Rat.of(p - (d == 0)), Rat.of(q - (d == 1))],
                        "_size": [Rat.of(nu - (d == 0)), Rat.of(nv - (d == 1))],
                        "_knots_u": SeqList(U2), "_knots_v": SeqList(V2),
                        "_control_points": SeqList([SeqList(r) for r in G]),
                        "_interval": [[U2[0], U2[-1]], [V2[0], V2[-1]]]}
            lab = "degree %dx%d, knots %s x %s, along %s" % (p, q, mu, mv, "uv"[d])
            o("NURBSSurface::get_derivative(int)", prep=gd, ret=dsurf, label=lab, opaque=("expand",))
            o("NURBSSurface::get_derivative(int,NURBSSurface)", prep=gd, out={1: dsurf}, label=lab, opaque=("expand",))

    # ---- tensor product derivative control points
    def sdc(M, fr, S):
        h = Shape(M, fr, S)
        two = lambda x, y: vn.SVec([Rat.of(x), Rat.of(y)])
        h.arg(0, 4), h.arg(1, two(1, 2)), h.arg(2, h.knots((2, 2))), h.arg(3, h.knots((3, 3), "l"))
        h.arg(4, h.grid(3, 2)), h.arg(5, two(2, 3)), h.arg(6, two(0, 1)), h.arg(7, two(0, 2)), h.arg(8, 1)
        h.arg(9, vn.SVec([]))

    def pkl(a):
        U, V = a[2].xs, a[3].xs
        Q = [[[a[4].xs[j].xs[i].f[k] for k in "xyzw"] for j in range(3)] for i in range(2)]       # Q[u][v]
        du = [[[(y - x) / (U[2] - U[1]) for x, y in zip(Q[0][j], Q[1][j])] for j in range(3)]]
        dv = [[[Rat.of(2) * (y - x) / (V[j + 3] - V[j + 1]) for x, y in zip(Q[i][j], Q[i][j + 1])] for j in range(2)]
              for i in range(2)]
        g = lambda rows: SeqList([SeqList(r + [ANY] * (3 - len(r))) for r in rows] + [ANY] * (2 - len(rows)))
        return SeqList([SeqList([g(Q), g(dv)]), SeqList([g(du), ANY])])
    o("surface_deriv_cpts(int,vector<int>,vector<double>,vector<double>,vector<vector<vec4>>,vector<int>,vector<int>,vector<int>,int,vector<vector<vector<vector<vec4>>>>)",
      prep=sdc, out={9: pkl}, label="degree 1x2, order 1")

    # ---- difference stencils: exact on quadratics, the polynomials that determine their order
    for p in (1, 2):
        def pc(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_degree=p, knots=h.knots((p + 1, p + 1)), control_points=flat_w(h.points(p + 1)), _periodic=False)

        def exact(a, n):
            t = a.this.f
            x = curve_ders(p, t["knots"].xs, t["control_points"].xs, a[0], p, n)[n]
            return [x[k] for k in "xyz"]
        lab = "on polynomials of degree %d" % p
        o("NURBSCurve::derivative_fdm(double,vec3)", prep=pc, out={1: lambda a: exact(a, 1)}, label=lab)
        o("NURBSCurve::second_derivative_fdm(double,vec3)", prep=pc, out={1: lambda a: exact(a, 2)}, label=lab)
        o("NURBSCurve::derivatives(double,vec3,vec3,vec3)", prep=pc, label=lab,
          out={1: lambda a: exact(a, 0), 2: lambda a: exact(a, 1), 3: lambda a: exact(a, 2)})
    for p, q in ((1, 1), (2, 1), (1, 2)):
        def ps(M, fr, S):
            h = Shape(M, fr, S)
            h.this(_degree=M.arr([Rat.of(p), Rat.of(q)]), _size=M.arr([Rat.of(p + 1), Rat.of(q + 1)]),
                   _knots_u=h.knots((p + 1, p + 1)), _knots_v=h.knots((q + 1, q + 1), "l"),
                   _control_points=vn.SVec([flat_w(r) for r in h.grid(p + 1, q + 1).xs]))

        def ex(a, k, l):
            t = a.this.f
            x = surface_ders(p, q, t["_knots_u"].xs, t["_knots_v"].xs, t["_control_points"].xs, a[0], a[1], p, q, k, l)[k][l]
            return [x[k] for k in "xyz"]
        lab = "on polynomials of degree %dx%d" % (p, q)
        o("NURBSSurface::derivative_u(double,double,vec3)", prep=ps, out={2: lambda a: ex(a, 1, 0)}, label=lab)
        o("NURBSSurface::derivative_v(double,double,vec3)", prep=ps, out={2: lambda a: ex(a, 0, 1)}, label=lab)

    # the normal is the unit cross product of the two partial derivatives, in this order
    def nrm(a):
        ins = a.S.m.flat(a.this) + [a[0], a[1]]
        u, v = [[app("@%s.result.%s" % (n, k), *ins) for k in "xyz"] for n in ("derivative_u", "derivative_v")]
        return unit(cross(u, v))

    o("NURBSSurface::normal(double,double,vec3)", opaque=("derivative_u", "derivative_v"), out={2: nrm})
    K.finish()
    R.floor("nurbs", 60)
    R.assumptions += ["coordinates, knots and parameters are compared as real numbers: rounding is out of scope",
                      "degrees up to 3 and the listed knot multiplicity patterns; knots, parameters, points and weights are symbolic"]
    return R


def flat_w(v):
    """weight one everywhere"""
    return vn.SVec([vn.Obj(q.cls, dict(q.f, w=Rat.of(1))) for q in v.xs])


SURF = [((1, (2, 2)), (1, (2, 2))), ((2, (3, 3)), (1, (2, 2))), ((1, (2, 2)), (1, (2, 1, 2))),
        ((1, (2, 1, 2)), (1, (2, 2))), ((1, (2, 1, 2)), (2, (3, 3))), ((1, (2, 2)), (2, (3, 1, 3))), ((2, (3, 3)), (2, (3, 3)))]
