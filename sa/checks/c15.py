"""C15 polynomial forms, quadrature and difference stencils: exact on the functions they are exact for."""
import math
from core import *
from spec import *
from report import Result

XYZ = ("x", "y", "z")


def p3(name):
    return vn.Obj("cmmcore::vec3", {k: alg.sym("%s.%s" % (name, k)) for k in XYZ})


def net(n, m, name="C"):
    return vn.SVec([vn.SVec([p3("%s%d,%d" % (name, i, j)) for j in range(m)]) for i in range(n)])


def at(t, i, j, k):
    v = vn.vec(vn.vec(t)[i])[j]
    return v.f[k]


def dims(t):
    xs = vn.vec(t)
    if xs is None:
        raise TypeError("grid")
    ys = [vn.vec(x) for x in xs]
    if any(y is None for y in ys):
        raise TypeError("grid")
    return len(xs), sorted({len(y) for y in ys})


def shape(t, n, m):
    return [("rows and columns", T if dims(t) == (n, [m]) else F, VALID)]


def grid(t, n, m, fn):
    return shape(t, n, m) + [("[%d][%d].%s" % (i, j, k), at(t, i, j, k), fn(i, j, k))
                             for i in range(n) for j in range(m) for k in XYZ] if dims(t) == (n, [m]) else shape(t, n, m)


def bern(n):
    """coefficient of t^j in the Bernstein polynomial B_i of degree n: [i][j]"""
    return [[(-1) ** (j - i) * math.comb(n, j) * math.comb(j, i) if j >= i else 0 for j in range(n + 1)] for i in range(n + 1)]


def mono_of(pt, n, m):
    """power form of the Bezier patch with control points pt(i, j, k)"""
    a, b = bern(n - 1), bern(m - 1)
    return lambda p, q, k: sum((pt(i, j, k) * (a[i][p] * b[j][q]) for i in range(n) for j in range(m)), Rat.of(0))


def run(tier):
    P = load()
    R = Result("C15")
    R.rule("form", "normal form of the result equals the defining identity for all coefficients, points and arguments")
    K = Checker(P, R, "form")
    table(K)
    monomials(K)
    normals(K)
    quadrature(K)
    stencils(K)
    K.finish()
    R.floor("form", 3)
    return R


def table(K):
    for n in range(31):
        for k in range(n + 1):
            def prep(M, fr, S, n=n, k=k):
                h = Shape(M, fr, S)
                h.arg(0, n), h.arg(1, k)
            K.one("binomial_coefficient(int,int)", prep=prep, throws=lambda a: F, label="%d over %d" % (n, k),
                  ret=lambda a, n=n, k=k: Rat.of(math.comb(n, k)))


def monomials(K):
    o = K.one
    for n in range(5):
        def entries(a, n=n):
            b = bern(n)
            return {"rows": Rat.of(n + 1), "cols": Rat.of(n + 1), "data": SeqList([Rat.of(b[i][j]) for j in range(n + 1) for i in range(n + 1)])}
        o("bpmat(int)", prep=lambda M, fr, S, n=n: Shape(M, fr, S).arg(0, n), throws=lambda a: F, ret=entries, label="degree %d" % n)
    U, V = 0, 1
    for n, m in ((2, 2), (3, 2), (2, 4), (1, 3)):
        lab = "%dx%d" % (n, m)
        for d, (r, c) in ((U, (n - 1, m)), (V, (n, m - 1))):
            if not r or not c:
                continue
            for used in (False, True):
                def prep(M, fr, S, n=n, m=m, d=d, used=used):
                    h = Shape(M, fr, S)
                    h.arg(0, net(n, m)), h.arg(1, d), h.arg(2, net(3, 1, "old") if used else vn.SVec([]))
                o("compute_partial_derivative(vector<vector<vec3>>,SurfaceParameter,vector<vector<vec3>>)", prep=prep, throws=lambda a: F,
                  label="%s by %s%s" % (lab, "uv"[d], ", result used before" if used else ""),
                  rel=lambda a, d=d, r=r, c=c: [("derivative", [], grid(a.out[2], r, c, (lambda i, j, k: at(a[0], i + 1, j, k) * (i + 1)) if d == U
                                                                       else (lambda i, j, k: at(a[0], i, j + 1, k) * (j + 1))))])
    nxt = {"x": ("y", "z"), "y": ("z", "x"), "z": ("x", "y")}
    for (n, m), (r, c) in (((2, 1), (1, 2)), ((2, 2), (2, 1)), ((1, 3), (2, 2))):
        for used in (False, True):
            def prep(M, fr, S, n=n, m=m, r=r, c=c, used=used):
                h = Shape(M, fr, S)
                h.arg(0, net(n, m, "A")), h.arg(1, net(r, c, "B")), h.arg(2, net(n + r - 1, m + c - 1, "old") if used else vn.SVec([]))

            def want(a, n=n, m=m, r=r, c=c):
                def f(i, j, k):
                    s, (y, z) = Rat.of(0), nxt[k]
                    for p in range(n):
                        for q in range(m):
                            if 0 <= i - p < r and 0 <= j - q < c:
                                x, w = (lambda k: at(a[0], p, q, k)), (lambda k: at(a[1], i - p, j - q, k))
                                s = s + x(y) * w(z) - x(z) * w(y)
                    return s
                return [("product", [], grid(a.out[2], n + r - 1, m + c - 1, f))]
            o("cross(vector<vector<vec3>>,vector<vector<vec3>>,vector<vector<vec3>>)", prep=prep, throws=lambda a: F, rel=want,
              label="%dx%d by %dx%d%s" % (n, m, r, c, ", result used before" if used else ""))
    for n, m in ((2, 2), (2, 3), (3, 2), (3, 3)):
        def prep(M, fr, S, n=n, m=m):
            h = Shape(M, fr, S)
            h.arg(0, bezier(h, n, m))
        o("Monomial2D::Monomial2D(NURBSSurface)", prep=prep, throws=lambda a: F, label="%dx%d" % (n, m),
          rel=lambda a, n=n, m=m: [("power form", [], grid(a.thisout.f["coefficients"], n, m, mono_of(lambda i, j, k: at(a[0].f["_control_points"], i, j, k), n, m))),
                                   ("size", [], [("n", a.thisout.f["n"], Rat.of(n)), ("m", a.thisout.f["m"], Rat.of(m))])])


def bezier(h, n, m, name="P"):
    one = Rat.of(1)
    pts = vn.SVec([vn.SVec([vn.Obj("cmmcore::vec4", {"x": alg.sym("%s%d%d.x" % (name, i, j)), "y": alg.sym("%s%d%d.y" % (name, i, j)),
                                                     "z": alg.sym("%s%d%d.z" % (name, i, j)), "w": one}) for j in range(m)]) for i in range(n)])
    kn = lambda q: vn.SVec([Rat.of(0)] * q + [Rat.of(1)] * q)
    z = Rat.of(0)
    iv = vn.Obj("array", {0: vn.Obj("array", {0: z, 1: one}), 1: vn.Obj("array", {0: z, 1: one})})
    s = h.S.args[0][0]
    return s.with_("_control_points", pts).with_("_knots_u", kn(n)).with_("_knots_v", kn(m)).with_("_interval", iv) \
        .with_("_degree", vn.Obj("array", {0: Rat.of(n - 1), 1: Rat.of(m - 1)})).with_("_size", vn.Obj("array", {0: Rat.of(n), 1: Rat.of(m)}))


def matrix(rows):
    return vn.Obj("cmmcore::MatrixD", {"data": vn.SVec([Rat.of(x) for r in rows for x in r]), "rows": Rat.of(len(rows)), "cols": Rat.of(len(rows[0]))})


def inverse_bern(n):
    """power form to Bernstein form: control point i from coefficient j"""
    return [[Fraction(math.comb(i, j), math.comb(n, j)) if j <= i else Fraction(0) for j in range(n + 1)] for i in range(n + 1)]


def patch(h, n, m, name="C"):
    """a power form patch with the matrices its dimensions call for"""
    t = lambda b: [list(x) for x in zip(*b)]
    h.this(n=n, m=m, coefficients=net(n, m, name), Mu=matrix(t(bern(n - 1))), Mv=matrix(t(bern(m - 1))),
           Mu_inv=matrix(inverse_bern(n - 1)), Mv_inv=matrix(inverse_bern(m - 1)))


def is_bezier(s, n, m, coef):
    """surface s is the Bezier patch on the unit square whose power form is coef(i, j, k)"""
    cp = s.f["_control_points"]
    out = shape(cp, n, m)
    if dims(cp) != (n, [m]):
        return [("Bezier patch", [], out)]
    out += [("weight [%d][%d]" % (i, j), at(cp, i, j, "w"), Rat.of(1)) for i in range(n) for j in range(m)]
    got = mono_of(lambda i, j, k: at(cp, i, j, k), n, m)
    out += [("coefficient u^%d v^%d .%s" % (i, j, k), got(i, j, k), coef(i, j, k)) for i in range(n) for j in range(m) for k in XYZ]
    data = [("degree", list(s.f["_degree"].f.values())[d], Rat.of((n, m)[d] - 1)) for d in (0, 1)]
    data += [("size", list(s.f["_size"].f.values())[d], Rat.of((n, m)[d])) for d in (0, 1)]
    for d, q in (("_knots_u", n), ("_knots_v", m)):
        ks = vn.vec(s.f[d])
        if ks is None:
            raise TypeError("knots")
        data.append(("number of knots", Rat.of(len(ks)), Rat.of(2 * q)))
        if len(ks) == 2 * q:
            # any clamped knot vector without inner knots describes the patch; its length is the parameter range
            data += [("knots", x, ks[0]) for x in ks[:q]] + [("knots", x, ks[-1]) for x in ks[q:]] + [("range", ks[-1] - ks[0], Rat.of(1))]
    return [("Bezier patch", [], out), ("layout", [], data)]


def product(c, n, m):
    """power form of the normal field of the patch with power form c: sizes and coefficients"""
    nxt = {"x": ("y", "z"), "y": ("z", "x"), "z": ("x", "y")}
    r, q = 2 * n - 2, 2 * m - 2

    def f(i, j, k):
        s, (y, z) = Rat.of(0), nxt[k]
        for a in range(n - 1):
            for b in range(m):
                e, g = i - a, j - b
                if 0 <= e < n and 0 <= g < m - 1:
                    U = lambda k: c(a + 1, b, k) * (a + 1)
                    V = lambda k: c(e, g + 1, k) * (g + 1)
                    s = s + U(y) * V(z) - U(z) * V(y)
        return s
    return r, q, f


def reshape(a, n, m, coef):
    """a polynomial written with n x m coefficients"""
    return lambda i, j, k: coef(i, j, k)


def normals(K):
    o = K.one
    for n, m in ((2, 2), (3, 2), (2, 3)):
        lab = "%dx%d" % (n, m)
        for used in (False, True):
            def prep(M, fr, S, n=n, m=m, used=used):
                h = Shape(M, fr, S)
                patch(h, n, m)
                s = h.S.args[0][0]
                if used:
                    h.arg(0, bezier(h, 2, 4, "old").with_("_control_points", h.grid(2, 4, "old")))
                else:
                    h.arg(0, s.with_("_control_points", vn.SVec([])).with_("_knots_u", vn.SVec([])).with_("_knots_v", vn.SVec([])))
            o("Monomial2D::to_bezier(NURBSSurface)", prep=prep, throws=lambda a: F, label=lab + (", surface used before" if used else ""),
              rel=lambda a, n=n, m=m: is_bezier(a.out[0], n, m, lambda i, j, k: at(a.this.f["coefficients"], i, j, k)))

        def prep(M, fr, S, n=n, m=m):
            h = Shape(M, fr, S)
            patch(h, n, m)
            h.arg(0, h.S.args[0][0].with_("coefficients", net(2, 5, "old")).with_("n", Rat.of(2)).with_("m", Rat.of(5)))

        def field(v, r, c, f):
            out = grid(v.f["coefficients"], r, c, f)
            return [("field", [], out), ("size", [], [("n", v.f["n"], Rat.of(r)), ("m", v.f["m"], Rat.of(c))]), ("matrices", [], mats(v, r, c))]

        def normal(a, n=n, m=m):
            r, c, f = product(lambda i, j, k: at(a.this.f["coefficients"], i, j, k), n, m)
            return field(a.out[0], r, c, f)
        o("Monomial2D::computeNormal(Monomial2D)", prep=prep, throws=lambda a: F, rel=normal, label=lab)
        for d in (0, 1):
            def prep2(M, fr, S, n=n, m=m, d=d):
                h = Shape(M, fr, S)
                patch(h, n, m)
                h.arg(0, d)
                h.arg(1, h.S.args[1][0].with_("coefficients", net(2, 5, "old")))
            o("Monomial2D::computePartialDerivative(SurfaceParameter,Monomial2D)", prep=prep2, throws=lambda a: F, label="%s by %s" % (lab, "uv"[d]),
              rel=lambda a, n=n, m=m, d=d, field=field: field(a.out[1], n - (d == 0), m - (d == 1),
                                                              lambda i, j, k: at(a.this.f["coefficients"], i + (d == 0), j + (d == 1), k) * ((i, j)[d] + 1)))

        def prep3(M, fr, S, n=n, m=m):
            h = Shape(M, fr, S)
            h.arg(0, bezier(h, n, m))

        def gauss(v, a, n=n, m=m):
            r, c, f = product(mono_of(lambda i, j, k: at(a[0].f["_control_points"], i, j, k), n, m), n, m)
            return is_bezier(v, r, c, f)
        o("gaussMap(NURBSSurface)", prep=prep3, throws=lambda a: F, label=lab, rel=lambda a, gauss=gauss: gauss(a.ret, a))
    for key, w in (("Monomial2D::set(vector<vector<vec3>>)", 0), ("Monomial2D::Monomial2D(vector<vector<vec3>>)", 0), ("Monomial2D::Monomial2D(int,int,vector<vector<vec3>>)", 2)):
        for n, m in ((2, 3), (3, 1)):
            def prep(M, fr, S, n=n, m=m, w=w):
                h = Shape(M, fr, S)
                h.arg(w, net(n, m, "N"))
                if w:
                    h.arg(0, n), h.arg(1, m)
                elif S.this0 is not None and "coefficients" in S.this0.f and key.endswith("set(vector<vector<vec3>>)"):
                    patch(h, 2, 2, "old")
            o(key, prep=prep, throws=lambda a: F, label="%dx%d" % (n, m),
              rel=lambda a, n=n, m=m, w=w: [("coefficients", [], grid(a.thisout.f["coefficients"], n, m, lambda i, j, k: at(a[w], i, j, k))),
                                            ("size", [], [("n", a.thisout.f["n"], Rat.of(n)), ("m", a.thisout.f["m"], Rat.of(m))]),
                                            ("matrices", [], mats(a.thisout, n, m))])

    def flat(M, fr, S, n, w=0):
        h = Shape(M, fr, S)
        h.arg(w, h.points(n, "P", 3))
        return h
    for n in (0, 1, 3):
        def opposite(a, n=n):
            xs = vn.vec(a.out[1])
            if xs is None:
                raise TypeError("list")
            return [("size", [], [("size", Rat.of(len(xs)), Rat.of(n))]),
                    ("points", [], [("[%d].%s" % (i, k), xs[i].f[k], -vn.vec(a[0])[i].f[k]) for i in range(min(n, len(xs))) for k in XYZ] or [("none", T, VALID)])]

        def prep(M, fr, S, n=n):
            h = flat(M, fr, S, n)
            h.arg(1, h.points(2, "old", 3))
        o("inverseControlPoints(vector<vec3>,vector<vec3>)", prep=prep, throws=lambda a: F, rel=opposite, label="%d points" % n)


def mats(v, n, m):
    """basis matrices and their inverses belong to the dimensions"""
    out = []
    for nm, q, inv in (("Mu", n, 0), ("Mv", m, 0), ("Mu_inv", n, 1), ("Mv_inv", m, 1)):
        b = inverse_bern(q - 1) if inv else [list(x) for x in zip(*bern(q - 1))]
        o = v.f[nm].f
        xs = vn.vec(o["data"])
        if xs is None:
            raise TypeError("matrix")
        want = [x for r in b for x in r]
        out += [(nm + " size", o["rows"], Rat.of(q)), (nm + " size", o["cols"], Rat.of(q)), (nm + " entries", Rat.of(len(xs)), Rat.of(len(want)))]
        out += [("%s[%d]" % (nm, i), x, Rat.of(y)) for i, (x, y) in enumerate(zip(xs, want))]
    return out


def call(fun, x):
    return alg.app("@" + fun.name, x)


def simpson(fun, a, b):
    return (b - a) * Rat.of(Fraction(1, 6)) * (call(fun, a) + call(fun, (a + b) * Rat.of(Fraction(1, 2))) * 4 + call(fun, b))


def quadrature(K):
    half = Rat.of(Fraction(1, 2))
    st = []

    def prep(M, fr, S):
        del st[:]
        h = Shape(M, fr, S)
        fun, a, b = (S.args[i][0] for i in range(3))
        h.arg(3, call(fun, a)), h.arg(4, call(fun, b)), h.arg(5, call(fun, (a + b) * half))
        h.arg(6, simpson(fun, a, b))
        h.fact(b - a, ">"), h.fact(S.args[7][0], ">")

        def rec(M, f, this, argv, fr):
            v = [x if not isinstance(x, vn.Loc) else M.read(x, fr.store) for x in argv]
            if not (argv[8].same(S.args[8][1]) and argv[9].same(S.args[9][1])):
                raise vn.GiveUp("results elsewhere")
            n = len(st)
            M.event(fr.store, "part:%d" % n)
            st.append(v)
            for i, nm in ((8, "part"), (9, "err")):
                M.write(argv[i], M.num(v[i]) + alg.app("@" + nm, v[1], v[2]), fr.store)
            return vn.Unk("void")
        M.models = {"adaptiveSimpson": rec}

    def rel(a):
        S, fun, lo, hi = a.S, a[0], a[1], a[2]
        m = (lo + hi) * half
        two = simpson(fun, lo, m) + simpson(fun, m, hi)
        est = (two - simpson(fun, lo, hi)) * Rat.of(Fraction(1, 15))
        parts = lambda nm: alg.app("@" + nm, lo, m) + alg.app("@" + nm, m, hi)
        g = S.events.get("part:0", F)
        same = And(*[Or(And(g, S.events["part:%d" % i]), And(Not(g), Not(S.events["part:%d" % i]))) for i in range(len(st))])
        out = [("both halves or none", [], [("halves", same, VALID), ("halves", T if len(st) in (0, 2) else F, VALID)]),
               ("result", [g], [("sum of the halves", a.out[8], a[8] + parts("part"))]),
               ("result", [Not(g)], [("composite rule", a.out[8], a[8] + two)]),
               ("error", [g], [("sum of the halves", a.out[9], a[9] + parts("err"))]),
               ("error", [Not(g)], [("estimate", a.out[9], lift(lambda p, q: p + q, a[9], vn.f_abs(est)))]),
               ("splitting", [], [("only above the depth limit", Or(Not(g), lt(a[10], a[11])), VALID),
                                  ("unless within tolerance or at the limit", Or(g, le(a[11], a[10]), And(le(est, a[7]), le(-est, a[7]))), VALID)])]
        for i, v in enumerate(st):
            f, x, y = v[:3]
            mid = (x + y) * half
            out.append(("half %d starts from its own values" % i, [S.events["part:%d" % i]],
                        [("same function", T if f is fun else F, VALID), ("start", v[3], call(fun, x)), ("end", v[4], call(fun, y)), ("middle", v[5], call(fun, mid)),
                         ("estimate", v[6], simpson(fun, x, y)), ("depth", v[10], a[10] + 1), ("limit", v[11], a[11]),
                         ("tolerance", And(lt(Rat.of(0), v[7]), le(v[7] * 2, a[7])), VALID)]))
        return out
    K.one("adaptiveSimpson(function<double(double)>,double,double,double,double,double,double,double,double,double,unsignedlong,unsignedlong)", prep=prep,
          rel=rel, throws=lambda a: F)

    def poly(M, fr, S):
        h = Shape(M, fr, S)
        c = [alg.sym("c%d" % i) for i in range(4)]
        S.args[0][0].impl = lambda x: sum((c[i] * x ** i if i else c[0] for i in range(4)), Rat.of(0))
        h.fact(S.args[5][0], ">")

    def exact(a):
        c = [alg.sym("c%d" % i) for i in range(4)]
        return sum((c[i] * (a[2] ** (i + 1) - a[1] ** (i + 1)) * Rat.of(Fraction(1, i + 1)) for i in range(4)), Rat.of(0))
    K.one("integrate(function<double(double)>,double,double,double,double,double,unsignedlong)", prep=poly, throws=lambda a: F, label="cubic polynomials",
          out={3: exact, 4: lambda a: Rat.of(0)})

    def prep2(M, fr, S):
        del st[:]

        def rec(M, f, this, argv, fr):
            v = [x if not isinstance(x, vn.Loc) else M.read(x, fr.store) for x in argv]
            st.append(v)
            for i, nm in ((8, "part"), (9, "err")):
                M.write(argv[i], M.num(v[i]) + alg.app("@" + nm, v[1], v[2]), fr.store)
            return vn.Unk("void")
        M.models = {"adaptiveSimpson": rec}

    def start(a):
        if len(st) != 1:
            return [("one search", [], [("calls", F, VALID)])]
        v, fun, x, y = st[0], a[0], a[1], a[2]
        return [("starts from its own values", [], [("same function", T if v[0] is fun else F, VALID), ("from", v[1], x), ("to", v[2], y), ("start", v[3], call(fun, x)),
                 ("end", v[4], call(fun, y)), ("middle", v[5], call(fun, (x + y) * half)), ("estimate", v[6], simpson(fun, x, y)), ("tolerance", v[7], a[5]),
                 ("depth", v[10], Rat.of(0)), ("limit", v[11], a[6])]),
                ("result", [], [("value", a.out[3], alg.app("@part", x, y)), ("error", a.out[4], alg.app("@err", x, y))])]
    K.one("integrate(function<double(double)>,double,double,double,double,double,unsignedlong)", prep=prep2, throws=lambda a: F, rel=start, label="any function")


def stencils(K):
    for n in (2, 3, 4):
        A = "array<double,%d>" % n
        lin = [alg.sym("b%d" % i) for i in range(n)]

        def quadratic(M, fr, S, n=n):
            h = Shape(M, fr, S)
            S.args[0][0].impl = lambda *x: f_at(x, n)
            h.fact(S.args[2][0], ">")

        def q(i, j):
            return alg.sym("q%d%d" % (min(i, j), max(i, j)))

        def f_at(x, n):
            s = alg.sym("a")
            for i in range(n):
                s = s + alg.sym("b%d" % i) * x[i]
                for j in range(n):
                    s = s + q(i, j) * x[i] * x[j] * Rat.of(Fraction(1, 2))
            return s
        def cubic(M, fr, S, n=n):
            quadratic(M, fr, S)
            S.args[0][0].impl = lambda *x: f_at(x, n) + c_at(x, n)

        def t(*ijk):
            return alg.sym("t%d%d%d" % tuple(sorted(ijk)))

        def c_at(x, n):
            return sum((t(i, j, k) * x[i] * x[j] * x[k] * Rat.of(Fraction(1, 6)) for i in range(n) for j in range(n) for k in range(n)), Rat.of(0))
        o = K.one
        if n > 2:
            o("computeHessian(function<double(%s)>,%s,double)" % (A, A), prep=cubic, throws=lambda a: F, label="cubic functions",
              ret=lambda a, n=n: [[q(i, j) + sum((t(i, j, k) * a[1].f[k] for k in range(n)), Rat.of(0)) for j in range(n)] for i in range(n)])
        o("computeGradient(function<double(%s)>,%s,double)" % (A, A), prep=quadratic, throws=lambda a: F, label="quadratic functions",
          ret=lambda a, n=n: [[alg.sym("b%d" % i) + sum((q(i, j) * a[1].f[j] for j in range(n)), Rat.of(0)) for i in range(n)]][0])
        o("computeHessian(function<double(%s)>,%s,double)" % (A, A), prep=quadratic, throws=lambda a: F, label="quadratic functions",
          ret=lambda a, n=n: [[q(i, j) for j in range(n)] for i in range(n)])
