"""C16 local solvers: what they return is what they accepted."""
import zlib
from core import *
from spec import *
from report import Result
from search import Pieces, leaves
import search
from pairs import Pairs

EPS = Fraction(1, 2 ** 52)


def val(M, x, fr):
    return M.read(x, fr.store) if isinstance(x, vn.Loc) else x


def run(tier):
    P = load()
    R = Result("C16")
    R.rule("accepted", "the value returned is the iterate on which the stopping criterion was tested, every step is the defining step of the method")
    K = Checker(P, R, "accepted")
    curve_inversion(K)
    surface_inversion(K)
    small_systems(K)
    newton(K)
    bounded(K)
    lengths(K)
    K.finish()
    R.rule("bookkeeping", "dataflow over the minimiser: result.fun is the objective at result.x and the least value seen")
    R.floor("accepted", 3)
    return R


def add(*xs):
    t = Rat.of(0)
    for x in xs:
        t = lift(lambda p, q: p + q, t, x)
    return t


def mul(x, y):
    return lift(lambda p, q: p * q, x, y)


def quo(x, y):
    return lift(lambda p, q: p / q, x, y)


TRIPLES = ((1, 2, 2), (2, 3, 6), (6, 2, 3), (1, 4, 8), (4, 8, 1), (4, 4, 7), (7, 4, 4), (2, 6, 9), (6, 6, 7), (3, 4, 0), (0, 5, 12))
SAMPLES, PLACES = [], {}      # the first few places evaluated have these values and derivatives


def f3(name, *at):
    if SAMPLES:
        n = PLACES.setdefault(tuple(repr(x) for x in at), len(PLACES))
        if n < len(SAMPLES):
            return [Rat.of(x) for x in SAMPLES[n][name]]
        if all(x.const() is not None for x in at):      # elsewhere: some values of rational length
            n = zlib.crc32(repr((name, at)).encode())
            k, t = n % 7 + 1, TRIPLES[n // 7 % len(TRIPLES)]
            return [Rat.of(x * k if n >> 8 + i & 1 else -x * k) for i, x in enumerate(t)]
    return [alg.app("@%s.%s" % (name, k), *at) for k in "xyz"]


def absle(x, t):
    return And(le(x, t), le(-x, t))


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), Rat.of(0))


def length(a):
    return vn.f_sqrt(dot(a, a))


def values(U, kind, names):
    """models: evaluation and derivatives are functions of the parameters"""
    m = U.models()

    def go(n):
        def model(M, f, this, argv, fr):
            v = M.read(this, fr.store)
            if U.of(v) is None:
                return NotImplemented
            nums = [M.num(val(M, x, fr)) for x, p in zip(argv, f["params"]) if M.P.under(p["vt"]).get("c") == "fp"]
            outs = [x for x, p in zip(argv, f["params"]) if M.P.is_ref(p["vt"]) and not M.P.is_const_ref(p["vt"])]
            if any(not isinstance(x, Rat) for x in nums):
                raise vn.GiveUp("evaluation at a gated parameter")
            # optional step widths of difference quotients are not part of the position
            nums = nums[:1 if kind == "curve" else 2]
            o = vn.Obj("cmmcore::vec3", dict(zip("xyz", f3(n, *nums))))
            if outs:
                M.write(outs[0], o, fr.store)
                return vn.Unk("void")
            return o
        return model
    for k, n in names.items():
        m[k] = go(n)
    return m


CURVE = {"evaluate": "C", "derivative": "C'", "second_derivative": "C''", "second_derivative_fdm": "C''", "derivative_fdm": "C'"}
SURF = {"evaluate": "S", "derivative_u": "Su", "derivative_v": "Sv", "derivative_u_fdm": "Su", "derivative_v_fdm": "Sv"}


# value and two derivatives at the first iterates
LAST = ((2, 6, -9), (7, 4, 4), (2, 1, 2))
CASES = [[((1, 2, -2), (2, 3, 6), (4, -4, 7)), ((2, -1, 2), (1, 4, -8), (0, 3, 4)), LAST],
         [((4, 7, -4), (2, 2, 1), (6, -3, 2)), ((1, 2, 2), (-8, 1, 4), (6, 6, 7)), LAST],
         [((0, 0, 2), (1, 2, 2), (2, 3, 6)), ((3, 0, -4), (4, 4, 7), (2, 6, 9)), ((0, 4, 3), (2, -2, 1), (1, 4, 8)), LAST]]


def curve_inversion(K):
    for n, first in ((0, None), (1, None), (1, CASES[0]), (1, CASES[1]), (2, CASES[0]), (2, CASES[1]), (3, CASES[2])):
        U = Pieces()

        def prep(M, fr, S, n=n, first=first):
            U.__init__()
            SAMPLES.clear(), PLACES.clear()
            h = Shape(M, fr, S)
            h.arg(0, U.curve("c"))
            for i in (3, 4):
                h.fact(S.args[i][0], ">")
            h.arg(5, n)
            if first:
                h.arg(1, vn.Obj("cmmcore::vec3", {k: Rat.of(0) for k in "xyz"}))
                h.arg(2, Fraction(1, 3))
                SAMPLES[:] = [dict(zip(("C", "C'", "C''"), v)) for v in first]
            M.models = values(U, "curve", CURVE)

        def rel(a, n=n):
            P3 = [a[1].f[k] for k in "xyz"]
            tol1, tol2 = a[3], a[4]

            def step(u, left):
                """required result from iterate u"""
                if not left:
                    return u
                C, D, E = f3("C", u), f3("C'", u), f3("C''", u)
                d = [x - y for x, y in zip(C, P3)]
                g, slope = dot(D, d), dot(E, d) + dot(D, D)
                flat = And(lt(slope, Rat.of(EPS)), lt(-slope, Rat.of(EPS)))
                nxt = u - g / slope
                small = absle((nxt - u) * length(D), tol1)
                C1, D1 = f3("C", nxt), f3("C'", nxt)
                d1 = [x - y for x, y in zip(C1, P3)]
                done = Or(le(length(d1), tol1), absle(dot(D1, d1) / (length(D1) * length(d1)), tol2))
                more = step(nxt, left - 1) if left > 1 else nxt
                return ite(flat, u, ite(small, ANY, ite(done, nxt, more)))
            want = step(a[2], n)
            out = [("result", [], [("parameter", a.ret, want)])]
            return out
        K.one("point_inversion_curve(NURBSCurve,vec3,double,double,double,int)", prep=prep, rel=rel, throws=lambda a: F, label="%d iterations%s" % (n, ", sample" if first else ""))


def cramer(fl):
    if all(x.const() is not None for x in fl):
        a, b, c, d, p, q = fl
        det = a * d - b * c
        if det.const():
            return [(p * d - b * q) / det, (a * q - c * p) / det]
    return None


def solution(fl):
    """the solution of a 2x2 system: a function of the system"""
    return cramer(fl) or [alg.app("@step%d" % i, *fl) for i in (0, 1)]


def surface_inversion(K):
    for n, first in ((0, None), (1, None), (1, CASES[0]), (1, CASES[1]), (2, CASES[0]), (2, CASES[1]), (3, CASES[2])):
        U = Pieces()

        def prep(M, fr, S, n=n, first=first):
            U.__init__()
            SAMPLES.clear(), PLACES.clear()
            h = Shape(M, fr, S)
            h.arg(0, U.surface("s"))
            for i in (4, 5):
                h.fact(S.args[i][0], ">")
            h.arg(6, n)
            if first:
                h.arg(1, vn.Obj("cmmcore::vec3", {k: Rat.of(0) for k in "xyz"}))
                h.arg(2, Fraction(1, 3)), h.arg(3, Fraction(2, 3))
                SAMPLES[:] = [dict(zip(("S", "Su", "Sv"), v)) for v in first]
            M.models = values(U, "surface", SURF)

            def solve(M, f, this, argv, fr):
                J, k = val(M, argv[0], fr), val(M, argv[1], fr)
                J = J.f.get("_m", J)
                fl = M.flat(J) + M.flat(k)
                M.write(argv[2], vn.Obj("array", dict(enumerate(solution(fl)))), fr.store)
                return T if cramer(fl) else Cond("op", "solvable%d" % len(fl))
            M.models["solve2x2"] = solve

        def rel(a, n=n):
            P3 = [a[1].f[k] for k in "xyz"]
            tol1, tol2 = a[4], a[5]

            def step(u, v, left):
                if not left:
                    return u, v
                S, D, E = f3("S", u, v), f3("Su", u, v), f3("Sv", u, v)
                d = [x - y for x, y in zip(S, P3)]
                sys = [dot(D, D), dot(D, E), dot(E, D), dot(E, E), dot(D, d), dot(E, d)]
                x, y = solution(sys)
                u1, v1 = u - x, v - y
                small = And(absle(x * length(D) + y * length(E), tol1), absle(x * length(D) - y * length(E), tol1))
                S1, D1, E1 = f3("S", u1, v1), f3("Su", u1, v1), f3("Sv", u1, v1)
                d1 = [p - q for p, q in zip(S1, P3)]
                cos = [absle(dot(t, d1) / (length(t) * length(d1)), tol2) for t in (D1, E1)]
                done = Or(le(length(d1), tol1), And(*cos))
                more = step(u1, v1, left - 1) if left > 1 else (u1, v1)
                return tuple(ite(small, ANY, ite(done, p, q)) for p, q in ((u1, more[0]), (v1, more[1])))
            want = step(a[2], a[3], n)
            return [("result", [Cond("op", "solvable6")], [("parameter %s" % "uv"[i], a.ret.f[i], want[i]) for i in (0, 1)])]
        K.one("point_inversion_surface(NURBSSurface,vec3,double,double,double,double,int)", prep=prep, rel=rel, label="%d iterations%s" % (n, ", sample" if first else ""))


def truth(v):
    return Or(And(v.c, truth(v.a)), And(Not(v.c), truth(v.b))) if isinstance(v, alg.Ite) else v


def small_systems(K):
    vecs = [None]

    def prep(M, fr, S):
        h = Shape(M, fr, S)
        if vecs[0]:
            for i in (0, 1):
                h.arg(i, vn.Obj("cmmcore::vec3", {k: Rat.of(x) for k, x in zip("xyz", vecs[0][i])}))
        du, dv = S.args[0][0], S.args[1][0]
        h.arg(2, vn.Obj("cmmcore::vec3", {k: alg.sym("a") * du.f[k] + alg.sym("b") * dv.f[k] for k in "xyz"}))

    def rel(a):
        du, dv = a[0].f, a[1].f
        dets = [du[p] * dv[q] - dv[p] * du[q] for p, q in ("xy", "xz", "yz")]
        tiny = [absle(d, Rat.of(EPS)) for d in dets]
        ok = truth(a.ret)
        return [("solution", [ok], [("along u", a.out[3].f["x"], alg.sym("a")), ("along v", a.out[3].f["y"], alg.sym("b"))]),
                ("fails only without any well conditioned system", [Not(ok)], [("determinants", And(*tiny), VALID)]),
                ("succeeds only with a well conditioned system", [ok], [("determinants", Not(And(*tiny)), VALID)])]
    # each of the three systems best conditioned, with either orientation; and none
    for v in (((3, 1, 0), (1, 4, 2)), ((1, 3, 0), (4, 1, 2)), ((3, 0, 1), (1, 2, 4)), ((1, 0, 3), (4, 2, 1)), ((0, 3, 1), (2, 1, 4)), ((0, 1, 3), (2, 4, 1)),
              ((1, 2, 3), (2, 4, 6)), ((0, 0, 0), (1, 0, 2))):
        vecs[0] = v
        K.one("ssx_helpers::improve_uv(vec3,vec3,vec3,vec2)", prep=prep, rel=rel, throws=lambda a: F, label="along %s and %s" % v)

    U = Pieces()

    def given(M, fr, S):
        U.__init__()
        h = Shape(M, fr, S)
        h.arg(0, U.surface("s"))

        def inv(M, f, this, argv, fr):
            ins = []
            for x in argv:
                v = val(M, x, fr)
                ins += [v.f["$piece"]] if isinstance(v, vn.Obj) and "$piece" in v.f else M.flat(v)
            return vn.Obj("array", {i: alg.app("@inv%d" % i, *ins) for i in (0, 1)})
        M.models["point_inversion_surface"] = inv
    K.one("improve_uv_robust(NURBSSurface,vec2,vec3,vec3,vec3,vec3,vec2,double,unsignedlong)", prep=given, throws=lambda a: F,
          rel=lambda a: [("closest parameters of the new point", [], [("uv." + k, a.out[6].f[k],
                          alg.app("@inv%d" % i, a[0].f["$piece"], *[a[5].f[c] for c in "xyz"], a[1].f["x"], a[1].f["y"], a[7], a[7], a[8])) for i, k in enumerate("xy")])])


def newton(K):
    for n in (2, 3, 4):
        A = "array<double,%d>" % n
        ix = range(n)
        for accept, rounds in ((0, 0), (0, 1), (2, 1), (None, 1)):
            if n > 2 and accept is not None and rounds:
                continue            # the same template; larger systems only repeat the comparison
            st = {}

            def prep(M, fr, S, n=n, accept=accept, rounds=rounds, st=st):
                h = Shape(M, fr, S)
                h.arg(3, rounds)
                h.fact(S.args[2][0], ">")
                st.update(solves=[], lines=[], fun=S.args[0][0])

                def vector(x):
                    return [x.f[i] for i in range(n)]

                def gradient(M, f, this, argv, fr):
                    p = vector(val(M, argv[1], fr))
                    return vn.Obj("array", {i: alg.app("@g%d" % i, *p) for i in range(n)})

                def hessian(M, f, this, argv, fr):
                    p = vector(val(M, argv[1], fr))
                    return vn.Obj("array", {i: vn.Obj("array", {j: alg.app("@h%d%d" % (min(i, j), max(i, j)), *p) for j in range(n)}) for i in range(n)})

                def solve(M, f, this, argv, fr):
                    H, g = val(M, argv[0], fr), vector(val(M, argv[1], fr))
                    H = H.f.get("_m", H)
                    k = len(st["solves"])
                    st["solves"].append((H, g))
                    M.event(fr.store, "solve:%d" % k)
                    M.write(argv[2], vn.Obj("array", {i: alg.app("@s%d" % i, *g) for i in range(n)}), fr.store)
                    return T if accept is not None and k % (accept + 1) == accept else F

                def line(M, f, this, argv, fr):
                    k = len(st["lines"])
                    p, d, g = (vector(val(M, x, fr)) for x in argv[1:4])
                    st["lines"].append((val(M, argv[0], fr), p, d, g))
                    M.event(fr.store, "line:%d" % k)
                    al = alg.app("@alpha", *p)
                    return al
                M.models.update(computeGradient=gradient, computeHessian=hessian, solveLinearSystem=solve, lineSearch=line)

            def rel(a, n=n, accept=accept, rounds=rounds, st=st):
                ix = range(n)

                def step(p, left):
                    if not left or accept is None:
                        return p
                    g = [alg.app("@g%d" % i, *p) for i in ix]
                    al = alg.app("@alpha", *p)
                    return [x - al * alg.app("@s%d" % i, *g) for i, x in enumerate(p)]
                p0 = [a[1].f[i] for i in ix]
                out = [("result", [], [("[%d]" % i, a.ret.f[i], x) for i, x in enumerate(step(p0, rounds))])]
                if accept is None or rounds == 0:
                    out.append(("no step without a solution", [], [("line searches", T if not st["lines"] else F, VALID)]))
                pts = p0
                for k, (H, g) in enumerate(st["solves"]):
                    if k > (accept if accept is not None else 99):
                        break           # the first round is enough
                    H0 = [[alg.app("@h%d%d" % (min(i, j), max(i, j)), *pts) for j in ix] for i in ix]
                    mu = H.f[0].f[0] - H0[0][0]
                    out.append(("system %d" % k, [a.S.events.get("solve:%d" % k, F)],
                                [("entry %d%d" % (i, j), H.f[i].f[j], H0[i][j] + (mu if i == j else Rat.of(0))) for i in ix for j in ix] +
                                [("shift is positive", lt(Rat.of(0), mu), VALID)] +
                                [("right side %d" % i, g[i], alg.app("@g%d" % i, *pts)) for i in ix]))
                for k, (fun, p, d, g) in enumerate(st["lines"][:1]):
                    out.append(("line search", [a.S.events.get("line:%d" % k, F)],
                                [("of the function", T if fun is st["fun"] else F, VALID)] +
                                [("from %d" % i, p[i], p0[i]) for i in ix] +
                                [("along %d" % i, d[i], -alg.app("@s%d" % i, *[alg.app("@g%d" % j, *p0) for j in ix])) for i in ix] +
                                [("gradient %d" % i, g[i], alg.app("@g%d" % i, *p0)) for i in ix]))
                return out
            K.one("newtonsMethod(function<double(%s)>,%s,double,int)" % (A, A), prep=prep, rel=rel, throws=lambda a: F,
                  label="%d rounds, %s" % (rounds, "no solution" if accept is None else "solution at attempt %d" % (accept + 1)))


    half = Rat.of(Fraction(1, 2))
    A = "array<double,2>"
    # one coordinate still moves; both within tolerance of 1; both within tolerance of the size of the point; on the bound
    for p0, steps, tol, stops in (((3, 5), ((8, Fraction(1, 1000)), (2, 2)), Fraction(1, 100), False), ((0, 0), ((Fraction(1, 100), Fraction(-1, 100)), (2, 2)), Fraction(1, 100), True),
                                  ((200, -200), ((Fraction(3, 2), Fraction(-3, 2)), (2, 2)), Fraction(1, 100), True), ((0, 0), ((Fraction(1, 1000), Fraction(-3, 1)), (2, 2)), Fraction(1, 100), False),
                                  ((0, 0), ((Fraction(2, 100), 0), (2, 2)), Fraction(1, 100), False)):
        st = {}

        def prep(M, fr, S, p0=p0, steps=steps, tol=tol, st=st):
            h = Shape(M, fr, S)
            h.arg(1, vn.Obj("array", {i: Rat.of(x) for i, x in enumerate(p0)}))
            h.arg(2, tol), h.arg(3, 2)
            st["n"] = 0
            any2 = lambda n: lambda M, f, this, argv, fr: vn.Obj("array", {i: alg.sym("%s%d" % (n, i)) for i in (0, 1)})

            def solve(M, f, this, argv, fr):
                M.write(argv[2], vn.Obj("array", {i: Rat.of(x) for i, x in enumerate(steps[st["n"]])}), fr.store)
                st["n"] += 1
                return T
            M.models.update(computeGradient=any2("g"), solveLinearSystem=solve, lineSearch=lambda M, f, this, argv, fr: half,
                            computeHessian=lambda M, f, this, argv, fr: vn.Obj("array", {i: vn.Obj("array", {j: alg.sym("h%d" % (i + j)) for j in (0, 1)}) for i in (0, 1)}))
        K.one("newtonsMethod(function<double(%s)>,%s,double,int)" % (A, A), prep=prep, throws=lambda a: F, label="two rounds from %s by %s within %s" % (p0, steps[0], tol),
              rel=lambda a, p0=p0, steps=steps, stops=stops: [("stops at the first step within tolerance", [], [
                  ("[%d]" % i, a.ret.f[i], Rat.of(p0[i] - Fraction(steps[0][i]) / 2 - (0 if stops else Fraction(steps[1][i]) / 2))) for i in (0, 1)])])


def bounded(K):
    key = "minimize_scalar_bounded(function<double(double)>,pair<double,double>,OptimizeResult<double>,double,int,int)"
    for f in K.by.get(key, []):
        A = Pairs(K.P, f, f["params"][0]["d"])
        s = A.run()
        w = K.P.where(f)
        if s is None or s.lost or not A.evals:
            K.undecided.append("%s: the objective is evaluated behind a call" % key)
            continue
        r = f["params"][2]["d"]
        K.R.check("bookkeeping", key + ": the reported value is the objective at the reported place", w, ((r, "x"), (r, "fun")) in s.pair,
               "on some path result.fun is not the value of the objective at result.x")
        K.R.check("bookkeeping", key + ": no place evaluated is better than the reported one", w, (r, "fun") in s.least and not s.fresh,
               "on some path result.fun is not known to be the least of the values seen")

    def prep(M, fr, S):
        h = Shape(M, fr, S)
        h.arg(1, vn.Obj("pair", {0: alg.sym("lo"), 1: alg.sym("hi")}))
        h.arg(4, 0), h.arg(5, 0)
        h.fact(S.args[3][0], ">")
        # the first of the loop's rounds is the last
    K.one(key, prep=prep, throws=lambda a: lt(alg.sym("hi"), alg.sym("lo")), label="order of the bounds")


def lengths(K):
    U = Pieces()
    SAMPLES.clear()

    def lam(M, f, this, argv, fr):
        """integral of a function: of its value at any place"""
        fun, a, b = (val(M, x, fr) for x in argv[:3])
        y = M.apply(fun, [alg.sym("time")], fr)
        tol = val(M, argv[5], fr)
        M.write(argv[3], alg.app("@integral", y, a, b, *([] if tol.const() is not None else [tol])), fr.store)
        M.write(argv[4], alg.sym("error"), fr.store)
        return vn.Unk("void")

    def root(M, f, this, argv, fr):
        t0, l, fun, guess, tol = (val(M, x, fr) for x in argv[:5])
        y = M.apply(fun, [alg.sym("time")], fr)
        return alg.app("@root", t0, l, y, guess, tol)

    def prep(M, fr, S):
        U.__init__()
        S.this0 = U.curve("c")
        fr.store[fr.this.root] = S.this0
        M.models = values(U, "curve", CURVE)
        M.models.pop("length", None)
        M.models.update(integrate=lam, find_t1_newton=root)

    def speed():
        return length(f3("C'", alg.sym("time")))
    iv = lambda a, i: a.this.f["_interval"].f[i]
    K.one("NURBSCurve::length(double,double,double)", prep=prep, throws=lambda a: F, ret=lambda a: alg.app("@integral", speed(), a[0], a[1], a[2]))
    K.one("NURBSCurve::length(double,double)", prep=prep, throws=lambda a: F, ret=lambda a: alg.app("@integral", speed(), iv(a, 0), a[0], a[1]))
    K.one("NURBSCurve::length()", prep=prep, throws=lambda a: F, rel=lambda a: [("over the whole curve", [], [("length", a.ret, alg.app("@integral", speed(), iv(a, 0), iv(a, 1)))])])
    K.one("NURBSCurve::lengthAt(double,double,double,double)", prep=prep, throws=lambda a: F, ret=lambda a: alg.app("@root", a[1], a[0], speed(), a[2], a[3]))
    K.one("NURBSCurve::lengthAt(double,double)", prep=prep, throws=lambda a: F,
          ret=lambda a: alg.app("@root", iv(a, 0), a[0], speed(), (iv(a, 0) + iv(a, 1)) * Rat.of(Fraction(1, 2)), a[1]))
    for n, tl in ((0, None), (1, None), (2, Fraction(1, 1000)), (2, 50), (3, Fraction(1, 20))):
        def prep(M, fr, S, n=n, tl=tl):
            h = Shape(M, fr, S)
            h.arg(5, n)
            h.fact(S.args[4][0], ">")
            fun = S.args[2][0]
            if tl:
                h.arg(0, Fraction(1, 3)), h.arg(1, 2), h.arg(3, Fraction(3, 2)), h.arg(4, tl)
                fun.impl = lambda x: x * x + Rat.of(2)

            def integral(M, f, this, argv, fr):
                g, a, b = (val(M, x, fr) for x in argv[:3])
                M.write(argv[3], alg.sym("other") if g is not fun else (b - a) * (b + Rat.of(3)) if tl else alg.app("@integral", a, b), fr.store)
                M.write(argv[4], alg.sym("error"), fr.store)
                return vn.Unk("void")
            M.models["integrate"] = integral

        def rel(a, n=n, tl=tl):
            def go(u, left):
                if not left:
                    return u
                s = u * u + Rat.of(2) if tl else alg.app("@" + a[2].name, u)
                nxt = u - (((u - a[0]) * (u + Rat.of(3)) if tl else alg.app("@integral", a[0], u)) - a[1]) / s
                tiny = Rat.of(Fraction(1, 10 ** 10))
                return ite(And(lt(s, tiny), lt(-s, tiny)), ANY, ite(And(lt(nxt - u, a[4]), lt(u - nxt, a[4])), nxt, go(nxt, left - 1)))
            return [("Newton iterates", [], [("parameter", a.ret, go(a[3], n))])]
        K.one("find_t1_newton(double,double,function<double(double)>,double,double,unsignedlong)", prep=prep, rel=rel, throws=lambda a: F,
              label="%d rounds%s" % (n, ", tolerance %s" % tl if tl else ""))

    def tol(M, fr, S):
        U.__init__()
        h = Shape(M, fr, S)
        h.arg(0, U.curve("c"))
        M.models["length"] = lambda M, f, this, argv, fr: alg.sym("len")
        h.fact(alg.sym("len"), ">")
    K.one("computePtol(NURBSCurve,double)", prep=tol, throws=lambda a: F,
          ret=lambda a: a[1] * (a[0].f["_interval"].f[1] - a[0].f["_interval"].f[0]) / alg.sym("len"))
