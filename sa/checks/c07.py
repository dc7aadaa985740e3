"""C07 matrices and small linear systems: products, inverses and solvers against their defining equations."""
from core import *
from spec import *
from report import Result


def dims(*ds, make=None):
    """fix the sizes of run-time sized matrices: (this | argument index, rows, columns), entries stay symbolic"""
    def prep(M, fr, S):
        for w, r, c in ds:
            o, l = (S.this0, fr.this) if w == "this" else S.args[w]
            nm = "this" if w == "this" else "p%d" % w
            d = M.arr(make(r, c)) if make else M.arr([alg.sym("%s[%d,%d]" % (nm, i, j)) for i in range(r) for j in range(c)])
            o = o.with_("data", d).with_("rows", Rat.of(r)).with_("cols", Rat.of(c))
            fr.store[l.root] = o
            if w == "this":
                S.this0 = o
            else:
                S.args[w] = (o, l)
    return prep


def L2(f, *v):
    return lift(f, *v)


def addv(*xs):
    t = Rat.of(0)
    for x in xs:
        t = L2(lambda p, q: p + q, t, x)
    return t


def mulv(x, y):
    return L2(lambda p, q: p * q, x, y)


def rows(v):
    """array of arrays -> list of lists"""
    return [[v.f[i].f[j] for j in v.f[i].f] for i in v.f]


def entries(m, r, c):
    d = m.f["data"]
    return [[(d.f[i * c + j] if isinstance(d, vn.Obj) else d.get(Rat.of(i * c + j))) for j in range(c)] for i in range(r)]


def run(tier):
    P = load()
    R = Result("C07")
    R.rule("equation", "normal form of the result satisfies the defining equation for all real entries")
    K = Checker(P, R, "equation")
    o = K.one
    M2 = lambda x: rows(x.f["_m"])
    v2 = lambda x: [x.f[0], x.f[1]]
    m2 = lambda a, b, c, d: [[[a, b], [c, d]]]
    # ---- 2x2
    o("Matrix2x2::Matrix2x2()", this=lambda a: m2(0, 0, 0, 0))
    o("Matrix2x2::Matrix2x2(double,double,double,double)", this=lambda a: m2(a[0], a[1], a[2], a[3]))
    o("Matrix2x2::Matrix2x2(array<double,2>,array<double,2>)", this=lambda a: m2(*(v2(a[0]) + v2(a[1]))))
    o("Matrix2x2::fromDiag(array<double,2>)", ret=lambda a: m2(a[0].f[0], 0, 0, a[0].f[1]))
    o("Matrix2x2::eye()", ret=lambda a: m2(1, 0, 0, 1))

    def row(a):
        m = M2(a.this)
        return [ite(eq(a[0], 0), m[0][j], ite(eq(a[0], 1), m[1][j], ANY)) for j in range(2)]
    o("Matrix2x2::operator[](unsignedlong)", ret=row)
    o("Matrix2x2::transpose()", ret=lambda a: [[list(x) for x in zip(*M2(a.this))]])
    det = lambda m: m[0][0] * m[1][1] - m[0][1] * m[1][0]
    o("Matrix2x2::det()", ret=lambda a: det(M2(a.this)))
    o("Matrix2x2::inverse()", throws=lambda a: eq(det(M2(a.this)), 0),
      ret=lambda a: (lambda m, d: m2(m[1][1] / d, -m[0][1] / d, -m[1][0] / d, m[0][0] / d))(M2(a.this), det(M2(a.this))))
    prod = lambda x, y: [[sum((x[i][k] * y[k][j] for k in range(len(y))), Rat.of(0)) for j in range(len(y[0]))] for i in range(len(x))]
    o("Matrix2x2::operator*(Matrix2x2)", ret=lambda a: [prod(M2(a.this), M2(a[0]))])
    o("Matrix2x2::operator*(array<double,2>)", ret=lambda a: [r[0] for r in prod(M2(a.this), [[x] for x in v2(a[0])])])

    # 2x2 systems: reports failure exactly for singular systems, otherwise solves them
    def solves(get, zero):
        def rel(a):
            m, b = get(a[0]), v2(a[1])
            d = det(m)
            x = [(b[0] * m[1][1] - m[0][1] * b[1]) / d, (m[0][0] * b[1] - b[0] * m[1][0]) / d]
            ok = a.ret if isinstance(a.ret, (Cond, Ite)) else a.ret
            sing = zero(d)
            return [("failure report", (), [("result", a.ret, ite(eq(d, 0), F, ite(sing, ANY, T)))]),
                    ("solution", (Not(sing),), [("x%d" % i, a.out[2].f[i], x[i]) for i in range(2)])]
        return rel
    tiny = lambda d: And(lt(d, Rat.of(Fraction(1, 10 ** 9))), lt(-d, Rat.of(Fraction(1, 10 ** 9))))
    o("solve2x2(Matrix2x2,array<double,2>,array<double,2>)", rel=solves(M2, tiny))
    o("solve2x2(array<array<double,2>,2>,array<double,2>,array<double,2>)", rel=solves(rows, tiny))

    # ---- run-time sized matrices
    o("MatrixD::MatrixD(unsignedlong,unsignedlong)",
      this=lambda a: {"rows": a[0], "cols": a[1], "data": SeqSpec(a[0] * a[1], lambda i: Rat.of(0))})
    o("MatrixD::operator()(unsignedlong,unsignedlong)",
      ret=lambda a: a.this.f["data"].get(a[0] * a.this.f["cols"] + a[1]))
    o("MatrixD::getRows()", ret=lambda a: a.this.f["rows"])
    o("MatrixD::getCols()", ret=lambda a: a.this.f["cols"])
    for n in range(1, 4):
        for c in range(1, 4):
            for k in range(1, 4):
                if max(n, c, k) == 3 and len({n, c, k}) == 2:
                    continue
                o("MatrixD::operator*(MatrixD)", prep=dims(("this", n, k), (0, k, c)), throws=lambda a: F, label="%dx%d by %dx%d" % (n, k, k, c),
                  ret=lambda a, n=n, k=k, c=c: {"rows": Rat.of(n), "cols": Rat.of(c), "data": SeqList(
                      sum(prod(entries(a.this, n, k), entries(a[0], k, c)), []))})
            o("MatrixD::transpose()", prep=dims(("this", n, c)), label="%dx%d" % (n, c),
              ret=lambda a, n=n, c=c: {"rows": Rat.of(c), "cols": Rat.of(n), "data": SeqList(
                  sum([list(x) for x in zip(*entries(a.this, n, c))], []))})
    o("MatrixD::operator*(MatrixD)", prep=dims(("this", 2, 3), (0, 2, 2)), throws=lambda a: T, label="mismatched sizes")
    o("MatrixD::inverse()", prep=dims(("this", 2, 3)), throws=lambda a: T, label="not square")
    for n in (1, 2):
        def rel(a, n=n):
            m = entries(a.this, n, n)
            inv = entries(a.ret, n, n)
            out = []
            for i in range(n):
                for j in range(n):
                    e = addv(*[mulv(m[i][k], inv[k][j]) for k in range(n)])
                    out.append(("(A*inverse)[%d,%d]" % (i, j), e, Rat.of(1 if i == j else 0)))
            return [("inverse", (), out), ("size", (), [("rows", a.ret.f["rows"], Rat.of(n)), ("cols", a.ret.f["cols"], Rat.of(n))])]
        o("MatrixD::inverse()", prep=dims(("this", n, n)), rel=rel, label="%dx%d" % (n, n))

    def rank1(r, c):
        x, y, k = alg.sym("x"), alg.sym("y"), alg.sym("k")
        return [x, y, k * x, k * y]
    o("MatrixD::inverse()", prep=dims(("this", 1, 1), make=lambda r, c: [Rat.of(0)]), label="1x1 singular", throws=lambda a: T)
    o("MatrixD::inverse()", prep=dims(("this", 2, 2), make=rank1), label="2x2 singular", throws=lambda a: T)

    # invertible whatever the signs: entries of size at least one at the places of a permutation, others zero or arbitrary
    fix = lambda n: [[Rat.of(0)] * n for _ in range(n)]

    def placed(n, perm, signs, free):
        def go(r, c):
            m = fix(n)
            for i, (j, sg) in enumerate(zip(perm, signs)):
                m[i][j] = alg.sym("d%d" % i)
                FACTS.append((m[i][j] - Rat.of(1), ">=") if sg > 0 else (m[i][j] + Rat.of(1), "<="))
            for i, j in free:
                m[i][j] = alg.sym("f%d%d" % (i, j))
            return [x for r in m for x in r]
        return go

    def assumed(pr):
        def go(M, fr, S):
            M.assumed = True
            pr(M, fr, S)
        return go
    for n, perm, free in ((2, (0, 1), ()), (2, (0, 1), ((0, 1),)), (2, (1, 0), ()), (2, (1, 0), ((1, 1),)), (3, (0, 1, 2), ()), (3, (1, 0, 2), ()), (3, (0, 2, 1), ()),
                          (3, (1, 2, 0), ()), (3, (2, 0, 1), ()), (3, (2, 1, 0), ()), (3, (1, 0, 2), ((0, 2), (1, 2))), (3, (0, 2, 1), ((0, 1), (0, 2)))):
        for signs in ((1,) * n, (-1,) * n, (-1,) + (1,) * (n - 1), (1,) * (n - 1) + (-1,)):
            def rel(a, n=n):
                m, inv = entries(a.this, n, n), entries(a.ret, n, n)
                return [("inverse", (), [("(A*inverse)[%d,%d]" % (i, j), addv(*[mulv(m[i][k], inv[k][j]) for k in range(n)]), Rat.of(1 if i == j else 0))
                                         for i in range(n) for j in range(n)])]
            o("MatrixD::inverse()", prep=assumed(dims(("this", n, n), make=placed(n, perm, signs, free))), throws=lambda a: F, rel=rel,
              label="%dx%d, entries at %s of signs %s%s" % (n, n, perm, signs, ", free entries" if free else ""))

    # ---- symmetric positive definite solver (square arrays of every instantiated size)
    for n in (2, 3, 4):
        A, V = "array<array<double,%d>,%d>" % (n, n), "array<double,%d>" % n
        low = lambda m, i, j: m[max(i, j)][min(i, j)]

        def chol(a, n=n):
            h, l = rows(a[0]), rows(a.out[1])
            out = []
            for i in range(n):
                for j in range(i + 1):
                    out.append(("(L*L^T)[%d,%d]" % (i, j), addv(*[mulv(l[i][k], l[j][k]) for k in range(n)]), h[i][j]))
                for j in range(i + 1, n):
                    out.append(("L[%d,%d]" % (i, j), l[i][j], Rat.of(0)))
            return [("factorisation", (okc(a.ret),), out)]
        if n < 4:
            o("choleskyDecomposition(%s,%s)" % (A, A), rel=chol)
        if n == 2:
            o("choleskyDecomposition(%s,%s)" % (A, A), label="definiteness report",
              ret=lambda a: (lambda h: And(lt(Rat.of(0), h[0][0]), lt(Rat.of(0), h[0][0] * h[1][1] - h[1][0] * h[1][0])))(rows(a[0])))

        def fwd(a, n=n):
            l, b, y = rows(a[0]), comp(a[1]), comp(a.out[2])
            return [("L*y=b", (), [("row %d" % i, addv(*[mulv(l[i][k], y[k]) for k in range(i + 1)]), b[i]) for i in range(n)])]

        def bwd(a, n=n):
            l, b, x = rows(a[0]), comp(a[1]), comp(a.out[2])
            return [("L^T*x=y", (), [("row %d" % i, addv(*[mulv(l[k][i], x[k]) for k in range(i, n)]), b[i]) for i in range(n)])]
        o("forwardSubstitution(%s,%s,%s)" % (A, V, V), rel=fwd)
        o("backwardSubstitution(%s,%s,%s)" % (A, V, V), rel=bwd)

        def sol(a, n=n):
            h, b, x = rows(a[0]), comp(a[1]), comp(a.out[2])
            return [("H*x=b", (okc(a.ret),), [("row %d" % i, addv(*[mulv(low(h, i, k), x[k]) for k in range(n)]), b[i]) for i in range(n)])]
        if n < 4:
            o("solveLinearSystem(%s,%s,%s)" % (A, V, V), rel=sol)
        o("dotProduct(%s,%s)" % (V, V), ret=lambda a: sum((x * y for x, y in zip(comp(a[0]), comp(a[1]))), Rat.of(0)))
    K.finish()
    R.floor("equation", 40)
    R.assumptions += ["entries are compared as real numbers: rounding and overflow are out of scope",
                      "run-time sized products and transposes at all shapes up to 3x3, inverses up to 2x2, 3x3 for permutation-like matrices",
                      "arrays are symmetric where a symmetric solver is called (lower triangle read)"]
    return R
