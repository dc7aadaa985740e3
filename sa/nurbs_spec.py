"""Reference definitions for B-splines: Cox-de Boor basis, its derivatives, blossoms, rational quotients."""
import vn, alg
from alg import *


def iszero(x):
    return isinstance(x, Rat) and x.const() == 0


def basis_table(U, p, u):
    """U: relative index -> knot; u lies in [U(0), U(1)).  list by degree of {j: N_j} with j relative to the span"""
    lv = [{j: Rat.of(1 if j == 0 else 0) for j in range(-p, p + 2)}]
    for k in range(1, p + 1):
        cur, nx = lv[-1], {}
        for j in range(-p, p + 1):
            s = Rat.of(0)
            if j in cur and not iszero(cur[j]):
                s = s + (u - U(j)) / (U(j + k) - U(j)) * cur[j]
            if j + 1 in cur and not iszero(cur[j + 1]):
                s = s + (U(j + k + 1) - u) / (U(j + k + 1) - U(j + 1)) * cur[j + 1]
            nx[j] = s
        lv.append(nx)
    return lv


def basis_ders(U, p, u, n):
    """[k][r]: k-th derivative of the r-th basis function that does not vanish on the span"""
    lv = basis_table(U, p, u)

    def d(j, q, k):
        if k == 0:
            return lv[q].get(j, Rat.of(0))
        if q == 0:
            return Rat.of(0)
        s = Rat.of(0)
        x = d(j, q - 1, k - 1)
        if not iszero(x):
            s = s + Rat.of(q) * x / (U(j + q) - U(j))
        x = d(j + 1, q - 1, k - 1)
        if not iszero(x):
            s = s - Rat.of(q) * x / (U(j + q + 1) - U(j + 1))
        return s
    return [[d(j, p, k) for j in range(-p, 1)] for k in range(n + 1)]


def curve_ders(p, U, P, u, span, n, keys="xyzw"):
    """homogeneous derivatives [k]{x,y,z,w} of sum N_i P_i for u in span"""
    D = basis_ders(lambda k: U[span + k], p, u, n)
    return [{c: sum((D[k][i] * P[span - p + i].f[c] for i in range(p + 1)), Rat.of(0)) for c in keys}
            for k in range(n + 1)]


def surface_ders(p, q, U, V, P, u, v, su, sv, n, m, keys="xyzw"):
    """[k][l]{x,y,z,w}: derivative k in u, l in v of sum N_i M_j P_ij"""
    A = basis_ders(lambda k: U[su + k], p, u, n)
    B = basis_ders(lambda k: V[sv + k], q, v, m)
    return [[{c: sum((A[k][i] * B[l][j] * vn.vec(P[su - p + i])[sv - q + j].f[c]
                      for i in range(p + 1) for j in range(q + 1)), Rat.of(0)) for c in keys}
             for l in range(m + 1)] for k in range(n + 1)]


def choose(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def rational(A):
    """derivatives of (x,y,z)/w from homogeneous derivatives A[k]"""
    out = []
    for k, a in enumerate(A):
        r = {}
        for c in "xyz":
            s = a[c]
            for j in range(1, k + 1):
                s = s - Rat.of(choose(k, j)) * A[j]["w"] * out[k - j][c]
            r[c] = s / A[0]["w"]
        out.append(r)
    return out


def rational2(A):
    out = []
    for k in range(len(A)):
        out.append([])
        for l in range(len(A[k])):
            r = {}
            for c in "xyz":
                s = A[k][l][c]
                for i in range(k + 1):
                    for j in range(l + 1):
                        if i or j:
                            s = s - Rat.of(choose(k, i) * choose(l, j)) * A[i][j]["w"] * out[k - i][l - j][c]
                r[c] = s / A[0][0]["w"]
            out[k].append(r)
    return out


def blossom(p, U, P, span, args, c):
    """value of the polar form of the segment on span at args (component c); control point i of any knot vector that
    describes the same segment is the polar form at its p interior knots"""
    d = [P[span - p + i].f[c] for i in range(p + 1)]
    for r in range(1, p + 1):
        t = args[r - 1]
        for j in range(p, r - 1, -1):
            lo, hi = U[span - p + j], U[span + 1 + j - r]
            a = (t - lo) / (hi - lo)
            d[j] = (Rat.of(1) - a) * d[j - 1] + a * d[j]
    return d[p]


def shapes(tier):
    s = [(1, (2, 2)), (1, (2, 1, 2)), (2, (3, 3)), (2, (3, 1, 3)), (3, (4, 4))]
    if tier == "thorough":
        s += [(2, (3, 1, 1, 3)), (2, (3, 2, 3)), (3, (4, 1, 4)), (3, (4, 2, 4)), (1, (2, 1, 1, 2))]
    return s


def spans(mults):
    """knot spans of positive length: (index of its first knot, number of the distinct knot)"""
    out, i = [], 0
    for n, m in enumerate(mults[:-1]):
        i += m
        out.append(i - 1)
    return out
