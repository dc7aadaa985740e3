"""C06 vector algebra: every vector operation against its defining formula (value numbering, exact normal forms)."""
from core import *
from spec import *
from report import Result

EPS = Fraction(2) ** -52


def dot(a, b):
    r = Rat.of(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def sq(a):
    return dot(a, a)


def length(a):
    return vn.f_sqrt(sq(a))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(a, k):
    return [x * k for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def project(a, b):
    return mul(b, dot(a, b) / sq(b))


def euclid(h):
    return [x / h[3] for x in h[:3]]


def unit(a):
    """normalised; vectors of length within rounding of 0 or 1 may be left alone"""
    l = length(a)
    out = []
    for x in a:
        out.append(ite(le(l, 4 * EPS), ANY,
                       ite(And(le(l - 1, 4 * EPS), le(1 - l, 4 * EPS)), Alt(x, x / l), x / l)))
    return out


def close(a, b):
    """component-wise equality up to rounding: equal vectors are equal, vectors further apart than the machine
    epsilon in some component are not"""
    far, same = F, T
    for x, y in zip(a, b):
        far = Or(far, le(4 * EPS, x - y), le(4 * EPS, y - x))
        same = And(same, eq(x - y, 0))
    return ite(same, T, ite(far, F, ANY))


def run(tier):
    P = load()
    R = Result("C06")
    R.rule("formula", "normal form of the result equals the defining formula for all real inputs")
    K = Checker(P, R, "formula")
    o = K.one
    c = comp
    for V, n in (("vec2", 2), ("vec3", 3), ("vec4", 4)):
        t = lambda a: c(a.this)
        b = lambda a, i=0: c(a[i])
        o("%s::operator-(%s)" % (V, V), ret=lambda a: sub(t(a), b(a)))
        o("%s::operator+(%s)" % (V, V), ret=lambda a: add(t(a), b(a)))
        o("%s::operator-()" % V, ret=lambda a: mul(t(a), -1))
        o("%s::operator*(%s)" % (V, V), ret=lambda a: [x * y for x, y in zip(t(a), b(a))])
        o("%s::operator*(double)" % V, ret=lambda a: mul(t(a), a[0]))
        o("%s::operator/(double)" % V, ret=lambda a: mul(t(a), 1 / a[0]))
        o("%s::operator/(%s)" % (V, V), ret=lambda a: [x / y for x, y in zip(t(a), b(a))])
        o("%s::operator*=(double)" % V, this=lambda a: mul(t(a), a[0]))
        o("%s::operator/=(double)" % V, this=lambda a: mul(t(a), 1 / a[0]))
        o("%s::operator+=(%s)" % (V, V), this=lambda a: add(t(a), b(a)))
        o("%s::operator-=(%s)" % (V, V), this=lambda a: sub(t(a), b(a)))
        o("%s::dot(%s)" % (V, V), ret=lambda a: dot(t(a), b(a)))
        o("%s::sqLength()" % V, ret=lambda a: sq(t(a)))
        o("%s::length()" % V, ret=lambda a: length(t(a)))
        o("%s::distance(%s)" % (V, V), ret=lambda a: length(sub(t(a), b(a))))
        o("%s::distanceSq(%s)" % (V, V), ret=lambda a: sq(sub(t(a), b(a))))
        o("%s::project(%s)" % (V, V), ret=lambda a: project(t(a), b(a)))
        o("%s::operator==(%s)" % (V, V), ret=lambda a: close(t(a), b(a)))
        o("%s::size()" % V, ret=lambda a: n)

        def sel(a):
            r = ANY
            for i in reversed(range(n)):
                r = ite(eq(a[0], i), t(a)[i], r)
            return r
        o("%s::operator[](unsignedlong)" % V, ret=sel,
          throws=lambda a: lt(Rat.of(n - 1), a[0]) if True else None,
          assume=lambda a: [le(Rat.of(0), a[0])])
        o("%s::set(%s)" % (V, V), this=lambda a: b(a))
        o("%s::set(array<double,%d>)" % (V, n), this=lambda a: b(a))
        o("%s::set(%s)" % (V, ",".join(["double"] * n)), this=lambda a: [a[i] for i in range(n)])
        o("%s::%s(%s)" % (V, V, ",".join(["double"] * n)), this=lambda a: [a[i] for i in range(n)])
        o("%s::%s(double)" % (V, V), this=lambda a: [a[0]] * n)
        o("%s::%s(array<double,%d>)" % (V, V, n), this=lambda a: b(a))
        o("%s::sub(%s,%s)" % (V, V, V), out={1: lambda a: sub(t(a), b(a))})
        o("%s::add(%s,%s)" % (V, V, V), out={1: lambda a: add(t(a), b(a))})
        if n < 4:
            o("%s::unitize()" % V, this=lambda a: unit(t(a)), throws=None)
            o("%s::unit()" % V, ret=lambda a: unit(t(a)))
            o("%s::normalize()" % V, this=lambda a: unit(t(a)))
    t = lambda a: c(a.this)
    b = lambda a, i=0: c(a[i])
    r2 = lambda p: p[0] * p[0] + p[1] * p[1]
    th = lambda p: app("atan2", vn.f_sqrt(r2(p)), p[2])
    ph = lambda p: app("atan2", p[1], p[0])
    sc = lambda r, u, v: [r * app("sin", u) * app("cos", v), r * app("sin", u) * app("sin", v), r * app("cos", u)]
    # results written into one of the operands are the same as into a fresh object
    for V in ("vec3", "vec4"):
        for nm, fn in (("sub", sub), ("add", add)):
            for al, lab in (((1, "this"), "result is the object"), ((1, 0), "result is the operand")):
                o("%s::%s(%s,%s)" % (V, nm, V, V), out={1: lambda a, fn=fn: fn(t(a), b(a))}, alias=[al], label=lab)
        for nm, fn in (("+=", add), ("-=", sub)):
            o("%s::operator%s(%s)" % (V, nm, V), this=lambda a, fn=fn: fn(t(a), t(a)), alias=[(0, "this")], label="with itself")
    for al, lab in (((1, "this"), "result is the object"), ((1, 0), "result is the operand")):
        o("vec3::cross(vec3,vec3)", out={1: lambda a: cross(t(a), b(a))}, alias=[al], label=lab)
        o("vec4::cross(vec4,vec4)", out={1: lambda a: cross(euclid(t(a)), euclid(b(a))) + [Rat.of(1)]}, alias=[al], label=lab)
    o("vec4::cross(vec3,vec3)", out={1: lambda a: cross(euclid(t(a)), b(a))}, alias=[(1, 0)], label="result is the operand")
    for k in (0, 1):
        o("vectorProjection(vec3,vec3,vec3)", out={2: lambda a: project(b(a), b(a, 1))}, alias=[(2, k)],
          label="result is operand %d" % (k + 1))
    o("cartesian_to_spherical(vec3,vec3)", out={1: lambda a: [length(b(a)), th(b(a)), ph(b(a))]}, alias=[(1, 0)], label="in place")
    o("spherical_to_cartesian(vec3,vec3)", out={1: lambda a: sc(*b(a))}, alias=[(1, 0)], label="in place")
    o("vec2::set(double)", this=lambda a: [a[0], a[0]])
    o("vec2::vec2(vec2,vec2)", this=lambda a: sub(b(a, 1), b(a, 0)))
    o("vec2::projection(vec2)", ret=lambda a: dot(t(a), b(a)) / sq(b(a)))
    o("cross(vec2,vec2)", ret=lambda a: b(a)[0] * b(a, 1)[1] - b(a)[1] * b(a, 1)[0])
    o("vec3::cross(vec3)", ret=lambda a: cross(t(a), b(a)))
    o("vec3::cross(vec3,vec3)", out={1: lambda a: cross(t(a), b(a))})
    o("vec3::dot(double,double,double)", ret=lambda a: dot(t(a), [a[0], a[1], a[2]]))
    o("vec3::operator==(vec2)", ret=lambda a: close(t(a)[:2], b(a)))
    o("vectorProjection(vec3,vec3,vec3)", out={2: lambda a: project(b(a), b(a, 1))})
    o("vectorProjection(vec3,vec3)", ret=lambda a: project(b(a), b(a, 1)))
    for V in ("vec2", "vec3"):
        o("dot(%s,%s)" % (V, V), ret=lambda a: dot(b(a), b(a, 1)))
    o("dist(vec3,vec3)", ret=lambda a: length(sub(b(a), b(a, 1))))
    o("dist2(vec3,vec3)", ret=lambda a: sq(sub(b(a), b(a, 1))))
    o("mag2(vec3)", ret=lambda a: sq(b(a)))
    o("operator*(double,vec3)", ret=lambda a: mul(b(a, 1), a[0]))
    o("assign(vec3,double,double,double)", out={i + 1: (lambda a, i=i: b(a)[i]) for i in range(3)})
    # homogeneous points
    o("vec4::to_vec3()", ret=lambda a: euclid(t(a)))
    o("vec4::to_vec3(vec3)", out={0: lambda a: euclid(t(a))}, ret=lambda a: euclid(t(a)))
    o("vec4::set(vec3)", this=lambda a: b(a) + [Rat.of(1)])
    o("vec4::cross(vec3)", ret=lambda a: cross(euclid(t(a)), b(a)))
    o("vec4::cross(vec3,vec3)", out={1: lambda a: cross(euclid(t(a)), b(a))})
    o("vec4::cross(vec4,vec4)", out={1: lambda a: cross(euclid(t(a)), euclid(b(a))) + [Rat.of(1)]})
    o("cross(vec3,vec3,vec4)", out={2: lambda a: cross(b(a), b(a, 1)) + [Rat.of(1)]})
    # spherical coordinates
    o("cartesian_to_spherical(vec3,vec3)", out={1: lambda a: [length(b(a)), th(b(a)), ph(b(a))]})
    o("cartesian_to_spherical(vec3,vec2)", out={1: lambda a: [th(b(a)), ph(b(a))]})
    o("spherical_to_cartesian(vec3,vec3)", out={1: lambda a: sc(*b(a))})
    o("spherical_to_cartesian(vec2,vec3)", out={1: lambda a: sc(Rat.of(1), *b(a))})
    o("cartesian_to_spherical(vector<vec3>,vector<vec2>)",
      out={1: lambda a: SeqSpec(a[0].size, lambda i: [th(c(a[0].get(i))), ph(c(a[0].get(i)))])})
    K.finish()
    R.floor("formula", 30)
    R.assumptions += ["values are compared as real numbers: rounding and overflow are out of scope",
                      "formulas hold wherever their denominators are non-zero"]
    return R
