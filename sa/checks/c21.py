"""C21 the collision test of convex point sets: support points, simplex steps, verdict."""
import itertools
from core import *
from spec import *
from report import Result
import vn
from vn import Obj, SVec, Ptr, GiveUp, vite
from search import leaves
from boolean import falsify, TooHard
from checks import c20

XYZ = "xyz"
CK = []


def run(tier):
    P = load()
    R = Result("C21")
    R.rule("step", "support points are extreme; a simplex step keeps its newest point and a face that sees the origin, and turns towards the origin at right angles to what it kept; "
                   "apart is answered only with a separating direction, contained only by the simplex step")
    K = Checker(P, R, "step")
    CK[:] = [K]
    c20.CK[:] = [K]
    for f in (extreme, steps, nearest, verdict):
        try:
            f(K, R)
        except (GiveUp, AttributeError, TypeError, KeyError, IndexError, TooBig, Undecided) as e:
            R.stats.setdefault("undecided", []).append("%s: %s %s" % (f.__name__, type(e).__name__, e))
    R.floor("step", 30)
    R.assumptions += ["exact reals; simplices of 2 to 4 points, vertex lists of up to 3 points, up to 3 rounds; the order in which faces of the tetrahedron are tried is free"]
    return R


def pt(n):
    return Obj("cmmcore::vec3", {k: alg.sym(n + k) for k in XYZ})


def co(v):
    return [v.f[k] for k in XYZ]


def dot(a, b):
    return lift(lambda *x: sum((x[i] * x[i + 3] for i in range(3)), Rat.of(0)), *a, *b)


def sub(a, b):
    return [lift(lambda x, y: x - y, p, q) for p, q in zip(a, b)]


def cross(a, b):
    return [lift(lambda p, q, r, s: p * q - r * s, a[(i + 1) % 3], b[(i + 2) % 3], a[(i + 2) % 3], b[(i + 1) % 3]) for i in range(3)]


def one(K, key):
    fs = K.by.get(key, [])
    if len(fs) != 1:
        raise GiveUp("no function " + key)
    return fs[0]


def summary(K, key, prep, opaque=()):
    alg.reset()
    f = one(K, key)
    S = vn.summarize(K.P, f, opaque, (), 40, prep)
    if S.why:
        raise GiveUp("%s: %s" % (key, S.why))
    return f, S


def under(v, g):
    """the value when g holds: alternatives whose gate contradicts g are dropped"""
    out = []
    for c, x in leaves(v):
        try:
            if falsify(c20.split(Or(Not(g), Not(c)))) is None:
                continue
        except TooHard:
            pass
        out.append(x)
    return out[0] if len(out) == 1 or out and all(isinstance(x, Rat) and x == out[0] for x in out) else v


def gates(v, g=T):
    """alternatives of a list of points, also when only its members are gated"""
    for c, x in leaves(v, g):
        if isinstance(x, vn.Seq) and vn.vec(x) is not None:
            xs = vn.vec(x)
            cell = next((y.f[k] for y in xs if isinstance(y, Obj) for k in XYZ if isinstance(y.f.get(k), Ite)), None) or next((y for y in xs if isinstance(y, Ite)), None)
            if cell is not None:
                q = cell.c
                for side, h in ((True, q), (False, Not(q))):
                    yield from gates(SVec([pick(y, q, side) for y in xs]), And(c, h))
                continue
        yield c, x


def pick(y, q, side):
    if isinstance(y, Obj):
        return Obj(y.cls, {k: pick(x, q, side) for k, x in y.f.items()})
    if isinstance(y, Ite):
        if y.c == q:
            return pick(y.a if side else y.b, q, side)
        return vite(y.c, pick(y.a, q, side), pick(y.b, q, side))
    return y


def feasible_(g):
    try:
        return falsify(c20.split(Not(g))) is not None
    except TooHard:
        return True


def valid(R, inst, f, c, msg):
    c20.holds(R, "step", inst, CK[0].P.where(f), c, msg)


def same(R, K, inst, f, pairs, g=T):
    o = []
    for what, x, y in pairs:
        K.cmp(x, y, what, o, [] if g.t == "T" else [g])
    bad = [t for k, t in o if k == "bad"]
    if bad:
        R.check("step", inst, K.P.where(f), False, "; ".join(bad[:2]))
    elif any(k == "und" for k, _ in o):
        R.stats.setdefault("undecided", []).append(inst)
    else:
        R.check("step", inst, K.P.where(f), True, "%d equalities" % len(pairs))


# ---------------------------------------------------------------- support points
def extreme(K, R):
    key = "supportVector(vector<vec3>,vec3)"
    for n in (1, 2, 3):
        def prep(M, fr, S, n=n):
            M.heap = M.assumed = True
            ls = list(fr.env.values())
            S.v = [pt("v%d" % i) for i in range(n)]
            S.d = pt("d")
            fr.store[ls[0].root], fr.store[ls[1].root] = SVec(list(S.v)), S.d
        f, S = summary(K, key, prep)
        huge = Rat.of(vn.CONSTS["max"])
        dots = [dot(co(v), co(S.d)) for v in S.v]
        ok = And(lt(huge, alg.sym("inf")), *[lt(-huge, x) for x in dots])
        for g, k in leaves(S.ret):
            k = k.const() if isinstance(k, Rat) else None
            if not feasible_(And(ok, g)):
                continue
            inst = "%s: the farthest of %d (answer %s)" % (key, n, k)
            if k is None:
                R.stats.setdefault("undecided", []).append(inst)
                continue
            if not 0 <= k < n:
                R.check("step", inst, K.P.where(f), False, "answers %s for a list of %d" % (k, n))
                continue
            valid(R, inst, f, Or(Not(And(ok, g)), And(*[Not(lt(dots[int(k)], x)) for x in dots])), "a vertex lies farther in the direction than the one answered")

    key = "support(vector<vec3>,vector<vec3>,vec3)"

    def prep(M, fr, S):
        M.heap = M.assumed = True
        S.A, S.B, S.d = [pt("a%d" % i) for i in range(2)], [pt("b%d" % i) for i in range(2)], pt("d")
        huge = Rat.of(vn.CONSTS["max"])
        for v in S.A + S.B:
            x = dot(co(v), co(S.d))
            alg.FACTS += [(-huge - x, "<"), (x - huge, "<")]
        alg.FACTS.append((huge - alg.sym("inf"), "<"))
        for l, v in zip(list(fr.env.values()), (SVec(list(S.A)), SVec(list(S.B)), S.d)):
            fr.store[l.root] = v
    f, S = summary(K, key, prep)
    huge = Rat.of(vn.CONSTS["max"])
    r = S.ret
    vs = {(i, j): dot(sub(co(a), co(b)), co(S.d)) for i, a in enumerate(S.A) for j, b in enumerate(S.B)}
    ok = And(*[And(lt(-huge, dot(co(v), co(S.d))), lt(dot(co(v), co(S.d)), huge)) for v in S.A + S.B])
    n = 0
    for g, x in gates(SVec([r])):
        if not feasible_(And(ok, g)):
            continue
        p = vn.vec(x)[0]
        val = dot(co(p), co(S.d))
        n += 1
        inst = "%s: case %d" % (key, n)
        if not isinstance(val, Rat) or not any(co(p) == sub(co(a), co(b)) for a in S.A for b in S.B):
            R.check("step", inst + ": a difference of vertices", K.P.where(f), False, "answers %r" % (co(p),)) if isinstance(val, Rat) else R.stats.setdefault("undecided", []).append(inst)
            continue
        valid(R, inst, f, Or(Not(And(ok, g)), And(*[Not(lt(val, y)) for y in vs.values()])), "another difference of vertices lies farther in the direction")


# ---------------------------------------------------------------- one step of the simplex
def steps(K, R):
    key = "handleSimplex(vector<vec3>,vec3,double)"
    for n in (2, 3, 4):
        def prep(M, fr, S, n=n):
            M.heap = M.assumed = True
            S.v = [pt("p%d" % i) for i in range(n)]
            S.tol = alg.sym("tol")
            S.simp, S.dir = list(fr.env.values())[:2]
            for l, v in zip(list(fr.env.values()), (SVec(list(S.v)), pt("d"), S.tol)):
                fr.store[l.root] = v
        f, S = summary(K, key, prep)
        new = co(S.v[-1])
        ao = [-x for x in new]
        out, d = S.m.read(S.simp, S.store), S.m.read(S.dir, S.store)
        ret = S.ret if isinstance(S.ret, Cond) else tocond(S.ret)
        where = "%s (%d points)" % (key, n)
        base = lt(Rat.of(0), S.tol)
        if n < 4:
            valid(R, where + ": a flat simplex is never taken to contain the origin", f, Not(ret), "answers true for a simplex of %d points" % n)
        else:
            e = [sub(co(v), new) for v in S.v[:3]]
            faces = [cross(e[2], e[1]), cross(e[1], e[0]), cross(e[0], e[2])]
            sees = Or(*[lt(Rat.of(0), dot(x, ao)) for x in faces])
            same(R, K, where + ": contained exactly when no face at the newest point sees the origin", f, [("result", ret, Not(sees))])
        case = 0
        for g, x in gates(out):
            g = And(g, Not(ret), base)
            xs = vn.vec(x) if isinstance(x, vn.Seq) else None
            if xs is None or not feasible_(g):
                continue
            for h, y in gates(SVec([d])):
                gg = And(g, h)
                if not feasible_(gg):
                    continue
                case += 1
                dd = co(vn.vec(y)[0])
                who = []
                for p in xs:
                    who.append(next((i for i, v in enumerate(S.v) if all(under(a, gg) == b for a, b in zip(co(p), co(v)))), None))
                inst = "%s: keeps %s" % (where, who)
                if None in who or who[-1] != n - 1 or len(set(who)) != len(who):
                    R.check("step", inst, K.P.where(f), False, "the step keeps points that are not its own, or not the newest last (case %d)" % case)
                    continue
                R.check("step", inst, K.P.where(f), True, "newest point last")
                kept = [sub(co(S.v[i]), new) for i in who[:-1]]
                if len(kept) == 2:
                    nrm = cross(kept[1], kept[0])
                    t = inst + ": turns along the normal of the face it kept"
                    if dd != nrm and cross(dd, nrm) == [Rat.of(0)] * 3 and dd != [-x for x in nrm]:         # another length
                        valid(R, t, f, Or(Not(gg), Not(lt(dot(dd, nrm), Rat.of(0)))), "turns to the other side of the face")
                    else:
                        same(R, K, t, f, [("direction " + k, a, b) for k, a, b in zip(XYZ, dd, nrm)], gg)
                elif len(kept) == 1:
                    same(R, K, inst + ": turns at right angles to the edge it kept", f, [("component along the edge", dot(dd, kept[0]), Rat.of(0))], gg)
                if len(xs) == n and n == 3 or len(xs) > 1 and not (n == 2):
                    valid(R, inst + ": turns towards the origin", f, Or(Not(gg), Not(lt(dot(dd, ao), -S.tol))), "the new direction leads away from the origin")


# ---------------------------------------------------------------- nearest point of a simplex
def nearest(K, R):
    key = "closestPointOnSimplex(vector<vec3>)"
    for n in (1, 2, 3, 4):
        calls = []

        def prep(M, fr, S, n=n):
            M.heap = M.assumed = True
            S.v = [pt("p%d" % i) for i in range(n)]
            fr.store[list(fr.env.values())[0].root] = SVec(list(S.v))

            def part(M, f, this, argv, fr):
                vs = [M.read(x, fr.store) if isinstance(x, vn.Loc) else x for x in argv]
                who = tuple(sorted(next((i for i, p in enumerate(S.v) if co(p) == co(v)), -1) for v in vs))
                r = Obj("cmmcore::vec3", {k: alg.sym("q%s%s" % ("".join(map(str, who)), k)) for k in XYZ})
                calls.append((who, r))
                return r
            M.models["closestPointOnTriangle"] = M.models["closestPointOnSegm"] = part
        f, S = summary(K, key, prep)
        want = {w for w in itertools.combinations(range(n), min(n, 3))}
        got = {w for w, _ in calls}
        inst = "%s (%d points)" % (key, n)
        if n > 1:
            R.check("step", inst + ": every face of the simplex is looked at", K.P.where(f), got >= want, "faces %s" % sorted(got))
        huge = Rat.of(vn.CONSTS["max"])
        cands = [r for w, r in calls if w in want] if n > 1 else [S.v[0]]
        ln = [dot(co(r), co(r)) for r in cands]
        ok = And(lt(huge, alg.sym("inf")), *[lt(x, huge) for x in ln])
        case = 0
        for g, x in gates(SVec([S.ret])):
            p = co(vn.vec(x)[0])
            if not feasible_(And(ok, g)):
                continue
            case += 1
            if not any(p == co(r) for r in cands):
                R.check("step", "%s: case %d" % (inst, case), K.P.where(f), False, "answers %r, which is no point of the simplex" % (p,))
                continue
            valid(R, "%s: nearest of its faces, case %d" % (inst, case), f, Or(Not(And(ok, g)), And(*[Not(lt(y, dot(p, p))) for y in ln])),
                  "another face of the simplex comes nearer to the origin")


# ---------------------------------------------------------------- verdict
def verdict(K, R):
    fs = [k for k in K.by if k.startswith("GJK(") and len(K.by[k]) == 1]
    if len(fs) != 1:
        raise GiveUp("no collision test")
    for rounds in (1, 2, 3):
        asked, stepped, known, order, n_of = [], [], {}, [], len

        def prep(M, fr, S, rounds=rounds):
            M.heap = M.assumed = True
            S.A, S.B = [pt("a%d" % i) for i in range(2)], [pt("b%d" % i) for i in range(2)]
            ls = list(fr.env.values())
            for l, v in zip(ls, (SVec(list(S.A)), SVec(list(S.B)), SVec([]), pt("c"), alg.sym("tol"), Rat.of(rounds))):
                fr.store[l.root] = v

            def val(x, fr):
                return M.read(x, fr.store) if isinstance(x, vn.Loc) else x

            def support(M, f, this, argv, fr):
                vs = [val(x, fr) for x in argv]
                k = repr([co(v) if isinstance(v, Obj) else v for v in vs])
                if k not in known:
                    known[k] = pt("s%d" % len(asked))
                    asked.append((vs, known[k]))
                known["last"] = known[k]
                return known[k]

            def step(M, f, this, argv, fr):
                k = repr([val(argv[0], fr), val(argv[1], fr)])
                if k not in known:
                    known[k] = len(stepped)
                    stepped.append(val(argv[0], fr))
                    xs = vn.vec(stepped[-1])
                    if xs and "last" in known and isinstance(xs[-1], Obj) and co(xs[-1]) != co(known["last"]):
                        order.append(n_of(xs))
                n = known[k]
                M.write(argv[1], pt("t%d" % n), fr.store)
                return lt(alg.sym("h%da" % n), alg.sym("h%db" % n))

            M.models.update(support=support, handleSimplex=step)
            M.models["closestPointOnSimplex"] = M.models["closestPoint"] = lambda M, f, this, argv, fr: pt("near")
        f, S = summary(K, fs[0], prep)
        where = "%s (%d rounds)" % (fs[0].split("(")[0], rounds)
        ret = S.ret if isinstance(S.ret, Cond) else tocond(S.ret)
        apart, sane, text = [], True, repr(ret)
        for vs, r in asked:
            if not any(repr(r.f[k]) in text for k in XYZ):
                continue
            a, b = [vn.vec(x) for x in vs[:2]]
            if a is None or b is None or [co(x) for x in a] != [co(x) for x in S.A] or [co(x) for x in b] != [co(x) for x in S.B]:
                sane = False
            c = Or(*[And(g, lt(x, Rat.of(0))) for g, x in leaves(dot(co(r), co(vs[2])))])
            apart.append(c)
        apart = apart[1:] if len(apart) > rounds else apart          # the first point only gives the first direction
        inside = [lt(alg.sym("h%da" % k), alg.sym("h%db" % k)) for k in range(len(stepped))]
        inside = [c for k, c in enumerate(inside) if "h%da" % k in text]
        R.check("step", where + ": support points of the two sets and steps of the simplex decide", K.P.where(f),
                sane and apart != [] and inside != [], "%d support points, %d steps decide" % (len(apart), len(inside)))
        R.check("step", where + ": the step is given the newest point last", K.P.where(f), not order, "%d steps" % len(stepped))
        if not (sane and apart and inside):
            continue
        valid(R, where + ": apart only when a support point stays behind the origin", f, Or(ret, *apart), "answers apart although every support point passed the origin")
        valid(R, where + ": a separating direction is believed", f, Or(Not(ret), *(inside + [And(*[Not(c) for c in apart])])), "answers collision although a direction separates the sets")
        for k in range(rounds if len(apart) == rounds == len(inside) else 0):
            valid(R, where + ": contained as soon as step %d of the simplex says so" % (k + 1), f, Or(Not(inside[k]), ret, *apart[:k + 1]), "answers apart although the simplex contains the origin")
