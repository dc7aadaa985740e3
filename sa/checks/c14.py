"""C14 intersection searches discard only what is proven apart, and report only what they checked."""
from core import *
from spec import *
from report import Result
import search
from search import *
from checks.c06 import cross


def run(tier):
    P = load()
    R = Result("C14")
    R.rule("search", "every pair of parts of the two objects is searched further, reported, or excluded by a separation test on exactly this pair")
    K = Checker(P, R, "search")
    ccx(K)
    csx(K)
    csx_calls(K)
    again(K)
    ssx(K)
    simple_pair(K)
    start_pairs(K)
    borders(K)
    K.finish()
    R.floor("search", 3)
    return R


def size(xs):
    return alg.f_sum(xs) if hasattr(alg, "f_sum") else sum(xs, Rat.of(0))


def diag(b):
    return vn.f_sqrt(sum(((b.f["max"].f[k] - b.f["min"].f[k]) ** 2 for k in "xyz"), Rat.of(0)))


def absle(x, t):
    return And(le(x, t), le(Rat.of(0) - x, t))


def marker(i, j):
    """result entry that stands for what a recursive call on this pair delivers"""
    return Obj("tuple", {0: alg.sym("found:%d|%d.0" % (i, j)), 1: alg.sym("found:%d|%d.1" % (i, j))})


def marked(x):
    if isinstance(x, Obj) and isinstance(x.f.get(0), Rat):
        for a in x.f[0].atoms():
            n = alg.ATOMS[a].name
            if n.startswith("found:"):
                return tuple(map(int, n[6:].split(".")[0].split("|")))
    return None


def ccx(K):
    for n in range(3):
        U = Pieces()

        def prep(M, fr, S):
            U.__init__()
            h = Shape(M, fr, S)
            h.arg(0, U.curve("c1")), h.arg(1, U.curve("c2"))
            h.arg(3, vn.SVec([Obj("tuple", {0: alg.sym("r%d.0" % i), 1: alg.sym("r%d.1" % i)}) for i in range(n)]))
            h.fact(S.args[2][0], ">")
            M.models = U.models()

            def visit(M, f, this, argv, fr):
                i, j = U.at(argv[0], fr, M), U.at(argv[1], fr, M)
                tol = argv[2] if not isinstance(argv[2], Loc) else M.read(argv[2], fr.store)
                xs = vn.vec(M.read(argv[3], fr.store))
                if xs is None:
                    raise GiveUp("gated result list")
                if isinstance(tol, Rat) and tol == S.args[2][0]:
                    M.write(argv[3], vn.SVec(xs + [marker(i, j)]), fr.store)
                return vn.Unk("void")
            M.models["ccx"] = visit

        def rel(a):
            S, tol = a.S, a[2]
            out = []
            new = [(g, v) for g, v in leaves(S.out[3])]
            vs = [(g, vn.vec(v)) for g, v in new]
            if any(v is None for g, v in vs):
                raise TypeError("result list of unknown length")
            rep = Or(*[g for g, v in vs if any(marked(x) is None for x in v[n:])])
            iv = [U.obj[i].f["_interval"].f for i in (1, 2)]
            mid = [(x[0] + x[1]) * Rat.of(Fraction(1, 2)) for x in iv]
            old = [x.f for x in S.args[3][0].xs]
            dup = Or(*[And(absle(o[0] - mid[0], tol), absle(o[1] - mid[1], tol)) for o in old])
            small = And(*[le(diag(U.obj[i].f["_aabb"]), tol) for i in (1, 2)])
            extra = {(1, 2): [rep, And(small, dup)], "root": (1, 2)}
            for g, v in vs:
                for x in v[n:]:
                    m = marked(x)
                    if m and m != (1, 2):
                        extra.setdefault(m, []).append(g)
            for w, c in U.obligations(S, 1, 2, extra).items():
                out.append((w, [], [("covered", c, VALID)]))
            just = []
            for k, (g, v) in enumerate(vs):
                for x in v[n:]:
                    if marked(x) is None:
                        ok = And(small, Not(U.apart(1, 2)), *[And(le(iv[k][0], x.f[k]), le(x.f[k], iv[k][1])) for k in (0, 1)])
                        just.append(("justified", Or(Not(g), ok), VALID))
                out += [("earlier results kept, case %d" % k, [g], [("kept", x, [old[i][0], old[i][1]]) for i, x in enumerate(v[:n])])]
            out.append(("reported pair", [], just))
            return out

        K.one("ccx(NURBSCurve,NURBSCurve,double,vector<pair<double,double>>)", prep=prep, rel=rel, throws=lambda a: F, label="%d earlier results" % n)


# ---------------------------------------------------------------- curve and surface
def M_flat(v):
    return [y for x in v.f.values() for y in M_flat(x)] if isinstance(v, Obj) else [v]


def csx(K):
    U = Pieces()
    st = {}
    names = ("tolerance", "ptol")
    old = Obj("tuple", {0: alg.sym("old.0"), 1: vec3("old"), 2: arr(*[alg.sym("old.%d" % i) for i in range(3)])})

    def prep(M, fr, S):
        U.__init__()
        st.clear()
        h = Shape(M, fr, S)
        c, s = U.curve("c"), U.surface("s")
        h.arg(0, c), h.arg(1, s)
        o = h.this(intersections=vn.SVec([old]))
        tol, ptol = (o.f[n] for n in names)
        h.fact(tol, ">"), h.fact(ptol, ">")
        M.models = U.models()

        def newton(M, f, this, argv, fr):
            v = arr(*[alg.sym("solver.%d" % i) for i in range(3)])
            st["residual"] = M.apply(M.read(argv[0], fr.store) if isinstance(argv[0], Loc) else argv[0], [v], fr)
            return v
        M.models["newtonsMethod"] = newton

        def visit(M, f, this, argv, fr):
            i, j = (U.at(x, fr, M) for x in argv[:2])
            me = M.read(this, fr.store)
            if all(me.f[n] == o.f[n] for n in names):
                U.visit(M, fr, i, j)
            return vn.Unk("void")
        M.models["_curve_surface_intersect"] = visit

        def gjk(M, f, this, argv, fr):
            a, b = (U.pointsof(M.read(x, fr.store)) for x in argv[:2])
            v = vec3("gjk.%s|%s" % (U.tag[a], U.tag[b]))
            M.write(argv[3], v, fr.store)
            U.excuse(a, b, lt(tol, vn.f_sqrt(sum((v.f[k] ** 2 for k in "xyz"), Rat.of(0)))))
            return Cond("op", "gjk.%s|%s" % (U.tag[a], U.tag[b]))
        M.models["GJK"] = gjk
        M.models["AABBTest"] = U.separator("box")
        st["from"] = {}

        def origin(M, argv, fr):
            v = M.read(argv[0], fr.store) if isinstance(argv[0], Loc) else argv[0]
            return "@" + ",".join(repr(x) for x in v.f.values())
        sep = U.separator("rays", (1, 2), origin)

        def rays(M, f, this, argv, fr):
            c = sep(M, f, this, argv, fr)
            v = M.read(argv[0], fr.store) if isinstance(argv[0], Loc) else argv[0]
            st["from"][c.a[0]] = v
            return c
        M.models["SphericalCentralProjectionTest2"] = rays

    def rel(a):
        S = a.S
        tol, ptol = (S.this0.f[n] for n in names)
        ci, si = U.obj[1].f["_interval"].f, [x.f for x in U.obj[2].f["_interval"].f.values()]
        vs = [(g, vn.vec(v)) for g, v in leaves(S.this1.f["intersections"])]
        t, u, v = (alg.sym("solver.%d" % i) for i in range(3))
        tiny = Or(*[lt(x[1] - x[0], ptol * 2) for x in [ci] + si])
        edge = Or(*[absle(u - e, ptol) for e in si[0].values()] + [absle(v - e, ptol) for e in si[1].values()])
        found = Or(*[g for g, xs in vs if len(xs) > 1])
        extra = {(1, 2): [tiny], "root": (1, 2)}
        out = [("earlier results kept", [], [("kept", Or(Not(g), And(*[eq(x, y) for x, y in zip(M_flat(xs[0]), M_flat(old))]) if xs else F), VALID) for g, xs in vs])]
        here = vec3("evaluate.c", t)
        obl = U.obligations(S, 1, 2, extra)
        d, n = vec3("derivative.c", t), vec3("normal.s", u, v)
        flat = sum((d.f[k] * n.f[k] for k in "xyz"), Rat.of(0))
        stop = And(found, edge, absle(flat, tol))
        for w, c in obl.items():
            out.append((w, [], [("covered", Or(c, stop), VALID)]))
        out.append(("tangential contact found on the border of the patch", [], [("rest of the pair searched", Or(*([Not(stop)] + [And(*obl.values())])), VALID)]))
        there = vec3("evaluate.s", u, v)
        gap = vn.f_sqrt(sum(((here.f[k] - there.f[k]) ** 2 for k in "xyz"), Rat.of(0)))
        just = []
        for g, xs in vs:
            for x in xs[1:]:
                    p, q = x.f[1], x.f[2]
                    just += [("on the curve", Or(Not(g), And(*[eq(p.f[k], here.f[k]) for k in "xyz"])), VALID),
                             ("parameters", Or(Not(g), And(*[eq(q.f[k], y) for k, y in enumerate((t, u, v))])), VALID),
                             ("within tolerance", Or(Not(g), le(gap, tol)), VALID),
                             ("inside the intervals", Or(Not(g), And(*[And(le(i[0], y), le(y, i[1])) for i, y in zip([ci] + si, (t, u, v))])), VALID)]
        out.append(("reported point", [], just))
        if "residual" in st:
            out.append(("solver objective", [], [("vanishes exactly where the curve and the surface meet", eq(st["residual"], gap * gap), VALID)]))
        out.append(("projection centre", [], [("is the point found", x.f[k], here.f[k]) for x in st["from"].values() for k in "xyz"]))
        return out

    K.one("NURBSCurveSurfaceIntersector::_curve_surface_intersect(NURBSCurve,NURBSSurface)", prep=prep, rel=rel, throws=lambda a: F)


def csx_calls(K):
    """the entry points search the whole of both objects with the tolerance asked for"""
    for key, ti in (("csx(NURBSCurve,NURBSSurface,vector<tuple<CSXType,vec3,array<double,3>>>,double)", 3), ("csx(NURBSCurve,NURBSSurface,double)", 2)):
        U, st = Pieces(), []

        def prep(M, fr, S):
            U.__init__()
            del st[:]
            h = Shape(M, fr, S)
            h.arg(0, U.curve("c")), h.arg(1, U.surface("s"))
            h.fact(S.args[ti][0], ">")
            M.models = U.models()

            def visit(M, f, this, argv, fr):
                me = M.read(this, fr.store)
                st.append((U.at(argv[0], fr, M), U.at(argv[1], fr, M), me.f["tolerance"], me.f["ptol"], vn.vec(me.f["intersections"])))
                M.write(this.at("intersections"), vn.SVec([marker(1, 2)]), fr.store)
                return vn.Unk("void")
            M.models["_curve_surface_intersect"] = visit

        def rel(a):
            S = a.S
            tol = a[ti]
            iv = U.obj[1].f["_interval"].f
            r = vn.vec(S.ret if ti == 2 else S.out[2])
            if r is None:
                raise TypeError("result list")
            ok = len(st) == 1 and st[0][:2] == (1, 2) and st[0][4] == []
            out = [("one search over the whole curve and the whole surface, from an empty list", [], [("searched", T if ok else F, VALID)]),
                   ("result", [], [("is what the search found", T if len(r) == 1 and marked(r[0]) == (1, 2) else F, VALID)])]
            if ok:
                out.append(("tolerances", [], [("tolerance", st[0][2], tol), ("ptol", st[0][3], tol * (iv[1] - iv[0]) / alg.sym("length.c"))]))
            return out
        K.one(key, prep=prep, rel=rel, throws=lambda a: F)


# ---------------------------------------------------------------- surface and surface
def ssx(K):
    U = Pieces()

    def prep(M, fr, S):
        U.__init__()
        h = Shape(M, fr, S)
        for i in range(4):
            h.arg(i, U.surface(("s1", "s2", "n1", "n2")[i], "surface" if i < 2 else "gauss"))
        tol = S.args[4][0]
        h.fact(tol, ">")
        old = {"patches": vn.SVec([marker(0, 0)]), "points": vn.SVec([marker(0, 1)])}
        h.arg(5, S.args[5][0].with_("patches", old["patches"]).with_("points", old["points"]))
        M.models = U.models()
        M.models["volume"] = lambda M, f, this, argv, fr: alg.sym("volume")
        M.models["SAT3D"] = U.separator("hulls")
        where = S.args[5][1]

        def scalar(M, x, fr):
            return M.num(M.read(x, fr.store) if isinstance(x, Loc) else x)

        def visit(M, f, this, argv, fr):
            a, b, c, d = (U.at(x, fr, M) for x in argv[:4])
            if None in (a, b, c, d):
                return vn.Unk("void")
            if scalar(M, argv[4], fr) == tol and argv[5].same(where) and U.root[c] == 3 and U.root[d] == 4 and U.root[a] == 1 \
                    and U.root[b] == 2 and U.same_path(a, c) and U.same_path(b, d):
                U.visit(M, fr, a, b)
            return vn.Unk("void")
        M.models["detectIntersections"] = visit

        def normals(M, f, this, argv, fr):
            a, b = (U.at(x, fr, M) for x in argv[:2])
            return Cond("op", "normals apart:%d|%d" % (a, b))
        M.models["gaussMapSeparability"] = normals

        def simple(M, f, this, argv, fr):
            a, b = (U.at(x, fr, M) for x in argv[:2])
            if None not in (a, b) and scalar(M, argv[2], fr) == tol and argv[3].same(where):
                U.visit(M, fr, a, b, "process")
            return vn.Unk("void")
        M.models["processSimpleSurfaceIntersection"] = simple

    def rel(a):
        S, tol = a.S, a[4]
        box = [U.obj[i].f["_aabb"].f for i in (1, 2)]
        iv = [[x.f for x in U.obj[i].f["_interval"].f.values()] for i in (1, 2)]
        small = And(*[le(b["max"].f[k] - b["min"].f[k], tol) for b in box for k in "xyz"])
        res = S.out[5].f
        pts = [(g, vn.vec(v)) for g, v in leaves(res["points"])]
        ptc = [(g, vn.vec(v)) for g, v in leaves(res["patches"])]
        out = [("earlier results kept", [], [("kept", T if all(xs and marked(xs[0]) == (0, n) for n, vs in ((1, pts), (0, ptc)) for g, xs in vs) else F, VALID)])]
        point = Or(*[g for g, xs in pts if len(xs) > 1])
        process = And(S.events.get("process:1|2", F), Cond("op", "normals apart:3|4"))
        extra = {(1, 2): [And(small, point), process], "root": (1, 2)}
        thin = Or(lt(alg.sym("volume"), tol), *[le(p["max"].f[k] - q["min"].f[k], tol) for k in "xyz" for p in box for q in box])
        obl = U.obligations(S, 1, 2, extra)
        for w, c in obl.items():
            out.append((w, [], [("covered", Or(c, thin), VALID)]))
        out.append(("boxes that overlap by little", [], [("searched", Or(Not(thin), And(*obl.values())), VALID)]))
        just = []
        for g, xs in pts:
            for x in xs[1:]:
                for n, f in ((0, "uv1"), (1, "uv2")):
                    for m, k in ((0, "x"), (1, "y")):
                        y = x.f[f].f[k]
                        just.append(("parameters of the surface", Or(Not(g), And(le(iv[n][m][0], y), le(y, iv[n][m][1]))), VALID))
                just.append(("small and not apart", Or(Not(g), And(small, Not(U.apart(1, 2)))), VALID))
                for k in "xyz":
                    y = x.f["xyz"].f[k]
                    for b in box:
                        just.append(("near both surfaces", Or(Not(g), And(le(b["min"].f[k] - tol * 2, y), le(y, b["max"].f[k] + tol * 2))), VALID))
        out.append(("reported point", [], just))
        return out

    K.one("detectIntersections(NURBSSurface,NURBSSurface,NURBSSurface,NURBSSurface,double,Intersection,int)", prep=prep, rel=rel, throws=lambda a: F)


def simple_pair(K):
    """a pair without closed intersection loops: the branches end on the borders"""
    for n in range(4):
        U, st = Pieces(), []

        def ends(i):
            return Obj("cmmcore::IntersectionPoint", {"point": vec3("end%d" % i), "curve_param": alg.sym("end%d.t" % i)})

        def prep(M, fr, S):
            U.__init__()
            del st[:]
            h = Shape(M, fr, S)
            h.arg(0, U.surface("s1")), h.arg(1, U.surface("s2"))
            h.fact(S.args[2][0], ">")
            h.arg(3, S.args[3][0].with_("patches", vn.SVec([marker(0, 0)])).with_("points", vn.SVec([marker(0, 1)])))
            M.models = U.models()

            def find(M, f, this, argv, fr):
                tol = argv[3] if not isinstance(argv[3], Loc) else M.read(argv[3], fr.store)
                st.append((U.at(argv[0], fr, M), U.at(argv[1], fr, M), tol, vn.vec(M.read(argv[2], fr.store))))
                M.write(argv[2], vn.SVec([ends(i) for i in range(n)]), fr.store)
                return vn.Unk("void")
            M.models["find_boundary_intersections"] = find

        def rel(a):
            S = a.S
            res = S.out[3].f
            ps, qs = vn.vec(res["points"]), vn.vec(res["patches"])
            if ps is None or qs is None:
                raise TypeError("result list")
            ok = len(st) == 1 and st[0][:2] in ((1, 2), (2, 1)) and st[0][3] == [] and st[0][2] == a[2]
            out = [("one search for the ends on the borders of this pair", [], [("searched", T if ok else F, VALID)]),
                   ("earlier results kept", [], [("kept", T if ps and qs and marked(ps[0]) == (0, 1) and marked(qs[0]) == (0, 0) else F, VALID)])]

            def end(v):
                for i in range(n):
                    if v.f["curve_param"] == alg.sym("end%d.t" % i) and v.f["point"].f["x"] == alg.sym("end%d.x" % i):
                        return i
            used = [(end(q.f["start"]), end(q.f["end"])) for q in qs[1:]]
            good = all(x is not None and y is not None and x != y for x, y in used)
            out.append(("patch ends are distinct ends found", [], [("ends", T if good else F, VALID)]))
            if n >= 2:
                out.append(("a branch is reported", [], [("reported", T if used else F, VALID)]))
            lost = [i for i in range(n) if not any(i in u for u in used)] and len(ps) == 1
            if n != 2:
                out.append(("every end belongs to a reported branch or point", [], [("kept", F if lost else T, VALID)]))
            return out
        K.one("processSimpleSurfaceIntersection(NURBSSurface,NURBSSurface,double,Intersection)", prep=prep, rel=rel, throws=lambda a: F, label="%d ends" % n)


def start_pairs(K):
    """every span of one surface is searched against every span of the other, each with its own normals"""
    for n, m in ((2, 3), (1, 1), (3, 1)):
        U, st, normal = Pieces(), [], {}

        def prep(M, fr, S):
            U.__init__()
            del st[:]
            normal.clear()
            h = Shape(M, fr, S)
            h.arg(0, U.surface("s1")), h.arg(1, U.surface("s2"))
            h.fact(S.args[2][0], ">")
            M.models = U.models()
            spans = {i: [U.surface("s%d.%d" % (i, k)) for k in range((n, m)[i - 1])] for i in (1, 2)}

            def decompose(M, f, this, argv, fr):
                i = U.of(M.read(this, fr.store))
                if argv:
                    old = vn.vec(M.read(argv[0], fr.store))
                    if old is None:
                        raise GiveUp("list of spans")
                    M.write(argv[0], vn.SVec(old + spans[i]), fr.store)
                    return vn.Unk("void")
                return vn.SVec(list(spans[i]))
            M.models["decompose"] = decompose

            def gauss(M, f, this, argv, fr):
                i = U.at(argv[0], fr, M)
                if i not in normal:
                    normal[i] = U.surface("n(%s)" % U.tag[i], "gauss")
                return normal[i]
            M.models["gaussMap"] = gauss
            tol, where = S.args[2][0], S.args[3][1]

            def visit(M, f, this, argv, fr):
                a, b, c, d = (U.at(x, fr, M) for x in argv[:4])
                t = argv[4] if not isinstance(argv[4], Loc) else M.read(argv[4], fr.store)
                if t == tol and argv[5].same(where) and U.of(normal.get(a)) == c and U.of(normal.get(b)) == d:
                    st.append((U.tag[a], U.tag[b]))
                return vn.Unk("void")
            M.models["detectIntersections"] = visit

        def rel(a):
            want = [("s1.%d" % i, "s2.%d" % j) for i in range(n) for j in range(m)]
            return [("span %s with span %s" % w, [], [("searched once with its normals", T if st.count(w) == 1 else F, VALID)]) for w in want]
        K.one("findStartIntersectionPoints(NURBSSurface,NURBSSurface,double,Intersection)", prep=prep, rel=rel, throws=lambda a: F,
              label="%d and %d spans" % (n, m))


def borders(K):
    """crossings of the borders of each surface with the other one, with the parameters on both"""
    for label, per, gap in (("distinct crossings", 1, 10), ("two crossings each", 2, 10), ("crossings near each other", 1, Fraction(1, 500)),
                            ("no crossings", 0, 1), ("the same crossing on all borders", 1, 0), ("only one border crosses", -1, 1)):
        U, st, cut = Pieces(), [], {}

        def prep(M, fr, S):
            U.__init__()
            del st[:]
            cut.clear()
            h = Shape(M, fr, S)
            h.arg(0, U.surface("s1")), h.arg(1, U.surface("s2"))
            h.arg(2, vn.SVec([]))
            h.arg(3, Fraction(1, 1000))
            M.models = U.models()

            def iso(M, f, this, argv, fr):
                v = [x if not isinstance(x, Loc) else M.read(x, fr.store) for x in argv[1:]]
                d = M.num(v[1]).const() if len(v) > 1 else 0
                if d is None:
                    raise GiveUp("direction")
                i = U.at(argv[0], fr, M)
                c = U.curve("c%d" % len(U.tag))
                cut[U.of(c)] = (i, int(d), M.num(v[0]))
                return c
            M.models["extract_isocurve"] = iso

            def crossings(M, f, this, argv, fr):
                c, s = U.at(argv[0], fr, M), U.at(argv[1], fr, M)
                t = argv[-1] if not isinstance(argv[-1], Loc) else M.read(argv[-1], fr.store)
                new = []
                for k in range(per if per >= 0 else 1 if not st else 0):
                    n = len(st)
                    p = Obj("cmmcore::vec3", {"x": Rat.of(gap * n), "y": Rat.of(3), "z": Rat.of(-gap * n)})
                    q = [alg.sym("q%d.%d" % (n, i)) for i in range(3)]
                    st.append((c, s, M.num(t), p, q))
                    new.append(Obj("tuple", {0: alg.sym("kind%d" % n), 1: p, 2: arr(*q)}))
                if per < 0 and not new:
                    st.append((c, s, M.num(t), None, None))
                if len(argv) == 4:
                    M.write(argv[2], vn.SVec(new), fr.store)
                    return vn.Unk("void")
                return vn.SVec(new)
            M.models["csx"] = crossings

        def rel(a):
            S = a.S
            xs = vn.vec(S.out[2])
            if xs is None:
                raise TypeError("result list")
            iv = {i: [list(x.f.values()) for x in U.obj[i].f["_interval"].f.values()] for i in (1, 2)}
            out = []
            if per:
                seen = {(cut[c][0], s, cut[c][1], repr(cut[c][2])) for c, s, t, p, q in st if c in cut and t == Rat.of(Fraction(1, 1000))}
                for i in (1, 2):
                    for d in (0, 1):
                        for e in (0, 1):
                            ok = (i, 3 - i, d, repr(iv[i][d][e])) in seen
                            out.append(("border %s=%s of surface %d against the other one" % ("uv"[d], ("min", "max")[e], i), [], [("searched", T if ok else F, VALID)]))
            pts = [x for x in st if x[3] is not None]
            good = []
            for x in xs:
                y = [z for z in pts if x.f["surface_params"].f[0] == z[4][1]]
                if len(y) != 1:
                    good.append(("is one of the crossings", F, VALID))
                    continue
                c, s, t, p, q = y[0]
                i, d, w = cut[c]
                on = [w, q[0]] if d == 0 else [q[0], w]
                first, second = (on, q[1:]) if i == 1 else (q[1:], on)
                good += [("point", x.f["point"].f[k], p.f[k]) for k in "xyz"]
                good += [("curve parameter", x.f["curve_param"], q[0])]
                good += [("parameters on the first surface", x.f["surface1_params"].f[k], first[k]) for k in (0, 1)]
                good += [("parameters on the second surface", x.f["surface2_params"].f[k], second[k]) for k in (0, 1)]
                r = x.f["surface_params"].f
                good += [("parameters on the crossed surface", r[k], q[1 + k]) for k in (0, 1)]
            out.append(("records", [], good or [("none", T, VALID)]))
            want = len(pts) if gap else min(1, len(pts))
            out.append(("every distinct crossing is listed once", [], [("number", Rat.of(len(xs)), Rat.of(want))]))
            return out
        K.one("find_boundary_intersections(NURBSSurface,NURBSSurface,vector<IntersectionPoint>,double)", prep=prep, rel=rel, throws=lambda a: F, label=label)


def again(K):
    """searching again with the same object starts from an empty list"""
    U, st = Pieces(), []

    def prep(M, fr, S):
        U.__init__()
        del st[:]
        h = Shape(M, fr, S)
        h.this(intersections=vn.SVec([marker(0, 0)]), _curve=vn.Ptr(M.temp(U.curve("c"), fr)), _surface=vn.Ptr(M.temp(U.surface("s"), fr)))
        M.models = U.models()

        def visit(M, f, this, argv, fr):
            st.append((U.at(argv[0], fr, M), U.at(argv[1], fr, M)))
            l = this.at("intersections")
            M.write(l, vn.SVec(vn.vec(M.read(l, fr.store)) + [marker(1, 2)]), fr.store)
            return vn.Unk("void")
        M.models["_curve_surface_intersect"] = visit

    def rel(a):
        xs = vn.vec(a.S.this1.f["intersections"])
        return [("result", [], [("is what this search found", T if [marked(x) for x in xs] == [(1, 2)] and st == [(1, 2)] else F, VALID)])]
    K.one("NURBSCurveSurfaceIntersector::intersect()", prep=prep, rel=rel, throws=lambda a: F)
