"""C19 serialisation: what was written to bytes is read back unchanged, and nothing else is consumed."""
from core import *
from spec import *
from report import Result
import vn
from vn import Obj, SVec, Ptr, GiveUp, vite

B = "vector<unsignedchar>"
PTR = "unsignedchar*"


def run(tier):
    P = load()
    R = Result("C19")
    R.rule("bytes", "reading the bytes a writer appended gives back the value written and ends right behind them")
    K = Checker(P, R, "bytes")
    scalars(K)
    lists(K)
    curves(K)
    views(K)
    files(K)
    K.finish()
    R.floor("bytes", 400)
    return R


def bytesyms(n, k):
    return [alg.sym("%s%d" % (n, i), True) for i in range(k)]


def call(M, K, fr, name, vals):
    fs = K.by.get(name, [])
    if len(fs) != 1:
        raise GiveUp("no unique " + name)
    return M.invoke(fs[0], None, None, fr, [M.temp(v, fr) if not isinstance(v, vn.Loc) else v for v in vals])


def buffer(M, fr, S, K, writer, value, before=2, after=3):
    """a buffer with earlier bytes, the bytes of the value, and later bytes; the reader starts behind the earlier ones"""
    M.bytes = True
    pre, post = bytesyms("pre", before), bytesyms("post", after)
    l = M.new_root(SVec(list(pre)), fr.store, "buffer")
    call(M, K, fr, writer, [l, value])
    xs = vn.vec(M.read(l, fr.store))
    if xs is None:
        raise GiveUp("buffer of unknown length")
    r = M.new_root(SVec(xs + post), fr.store, "stored")
    p = list(fr.env.values())[0]
    fr.store[p.root] = Ptr(r, Rat.of(before))
    S.p, S.r, S.pre, S.end, S.kept = p, r, pre, len(xs), xs[:before]


def consumed(a):
    """the reader's pointer moved to the first byte behind the value"""
    p = a.S.m.read(a.S.p, a.S.store)
    if not isinstance(p, Ptr) or not p.loc.same(a.S.r):
        raise TypeError("pointer %r" % (p,))
    return [("bytes consumed", [], [("position", p.i, Rat.of(a.S.end))])]


def pair(K, writer, reader, mk, same, label):
    """writer(buffer, value) against reader(pointer)"""
    def prep(M, fr, S):
        S.v = mk(M, fr)
        buffer(M, fr, S, K, writer, S.v)

    def rel(a):
        return [("earlier bytes stay", [], [("byte %d" % i, x, y) for i, (x, y) in enumerate(zip(a.S.kept, a.S.pre))]),
                ("value read back", [], same(a, a.S.ret, a.S.v))] + consumed(a)
    K.one(reader, prep=prep, rel=rel, throws=lambda a: F, label=label)


def scalars(K):
    pair(K, "serializeInt(%s,int)" % B, "deserializeInt(%s)" % PTR, lambda M, fr: alg.sym("~n", True), lambda a, x, v: [("value", x, v)], "any integer")
    pair(K, "serializeDouble(%s,double)" % B, "deserializeDouble(%s)" % PTR, lambda M, fr: alg.sym("x"), lambda a, x, v: [("value", x, v)], "any number")
    pair(K, "serializeBool(%s,bool)" % B, "deserializeBool(%s)" % PTR, lambda M, fr: lt(alg.sym("x"), alg.sym("y")), lambda a, x, v: [("value", x, v)], "any truth value")
    pair(K, "serializeVec4(%s,vec4)" % B, "deserializeVec4(%s)" % PTR, lambda M, fr: point("p"), lambda a, x, v: points("point", [x], [v]), "any point")


def point(n):
    return Obj("cmmcore::vec4", {k: alg.sym(n + k) for k in "xyzw"})


def points(what, xs, ys):
    return [("%s %d.%s" % (what, i, k), x.f[k], y.f[k]) for i, (x, y) in enumerate(zip(xs, ys)) for k in "xyzw"]


def listed(what, xs, ys, each):
    if not isinstance(xs, vn.Seq):
        raise TypeError("no list")
    out = [("number of " + what, xs.size, Rat.of(len(ys)))]
    v = vn.vec(xs)
    return out + (each(what, v, ys) if v is not None and len(v) == len(ys) else [])


def numbers(what, xs, ys):
    return [("%s %d" % (what, i), x, y) for i, (x, y) in enumerate(zip(xs, ys))]


def lists(K):
    for n in (0, 1, 2, 5):
        pair(K, "serializeVectorDouble(%s,vector<double>)" % B, "deserializeVectorDouble(%s)" % PTR,
             lambda M, fr, n=n: SVec([alg.sym("x%d" % i) for i in range(n)]), lambda a, x, v: listed("numbers", x, v.xs, numbers), "%d numbers" % n)
        pair(K, "serializeVectorVec4(%s,vector<vec4>)" % B, "deserializeVectorVec4(%s)" % PTR,
             lambda M, fr, n=n: SVec([point("p%d" % i) for i in range(n)]), lambda a, x, v: listed("points", x, v.xs, points), "%d points" % n)


def curve(K, M, fr, name, p, n):
    """a curve of degree p with n points; knots in order"""
    f = next((x for x in K.P.root if x["qn"] == "cmmcore::serializeNURBSCurve"), None)
    v = M.element(f["params"][0]["vt"], name, ())
    k = [alg.sym("%sU%d" % (name, i)) for i in range(n - p + 1)]
    for x, y in zip(k, k[1:]):
        FACTS.append((x - y, "<"))
    U = [k[0]] * p + k + [k[-1]] * p
    v = Obj(v.cls, dict(v.f))
    v.f.update(_degree=Rat.of(p), control_points=SVec([point("%sP%d" % (name, i)) for i in range(n)]), knots=SVec(U),
               _periodic=lt(alg.sym(name + "pa"), alg.sym(name + "pb")), _interval=M.arr([U[0], U[-1]]))
    return v


def same_curve(x, v):
    if not isinstance(x, Obj):
        raise TypeError("no curve")
    return [("degree", x.f["_degree"], v.f["_degree"]), ("periodic flag", x.f["_periodic"], v.f["_periodic"]),
            ("interval 0", vn.vec(x.f["_interval"])[0], vn.vec(v.f["_interval"])[0]),
            ("interval 1", vn.vec(x.f["_interval"])[1], vn.vec(v.f["_interval"])[1])] + \
        listed("knots", x.f["knots"], v.f["knots"].xs, numbers) + listed("points", x.f["control_points"], v.f["control_points"].xs, points)


SHAPES = [(1, 2), (1, 3), (2, 3), (2, 5), (3, 4), (3, 6)]


def curves(K):
    for p, n in SHAPES:
        def prep(M, fr, S, p=p, n=n):
            M.bytes = M.heap = M.assumed = True
            S.v = curve(K, M, fr, "c", p, n)
            r = call(M, K, fr, "serializeNURBSCurve(NURBSCurve)", [S.v])
            xs = vn.vec(M.read(r, fr.store) if isinstance(r, vn.Loc) else r)
            if xs is None:
                raise GiveUp("buffer of unknown length")
            l = M.new_root(SVec(bytesyms("pre", 2) + xs + bytesyms("post", 3)), fr.store, "stored")
            q = list(fr.env.values())[0]
            fr.store[q.root] = Ptr(l, Rat.of(2))
            S.p, S.r, S.end = q, l, len(xs) + 2
        K.one("deserializeNURBSCurve(%s)" % PTR, prep=prep, rel=lambda a: [("curve read back", [], same_curve(a.S.ret, a.S.v))] + consumed(a),
              throws=lambda a: F, label="degree %d, %d points" % (p, n), opaque=("expand",))
    for sh in ([], [(2, 3)], [(1, 3), (3, 4)], [(2, 4), (1, 2), (2, 3)]):
        def prep2(M, fr, S, sh=sh):
            M.bytes = M.heap = M.assumed = True
            S.v = [curve(K, M, fr, "c%d" % i, p, n) for i, (p, n) in enumerate(sh)]
            r = call(M, K, fr, "serializeNURBSCurves(vector<NURBSCurve>)", [SVec(list(S.v))])
            l = list(fr.env.values())[0]
            v = M.read(r, fr.store) if isinstance(r, vn.Loc) else r
            if vn.vec(v) is None:
                raise GiveUp("buffer of unknown length")
            fr.store[l.root] = v

        def rel2(a):
            xs = vn.vec(a.S.ret) if isinstance(a.S.ret, vn.Seq) else None
            if xs is None:
                raise TypeError("no list")
            out = [("number of curves", [], [("size", Rat.of(len(xs)), Rat.of(len(a.S.v)))])]
            if len(xs) == len(a.S.v):
                for i, (x, v) in enumerate(zip(xs, a.S.v)):
                    out.append(("curve %d" % i, [], same_curve(x, v)))
            return out
        K.one("deserializeNURBSCurves(%s)" % B, prep=prep2, rel=rel2, throws=lambda a: F, label="%d curves" % len(sh), opaque=("expand",))


FORMS = [((), ()), ((3,), (1,)), ((2, 2), (5, 1)), ((2, 3), (3, 1)), ((3,), (-2,)), ((2, 1, 2), (7, 4, 2)), ((0, 2), (2, 1))]


def views(K):
    """memory views: whatever the layout, the elements come back in order"""
    from c18 import Block, place, MV, fields
    f = next((x for x in K.P.root if x["qn"] == "cmmcore::MemoryView<double>::serialize"), None)
    for n, s in FORMS:
        total = 1 if n else 0
        for x in n:
            total *= x
        cuts = [None] if n not in ((2, 2), (3,)) else [None] + list(range(10 + 8 * (2 + 2 * len(n) + total)))
        for cut in cuts:
            def prep(M, fr, S, n=n, s=s, cut=cut):
                M.bytes = M.heap = M.assumed = True
                blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
                o = alg.sym("o", True)
                v = Obj(f["cls"], {x["n"]: M.uninit(x["vt"]) for x in M.rec_fields(f["clsid"])})
                v.f.update(data_=blk, shape_=SVec([Rat.of(x) for x in n]), strides_=SVec([Rat.of(x) for x in s]), offset_=o, is_managed_=F)
                r = M.invoke(f, M.temp(v, fr), None, fr, [])
                v = M.read(r, fr.store) if isinstance(r, vn.Loc) else r
                xs = vn.vec(v)
                if xs is None:
                    raise GiveUp("buffer of unknown length")
                l = list(fr.env.values())[0]
                fr.store[l.root] = SVec(xs if cut is None else xs[:cut])
                S.whole = len(xs)
                S.o, S.blk = o, blk

            def rel(a, n=n, s=s, total=total):
                v = a.S.ret
                sh, st = fields(v)
                out = [("shape", [], [("dimensions", Rat.of(len(sh)), Rat.of(len(n)))] + [("extent %d" % i, x, Rat.of(y)) for i, (x, y) in enumerate(zip(sh, n))])]
                b = a.S.m.read(v.f["data_"].loc, a.S.store)
                base = (v.f["data_"].i if v.f["data_"].i is not None else Rat.of(0)) + v.f["offset_"]
                stc = [int(x.const()) for x in st]
                out.append(("a block of its own", [], [("data", F if v.f["data_"].loc.root == a.S.blk.loc.root else T, VALID)]))
                return out + [("elements", [], [("element %d" % q, b.get(base + Rat.of(place(n, stc, q))), app("@D", a.S.o + Rat.of(place(n, s, q)))) for q in range(total)])]
            if cut is None:
                K.one(MV + "deserialize(vector<char>)", prep=prep, rel=rel, throws=lambda a: F, label="shape %s, strides %s" % (n, s))
            else:
                K.one(MV + "deserialize(vector<char>)", prep=prep, throws=lambda a, cut=cut: T if cut < a.S.whole else ANY,
                      rel=lambda a: [("nothing outside the bytes is read", [], [("access", a.S.events.get("bounds", F), F)])], label="shape %s, strides %s, cut after %d bytes" % (n, s, cut))


def disk(M, fr, S, content):
    """one file with a content; opening and writing may fail"""
    S.file = M.new_root(SVec(content), fr.store, "file")
    S.written = S.flushed = False
    S.opened, S.taken, S.flushes = [lt(alg.sym(x + "a"), alg.sym(x + "b")) for x in "otf"]
    S.good = And(S.taken, S.flushes)      # a stream may take bytes that it cannot bring to the file later

    def append(M, p, n, fr):
        ys = M.ranged(p, p.plus(n), fr) if isinstance(p, Ptr) and p.i is not None and isinstance(n, Rat) and n.const() is not None else None
        if ys is None:
            raise GiveUp("unknown data written")
        M.write(S.file, SVec(vn.vec(M.read(S.file, fr.store)) + ys), fr.store)

    def opens(args, fr):
        """what the file held before is kept only when it is opened for appending or for reading as well"""
        m = {x.get("n") for a in args[1:] for x in walk(a) if x.get("k") == "ref"}
        if args and not m & {"app", "in", "noreplace"}:
            M.write(S.file, SVec([]), fr.store)

    def stream(M, n, A, e, fr):
        if n == "open":
            if "basic_ofstream" in str(e.get("qn")):
                opens(e["a"], fr)
            return Unk("void")
        now = And(S.opened, S.good) if S.flushed else And(S.opened, S.taken) if S.written else S.opened
        if n in ("op!", "fail"):
            return Not(now)
        if n == "is_open":
            return S.opened
        if n in ("operator bool", "good"):
            return now
        if n == "bad":                    # neither a failed open nor a failed close sets it
            return And(S.opened, Not(now if S.flushed == "flush" else S.taken)) if S.written else F
        if n == "write":
            S.written, S.flushed = True, False
            append(M, M.value(A[0], fr), M.num(M.value(A[1], fr)), fr)
            return Unk("stream")
        if n in ("close", "flush"):
            S.flushed = S.written and n
            return Unk("void")
        raise GiveUp("stream operation " + n)

    def it(M, e, fr):
        v = M.read(S.file, fr.store)
        return Ptr(S.file, Rat.of(0) if e["a"] else v.size)

    def fwrite(M, e, fr):
        vs = [M.value(x, fr) for x in e["a"]]
        n = M.num(vs[1]) * M.num(vs[2])
        append(M, vs[0], n, fr)
        return vite(S.good, M.num(vs[2]), Rat.of(0))

    def fread(M, e, fr):
        vs = [M.value(x, fr) for x in e["a"]]
        n = (M.num(vs[1]) * M.num(vs[2])).const()
        xs = vn.vec(M.read(S.file, fr.store))[:int(n)]
        if xs:
            M.put(vs[0], xs, fr)
        return vite(S.good, M.num(vs[2]), Rat.of(0))
    M.objmodels = {x: stream for x in ("basic_ofstream", "basic_ifstream", "basic_fstream", "basic_ios", "basic_ostream", "basic_istream")}

    def ofs(M, e, fr):
        opens(e["a"], fr)
        return Unk("stream")

    def out(M, e, fr):
        raise GiveUp("a file reached in another way than by a stream it owns or a file it was given")
    M.ctormodels = {"istreambuf_iterator": it, "basic_ofstream": ofs, "ostreambuf_iterator": out, "ostream_iterator": out}
    M.stdmodels = {"fwrite": fwrite, "fread": fread, "ftell": lambda M, e, fr: M.read(S.file, fr.store).size,
                   "fopen": out, "freopen": out, "open": out,
                   "fseek": lambda M, e, fr: Rat.of(0), "rewind": lambda M, e, fr: Unk("void")}


def files(K):
    W, Rd = "writeNURBSCurvesToFile(string,vector<NURBSCurve>)", "readNURBSCurvesFromFile(string)"
    for sh in ([], [(2, 3)], [(2, 4), (1, 2)]):
        def content(M, fr, S, sh=sh):
            M.bytes = M.heap = M.assumed = True
            S.v = [curve(K, M, fr, "c%d" % i, p, n) for i, (p, n) in enumerate(sh)]
            r = call(M, K, fr, "serializeNURBSCurves(vector<NURBSCurve>)", [SVec(list(S.v))])
            S.want = vn.vec(M.read(r, fr.store) if isinstance(r, vn.Loc) else r)

        def prep(M, fr, S):
            content(M, fr, S)
            fr.store[list(fr.env.values())[1].root] = SVec(list(S.v))
            disk(M, fr, S, [alg.sym("old%d" % i, True) for i in range(3)])

        def rel(a):
            v = vn.vec(a.S.m.read(a.S.file, a.S.store))
            if v is None:
                v = a.S.m.read(a.S.file, a.S.store)
                while isinstance(v, (Ite, vn.SIte)):       # nothing is written when the file does not open
                    v = v.a if len(vn.vec(v.a)) >= len(vn.vec(v.b)) else v.b
                v = vn.vec(v)
            g = [a.S.opened]
            return [("bytes in the file", g, [("length", Rat.of(len(v)), Rat.of(len(a.S.want)))] + numbers("byte", v, a.S.want)),
                    ("success is reported only when the file could be opened and written", [], [("result", a.S.ret, And(a.S.opened, a.S.good))])]
        K.one(W, prep=prep, rel=rel, throws=lambda a: ANY, label="%d curves" % len(sh), opaque=("expand",))

        def prep2(M, fr, S):
            content(M, fr, S)
            disk(M, fr, S, S.want)

        def rel2(a):
            xs = vn.vec(a.S.ret) if isinstance(a.S.ret, vn.Seq) else None
            if xs is None:
                raise TypeError("no list")
            out = [("number of curves", [a.S.opened], [("size", Rat.of(len(xs)), Rat.of(len(a.S.v)))])]
            if len(xs) == len(a.S.v):
                out += [("curve %d" % i, [a.S.opened], same_curve(x, v)) for i, (x, v) in enumerate(zip(xs, a.S.v))]
            return out
        K.one(Rd, prep=prep2, rel=rel2, throws=lambda a: Not(a.S.opened), label="%d curves" % len(sh), opaque=("expand",))
    from c18 import Block, MV, place, fields
    ser = next((x for x in K.P.root if x["qn"] == "cmmcore::MemoryView<double>::serialize"), None)
    for n, s in ((3,), (2,)), ((2, 2), (3, 1)):
        def view(M, fr, S, this, n=n, s=s):
            M.bytes = M.heap = M.assumed = True
            S.o = alg.sym("o", True)
            S.blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
            v = Obj(ser["cls"], {x["n"]: M.uninit(x["vt"]) for x in M.rec_fields(ser["clsid"])})
            v.f.update(data_=S.blk, shape_=SVec([Rat.of(x) for x in n]), strides_=SVec([Rat.of(x) for x in s]), offset_=S.o, is_managed_=F)
            if this:
                S.this0.f.update(v.f)
            r = M.invoke(ser, M.temp(v, fr), None, fr, [])
            S.want = vn.vec(M.read(r, fr.store) if isinstance(r, vn.Loc) else r)

        def prep3(M, fr, S):
            view(M, fr, S, True)
            disk(M, fr, S, [])

        def rel3(a):
            v = vn.vec(a.S.m.read(a.S.file, a.S.store))
            return [("bytes in the file", [], [("length", Rat.of(len(v)), Rat.of(len(a.S.want)))] + numbers("byte", v, a.S.want))]
        K.one(MV + "write_to_file(_IO_FILE*)", prep=prep3, rel=rel3, throws=lambda a: Not(a.S.good), label="shape %s, strides %s" % (n, s))

        def prep4(M, fr, S):
            view(M, fr, S, False)
            disk(M, fr, S, S.want)

        def rel4(a, n=n, s=s):
            v = a.S.ret
            sh, st = fields(v)
            b = a.S.m.read(v.f["data_"].loc, a.S.store)
            base = (v.f["data_"].i if v.f["data_"].i is not None else Rat.of(0)) + v.f["offset_"]
            total = 1
            for x in n:
                total *= x
            return [("shape", [], [("dimensions", Rat.of(len(sh)), Rat.of(len(n)))] + [("extent %d" % i, x, Rat.of(y)) for i, (x, y) in enumerate(zip(sh, n))]),
                    ("elements", [], [("element %d" % q, b.get(base + Rat.of(place(n, [int(x.const()) for x in st], q))), app("@D", a.S.o + Rat.of(place(n, s, q))))
                                      for q in range(total)])]
        K.one(MV + "read_from_file(_IO_FILE*)", prep=prep4, rel=rel4, throws=lambda a: Not(a.S.good), label="shape %s, strides %s" % (n, s))
