"""C18 strided views: indexing, slicing, reshaping and copying follow the row-major strided model."""
from core import *
from spec import *
from report import Result
import vn
from vn import Obj, SVec, Ptr, GiveUp
from c17 import Heap, leaves

MV = "MemoryView<double>::"
VU = "vector<unsignedlong>"


def run(tier):
    P = load()
    R = Result("C18")
    R.rule("view", "the element or the view delivered is the one the strided model names, for every shape, stride, offset and index")
    K = Checker(P, R, "view")
    total(K)
    contiguous(K)
    element(K)
    first_axis(K)
    slices(K)
    reshape(K)
    copies(K)
    K.finish()
    R.floor("view", 100)
    return R


class Block(vn.Seq):
    """an unbounded block of numbers, element j named @D(j)"""

    def get(self, j):
        return lift(lambda x: app("@D", x), j)


class Raw(vn.Seq):
    """fresh memory"""

    def get(self, j):
        return Unk("element never written")


def malloc(M, e, fr):
    M.value(e["a"][0], fr)
    return Ptr(M.new_root(Raw(alg.sym("M", True)), fr.store, "malloc"), Rat.of(0))


def ints(n, d):
    return [alg.sym("%s%d" % (n, i), True) for i in range(d)]


def view(M, fr, S, d, off=None):
    """a view of d dimensions over an unbounded block of numbers"""
    h = Heap(M, fr, S)
    blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
    n, s = ints("n", d), ints("s", d)
    o = alg.sym("o", True)
    for x in n:
        h.fact(x, ">=")
    t = S.this0
    t.f.update(data_=blk, shape_=SVec(n), strides_=SVec(s), offset_=o)
    return h, n, s, o


def total(K):
    for d in range(4):
        def prep(M, fr, S, d=d):
            h = Heap(M, fr, S)
            n = ints("n", d)
            h.set(0, SVec(n))
            S.n = n

        def rel(a, d=d):
            w = Rat.of(1 if d else 0)
            for x in a.S.n:
                w = w * x
            return [("product of the extents", [], [("total", a.S.ret, w)])]
        K.one("compute_total_size(%s)" % VU, prep=prep, rel=rel, throws=lambda a: ANY, label="%d dimensions" % d)


def element(K):
    for d in (1, 2, 3):
        def prep(M, fr, S, d=d):
            h, n, s, o = view(M, fr, S, d)
            i = ints("i", d)
            for x in i:
                h.fact(x, ">=")
            h.set(0, SVec(i))
            S.v = n, s, o, i

        def rel(a, d=d):
            n, s, o, i = a.S.v
            p = o
            for x, y in zip(s, i):
                p = p + x * y
            return [("the element", [Not(a.S.throws)] + [le(0, x) for x in n], [("element", a.S.ret, app("@D", p))]),
                    ("indices outside the shape are refused", [le(0, x) for x in n], [("refused", a.S.throws, Or(*[le(x, y) for x, y in zip(n, i)]))])]
        K.one(MV + "operator()(%s)" % VU, prep=prep, rel=rel, throws=lambda a: ANY, label="%d dimensions" % d)


def prod(xs):
    w = Rat.of(1)
    for x in xs:
        w = w * x
    return w


def rowmajor(n):
    """strides of a block that holds the elements of the shape one after another"""
    return [prod(n[i + 1:]) for i in range(len(n))]


def fields(v):
    """(shape, strides) as lists"""
    n, s = vn.vec(v.f["shape_"]), vn.vec(v.f["strides_"])
    if n is None or s is None:
        raise TypeError("view of unknown dimension")
    return n, s


def samedata(v, blk):
    """the view looks at the same block"""
    return And(*[T if isinstance(c, Ptr) and c.loc.root == blk.loc.root and isinstance(c.i, Rat) and c.i.const() == 0 else Not(g)
                 for g, c in vn.ptr_leaves(v.f["data_"])])


def lists(name, got, want):
    if len(got) != len(want):
        return [(name, F, VALID)]
    return [("%s[%d]" % (name, i), x, y) for i, (x, y) in enumerate(zip(got, want))]


def looks(v, g, n, s, o, blk):
    """obligations: v is the view of shape n, strides s, offset o of the block"""
    vn_, vs = fields(v)
    return [("shape and strides", g, lists("shape", vn_, n) + lists("stride", vs, s)),
            ("place in the data", g, [("offset", v.f["offset_"], o), ("data", samedata(v, blk), VALID)])]


def contiguous(K):
    for d in (0, 1, 2, 3):
        def prep(M, fr, S, d=d):
            h = Heap(M, fr, S)
            n = ints("n", d)
            for x in n:
                h.fact(x, ">=")
            blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
            h.set(0, blk), h.set(1, SVec(n))
            S.v = n, blk
        K.one(MV + "MemoryView(double*,%s)" % VU, prep=prep, label="%d dimensions" % d,
              rel=lambda a: looks(a.S.this1, [], a.S.v[0], rowmajor(a.S.v[0]), Rat.of(0), a.S.v[1]))

        def prep2(M, fr, S, d=d):
            h = Heap(M, fr, S)
            n, s, o = ints("n", d), ints("s", d), alg.sym("o", True)
            blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
            h.set(0, blk), h.set(1, SVec(n)), h.set(2, SVec(s)), h.set(3, o)
            S.v = n, s, o, blk
        K.one(MV + "MemoryView(double*,%s,%s,unsignedlong)" % (VU, VU), prep=prep2, label="%d dimensions" % d,
              rel=lambda a: looks(a.S.this1, [], *a.S.v))


def first_axis(K):
    for d in (0, 1, 2, 3):
        def prep(M, fr, S, d=d):
            h, n, s, o = view(M, fr, S, d)
            i = alg.sym("i", True)
            h.fact(i, ">=")
            h.set(0, i)
            S.v = n, s, o, i, S.this0.f["data_"]

        def rel(a, d=d):
            n, s, o, i, blk = a.S.v
            out = [("an index outside the first extent is refused", [le(0, x) for x in n], [("refused", a.S.throws, le(n[0], i) if d else T)])]
            return out + (looks(a.S.ret, [Not(a.S.throws)], n[1:], s[1:], o + i * s[0], blk) if d else [])
        K.one(MV + "operator[](unsignedlong)", prep=prep, rel=rel, throws=lambda a: ANY, label="%d dimensions" % d)


def clamp(x, lo, hi):
    return lift(lambda a: ite(lt(a, lo), lo, ite(lt(hi, a), hi, a)), x)


def piece(n, kind, start, stop, step):
    """first element and number of elements of a range slice of an extent n (Python's rules)"""
    lo, hi = (Rat.of(0), n) if step > 0 else (Rat.of(-1), n - 1)
    if kind == "all":
        a, b = (lo, hi) if step > 0 else (hi, lo)
    else:
        wrap = lambda x: ite(lt(x, 0), x + n, x)
        a, b = clamp(wrap(start), lo, hi), clamp(wrap(stop), lo, hi)
    return a, b


def wrapped(r):
    """size_t arithmetic is modulo 2^64: a factor above 2^63 stands for the negative one"""
    def go(x):
        if any(c >= 2 ** 63 for c in x.n.values()) and x.d == alg.ONE_P:
            return Rat({m: (c - 2 ** 64 if c >= 2 ** 63 else c) for m, c in x.n.items()})
        return x
    return lift(go, r)


def slices(K):
    """every kind of slice on one extent, and the kinds combined on two and three"""
    one = [("all", 1), ("all", -1), ("index", 0), ("range", 1), ("range", -1), ("range", 2), ("range", -2), ("range", 3)]
    confs = [(1, [k]) for k in one] + [(1, []), (0, [("index", 0)]), (1, [("all", 1), ("all", 1)]), (2, [("index", 0)]),
             (2, [("range", 1)]), (2, [("index", 0), ("range", 1)]), (2, [("range", 1), ("index", 0)]), (2, [("all", 1), ("index", 0)]),
             (2, [("all", 1), ("range", 1)]), (2, [("index", 0), ("index", 0)]), (3, [("all", 1), ("index", 0), ("all", 1)]),
             (3, [("index", 0)]), (3, [("all", 1), ("range", 1)])]
    for d, sl in confs:
        def prep(M, fr, S, d=d, sl=sl):
            h, n, s, o = view(M, fr, S, d)
            xs, par = [], []
            for q, (kind, step) in enumerate(sl):
                i, b, e = ints("~i%d_" % q, 1)[0], ints("~b%d_" % q, 1)[0], ints("~e%d_" % q, 1)[0]
                xs.append(Obj("cmmcore::Slice", {"single_index": T if kind == "index" else F, "index": i, "has_start": T if kind == "range" else F,
                                                 "start": b, "has_stop": T if kind == "range" else F, "stop": e, "step": Rat.of(step)}))
                par.append((kind, step, i, b, e))
                if abs(step) > 1:
                    # the bounds are already in range here: clamping is settled with the steps 1 and -1
                    for x in (b, e):
                        h.fact(x, ">")
                        h.fact(x - n[q] + 1, "<=")
            h.set(0, SVec(xs))
            S.v = n, s, o, par, S.this0.f["data_"]

        def rel(a, d=d):
            n, s, o, par, blk = a.S.v
            refused = [T] if len(par) > d else []
            kept_n, kept_s, counts = [], [], []
            for q, (kind, step, i, b, e) in enumerate(par[:d]):
                if kind == "index":
                    refused += [le(n[q], i), lt(i, -n[q])]
                    o = lift(lambda x, w: x + w * s[q], o, ite(lt(i, 0), i + n[q], i))
                else:
                    x, y = piece(n[q], kind, b, e, step)
                    o = lift(lambda u, w: u + w * s[q], o, x)
                    kept_n.append(None)
                    kept_s.append(s[q] * step)
                    counts.append((len(kept_n) - 1, x, y, step))
            kept_n += n[len(par):]
            kept_s += s[len(par):]
            out = [("refused exactly when a slice is too much or an index is outside", [le(0, x) for x in n], [("refused", a.S.throws, Or(*refused))])]
            if len(par) > d:
                return out
            ok = [Not(a.S.throws)] + [le(0, x) for x in n]
            vn_, vs = fields(a.S.ret)
            if len(vn_) != len(kept_n):
                return out + [("one extent per range", ok, [("extents", F, VALID)])]
            some = []
            for p, x, y, step in counts:
                # the count is the number of places x, x + step, ... before y
                c = vn_[p]
                if step < 0:
                    x, y, step = lift(lambda w: -w, x), lift(lambda w: -w, y), -step
                if step == 1:
                    kept_n[p] = lift(lambda u, w: ite(lt(u, w), w - u, Rat.of(0)), x, y)
                else:
                    def count(u, w):
                        q = app("idiv", w - u + (step - 1), Rat.of(step))
                        facts.append(Or(le(w, u), le(1, q)))
                        return ite(lt(u, w), q, Rat.of(0))
                    facts = [lt(0, b), lt(0, e), lt(b, n[q]), lt(e, n[q])]
                    kept_n[p] = lift(count, x, y)
                    ok += facts
                some.append(tocond(lift(lambda u, w: lt(u, w), x, y)))
            out.append(("extents are the numbers of places taken", ok, lists("extent", vn_, kept_n)))
            out.append(("strides", ok, lists("stride", [wrapped(x) for x in vs], kept_s)))
            out.append(("first element", ok + some, [("offset", a.S.ret.f["offset_"], o), ("data", samedata(a.S.ret, blk), VALID)]))
            return out
        K.one(MV + "slice(vector<Slice>)", prep=prep, rel=rel,
              throws=lambda a: ANY, label="%d extents, %s" % (d, ", ".join("%s%s" % (k, "" if k == "index" else " step %d" % t) for k, t in sl) or "no slices"))


def fixed(M, fr, S, n, s):
    """a view with known shape and strides"""
    h = Heap(M, fr, S)
    M.stdmodels = {"malloc": malloc}
    blk = Ptr(M.new_root(Block(alg.sym("N", True)), fr.store, "block"), Rat.of(0))
    o = alg.sym("o", True)
    S.this0.f.update(data_=blk, shape_=SVec([Rat.of(x) for x in n]), strides_=SVec([Rat.of(x) for x in s]), offset_=o)
    return h, o, blk


def reshape(K):
    # shape, strides, new shape, accepted
    for n, s, new, ok in (((2, 3), (3, 1), (3, 2), True), ((2, 3), (3, 1), (6,), True), ((6,), (1,), (1, 2, 3), True), ((2, 3), (3, 1), (2, 2), False),
                          ((2, 3), (3, 1), (7,), False), ((2, 3), (5, 1), (2, 3), True), ((2, 3), (5, 1), (3, 2), False), ((3, 2), (-2, 1), (6,), False),
                          ((4,), (2,), (2, 2), False), ((1, 4), (9, 1), (2, 2), True)):
        def prep(M, fr, S, n=n, s=s, new=new):
            h, o, blk = fixed(M, fr, S, n, s)
            h.set(0, SVec([Rat.of(x) for x in new]))
            S.v = o, blk

        def rel(a, n=n, s=s, new=new, ok=ok):
            o, blk = a.S.v
            if not ok:
                return [("a change that would name other elements is refused", [], [("refused", a.S.throws, T)])]
            st = s if new == n else [int(x.const()) for x in rowmajor([Rat.of(x) for x in new])]
            return [("accepted", [], [("refused", a.S.throws, F)])] + looks(a.S.this1, [], [Rat.of(x) for x in new], [Rat.of(x) for x in st], o, blk)
        K.one(MV + "reshape(%s)" % VU, prep=prep, rel=rel, throws=lambda a: ANY, label="%s with strides %s to %s" % (n, s, new))


FORMS = [((3,), (1,)), ((2, 2), (5, 1)), ((2, 3), (3, 1)), ((3, 1, 2), (-4, 9, 2))]


def place(n, s, q):
    """where element q (row-major) of a view lies, relative to its offset"""
    w = 0
    for x, y in zip(reversed(n), reversed(s)):
        w += (q % x) * y
        q //= x
    return w


def owned(a, v, n, s, o, blk):
    """v is a view of the same shape over a block of its own holding the same elements"""
    out = []
    vn_, vs = fields(v)
    total = 1
    for x in n:
        total *= x
    out.append(("shape", [], lists("shape", vn_, [Rat.of(x) for x in n])))
    st = [wrapped(x).const() if isinstance(x, Rat) else None for x in vs]
    if None in st or not isinstance(v.f["offset_"], Rat) or v.f["offset_"].const() is None:
        raise TypeError("layout of the copy")
    els = []
    for g, c in vn.ptr_leaves(v.f["data_"]):
        if not isinstance(c, Ptr):
            els.append(("data", Not(g), VALID))
            continue
        els.append(("a block of its own", Not(g) if c.loc.root == blk.loc.root else T, VALID))
        b = a.S.m.read(c.loc, a.S.store)
        base = c.i if c.i is not None else Rat.of(0)
        for q in range(total):
            els.append(("element %d" % q, b.get(base + v.f["offset_"] + Rat.of(place(n, [int(x) for x in st], q))), app("@D", o + Rat.of(place(n, s, q)))))
    out.append(("elements", [], els))
    return out


def copies(K):
    for n, s in FORMS:
        lab = "%s with strides %s" % (n, s)

        def prep(M, fr, S, n=n, s=s):
            h, o, blk = fixed(M, fr, S, n, s)
            S.this0.f["is_managed_"] = F
            S.v = o, blk

        def rel(a, n=n, s=s):
            o, blk = a.S.v
            out = []
            for g, c in vn.ptr_leaves(a.S.ret):
                if not isinstance(c, Ptr):
                    raise TypeError("no object")
                v = a.S.m.read(c.loc, a.S.store)
                out += owned(a, v, n, s, o, blk)
                out.append(("the copy releases its block", [], [("managed", tocond(v.f["is_managed_"]), T)]))
            return out
        K.one(MV + "copy()", prep=prep, rel=rel, throws=lambda a: ANY, label=lab)
        w = 1
        for x in n:
            w *= x
        K.one(MV + "size()", prep=prep, rel=lambda a, w=w: [("number of elements", [], [("size", a.S.ret, Rat.of(w))])], label=lab)
        for managed in (F, T):
            if managed is T and list(s) != [int(x.const()) for x in rowmajor([Rat.of(x) for x in n])]:
                continue        # a managed block is contiguous

            def prep2(M, fr, S, n=n, s=s, managed=managed):
                h, o, blk = fixed(M, fr, S, (1,), (7,))
                src = Obj(S.this0.cls, dict(S.this0.f))
                o = alg.sym("o2", True) if managed is F else Rat.of(0)
                src.f.update(shape_=SVec([Rat.of(x) for x in n]), strides_=SVec([Rat.of(x) for x in s]), is_managed_=managed, offset_=o)
                S.this0.f["is_managed_"] = F
                h.set(0, src)
                S.v = o, blk

            def rel2(a, n=n, s=s, managed=managed):
                o, blk = a.S.v
                v = a.S.this1
                if managed is T:
                    return owned(a, v, n, s, o, blk) + [("the copy releases its block", [], [("managed", tocond(v.f["is_managed_"]), T)])]
                return looks(v, [], [Rat.of(x) for x in n], [Rat.of(x) for x in s], o, blk) + [
                    ("a view of foreign data releases nothing", [], [("managed", tocond(v.f["is_managed_"]), F)])]
            for f in ("MemoryView", "operator="):
                K.one(MV + f + "(MemoryView<double>)", prep=prep2, rel=rel2, throws=lambda a: ANY, label="%s%s" % (lab, "" if managed is F else ", managed"))
