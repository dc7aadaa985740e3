"""C05 inputs preserved: interprocedural may-modify analysis against the table of declared outputs."""
import os
from core import *
from effects import *
from report import Result

# cached data that a query may refresh (derived from the rest of the object; C04 keeps it in step)
CACHE = {"_bbox", "_aabb", "_hull", "hull", "_convex_hull"}
# builders that may permute (never alter) the caller's array
REORDER = {"cmmcore::convex_hull2d": {0}, "cmmcore::build_bvh": {0}, "cmmcore::build_bvh_top_down": {0},
           "cmmcore::split_objects": {0}, "cmmcore::KDTree<cmmcore::vec3,cmmcore::PointComparator3D>::build": {0},
           "cmmcore::KDTree<cmmcore::vec3,cmmcore::PointComparator3D>::buildKDTree": {0, 1}}
PERMUTE = {"sort", "stable_sort", "swap", "iter_swap", "nth_element", "partition", "stable_partition", "reverse", "rotate",
           "partial_sort", "swap_ranges", "sort_heap", "make_heap"}


def table():
    t = {}
    for line in open(os.path.join(VERIF, "sa", "outputs.txt")):
        w = line.split()
        if len(w) >= 2:
            t[(w[0], int(w[1]))] = {x.split(":")[0] for x in w[2:]}
    return t


def permuting(A, f, pidx, seen):
    """does f only permute the elements of parameter pidx?  returns offending node or None"""
    fe = A.fn[f["id"]]
    P = A.P
    for (p, line, n) in fe.modsites:
        if p[0] != ("p", pidx):
            continue
        if n.get("k") == "call" and n.get("n") in PERMUTE:
            continue
        if n.get("k") == "call" and n.get("root") and n["fn"] in P.funcs:
            g = P.funcs[n["fn"]]
            bad = None
            if g["id"] in A.fn and (g["id"],) not in seen:
                for (r, s) in A.sum[g["id"]].mods:
                    if r[0] == "p" and r[1] < len(n["a"]):
                        bad = permuting(A, g, r[1], seen | {(g["id"],)}) or bad
            if bad is None:
                continue
            return bad
        # iterator/pointer variable itself moving is not an element write
        if n.get("k") == "un" and n["op"] in ("++", "--"):
            continue
        return n
    return None


def run(tier):
    P = load()
    A = Effects(P)
    R = Result("C05")
    R.rule("input-preserved", "no path of the operation, through any callee, reference, pointer or iterator, writes to an argument (or to the object of a query) that is not one of its declared outputs")
    R.rule("permute-only", "hull and tree builders change the caller's array only by swapping/sorting its elements")
    T = table()
    nf = 0
    seen = set()
    for f in P.root:
        if f.get("body") is None or f.get("lambda") or f.get("dtor"):
            continue
        key = (f["qn"].replace(" ", ""), len(f["params"]))
        sm = A.sum[f["id"]]
        if key not in T:
            # a trailing parameter was added or dropped: the outputs of the same operation still apply
            alt = [k for k in T if k[0] == key[0]]
            if not alt:
                continue
            allowed = set()
            for k in alt:
                allowed |= T[k]
            # a parameter this operation never had is judged by the declared type only
            extra = True
        else:
            allowed, extra = T[key], False
        seen.add(key[0])
        nf += 1
        viol = {}
        for (r, s) in sm.mods:
            if r[0] == "this":
                if f.get("ctor") or "this" in allowed:
                    continue
                who = "this"
            elif r[0] == "p":
                if str(r[1]) in allowed:
                    continue
                if extra and r[1] >= max(k[1] for k in T if k[0] == key[0]):
                    continue
                who = "p%d" % r[1]
            else:
                continue
            if any(x in CACHE for x in s):
                continue
            viol.setdefault(who, (r, s))
        fe = A.fn[f["id"]]
        objs = [("p%d" % i, i) for i, p in enumerate(f["params"]) if str(i) not in allowed and
                (P.is_ref(p["vt"]) or P.under(p["vt"]).get("c") == "ptr" or "ptr" in P.under(p["vt"]))]
        if f.get("cls") and not f.get("ctor") and not f.get("mstatic") and "this" not in allowed:
            objs.append(("this", None))
        for who, i in objs:
            v = viol.get(who)
            nm = "%s %s" % (key[0], ("'%s'" % f["params"][i]["n"] if i is not None else "object"))
            line, path = None, []
            if v:
                for (p, l, n) in fe.modsites:
                    if p == v[0:2]:
                        line = l
                        path.append("line %s writes %s" % (l, pstr(f, p)))
            R.check("input-preserved", nm, P.where(f, line), v is None,
                    "writes %s, which is an input" % pstr(f, v) if v else "", path)
        for i in sorted(REORDER.get(key[0], ())):
            if i >= len(f["params"]):
                continue
            bad = permuting(A, f, i, set())
            R.check("permute-only", "%s '%s'" % (key[0], f["params"][i]["n"]), P.where(f, bad.get("l") if bad else None),
                    bad is None, "alters an element of the caller's array" if bad else "")
    R.floor("input-preserved", 250)
    R.floor("permute-only", 2)
    R.stats = {"functions": nf, "effect_rounds": A.rounds, "operations_in_table": len(T)}
    R.assumptions = ["standard-library calls modify only their non-const reference, pointer and destination-iterator arguments"]
    return R
