"""C01 no hidden state: effect analysis over the call graph."""
import re
from core import *
from report import Result

# operations whose declared purpose is the clock or randomness (confirmed by reading), by role
CLOCK = {"cmmcore::NURBSSurface::getCurrentDateTime", "cmmcore::currentDateTime", "cmmcore::getCurrentDateTime",
         "cmmcore::NURBSSurface::writeSTEPFile"}
RANDOM = {"cmmcore::random_double", "cmmcore::random_vec3", "cmmcore::random_vectors3"}
EXEMPT_CLASS = {"cmmcore::Timer"}
EXEMPT = CLOCK | RANDOM

IMPURE_FN = {"time", "clock", "gettimeofday", "clock_gettime", "localtime", "gmtime", "localtime_r", "gmtime_r", "rand", "srand",
             "random", "srandom", "drand48", "lrand48", "getenv", "secure_getenv", "getpid", "gettid", "setlocale", "signal",
             "system", "strtok", "rand_r", "arc4random", "getrandom", "scanf", "fscanf", "getchar", "setenv",
             "putenv", "fesetround", "fesetenv", "feclearexcept", "fetestexcept", "feraiseexcept", "fegetround", "sleep", "usleep", "tmpfile",
             "tmpnam", "lgamma", "atexit", "__cxa_thread_atexit", "srand48", "asctime", "ctime", "mktime", "strerror",
             "get_id", "hardware_concurrency", "async", "call_once", "sleep_for", "yield", "current_path", "mrand48", "nrand48"}
# errno-free pure maths etc. are not listed: anything unlisted is considered effect free
IMPURE_CLS = re.compile(r"random_device|std::thread|std::mutex|std::atomic|condition_variable|std::chrono::.*_clock|std::locale|std::future|std::promise|std::filesystem|mersenne_twister|linear_congruential|subtract_with_carry|default_random")
ADDR_KEYED = re.compile(r"^(const )?std::(unordered_)?(multi)?(set|map)<(const )?[^,<>]*\*|^(const )?std::(unordered_)?(multi)?(set|map)<std::__wrap_iter")
OKGLOBAL = {"std::cerr", "std::clog"}      # diagnostics never feed results (write-only use is checked)
OUTGLOBAL = {"std::cout"}


HANDLE = re.compile(r"^(const )?std::(shared_ptr|unique_ptr|weak_ptr|reference_wrapper|span|optional|any)<(const )?|^(const )?std::function<|^(const )?std::__wrap_iter<(?!const )")


def reaches_mutable(P, t, depth=0):
    """a const object of this type can still hand out mutable state (pointer, handle, callable)"""
    if depth > 4:
        return False
    ty = P.ty(t)
    if "ref" in ty or "ptr" in ty or ty.get("c") == "ptr":
        u = P.types[ty["u"]] if "u" in ty else {}
        if u.get("c") == "fn" or "(" in u.get("s", ""):
            return False
        return not u.get("const")
    if ty.get("c") == "arr":
        return reaches_mutable(P, ty["u"], depth + 1)
    s = ty.get("s", "")
    m = HANDLE.match(s)
    if m:
        return not m.group(3) if m.group(2) not in ("optional", "any") else False
    if ty.get("rec") in P.records and P.records[ty["rec"]]["root"]:
        return any(reaches_mutable(P, x["vt"], depth + 1) for x in P.records[ty["rec"]]["fields"])
    for a in ty.get("targs", [])[:2]:
        if isinstance(a, int) and s.replace("const ", "").startswith("std::") and reaches_mutable(P, a, depth + 1):
            return True
    return False


def frozen(P, g):
    return g["const"] and not reaches_mutable(P, g["vt"])


def statistic_refs(f):
    """ids of reference nodes whose only use is to be bumped in a discarded statement"""
    ok = set()
    def stmt_e(e):
        e = strip(e)
        if e is not None and e["k"] == "un" and e["op"] in ("++", "--") and e["e"]["k"] == "ref":
            ok.add(id(e["e"]))
        if e is not None and e["k"] == "asg" and e["op"] in ("+=", "-=") and e["a"]["k"] == "ref":
            ok.add(id(e["a"]))
    for n in walk_fn(f):
        k = n.get("k")
        if k == "expr":
            stmt_e(n.get("e"))
        elif k == "block":
            for x in n["b"]:
                if x.get("k") in ("un", "asg"):
                    stmt_e(x)
        elif k in ("if", "for", "while", "rfor", "do"):
            for key in ("a", "b", "inc"):
                x = n.get(key)
                if isinstance(x, dict) and x.get("k") in ("un", "asg"):
                    stmt_e(x)
    return ok


def facts(P, f):
    """direct impure facts of one function: list of (kind, detail, line)"""
    out = []
    stat = statistic_refs(f)
    for n in walk_fn(f):
        k = n.get("k")
        if k == "ref" and n.get("vk") in ("global", "slocal"):
            g = P.globals.get(n["d"])
            if g is None:
                continue
            t = P.under(g["vt"])
            if g["qn"] in OKGLOBAL:
                continue
            if frozen(P, g):
                continue
            if g.get("tls") and id(n) in stat:
                continue          # per-thread statistic that is only ever bumped, never read
            if not g["root"] and g["qn"] in OUTGLOBAL:
                continue
            if g["qn"] == "std::cin":
                out.append(("input", g["qn"], n.get("l")))
                continue
            if g["root"]:
                rec = P.records.get(t.get("rec"))
                if rec is not None and not rec["fields"] and not rec["bases"]:
                    continue      # stateless object (no data members)
                if t.get("name", "").startswith("std::hash<") or t.get("s", "").replace("const ", "").startswith("std::hash<"):
                    continue
                out.append(("mutable-static", g["qn"], n.get("l")))
            elif g["qn"].startswith("std::"):
                continue
            else:
                out.append(("mutable-static", g["qn"], n.get("l")))
        if k == "decl":
            for v in n["v"]:
                if v.get("static"):
                    # a static local: only a compile-time/argument independent constant is allowed
                    g = P.globals.get(v["d"])
                    if g is not None and not frozen(P, g):
                        out.append(("mutable-static", v["n"], v.get("l")))
                    elif v.get("init"):
                        for m in walk(v["init"]):
                            if m.get("k") == "this" or (m.get("k") == "ref" and m.get("vk") in ("local", "param", "binding")):
                                # lambda-local params are fine
                                if any(x.get("k") == "lambda" for x in walk(v["init"])):
                                    pass
                                out.append(("call-history", "static '%s' initialised from the first call's data" % v["n"], v.get("l")))
                                break
        if k == "call" and not n.get("root"):
            nm = n.get("n")
            cls = n.get("tmpl", "") if "cls" in n else ""
            if "cls" not in n and "fn" in n and nm in IMPURE_FN and not (n.get("qn", "").startswith("std::") and nm in ("random",)):
                out.append(("impure-call", nm, n.get("l")))
            elif cls and IMPURE_CLS.search(n.get("cls", "") + "::"):
                out.append(("impure-call", n.get("qn", nm)[:60], n.get("l")))
            elif n.get("qn", "").startswith("std::chrono") and nm == "now":
                out.append(("impure-call", n["qn"], n.get("l")))
            elif n.get("qn", "").startswith("std::this_thread") or n.get("qn", "").startswith("std::filesystem"):
                out.append(("impure-call", n["qn"], n.get("l")))
        if k == "ctor" and not n.get("root") and IMPURE_CLS.search(n.get("cls", "")):
            out.append(("impure-call", n["cls"][:60], n.get("l")))
        if k == "rfor":
            s = P.under(n["range"].get("t", -1)).get("s", "")
            if ADDR_KEYED.search(s):
                out.append(("address-order", "iterates " + s[:60], n.get("l")))
        if k == "cast" and not n.get("imp") and n.get("e"):
            a, b = P.ty(n["e"].get("t", -1)), P.ty(n.get("t", -1))
            if "ptr" in a and "ptr" in b:
                a, b = P.types[a["u"]], P.types[b["u"]]
            elif not (n.get("lv") and n["e"].get("lv")):
                a = {}
            if a.get("const") and not b.get("const") and ("const " + b.get("s", "?") == a.get("s") or a.get("s", "").replace("const ", "", 1) == b.get("s")):
                out.append(("cast-away-const", a.get("s", "")[:60], n.get("l")))
        if k == "cast" and n.get("ck") == "PointerToIntegral":
            out.append(("address-value", "pointer converted to integer", n.get("l")))
    return out


def run(tier):
    P = load()
    R = Result("C01")
    R.rule("no-mutable-static", "no function refers to a non-const object of static/thread storage duration (a per-thread counter that is only bumped, never read, is allowed), nor casts away const")
    R.rule("no-ambient-input", "no call to a clock, random, environment, locale, process or thread facility and no console input")
    R.rule("no-mutable-member", "no record has a mutable data member (hidden state behind const operations)")
    R.rule("exempt-not-reached", "no ordinary operation reaches a clock/random utility")
    R.rule("static-object", "every static-storage object of the library is const, stateless, or private to a clock/random utility")
    callers = {}
    calls = {}
    names = {}
    lamowner = {}
    for f in P.root:
        for n in walk_fn(f):
            if n.get("k") == "lambda":
                lamowner[n["fn"]] = f["id"]
    for f in P.root:
        cs = set()
        for n in walk_fn(f):
            if n.get("k") in ("call", "ctor", "lambda") and n.get("root"):
                cs.add(n["fn"])
            if n.get("k") == "ref" and n.get("vk") == "func":
                cs.add(n["d"])
        calls[f["id"]] = cs
        for c in cs:
            callers.setdefault(c, set()).add(f["id"])

    def exempt(f):
        return f["qn"] in EXEMPT or f.get("cls") in EXEMPT_CLASS
    # helpers used only by exempt functions inherit the exemption
    ex = {f["id"] for f in P.root if exempt(f)}
    ch = True
    while ch:
        ch = False
        for f in P.root:
            if f["id"] not in ex and callers.get(f["id"]) and callers[f["id"]] <= ex | {f["id"]}:
                ex.add(f["id"])
                ch = True
    nf = 0
    for f in P.root:
        if not f.get("body") and not f.get("inits"):
            continue
        nf += 1
        nm = P.fname(f)
        fs = facts(P, f)
        isop = f["n"] == "operator<<"
        ms = [x for x in fs if x[0] in ("mutable-static", "call-history", "cast-away-const")]
        am = [x for x in fs if x[0] not in ("mutable-static", "call-history", "cast-away-const")]
        if f["id"] in ex:
            ms = am = []
        R.check("no-mutable-static", nm, P.where(f, ms[0][2] if ms else None), not ms,
                "; ".join("%s %s (line %s)" % x for x in ms))
        R.check("no-ambient-input", nm, P.where(f, am[0][2] if am else None), not am,
                "; ".join("%s %s (line %s)" % x for x in am))
        if f["id"] not in ex:
            bad = [c for c in calls[f["id"]] if c in ex]
            # the exported file's timestamp is the one sanctioned clock use; reported by EXEMPT table
            R.check("exempt-not-reached", nm, P.where(f), not bad,
                    "calls " + ", ".join(P.funcs[c]["qn"] for c in bad if c in P.funcs))
    for r in P.root_records:
        if r["lambda"]:
            continue
        mu = [x["n"] for x in r["fields"] if x["mutable"]]
        R.check("no-mutable-member", r["qn"][:120], "%s:%s" % (os.path.relpath(r["file"], REPO), r["line"]), not mu,
                "mutable member(s) " + ", ".join(mu))
    # static objects themselves: reachable initialisers may not be time/random based
    used = {}
    for f in P.root:
        for n in walk_fn(f):
            if n.get("k") == "ref" and n.get("vk") in ("global", "slocal"):
                used.setdefault(n["d"], set()).add(f["id"])
    for g in P.globals.values():
        if not g["root"]:
            continue
        t = P.under(g["vt"])
        rec = P.records.get(t.get("rec"))
        stateless = (rec is not None and not rec["fields"] and not rec["bases"]) or "std::hash<" in t.get("s", "")
        private = bool(used.get(g["id"])) and used[g["id"]] <= ex
        R.check("static-object", g["qn"], "%s:%s" % (os.path.relpath(g["file"], REPO), g["line"]),
                frozen(P, g) or stateless or private or bool(g.get("tls")),
                "mutable object with static storage duration, shared by every caller and thread")
    R.floor("no-mutable-static", 400)
    R.floor("no-mutable-member", 30)
    R.floor("static-object", 3)
    R.stats = {"functions": nf, "records": sum(1 for r in P.root_records if not r["lambda"]),
               "exempt_functions": sorted(P.funcs[i]["qn"] for i in ex),
               "call_edges": sum(len(c) for c in calls.values())}
    R.assumptions = ["library functions outside /repo other than the listed ambient facilities are functions of their arguments",
                     "callbacks supplied by the caller are the caller's responsibility"]
    return R
