"""C02 header-only linkage: every definition in a header may appear in many TUs; every header stands alone."""
import concurrent.futures, subprocess
from core import *
from report import Result


def compile_alone(args):
    h, wd, flags = args
    src = os.path.join(wd, "h_%s.cpp" % h.replace("/", "_"))
    with open(src, "w") as f:
        f.write('#include "cmmcore/%s"\n#include "cmmcore/%s"\n' % (h, h))
    r = subprocess.run([CLANG] + flags + ["-fsyntax-only", src], capture_output=True, text=True)
    return h, r.returncode, r.stderr


def run(tier):
    P = load()
    R = Result("C02")
    R.rule("function-linkage", "a non-template function defined in a header is inline, constexpr, static or in an unnamed namespace")
    R.rule("variable-linkage", "a variable defined in a header is inline, const, static, or a template/class-inline member")
    R.rule("stands-alone", "a TU consisting of the one header (included twice) type-checks (front end only, nothing is run)")
    for f in P.root:
        if f.get("lambda") or f.get("implicit"):
            continue
        if f.get("body") is None and not f.get("defaulted"):
            continue
        ok = f["inline"] or not f["ext"] or f["inst"] or f.get("main")
        R.check("function-linkage", P.fname(f), P.where(f), ok,
                "externally visible, not inline: two translation units that include %s do not link" % f["relfile"])
    for g in P.globals.values():
        if not g["root"] or g["slocal"] or g["extern"]:
            continue
        ok = g["inline"] or not g["linkage"] or g["inst"] or g["constexpr"]
        R.check("variable-linkage", g["qn"], "%s:%s" % (os.path.relpath(g["file"], REPO), g["line"]), ok,
                "externally visible non-inline variable defined in a header")
    wd = workdir()
    hs = list(headers())
    sub = os.path.join(REPO, "cmmcore", "_convexhull")
    fl = cflags()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for h, rc, err in ex.map(compile_alone, [(h, wd, fl) for h in hs]):
            first = [l for l in err.splitlines() if "error:" in l][:2]
            R.check("stands-alone", h, "cmmcore/" + h, rc == 0, " | ".join(first))
    R.floor("function-linkage", 400)
    R.floor("stands-alone", 20)
    R.stats = {"functions": sum(1 for o in R.obl if o["rule"] == "function-linkage"), "headers": len(hs)}
    R.assumptions = ["the build's forced prefix header is included, as in the project's build here"]
    return R
