"""C13 element accesses stay inside their containers and no uninitialised value is used, for well-formed inputs."""
import importlib
import spec
from core import *
from spec import *
from report import Result

CASES = ["c06", "c07", "c08", "c09", "c10", "c11", "c12", "c15", "c18", "c19"]


def run(tier):
    R = Result("C13")
    R.rule("access", "every element access has an index below the size of its container, and every value that enters a computation, a condition "
                     "or a result has been written, on every path that the input shape admits")
    seen = set()

    def observe(ck, f, key, S, g, label, prep):
        inst = "%s%s" % (key, " (%s)" % label if label else "")
        if inst in seen:
            return
        seen.add(inst)
        o = []
        for what in spec.EVENTS:
            c = S.events.get(what)
            if c is None:
                continue
            ck.cmp(c, F, spec.EVENTS[what], o, g + ([Not(S.throws)] if S.throws.t != "T" else []))
        if any(k == "bad" for k, _ in o):
            R.check("access", inst, ck.P.where(f), False, "; ".join(S.m.notes[:3]))
        elif any(k == "und" for k, _ in o):
            R.stats.setdefault("undecided", []).append(inst)
        else:
            R.check("access", inst, ck.P.where(f), True, "%d expressions evaluated" % S.m.steps)

    spec.OBSERVE = observe
    floor, Result.floor = Result.floor, lambda *a: None
    try:
        for c in CASES:
            importlib.import_module("checks." + c).run(tier)
    finally:
        spec.OBSERVE = None
        Result.floor = floor
    R.floor("access", 400)
    R.assumptions += ["containers of the listed shapes (lengths concrete, contents symbolic); degree below the library's stack limit CMMCORE_DEG_STACK_SIZE",
                      "element accesses of containers whose length stays symbolic are not decided"]
    return R
