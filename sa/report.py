"""Verdicts, known findings, evidence."""
import json, os, sys, time
from core import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []        # every obligation: (rule, instance, where, ok, message)
        self.stats = {}
        self.rules = {}
        self.samples = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def check(self, rule, instance, where, ok, message="", path=None):
        self.obl.append({"rule": rule, "instance": instance, "where": where, "ok": bool(ok), "msg": message,
                         "path": path or []})
        return ok

    def floor(self, rule, n):
        c = sum(1 for o in self.obl if o["rule"] == rule)
        if c < n:
            raise AnalysisError("rule %s matched %d instances, expected at least %d: analysis broken" % (rule, c, n))

    def key(self, o):
        return "%s|%s" % (o["rule"], o["instance"])


def known():
    k, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> key=<rule|instance> :: <description>
                head, _, desc = line[7:].partition(" :: ")
                p = head.split(" ", 1)
                pid = p[0].split("=", 1)[1]
                key = p[1].split("=", 1)[1]
                k[(pid, key)] = desc
            elif line.startswith("fixed: "):
                fixed.append(line)
    return k, fixed


def finish(res, tier, seed, t0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    kn, _ = known()
    bad = [o for o in res.obl if not o["ok"]]
    seen = set()
    viol, kfs = [], []
    for o in bad:
        k = (res.pid, res.key(o))
        if k in kn:
            if k not in seen:
                kfs.append((o, kn[k]))
            seen.add(k)
        else:
            viol.append(o)
    rules = {}
    for o in res.obl:
        rules[o["rule"]] = rules.get(o["rule"], 0) + 1
    good = [o for o in res.obl if o["ok"]]
    step = max(1, len(good) // 8)
    ev = {
        "property": res.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source tree; rules: " +
                           "; ".join("%s = %s" % kv for kv in sorted(res.rules.items())),
            "obligations": len(res.obl), "discharged": len(good),
            "per_rule": rules,
            "known_findings": len(kfs),
            "analysed": res.stats,
            "samples": [{"rule": o["rule"], "instance": o["instance"], "where": o["where"], "note": o["msg"]}
                        for o in good[::step][:8]],
            "all_instances": sorted({o["rule"] + " @ " + o["instance"] for o in res.obl})[:1500],
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", res.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)" %
          (res.pid, len(res.obl), len(good), len(kfs), len(viol), time.time() - t0))
    for o, d in kfs:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (res.pid, res.key(o), o["where"], d))
    if viol:
        rp = os.path.join(VERIF, "evidence", res.pid + ".violations.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write("%s: [%s] %s\n    %s\n" % (o["where"], o["rule"], o["instance"], o["msg"]))
                for s in o["path"]:
                    f.write("      %s\n" % s)
        for o in viol:
            print("  %s: [%s] %s -- %s" % (o["where"], o["rule"], o["instance"], o["msg"]))
        print("VIOLATION property=%s replay=%s" % (res.pid, rp))
        return 1
    return 0
