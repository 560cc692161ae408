#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's working tree."""
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from qsa import dump as D            # noqa: E402
from qsa.ob import Check, Fail, Undecided       # noqa: E402

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" -- ")
                out[key.strip()] = desc.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    edir = os.environ.get("QSA_OUT") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    epath = os.path.join(edir, pid + ".json")
    rpath = os.path.join(edir, pid + ".report.txt")
    rule = importlib.import_module("rules." + pid.lower())
    try:
        dump = D.dump() if getattr(rule, "NEEDS_DUMP", True) else None
    except D.DumpError as ex:
        # the tree does not compile: nothing can be said about its behaviour
        print("cannot analyse the current tree: %s" % ex)
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        open(rpath, "w").write(str(ex))
        return 1
    ck = Check(pid, dump, tier, seed)
    try:
        rule.check(ck)
    except Fail as ex:
        ck.bad(ex.msg, "anchor or structure missing", ex.site)
    except Undecided as ex:
        ck.und("remaining obligations", str(ex), "")
    except Exception as ex:
        import traceback
        ck.und("remaining obligations", "internal: %s: %s" % (type(ex).__name__, ex), "", traceback.format_exc())
    ck.done()
    floor = getattr(rule, "FLOOR", 1)
    if len(ck.obs) < floor and not any(o["status"] == "undecided" for o in ck.obs):
        ck.bad("obligation count", "only %d obligations generated, %d confirmed by hand" % (len(ck.obs), floor))
    kn = known(pid)
    new = []
    for o in ck.obs:
        if o["status"] == "violated":
            if o["name"] in kn:
                o["status"] = "known finding"
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["name"], kn[o["name"]]))
            else:
                new.append(o)
    und = [o for o in ck.obs if o["status"] == "undecided"]
    dis = [o for o in ck.obs if o["status"] == "discharged"]
    with open(rpath, "w") as f:
        for o in ck.obs:
            f.write("[%s] %s\n    at: %s\n    rule: %s\n" % (o["status"], o["name"], o["site"], o["how"]))
            if o["detail"]:
                f.write("    " + o["detail"].replace("\n", "\n    ") + "\n")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule.__doc__.strip() + " Obligations are decided by value-flow analysis of the compiler's typed intermediate representation (THIR) of the current tree: each summary is computed as a closed-form term and compared with its specification.",
            "obligations": len(ck.obs), "discharged": len(dis), "undecided": len(und),
            "functions_analysed": sorted(ck.bodies), "call_sites": ck.sites, "loops_summarised": ck.loops,
            "separating_valuations_tried": ck.valuations,
            "samples": [{"obligation": o["name"], "status": o["status"], "site": o["site"], "rule": o["how"], "detail": o["detail"][:600]} for o in ck.obs[:40]],
        },
        "assumptions": ck.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ev["coverage"].update(ck.extra)
    with open(epath + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(epath + ".tmp", epath)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d call sites, %d loops (%.1fs)" % (
        pid, len(ck.obs), len(dis), len(und), len(new), len(ck.bodies), ck.sites, ck.loops, time.time() - t0))
    for o in und:
        print("UNDECIDED %s at %s: %s" % (o["name"], o["site"], o["how"].split("\n")[0][:300]))
        if "-v" in argv:
            print(o["how"], "\n", o["detail"])
    for o in new:
        print("  violated: %s\n    construct: %s\n    rule: %s\n    %s" % (o["name"], o["site"], o["how"], o["detail"].replace("\n", "\n    ")[:3000]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
