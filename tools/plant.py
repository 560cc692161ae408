#!/usr/bin/env python3
"""plant.py ID SPEC.py: SPEC defines property, needs, breaks, edits=[(file, old, new)], demo (rust text with fn main).
Writes seeded/ID, then confirms in a scratch copy: applies, builds, stable tests pass, demo 0 without and nonzero with the patch."""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
ID, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
out = os.path.join(V, "seeded", ID)
os.makedirs(out, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
patch = None
try:
    for f, o, n in ns["edits"]:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(o) == 1, (f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    patch = sh("git -C /repo diff").stdout
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.sh", "w").write(ns.get("demo_sh") or open(V + "/tools/demo_template.sh").read())
    os.chmod(out + "/demo.sh", 0o755)
    if "demo" in ns:
        open(out + "/demo.rs", "w").write(ns["demo"])
    for name, text in ns.get("files", {}).items():
        open(out + "/" + name, "w").write(text)
    json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh")
    assert b.returncode == 0, b.stderr[-2000:]
    r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    res = json.load(open("/tmp/plant_out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("tests") or base.get("passed") or base
    passed = set(res.get("passed") or [])
    lost = [t for t in (stable if isinstance(stable, list) else list(stable)) if t not in passed]
    print("tests lost:", lost[:5], len(passed))
    d = sh("bash %s/demo.sh" % out, cwd="/repo")
    print("demo with patch: rc", d.returncode, (d.stdout + d.stderr)[-400:])
    with_rc = d.returncode
    checks = ns.get("checks", [ns["property"]])
    for c in checks:
        x = sh("timeout 900 python3 check.py %s | grep -E 'VIOLATION|UNDECIDED|ALARM' | head -4" % c, cwd=V)
        print("check", c, ":", x.stdout[:900])
finally:
    sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
d = sh("bash %s/demo.sh" % out, cwd="/repo")
print("demo without: rc", d.returncode, (d.stdout + d.stderr)[-300:])
print("OK" if d.returncode == 0 and with_rc != 0 and not lost else "NOT COUNTED")
