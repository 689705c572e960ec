"""plant.py FILE...: each FILE defines ID, PROP, EDITS=[(file, old, new)], DEMO (python), NEEDS, BREAKS.
Confirms a planted bug on /repo (tests pass, demo fails with it and passes without), keeps it in /verif/seeded and runs
the property's check against it."""
import json, os, runpy, subprocess, sys

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def tests():
    sh("bash /opt/vp/test.sh /tmp/plant-o.json")
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = set(json.load(open("/tmp/plant-o.json"))["passed"])
    return [x for x in want if x not in got]

for f in sys.argv[1:]:
    b = runpy.run_path(f)
    d = "/verif/seeded/" + b["ID"]
    assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(b["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this scenario\ncd /repo\nexport PYTHONDONTWRITEBYTECODE=1 '
        'PYTHONPATH=/repo MPLBACKEND=Agg PYTHONHASHSEED=0\nexec timeout 200 /opt/venv/bin/python "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/demo.py"\n')
    here = os.path.abspath(d)
    try:
        r0 = sh("bash %s/demo.sh" % here, cwd="/repo")
        for fn, old, new in b["EDITS"]:
            p = "/repo/" + fn
            s = open(p).read()
            assert s.count(old) == 1, (b["ID"], fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        bl = sh("bash /opt/vp/build.sh")
        miss = tests()
        r1 = sh("bash %s/demo.sh" % here, cwd="/repo")
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss and bl.returncode == 0
        print(b["ID"], "OK" if ok else "NOT VALID", "demo clean rc", r0.returncode, "bug rc", r1.returncode, "tests lost", miss[:3], "build", bl.returncode, flush=True)
        if not ok:
            print((r0.stdout + r0.stderr)[-600:], "\n---\n", (r1.stdout + r1.stderr)[-600:])
        for prop in [b["PROP"]] + list(b.get("ALSO", [])):
            c = sh("bash /verif/check.sh %s quick" % prop)
            print("   ", prop, "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout else "MISSED rc=%d" % c.returncode,
                  (c.stdout + c.stderr).strip().replace("\n", " | ")[:420], flush=True)
    finally:
        sh("git -C /repo checkout -q -- .")
