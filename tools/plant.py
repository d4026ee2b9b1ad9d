#!/usr/bin/env python3
"""plant.py <file.py> [names...]   plants the bugs described in a file, one at a time, in /repo's working tree:
confirms build, stable tests, demonstration with and without, runs the check of the property, undoes it,
and keeps the bug under /verif/seeded. The file defines BUGS: name -> dict(property, edits[(file, old, new)], main, needs, breaks)."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    got = set(json.load(open("/tmp/plant.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or base["tests"])
    return sorted(want - got)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    names = sys.argv[2:] or list(bugs)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "/repo not clean"
    for n in names:
        b = bugs[n]
        try:
            for f, old, new in b["edits"]:
                p = "/repo/" + f
                s = open(p).read()
                assert s.count(old) == 1, (n, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            d = f"{V}/seeded/{n}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            if "demo" in b:
                open(d + "/demo.sh", "w").write(b["demo"])
                if b.get("ws"): shutil.copytree(f"{V}/tools/demo_template/ws", d + "/ws")
                for k, v in b.get("files", {}).items(): open(f"{d}/{k}", "w").write(v)
            else:
                shutil.copytree(f"{V}/tools/demo_template/ws", d + "/ws")
                shutil.copy(f"{V}/tools/demo_template/demo.sh", d + "/demo.sh")
                open(d + "/main.rs", "w").write(b["main"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(n, "BUILD FAILS", r.stdout[-1500:], flush=True); shutil.rmtree(d); continue
            bad = stable()
            if bad: print(n, "TESTS FAIL", bad, flush=True); shutil.rmtree(d); continue
            r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
            rc = sh(f"cd {V} && VERIF_TIER=quick ./check {b['property']}")
            line = [l for l in rc.stdout.splitlines() if l.startswith("VIOLATION")]
            clean()
            r2 = sh(f"bash {d}/demo.sh", cwd="/repo")
            print(n, b["property"], "demo", r1.returncode, r2.returncode, "CAUGHT" if rc.returncode == 1 and line else f"MISSED rc={rc.returncode}", flush=True)
            if r1.returncode in (0, 3): print("   demo output with bug:", r1.stdout[-600:])
            if r2.returncode: print("   demo output clean:", r2.stdout[-600:])
            if r1.returncode in (0, 3) or r2.returncode: shutil.rmtree(d)
            if rc.returncode not in (0, 1): print(rc.stdout[-1500:])
        finally:
            clean()
main()
