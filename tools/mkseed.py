"""Development helper: plant a bug (JSON-ish spec module), validate it and file it under /verif/seeded.
usage: mkseed.py SPEC.py [ID...]   (SPEC defines SEEDS = [dict(id,property,edits=[(file,old,new)],demo,needs,breaks)])
A seed is validated on /repo itself and undone straight afterwards."""
import json, os, subprocess, sys, runpy
V = "/verif/seeded"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
ids = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch (run with cwd /repo)
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python "$d/demo.py"
'''
for s in seeds:
    if ids and s["id"] not in ids:
        continue
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    d = f"{V}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    try:
        for f, old, new in s["edits"]:
            p = "/repo/src/wax/" + f
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, "text not found")
            open(p, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        b = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seeds/out.json")
        res = json.load(open("/tmp/seeds/out.json"))
        want = set(base.get("passed") or base["stable"] if isinstance(base, dict) else base)
        miss = want - set(res["passed"])
        c = sh(f"cd /verif && ./check.sh {s['property']} --tier quick", timeout=1200)
    finally:
        sh("git -C /repo checkout -q -- .")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not miss
    print(s["id"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "build", b.returncode, "tests lost", sorted(miss)[:3],
          "| check rc", c.returncode, v[:1], flush=True)
    if not ok:
        print("   ", (r0.stderr if r0.returncode else "")[-600:], r1.stdout[-300:] if r1.returncode == 0 else "")
