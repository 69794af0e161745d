"""plant.py SEEDFILE [ID...]: make /verif/seeded/<id>/ from seed descriptions, confirm each one, and report which check catches it.

SEEDFILE is a Python file defining SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)].
Confirmation: builds, the stable tests pass, demo exits 0 on the clean tree and nonzero with the change."""
import json, os, runpy, shutil, subprocess, sys
R, V = "/tmp/plantrepo", "/verif/seeded"          # a scratch copy of /repo
LIB = R + "/sdk/python/lib"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/sdk/python/lib"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    only = sys.argv[2:]
    subprocess.run(["rm", "-rf", R])
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    test = open("/opt/vp/test.sh").read().replace("/repo", R).replace("unset PYTHONPATH PYTHONHOME", f"export PYTHONPATH={LIB}").replace("$C:$META", "$C:$META:" + LIB)
    open("/tmp/plant_test.sh", "w").write(test)
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if only and s["id"] not in only:
            continue
        assert not run(["git", "-C", R, "status", "--porcelain"]).stdout.strip(), "/repo not clean"
        d = os.path.join(V, s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        base = run([d + "/demo.sh"], cwd=R)
        ok = True
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/sdk/python/lib/pulumi/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "PATTERN COUNT", t.count(old), repr(old)); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            open(d + "/patch.diff", "w").write(run(["git", "-C", R, "diff"]).stdout)
            b = run(["/opt/venv/bin/python", "-m", "compileall", "-q", "-f", "-o", "0", LIB + "/pulumi"], env=dict(os.environ, PYTHONPYCACHEPREFIX="/tmp/plant_pyc"))
            run(["bash", "/tmp/plant_test.sh", "/tmp/seedtest.json"])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open("/tmp/seedtest.json"))
            passed = set(res.get("passed", []))
            bad = run([d + "/demo.sh"], cwd=R)
            c = run(["true"]) if os.environ.get("NOCHECK") else run([sys.executable, "/verif/check.py", s["prop"]], cwd="/verif", env=dict(os.environ, PV_REPO_LIB=LIB))
            viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{s['id']:10} base={base.returncode} mut={bad.returncode} build={b.returncode} tests={'ok' if stable <= passed else sorted(stable - passed)[:4]} check={c.returncode} {viol[:1]}")
            if base.returncode or not bad.returncode:
                print("   BASE", base.stdout[-300:], base.stderr[-500:], "\n   MUT", bad.stdout[-300:], bad.stderr[-300:])
        finally:
            run(["git", "-C", R, "checkout", "--", "."])
    subprocess.run(["rm", "-rf", R, "/tmp/plant_pyc"])


main()
