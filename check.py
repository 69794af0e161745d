#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decide one property of /repo.

1. The contracts of the property (contracts/spec/<id>.py) are verified against the source in /repo by pyvc: every
   obligation of every harness has to be discharged.
2. The same contracts are executed natively against the real code on generated inputs (a search for a failing input,
   longer when an obligation failed).
Exit 0 if everything was discharged and nothing failed, else 1 with a VIOLATION line.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("PV_OUT", HERE)
VT = "python3-vt"
PY = "/opt/venv/bin/python"


def module_lists(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
                "HARNESSES", "NATIVE", "ASSUMPTIONS", "BOUNDS", "PROOF_TIME"):
            if n.targets[0].id in ("HARNESSES", "NATIVE"):
                out[n.targets[0].id] = [e.id for e in n.value.elts]
            else:
                out[n.targets[0].id] = literal(n.value, path)
    return out


def literal(node, path):
    """A literal, or <module>.NAME / a sum of literals taken from a sibling contract module."""
    if isinstance(node, ast.BinOp):
        return literal(node.left, path) + literal(node.right, path)
    if isinstance(node, ast.Attribute):
        return module_lists(os.path.join(os.path.dirname(path), node.value.id + ".py"))[node.attr]
    return ast.literal_eval(node)


def prove(mod, h, tmp, deadline, recheck):
    out = os.path.join(tmp, f"{mod}.{h}.json")
    t = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run([VT, "-m", "pyvc.run1", mod, h, out, str(deadline), str(recheck)], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=deadline + 60)
        if os.path.exists(out):
            return json.load(open(out))
        err = f"internal: verifier ended without a result ({r.returncode}) {r.stderr[-500:]}"
    except subprocess.TimeoutExpired:
        err = "budget: verifier exceeded its time limit"
    return dict(harness=f"{mod}.{h}", total=0, discharged=0, backends={}, names=[], failed=[], paths=0, error=err, tb="",
                time=time.time() - t, solver_time=0, queries=0, functions=[], contracts=[], assumptions=[], recheck=None)


def native(mod, seed, secs, tmp, known, harness=None, tag="n"):
    out = os.path.join(tmp, f"{mod}.{tag}.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for v in list(env):
        if v.startswith("PULUMI"):
            del env[v]
    cmd = [PY, os.path.join(HERE, "tools", "native.py"), "spec." + mod, "--seed", str(seed), "--time", str(secs), "--out", out,
           "--known", json.dumps(known)]
    if harness:
        cmd += ["--harness"] + harness
    try:
        r = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=secs * 2 + 130)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(error=(r.stderr or r.stdout)[-1500:], cases=0, ok=0, rejected=0, ensured=0, violations=[], known=[], per={})
    except subprocess.TimeoutExpired:
        return dict(error="native search exceeded its time limit", cases=0, ok=0, rejected=0, ensured=0, violations=[],
                    known=[], per={})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--replay", default=None, help="re-run a recorded failing input")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    mod = pid.lower()
    path = os.path.join(HERE, "contracts", "spec", mod + ".py")
    if a.replay:
        rp = json.load(open(a.replay))
        w = rp.get("failing_input")
        if not w:
            print(json.dumps(rp, indent=1))
            sys.exit(1)
        sys.exit(subprocess.run([PY, os.path.join(HERE, "tools", "native.py"), "spec." + mod, "--harness", w["harness"],
                                 "--case", w["seed"]], env=dict(os.environ, PYTHONHASHSEED="0")).returncode)
    lists = module_lists(path)
    hs = lists.get("HARNESSES", [])
    t0 = time.time()
    deadline = lists.get("PROOF_TIME", 330)
    kf = os.path.join(HERE, "known_findings.json")
    allknown = json.load(open(kf))["findings"] if os.path.exists(kf) else []
    known = [k for k in allknown if k["property"] == pid]
    tmp = tempfile.mkdtemp(prefix="pv_")
    recheck = 300 if tier == "thorough" else 0
    try:
        recs, nats = [], []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(prove, mod, h, tmp, deadline, recheck) for h in hs]
            nf = []
            if not a.no_native:
                if tier == "thorough":
                    nf = [ex.submit(native, mod, a.seed * 1000 + k, 60, tmp, known, None, f"n{k}") for k in range(4)]
                else:
                    nf = [ex.submit(native, mod, a.seed * 1000, 8, tmp, known, None, "n0")]
            recs = [f.result() for f in futs]
            nats = [f.result() for f in nf]
        failed = []
        for r in recs:
            for o in r["failed"]:
                failed.append(dict(harness=r["harness"], **o))
            if r["error"]:
                failed.append(dict(harness=r["harness"], obligation="verification of the harness completes", status="undischarged",
                                   detail=r["error"], path=[], tb=r["tb"]))
            elif r["paths"] == 0 or r["total"] == 0:
                failed.append(dict(harness=r["harness"], obligation="the contract is not vacuous", status="failed",
                                   detail=f"{r['paths']} live paths, {r['total']} obligations", path=[]))
        for n in nats:
            if n.get("error"):
                failed.append(dict(harness=mod, obligation="the contract runs natively", status="failed", detail=n["error"], path=[]))
        viol = [v for n in nats for v in n["violations"]]
        if failed and not viol and not a.no_native:
            # directed search for a failing input
            fh = sorted({f["harness"].split(".")[-1] for f in failed if "." in f["harness"]})
            secs = 100 if tier == "thorough" else 60
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                more = list(ex.map(lambda k: native(mod, a.seed * 7919 + k, secs, tmp, known, fh if k % 2 else None, f"d{k}"), range(8)))
            nats += more
            viol = [v for n in more for v in n["violations"]]
        for k in known:
            if any(k["id"] in n.get("known", []) for n in nats) or k.get("always"):
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        limited = [h for h in lists.get("BOUNDS", {}) if h not in lists.get("NATIVE", [])]     # proofs with a stated bound: not counted as proved
        full = [r for r in recs if r["harness"].split(".")[-1] not in limited]
        total, dis = sum(r["total"] for r in full), sum(r["discharged"] for r in full)
        backends = {}
        for r in recs:
            for b, n in r["backends"].items():
                backends[b] = backends.get(b, 0) + n
        fns = sorted({f for r in recs for f in r["functions"]})
        cts = sorted({f for r in recs for f in r["contracts"]})
        nviol = 1 if (viol or failed) else 0
        bounded = lists.get("NATIVE", []) + limited
        cov = dict(obligations=total, discharged=dis,
                   checker_cmd=f"python3-vt -m pyvc.run1 {mod} HARNESS (each of: {' '.join(hs)})",
                   trusted_base=["z3", "pyvc (symbolic interpreter for Python, /verif/pyvc)", "CPython ast module",
                                 "library models in pyvc/lib.py"],
                   backends=backends, solver_time_s=round(sum(r["solver_time"] for r in recs), 2),
                   solver_queries=sum(r["queries"] for r in recs), paths=sum(r["paths"] for r in recs),
                   functions_under_contract=fns, callee_contracts_used=cts,
                   harnesses={r["harness"]: dict(obligations=r["total"], discharged=r["discharged"], paths=r["paths"],
                                                 time_s=round(r["time"], 2), error=r["error"], named=r["names"][:40]) for r in recs},
                   bounded_stand_ins={h: lists.get("BOUNDS", {}).get(h, "generated inputs only") for h in bounded},
                   bounded_obligations={r["harness"]: [r["discharged"], r["total"]] for r in recs if r not in full},
                   evaluations=sum(n["cases"] for n in nats), native_checks=sum(n["ensured"] for n in nats),
                   native_per_harness={h: sum(n["per"].get(h, {}).get("cases", 0) for n in nats)
                                       for n0 in nats[:1] for h in n0["per"]})
        if tier == "thorough":
            cov["second_backend"] = {r["harness"]: r["recheck"] for r in recs}
        ev = dict(property=pid, tier=tier, seed=a.seed, level="proof", coverage=cov,
                  assumptions=lists.get("ASSUMPTIONS", []) + sorted({x for r in recs for x in r["assumptions"]}) + [
                      "integers and floats are mathematical", "awaits do not interleave with other tasks touching the same data",
                      "input containers are pairwise distinct objects", "recursion: partial correctness (termination not proved)"],
                  wall_s=round(time.time() - t0, 2), violations=nviol)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid}: {dis}/{total} obligations discharged over {len(recs)} contracts, {cov['evaluations']} native cases, "
              f"{ev['wall_s']} s")
        if not nviol:
            return 0
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rp = os.path.join(OUT, "replays", f"{pid}.json")
        rep = dict(property=pid, failed_obligations=failed, failing_input=viol[0] if viol else None,
                   how=f"python3 /verif/check.py {pid} --replay {rp}")
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1)
        for o in failed[:5]:
            print(f"  obligation {o['harness']}: {o['obligation']} [{o['status']}] {str(o['detail'])[:200]}")
        if viol:
            print(f"  failing input: {viol[0]['harness']} seed {viol[0]['seed']}: {viol[0]['detail'][:400]}")
            print(f"VIOLATION property={pid} replay={rp}")
        else:
            print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        return 1
    finally:
        for f in os.listdir(tmp):
            try:
                os.unlink(os.path.join(tmp, f))
            except OSError:
                pass
        try:
            os.rmdir(tmp)
        except OSError:
            pass


if __name__ == "__main__":
    sys.exit(main())
