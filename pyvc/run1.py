"""python3-vt -m pyvc.run1 MODULE HARNESS OUT DEADLINE RECHECK: verify one contract harness, write a JSON record."""
import json
import sys
import threading
import time
from collections import Counter


def main():
    mod, name, out, deadline, recheck = sys.argv[1:6]
    from .prove import Prover
    from .interp import REPO_LIB
    p = Prover(deadline=time.time() + float(deadline))
    p.ctx.recheck = int(recheck)
    try:
        r = p.run("spec." + mod, name)
        err, tb = r["error"], getattr(p, "last_tb", "") if r["error"] else ""
    except BaseException as e:  # engine defect: the obligation stays undischarged
        import traceback
        r = dict(obligations=p.ctx.obligations, paths=0, time=0, solver_time=p.ctx.solver_time)
        err, tb = f"internal: {type(e).__name__}: {e}", traceback.format_exc()[-1500:]
    bad, seen = [], set()
    for o in r["obligations"]:
        if o.status != "discharged" and o.name not in seen:
            seen.add(o.name)
            bad.append(dict(obligation=o.name, status=o.status, backend=o.backend, detail=str(o.detail)[:600],
                            path=[str(x) for x in (o.path or [])][-20:]))
    rec = dict(harness=f"{mod}.{name}", total=len(r["obligations"]),
               discharged=sum(o.status == "discharged" for o in r["obligations"]),
               backends=Counter(o.backend for o in r["obligations"] if o.status == "discharged"),
               names=sorted({o.name for o in r["obligations"]}), failed=bad, paths=r["paths"], error=err, tb=tb,
               time=r["time"], solver_time=p.ctx.solver_time, queries=p.ctx.checks,
               functions=sorted(q for q in p.i.inlined if not q.startswith("spec.")),
               contracts=sorted(p.i.assumed_contracts), assumptions=sorted(p.ctx.assumptions),
               recheck=getattr(p.ctx, "recheck_stats", None), source=REPO_LIB)
    with open(out, "w") as f:
        json.dump(rec, f)


sys.setrecursionlimit(60000)
threading.stack_size(768 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
