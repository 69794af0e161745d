"""Runs a contract harness natively (CPython, real code) on generated inputs: search for / replay of a failing input.

  native.py MODULE --harness H... --seed N --time T [--case SEED] --out FILE
"""
import argparse
import ast
import asyncio
import contextvars
import importlib
import importlib.machinery
import importlib.util
import json
import logging
import os
import re
import signal
import sys
import time
import traceback

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
if os.environ.get("PV_REPO_LIB"):
    sys.path.insert(0, os.environ["PV_REPO_LIB"])
logging.disable(logging.CRITICAL)
import pv  # noqa: E402


class Tolerant(importlib.machinery.SourceFileLoader):
    """Contracts are loaded so that a private function which the code no longer has only disables what uses it."""

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data)
        out = []
        for n in tree.body:
            if isinstance(n, ast.ImportFrom) and (n.module or "").startswith("pulumi"):
                for a in n.names:
                    one = ast.ImportFrom(module=n.module, names=[a], level=0)
                    alt = ast.parse(f"import pv\n{a.asname or a.name} = pv.Missing({n.module + '.' + a.name!r})").body
                    out.append(ast.Try(body=[one], handlers=[ast.ExceptHandler(type=ast.Name("ImportError", ast.Load()), name=None, body=alt)],
                                       orelse=[], finalbody=[]))
            else:
                out.append(n)
        tree.body = out
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True, optimize=_optimize)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("spec."):
            return None
        f = os.path.join(os.path.dirname(pv.__file__), *name.split(".")) + ".py"
        return importlib.util.spec_from_file_location(name, f, loader=Tolerant(name, f)) if os.path.exists(f) else None


sys.meta_path.insert(0, Finder)
CONTRACTS = os.path.dirname(os.path.abspath(pv.__file__))


def interface_changed(e):
    """The harness itself (not the code under test) failed to call or look up something private."""
    t = e.__traceback__
    while t.tb_next is not None:
        t = t.tb_next
    if not t.tb_frame.f_code.co_filename.startswith(CONTRACTS):
        return False
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (takes|missing|got an unexpected|got multiple)", str(e))
        name = m.group(1).split(".")[-1] if m else ""
        return name.startswith("_") and not name.startswith("__")
    return isinstance(e, AttributeError) and getattr(e, "name", None) is not None and e.obj is not None and e.name.startswith("_") and not e.name.startswith("__")


class Hangs(BaseException):
    """A case that ordinarily takes milliseconds has not ended after a minute."""


def hangs(*_):
    raise Hangs("the code under test does not end")


def one_case(fn, seed):
    signal.signal(signal.SIGALRM, hangs)
    signal.alarm(60)
    try:
        return one_case_(fn, seed)
    finally:
        signal.alarm(0)


def one_case_(fn, seed):
    pv.reset(seed)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda *_: None)
    status, detail = "ok", ""

    async def go():
        r = fn()
        if asyncio.iscoroutine(r):
            await asyncio.wait_for(r, 20)
    try:
        loop.run_until_complete(go())
    except pv.Reject:
        status = "reject"
    except pv.Violation as e:
        status, detail = "violation", str(e)
    except BaseException as e:  # the contract lets no other exception escape
        if isinstance(e, KeyboardInterrupt):
            raise
        status = "reject" if interface_changed(e) else "violation"
        detail = "escaping exception " + "".join(traceback.format_exception(e))[-1500:]
    finally:
        ts = asyncio.all_tasks(loop)
        for t in ts:
            t.cancel()
        try:
            if ts:
                loop.run_until_complete(asyncio.gather(*ts, return_exceptions=True))
        except BaseException:
            pass
        log, ens = list(pv.ST.log), pv.ST.ensured
        pv.reset(0)
        loop.close()
    return status, detail, log, ens


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--harness", nargs="*")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=5)
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--case", default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--known", default=None, help="JSON list of {harness, match}: findings already recorded")
    a = ap.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    m = importlib.import_module(a.module)
    hs = [h for h in list(m.HARNESSES) + list(getattr(m, "NATIVE", [])) if not a.harness or h.__name__ in a.harness]
    known = json.loads(a.known) if a.known else []
    res = dict(module=a.module, cases=0, ok=0, rejected=0, ensured=0, violations=[], known=[], per={})
    if a.case is not None:
        for h in hs:
            ctx = contextvars.copy_context()
            st, d, log, _ = ctx.run(one_case, h, a.case)
            print(h.__name__, st, d)
            for n, v in log:
                print("   ", n, "=", v)
            res["violations"].append([h.__name__, st, d])
        sys.stdout.flush()
        os._exit(1 if any(v[1] == "violation" for v in res["violations"]) else 0)
    t0 = time.time()
    for n, h in enumerate(hs):
        end = time.time() + max(0.3, (t0 + a.time - time.time()) / (len(hs) - n))
        k = 0
        per = res["per"].setdefault(h.__name__, dict(cases=0, ok=0, rejected=0))
        nviol = 0
        while time.time() < end and k < a.max:
            seed = f"{a.seed}:{h.__name__}:{k}"
            k += 1
            ctx = contextvars.copy_context()
            st, d, log, ens = ctx.run(one_case, h, seed)
            per["cases"] += 1
            res["ensured"] += ens
            if st == "ok":
                per["ok"] += 1
            elif st == "reject":
                per["rejected"] += 1
            else:
                kn = [x for x in known if h.__name__ in x["harness"].split() and x["match"] in (d + " " + repr(log))]
                if kn:
                    if kn[0]["id"] not in res["known"]:
                        res["known"].append(kn[0]["id"])
                    continue
                res["violations"].append(dict(harness=h.__name__, seed=seed, detail=d, inputs=log))
                nviol += 1
                if nviol >= 1:
                    break
        for q in ("cases", "ok", "rejected"):
            res[q] += per[q]
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f, indent=1)
    else:
        print(json.dumps(res, indent=1))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # threads which the code under test left behind may never end


main()
