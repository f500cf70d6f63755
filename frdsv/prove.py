"""python -m frdsv.prove <property> --out FILE: generate and discharge the obligations of one property."""
import argparse
import json
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

TRUSTED = [
    "extraction: frdsv/xform.py rewrites control flow only; dropped: docstrings, annotations, __main__ blocks",
    "float arithmetic is treated as real arithmetic (NaN/inf only where a contract names them)",
    "contracts assumed of numpy/scipy/math functions (frdsv/npmodel.py, models.py)",
    "term normaliser and induction rule (frdsv/terms.py, prover.py), z3, cvc5",
]


def registry():
    import importlib
    import pkgutil
    from . import contracts
    groups = {}
    meta = {}
    for m in pkgutil.iter_modules(contracts.__path__):
        mod = importlib.import_module("frdsv.contracts." + m.name)
        for k, v in getattr(mod, "GROUPS", {}).items():
            groups.setdefault(k, []).extend(v)
        for k, v in getattr(mod, "BOUNDED", {}).items():
            meta.setdefault(k, []).extend(v)
    return groups, meta


def run_one(g, a, budget):
    from . import contract, loader
    ldrs = []

    def mk():
        l = loader.Loader(ext=g.ext())
        ldrs.append(l)
        return l
    contract.run_group(g, mk, seed=a.seed, budget=budget)
    r = dict(name=g.name, functions=g.fns, executed=g.executed, used=sorted(g.used), error=g.error, trace=(g.trace[-1500:] if g.error else ""),
             results=[dict(name=x.name, kind=x.kind, status=x.status, backend=x.backend, detail=x.detail) for x in g.results])
    if not g.error and not g.results:
        r["error"] = "no obligation was generated"
    h = {}
    for l in ldrs:
        h.update(l.hashes)
    return dict(group=r, assumptions=g.assumptions, exec_s=round(g.exec_s, 3), solve_s=round(g.solve_s, 3), hashes=h)


def run_all(gs, a, limit):
    """Each group in a process of its own, a few at a time; (group, result) in the order of the groups."""
    done, live, nxt = {}, {}, 0
    d = tempfile.mkdtemp(prefix="frdsv-groups-")
    try:
        while nxt < len(gs) or live:
            while nxt < len(gs) and len(live) < a.jobs:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore", DeprecationWarning)      # this thread is the only one that runs
                    pid = os.fork()
                if pid == 0:
                    try:
                        r = run_one(gs[nxt], a, limit / 2.5)
                        json.dump(r, open(f"{d}/{nxt}.tmp", "w"), default=str)
                        os.rename(f"{d}/{nxt}.tmp", f"{d}/{nxt}.json")
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(1)
                live[pid] = (nxt, time.time())
                nxt += 1
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                time.sleep(0.02)
            now = time.time()
            for q, (i, t) in list(live.items()):
                why = None
                if q == p:
                    why = f"the prover's process ended with {st}"
                elif now - t > 1.6 * limit:
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    why = "the prover's time limit"
                if why is not None:
                    del live[q]
                    f = f"{d}/{i}.json"
                    done[i] = json.load(open(f)) if os.path.exists(f) else dict(
                        group=dict(name=gs[i].name, functions=gs[i].fns, executed=[], used=[], error=why, trace="", results=[]),
                        assumptions={}, exec_s=now - t, solve_s=0, hashes={})
    finally:
        for q in live:
            os.kill(q, signal.SIGKILL)
        shutil.rmtree(d, ignore_errors=True)
    return [(g, done[i]) for i, g in enumerate(gs)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    groups, bounded = registry()
    gs = groups.get(a.pid, [])
    res = dict(has_contracts=bool(gs), groups=[], bounded=bounded.get(a.pid, []), trusted_base=TRUSTED, assumptions=[], backends={}, exec_s=0, solve_s=0, hashes={})
    ass = {}
    limit = 500.0 if a.tier == "thorough" else 150.0
    for g, r in run_all(gs, a, limit):
        res["groups"].append(r["group"])
        ass.update(r["assumptions"])
        for x in r["group"]["results"]:
            if x["status"] == "proved":
                res["backends"][x["backend"]] = res["backends"].get(x["backend"], 0) + 1
        res["exec_s"] = round(res["exec_s"] + r["exec_s"], 3)
        res["solve_s"] = round(res["solve_s"] + r["solve_s"], 3)
        res["hashes"].update(r["hashes"])
        if a.v:
            rg = r["group"]
            print(g.name, "exec %.2fs solve %.2fs" % (r["exec_s"], r["solve_s"]), rg["error"] or "")
            if rg["error"]:
                print(rg["trace"][-700:])
            for x in rg["results"]:
                print("    ", x["status"], x["kind"], x["name"], "|", x["backend"], str(x["detail"])[:300] if x["status"] != "proved" else "")
    res["assumptions"] = sorted(f"{k}: {v}" for k, v in ass.items())
    json.dump(res, open(a.out, "w"), default=str)


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
