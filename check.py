#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: every proof obligation generated from /repo's current source must be
discharged; failed ones are replayed on the real code (built from the same tree).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FRDSV_REPO", "/repo")
RTPY = "/opt/venv/bin/python"
VTPY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
NOINPUT = " no-failing-input-found"


def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return "timeout", o


def scratch_tree(d):
    """Copy of the sources with freshly compiled extensions."""
    os.makedirs(d + "/tree")
    for f in ("setup.py", "pyproject.toml", "setup.cfg", "README.md", "LICENSE", "MANIFEST.in"):
        if os.path.exists(f"{REPO}/{f}"):
            shutil.copy(f"{REPO}/{f}", d + "/tree/")
    shutil.copytree(REPO + "/src", d + "/tree/src", ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.egg-info", "*.o"))
    rc, out = sh([RTPY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "3"], 600, cwd=d + "/tree")
    if rc != 0:
        print(out)
        print("ERROR: the extensions of the current tree do not build")
        return None
    return d + "/tree/src"


def run_runtime(pid, src, seed, tier, d, tag, scale=1.0, budget=150, replay=None, limit=420):
    out, prog = f"{d}/rt-{tag}.json", f"{d}/prog-{tag}.json"
    cmd = [RTPY, "-m", "frdsv_rt", pid, "--seed", str(seed), "--tier", tier, "--out", out, "--progress", prog, "--scale", str(scale), "--budget", str(budget)]
    if replay:
        cmd += ["--replay", replay]
    rc, log = sh(cmd, limit, env={"PYTHONPATH": src + os.pathsep + HERE, "FRDSV_SRC": src}, cwd=d)
    if os.path.exists(out) and rc == 0:
        return json.load(open(out))
    if os.path.exists(prog) and (rc == "timeout" or (isinstance(rc, int) and rc < 0)):
        try:
            p = json.load(open(prog))
            p["message"] = "does not terminate" if rc == "timeout" else f"the process died (signal {-rc})"
            return dict(evaluations=1, distinct=1, skipped=0, violations=[p], samples=[], checks={}, truncated=False, crashed=True)
        except ValueError:
            pass
    return dict(error=f"runtime harness failed ({rc}): {log[-2000:]}")


def run_proof(pid, seed, tier, d, limit):
    out = f"{d}/proof.json"
    rc, log = sh([VTPY, "-m", "frdsv.prove", pid, "--seed", str(seed), "--tier", tier, "--out", out], limit,
                 env={"PYTHONHASHSEED": "0", "PYTHONPATH": HERE, "FRDSV_SRC": REPO + "/src"}, cwd=HERE)
    if os.path.exists(out):
        try:
            r = json.load(open(out))
            if rc != 0:
                r["incomplete"] = f"prover ended with {rc}"
            return r
        except ValueError:
            pass
    return dict(groups=[], incomplete=f"prover ended with {rc}: {log[-1500:]}")


def findings():
    known, fixed = [], []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                known.append(l[6:].strip())
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid, tier, seed = a.pid, a.tier, a.seed
    t0 = time.time()
    d = tempfile.mkdtemp(prefix=f"frdsv-{pid}-")
    try:
        return decide(pid, tier, seed, a.replay, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(pid, tier, seed, replay, d, t0):
    from concurrent.futures import ThreadPoolExecutor
    if replay:
        src = scratch_tree(d)
        r = run_runtime(pid, src, seed, tier, d, "replay", replay=replay)
        print(json.dumps(r.get("violations") or r, indent=1)[:4000])
        return 1 if r.get("violations") else 0
    thorough = tier == "thorough"
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev_path = f"{HERE}/evidence/{pid}.json"
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(run_proof, pid, seed, tier, d, 1500 if thorough else 420)
        src = scratch_tree(d)
        if src is None:
            return 2
        rt = run_runtime(pid, src, seed, tier, d, "main", budget=900 if thorough else 150, limit=1500 if thorough else 420)
        proof = fp.result()
    if "error" in rt:
        print(rt["error"])
        return 2
    obs = [dict(o, group=g["name"]) for g in proof["groups"] for o in g["results"]]
    errors = [(g["name"], g["error"]) for g in proof["groups"] if g.get("error")]
    refuted = [o for o in obs if o["status"] == "refuted"]
    unknown = [o for o in obs if o["status"] == "unknown"]
    discharged = [o for o in obs if o["status"] == "proved"]
    incomplete = bool(errors or unknown or proof.get("incomplete") or (not obs and proof.get("has_contracts")))
    # obligations that were not discharged: search the real code harder
    extra = None
    if (refuted or incomplete) and not rt["violations"]:
        left = 800 - (time.time() - t0)
        if left > 60:
            extra = run_runtime(pid, src, seed + 7919, tier, d, "extra", scale=4.0, budget=min(240, left - 30), limit=min(420, left))
            if extra.get("violations"):
                rt["violations"] = extra["violations"]
    lines, nviol = [], 0
    rdir = HERE + "/evidence/replays"
    if rt["violations"] or refuted:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(rt["violations"]):
        nviol += 1
        p = f"{rdir}/{pid}-{i}.json"
        json.dump(dict(property=pid, check=v["check"], inputs=v["inputs"], message=v["message"],
                       failed_obligations=[dict(group=o["group"], name=o["name"], status=o["status"]) for o in refuted + unknown],
                       how=f"python3 /verif/check.py {pid} --replay {p}"), open(p, "w"), indent=1, default=str)
        print(f"{pid}: {v['check']}: {v['message']}")
        lines.append(f"VIOLATION property={pid} replay={p}")
    if refuted and not rt["violations"]:
        nviol += 1
        p = f"{rdir}/{pid}-obligation.json"
        json.dump(dict(property=pid, failed_obligations=refuted, note="the verifier's counterexample falsifies the obligation; no failing input was found on the real code"),
                  open(p, "w"), indent=1, default=str)
        for o in refuted[:5]:
            print(f"{pid}: obligation failed: {o['group']}: {o['name']}")
        lines.append(f"VIOLATION property={pid} replay={p}{NOINPUT}")
    for g, e in errors:
        print(f"{pid}: UNDECIDED {g}: {e} (outside the verifier's reach in this tree; bounded check only)")
    for o in unknown:
        print(f"{pid}: UNDECIDED obligation {o['group']}: {o['name']} (neither proved nor refuted; bounded check only)")
    if proof.get("incomplete"):
        print(f"{pid}: UNDECIDED {proof['incomplete']}")
    bounded = proof.get("bounded", [])
    funcs = sorted({f for g in proof["groups"] for f in g["functions"]})
    level = "proof" if proof.get("has_contracts") else "exploration"
    cov = dict(
        obligations=len(obs) + len(errors) + (1 if proof.get("incomplete") else 0), discharged=len(discharged),
        checker_cmd=f"python3 /verif/check.py {pid}",
        trusted_base=proof.get("trusted_base", []),
        functions_under_contract=funcs,
        functions_extracted_and_executed=sorted({f for g in proof["groups"] for f in g.get("executed", [])}),
        callee_contracts_used=sorted({f for g in proof["groups"] for f in g.get("used", [])}),
        sources=proof.get("hashes", {}),
        discharged_by=proof.get("backends", {}), extraction_s=proof.get("exec_s", 0), solver_s=proof.get("solve_s", 0),
        obligation_list=[dict(group=o["group"], name=o["name"], kind=o["kind"], status=o["status"], by=o["backend"]) for o in obs],
        not_extracted=[dict(group=g, reason=e) for g, e in errors],
        bounded_only=bounded,
        evaluations=rt["evaluations"] + ((extra or {}).get("evaluations") or 0), distinct_nontrivial=rt["distinct"] + ((extra or {}).get("distinct") or 0),
        rule="concrete runs of the real code against the executable contract: replay of failed obligations, validation of the extraction, bounded stand-in where listed under bounded_only; inputs drawn from VERIF_SEED, distinct = different inputs within the precondition",
        samples=rt["samples"], runs_per_check=rt["checks"], truncated=rt.get("truncated", False))
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
                   assumptions=proof.get("assumptions", []), violations=nviol), open(ev_path, "w"), indent=1, default=str)
    print(f"{pid}: {len(discharged)}/{cov['obligations']} obligations discharged, {cov['evaluations']} concrete runs, {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
