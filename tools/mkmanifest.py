"""Writes MANIFEST.json: one check per property with contracts or runtime checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = {
}
notes = json.load(open(HERE + "/tools/levels.json")) if os.path.exists(HERE + "/tools/levels.json") else {}
claimed = sys.argv[1:] or notes.get("claimed", [])
checks, na = [], []
DEF = "Contracts on the real functions, re-extracted from /repo on every run; every obligation discharged by normal forms, induction, z3 or cvc5 for all inputs and lengths, over the reals. Assumes the listed numpy/scipy contracts; failed obligations are replayed on the freshly built code, which is also run against the executable contract to validate the extraction."
for p in props:
    i = p["id"]
    if i in NA or i not in claimed:
        na.append(dict(property=i, reason=NA.get(i, "No contract built yet.")))
        continue
    n = notes.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"python3 /verif/check.py {i} --tier quick", thorough_cmd=f"python3 /verif/check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=n.get("technique", "contract-based deductive verification (symbolic extraction, induction, SMT)"),
                       level=n.get("level", "proof"), level_note=n.get("note", DEF)))
json.dump(dict(version=1, setup_cmd="python3 /verif/tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks were added to /repo: the code is extracted and built as it is."), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
