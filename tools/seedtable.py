"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
t = "| Bug | Caught by | What it breaks | Needs |\n|---|---|---|---|\n" + "\n".join(rows)
p = HERE + "/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"\| Bug \| Caught by.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
