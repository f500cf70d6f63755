"""Turn a planted-bug description into /verif/seeded/<id>/ after confirming it on /repo (applied and undone here).

usage: seed.py FILE.py [ID ...]   where FILE.py defines BUGS = {id: dict(property, file, edits=[(old, new)], demo, needs, breaks)}
"""
import json, os, runpy, subprocess, sys
REPO, OUT = "/repo", "/verif/seeded"


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    assert not sh("git", "-C", REPO, "status", "--porcelain", "-uno").stdout.strip(), "/repo not clean"
    for i, b in bugs.items():
        if len(sys.argv) > 2 and i not in sys.argv[2:]:
            continue
        d = f"{OUT}/{i}"
        try:
            for f, old, new in b["edits"]:
                p = f"{REPO}/{f}"
                s = open(p, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(p, "w", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.py", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r = sh("bash", "/opt/vp/build.sh")
            assert r.returncode == 0, r.stdout[-2000:]
            sh("bash", "/opt/vp/test.sh", "/tmp/seeds/t.json")
            t = json.load(open("/tmp/seeds/t.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            lost = base - set(t["passed"])
            bad = sh("bash", d + "/demo.sh", cwd=REPO)
            c = sh("python3", "/verif/check.py", b["property"], "--tier", "quick")
            line = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        sh("bash", "/opt/vp/build.sh")
        good = sh("bash", d + "/demo.sh", cwd=REPO)
        print(i, b["property"], "| tests lost:", sorted(lost), "| demo patched rc", bad.returncode, "clean rc", good.returncode, "| check rc", c.returncode, line[:1], flush=True)
        if good.returncode:
            print(good.stdout[-1500:])
        if not bad.returncode:
            print("   demo does not fail:", bad.stdout[-500:])
        if c.returncode != 1:
            print(c.stdout[-800:])


main()
