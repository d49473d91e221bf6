#!/usr/bin/env python3
"""mkbug.py SPEC.py: SPEC defines id, property, needs, breaks, file, edits [(old, new)], demo {name: text}.
Writes /verif/seeded/<id>/."""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    files = b["edits"]
    for path, eds in files.items():
        p = "/repo/" + path
        s = open(p).read()
        for old, new in eds:
            assert s.count(old) == 1, (b["id"], path, old, s.count(old))
            s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    for n, t in b["demo"].items(): open(d + "/" + n, "w").write(t)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"], len(diff.splitlines()))
