#!/usr/bin/env python3
"""mkseed.py FILE...  write seeded/<id>/ from plant descriptions (development aid; no check reads seeded/).

A description file is Python defining PLANTS: a list of dicts
  id, property, edits [(file, old, new)], needs, breaks, demo (body of main, or a whole program).
The patch is made in a scratch copy of /repo's HEAD.
"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = open(os.path.join(V, "tools", "demo_prelude.rs")).read()
SH = open(os.path.join(V, "tools", "demo.sh")).read()
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    for p in ns["PLANTS"]:
        d = os.path.join(V, "seeded", p["id"])
        t = tempfile.mkdtemp()
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in p["edits"]:
            s = open(f"{t}/r/{f}").read()
            assert s.count(old) == 1, (p["id"], f, s.count(old), old)
            open(f"{t}/r/{f}", "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
        shutil.rmtree(t)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        body = p["demo"]
        if "fn main" not in body:
            body = "fn main() {\n" + body + "\n}\n"
        open(d + "/demo.rs", "w").write(PRE + body)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print(p["id"])
