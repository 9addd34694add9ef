#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (C++ source); writes /verif/seeded/<id>"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(H, "seeded", g["id"]); os.makedirs(d, exist_ok=True)
    for f, old, new in g["edits"]:
        p = os.path.join("/repo", f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    shutil.copy(os.path.join(H, "tools/seedtpl/demo.sh"), d)
    open(os.path.join(d, "demo.cpp"), "w").write(g["demo"])
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(d)
