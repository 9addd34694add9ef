#!/usr/bin/env python3
"""developer helper: mut.py PROP[,PROP] TIME file old new [file old new ...]  - applies a textual mutation to /repo, runs the
checks, undoes it"""
import subprocess, sys, os
props, t = sys.argv[1].split(","), sys.argv[2]
a = sys.argv[3:]
assert not subprocess.run("git -C /repo status --porcelain --untracked-files=no", shell=True, capture_output=True, text=True).stdout.strip()
try:
    for i in range(0, len(a), 3):
        p = a[i] if os.path.exists(a[i]) else subprocess.run("git -C /repo ls-files | grep -F '%s' | grep -v test" % a[i], shell=True, capture_output=True, text=True).stdout.split("\n")[0]
        p = os.path.join("/repo", p)
        s = open(p).read()
        if s.count(a[i+1]) < 1:
            print("NOT FOUND", p, repr(a[i+1])); sys.exit(2)
        open(p, "w").write(s.replace(a[i+1], a[i+2], 1))
    for pr in props:
        r = subprocess.run(["python3", "/verif/run.py", "check", pr, "--time", t], capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).split("\n") if "VIOL" in l or "violated" in l or "error" in l or "cases" in l]
        print(pr, "rc", r.returncode, " | ".join(out)[:400])
finally:
    subprocess.run("git -C /repo checkout -- .", shell=True)
