#!/usr/bin/env python3
"""For each planted bug: how many lines of the original repository it changes or removes."""
import subprocess, re, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
blame = {}
for i in sorted(os.listdir(f"{root}/seeded")):
    n = own = 0
    f = None
    for l in open(f"{root}/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            if f not in blame:
                blame[f] = [x.split()[0].lstrip("^") for x in subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith("@@"):
            at = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            if first.startswith(blame[f][at - 1]): n += 1
            else: own += 1
            at += 1
        elif f and l.startswith(" "):
            at += 1
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{root}/seeded/{i}/patch.diff"], capture_output=True).returncode == 0
    if n == 0 or not ok or "-v" in sys.argv:
        print(i, "original", n, "own", own, "" if ok else "DOES NOT APPLY")
