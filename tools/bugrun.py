#!/usr/bin/env python3
"""Runs checks against planted bugs: bugrun.py [-a] <bug id>...; with -a all the checks, else that of the bug's property.
Applies the patch to /repo and undoes it straight afterwards."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
only = [a[1:] for a in args if a.startswith("+")]
bugs = [a for a in args if a[0] not in "-+"]
for b in bugs:
    patch = os.path.join(ROOT, "seeded", b, "patch.diff")
    prop = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))["property"]
    props = only or ([f"C{i:02}" for i in range(1, 19)] if every else [prop])
    subprocess.run(["git", "-C", "/repo", "apply", patch], check=True)
    try:
        got = []
        for p in props:
            t = time.time()
            r = subprocess.run([os.path.join(ROOT, "check"), p, "quick"], stdout=subprocess.PIPE, text=True)
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            kind = next((l.strip() for l in r.stdout.splitlines() if l.startswith("  [")), "")
            if r.returncode == 1 and viol:
                got.append(p)
            if p == prop or r.returncode == 2:
                print(f"{b}: {p} rc={r.returncode} {time.time()-t:.0f}s {kind[:230]}")
                if r.returncode == 2:
                    print(r.stdout[-800:])
        print(f"{b} ({prop}): {'CAUGHT' if prop in got else 'missed'}; by {' '.join(got)}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
