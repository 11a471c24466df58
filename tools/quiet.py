#!/usr/bin/env python3
"""Runs the checks against harmless changes: quiet.py <refactoring id>... [+C01 ...]; all the checks have to stay quiet."""
import os, runpy, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = [a[1:] for a in sys.argv[1:] if a.startswith("+")] or [f"C{i:02}" for i in range(1, 19)]
for r in [a for a in sys.argv[1:] if a[0] != "+"]:
    edits = runpy.run_path(os.path.join(ROOT, "tools", "refactors", r + ".py"))["EDITS"]
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (r, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/quiet-target cargo test --offline --all-features 2>&1 | tail -40",
                           shell=True, stdout=subprocess.PIPE, text=True, cwd="/repo").stdout
        print(r, "tests", "13 passed" in t)
        if "13 passed" not in t:
            print(t)
            if "error[" in t:
                continue
        for c in only:
            q = subprocess.run([os.path.join(ROOT, "check"), c, "quick"], stdout=subprocess.PIPE, text=True)
            k = [l for l in q.stdout.splitlines() if l.startswith("KNOWN")]
            if q.returncode or k:
                print(f"{r}: {c} rc={q.returncode} {k}\n{q.stdout[-1500:] if q.returncode else ''}", flush=True)
        print(r, "done", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
