#!/usr/bin/env python3
"""Catch matrix of the planted bugs, on scratch copies of /repo and of the harness: matrix.py [-n cases] <bug id | file.diff>...
Only the optimised build with all features is used, with a part of the quick workload; digests among builds aren't compared."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MATRIX_DIR", "/tmp/vx")
SIZES = {"C13": 1200, "C14": 1500, "C15": 1500, "C16": 1000, "C18": 500}
args = sys.argv[1:]
n = 3000
if args[:1] == ["-n"]:
    n = int(args[1]); args = args[2:]
profile = os.environ.get("MATRIX_PROFILE", "release")
os.makedirs(W, exist_ok=True)
for d in ("repo", "harness"):
    shutil.rmtree(os.path.join(W, d), ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
shutil.copytree(ROOT + "/harness", W + "/harness", ignore=shutil.ignore_patterns("target"))
p = W + "/harness/Cargo.toml"
s = open(p).read()
assert "/repo" in s
open(p, "w").write(s.replace('"/repo', f'"{W}/repo'))
for b in args:
    patch = b if b.endswith(".diff") else os.path.join(ROOT, "seeded", b, "patch.diff")
    meta = os.path.join(os.path.dirname(patch), "meta.json")
    own = json.load(open(meta))["property"] if os.path.exists(meta) else "?"
    subprocess.run(["git", "-C", W + "/repo", "checkout", "-q", "--", "."], check=True)
    if b != "none":
        subprocess.run(["git", "-C", W + "/repo", "apply", os.path.abspath(patch)], check=True)
    for f in os.listdir(W + "/repo/src"):
        os.utime(W + "/repo/src/" + f)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--no-default-features", "--features", "cfg-all",
                        "--manifest-path", p, "--target-dir", W + "/target"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(b, "DOES NOT BUILD", r.stdout[-1500:]); continue
    got, kinds = [], {}
    for i in range(1, 19):
        c = f"C{i:02}"
        k = SIZES.get(c, n) * n // 3000
        r = subprocess.run([f"{W}/target/{profile}/rgbmon", "check", c, "--from", "1000", "--to", str(1000 + k), "--limit", "100"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=W)
        if r.returncode:
            got.append(c)
            try:
                kinds[c] = json.loads(r.stdout)["reports"][0]["kind"]
            except (ValueError, KeyError, IndexError):
                kinds[c] = f"status {r.returncode}"
    print(f"{b} ({own}): {'own ' if own in got else 'NOT OWN '}", " ".join(f"{c}:{kinds[c]}" for c in got), flush=True)
