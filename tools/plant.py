#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/bugs/<id>.py: makes the patch in a scratch copy of /repo, and confirms that it compiles,
passes the existing tests, and that the demonstration passes without and fails with it.

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], MAIN (main.rs of the demo), optional FLAGS."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(ROOT, "tools", "kit")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(bid):
    b = runpy.run_path(os.path.join(ROOT, "tools", "bugs", bid + ".py"))
    tmp = tempfile.mkdtemp(prefix="rgb-plant.", dir="/tmp")
    try:
        work = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {work}")
        d = os.path.join(ROOT, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        for f in ("kit.rs", "Cargo.toml.in", "Cargo.lock"):
            shutil.copy(os.path.join(KIT, f), d)
        demo = open(os.path.join(KIT, "demo.sh")).read()
        if b.get("FLAGS"):
            demo = demo.replace("${DEMO_FLAGS:-}", b["FLAGS"])
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        main = b["MAIN"].lstrip("\n")
        open(os.path.join(d, "main.rs"), "w").write(main)
        json.dump(dict(property=b["PROPERTY"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=work)
        for f, old, new in b["EDITS"]:
            p = os.path.join(work, f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=work).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        t = sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/plant-target cargo test --offline --all-features 2>&1 | tail -30", cwd=work)
        b0 = sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/plant-target cargo build --offline 2>&1 | tail -30", cwd=work)
        r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=work)
        ok = r0.returncode == 0 and "13 passed; 0 failed" in t.stdout and b0.returncode == 0 and r1.returncode not in (0, 98, 99)
        print(f"{bid}: {'ok' if ok else 'BAD'} demo {r0.returncode} -> {r1.returncode}; {r1.stdout.strip()[-200:]}")
        if not ok:
            print(r0.stdout[-3000:], t.stdout[-3000:], b0.stdout[-500:])
        return ok
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    res = [plant(x) for x in sys.argv[1:]]
    sys.exit(0 if all(res) else 1)
