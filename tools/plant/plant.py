#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py and the demonstrations in this folder, and confirms each
planted bug in a scratch copy of /repo: it applies, builds, passes the tests, and its demonstration
passes without and fails with it.   plant.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from bugs import BUGS

DEMO = """#!/bin/bash
# Exit 0: the property holds on this demonstration's input; anything else: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
export PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ntfs = { path = "$repo"%(features)s }
[profile.dev]
overflow-checks = false
debug-assertions = false
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 9
CARGO_TARGET_DIR="$work/target" timeout 250 cargo build --offline -q || exit 9
timeout 40 "$work/target/debug/demo"
"""

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="plant.")
    copy = os.path.join(scratch, "repo")
    try:
        assert sh(["git", "clone", "-q", "/repo", copy]).returncode == 0
        shutil.copy("/repo/Cargo.lock", copy)
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], copy).stdout.strip()
        env = dict(os.environ, PATH="/usr/local/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        bad = 0
        for bug in BUGS:
            if want and bug["id"] not in want:
                continue
            sh(["git", "checkout", "-q", "--", "."], copy)
            problems = []
            for f, old, new in bug["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    problems.append(f"{f}: {s.count(old)} matches of {old[:60]!r}")
                    continue
                # the changed lines must be original ones
                line = s[:s.index(old)].count("\n") + 1
                n = old.count("\n") + 1
                bl = sh(["git", "blame", "-s", "-l", "-L", f"{line},+{n}", f], copy).stdout.splitlines()
                changed = set(old.splitlines()) - set(new.splitlines())
                for b, o in zip(bl, s.splitlines()[line - 1:line - 1 + n]):
                    h = b.split()[0].lstrip("^")
                    if any(c.strip() and c.strip() in o for c in changed) and not base.startswith(h[:30]):
                        problems.append("changes a line of a fix: " + o.strip())
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "diff"], copy).stdout
            d = os.path.join(verif, "seeded", bug["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(here, "mini.rs"), d)
            shutil.copy(os.path.join(here, "demos", bug.get("demo", bug["id"]) + ".rs"), os.path.join(d, "main.rs"))
            feat = bug.get("features")
            feat = "" if feat is None else f", default-features = false, features = {json.dumps(feat)} }}\nbinrw = {{ version = \"0.12.0\", default-features = false"
            if bug.get("demo_sh"):
                shutil.copy(os.path.join(here, "demos", bug["demo_sh"]), os.path.join(d, "demo.sh"))
            else:
                open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"features": feat})
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            t = sh(["cargo", "test", "--workspace", "--all-features", "--offline"], copy, env=env)
            if t.returncode or "15 passed" not in t.stdout:
                problems.append("tests: " + t.stdout[-1500:])
            t = sh(["cargo", "build", "--no-default-features", "--offline"], copy, env=env)
            if t.returncode:
                problems.append("no_std build: " + t.stdout[-800:])
            t = sh(["bash", os.path.join(d, "demo.sh")], copy)
            patched = t.returncode
            if patched in (0, 9) or "error[" in t.stdout:
                problems.append(f"demo with patch: {patched} {t.stdout[-2500:]}")
            tail = t.stdout.strip().splitlines()
            tail = next((l for l in tail if "panicked" not in l and l.strip()), "")[:110]
            if sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], "/repo").returncode:
                problems.append("does not apply")
            sh(["git", "checkout", "-q", "--", "."], copy)
            t = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if t.returncode:
                problems.append(f"demo without patch: {t.returncode} {t.stdout[-2500:]}")
            print(("BAD " if problems else "ok  ") + bug["id"], bug["property"], tail)
            for p in problems:
                bad = 1
                print("     ", p)
            sys.stdout.flush()
        return bad
    finally:
        sh(["find", scratch, "-delete"])

sys.exit(main())
