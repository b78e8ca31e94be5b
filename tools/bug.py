#!/usr/bin/env python3
"""bug.py ID: validate seeded/ID in a scratch copy of /repo: builds, passes the stable tests, demo fails with it and passes without.
bug.py --check ID [PROP..]: apply it to /repo, run the checks of its property (or PROP..), undo."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.rs against /repo in a scratch directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
if [ -f /repo/Cargo.lock ]; then cp /repo/Cargo.lock "$d/"; else cp /opt/vp/Cargo.lock "$d/"; fi
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bellframe = { path = "/repo", default-features = false, features = ["serde", "method_lib_serde"] }
serde_json = "1.0"
[workspace]
T
cd "$d"
export CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true
cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    if sys.argv[1] == "--check":
        i = sys.argv[2]; d = os.path.join(V, "seeded", i)
        props = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
        assert sh("git -C /repo status --porcelain").stdout == ""
        print(sh("git -C /repo apply " + d + "/patch.diff").stdout)
        try:
            for p in props:
                r = sh("timeout 900 ./check %s" % p, cwd=V)
                print("%s on %s: exit %d\n%s" % (p, i, r.returncode, r.stdout[-1500:]), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
        return
    for i in sys.argv[1:]:
        d = os.path.join(V, "seeded", i)
        if not os.path.exists(d + "/demo.sh"):
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        ok0 = r.returncode == 0
        if not ok0: print(i, "demo fails on the unchanged tree:", r.stdout[-1500:])
        # as root the demo uses /repo itself, so the patch is applied there for a moment
        assert sh("git -C /repo status --porcelain").stdout == ""
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: print(i, "does not apply", a.stdout); continue
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/bugtest.json")
            res = json.load(open("/tmp/bugtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
        finally:
            sh("git -C /repo checkout -- .")
        need = base.get("stable") or base.get("passed") or base
        passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else {k for k, v in res.items() if v in ("passed", True, "pass")}
        miss = [x for x in need if x not in passed] if isinstance(need, list) else "?"
        print(i, "build", b.returncode, "tests missing", miss if miss == "?" else miss[:5], "demo without", ok0, "demo with patch exit", r.returncode, r.stdout.strip().splitlines()[-3:])
main()
