#!/usr/bin/env python3
"""mkseed.py SPEC.py : create /verif/seeded/<id>/ from a spec defining id, prop, edits=[(file, old, new)], needs, breaks, main (rust)"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the program beside this script against the textual crates of the current directory and runs it
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
textual = { path = "$REPO/crates/textual" }
tcss = { path = "$REPO/crates/tcss" }
rich = { path = "$REPO/crates/rich" }
tokio = "1"
TOML
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build -q --offline 2>"$T/err" || { cat "$T/err"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["seeds"]:
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    orig = {}
    try:
        for f, old, new, *nth in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            orig.setdefault(p, t)
            assert t.count(old) == 1 or nth, (s["id"], f, t.count(old))
            parts = t.split(old)
            k = nth[0] if nth else 0
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        for p, t in orig.items():
            open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(s["main"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"])
