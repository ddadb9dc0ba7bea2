#!/usr/bin/env python3
"""Development tool: mkseed.py FILE.py, where FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits, rust|sh)].
Writes /verif/seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RS_DEMO = r'''#!/bin/bash
# Builds a small program against the repository in the current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/c/src" "$w/home" "$w/tmp" "$w/data" "$w/config" "$w/cache" "$w/state" "$w/work"
cp "$here/main.rs" "$w/c/src/main.rs"
cp "$repo/Cargo.lock" "$w/c/Cargo.lock"
cat > "$w/c/Cargo.toml" <<EOF
[package]
name = "seeddemo"
version = "0.1.0"
edition = "2024"
[workspace]
resolver = "2"
[dependencies]
doge-shell = { path = "$repo/dsh" }
dsh-builtin = { path = "$repo/dsh-builtin" }
dsh-types = { path = "$repo/dsh-types" }
dsh-frecency = { path = "$repo/dsh-frecency" }
anyhow = "1"
serde_json = "1.0"
parking_lot = "0.12"
tokio = { version = "1.0", features = ["rt-multi-thread", "macros", "fs", "net", "time", "process", "signal", "io-std"] }
rusqlite = { version = "0.39", features = ["bundled"] }
crossterm = { version = "0.29", features = ["event-stream"] }
axum = { version = "0.7", features = ["tokio"] }
nix = { version = "0.31.1", features = ["signal", "fs", "term", "ioctl", "process", "hostname"] }
[profile.dev]
debug = 0
lto = false
split-debuginfo = "unpacked"
EOF
(cd "$w/c" && CARGO_TARGET_DIR="$repo/target" cargo build --offline >"$w/build.log" 2>&1) || { tail -20 "$w/build.log"; exit 3; }
cp "$repo/target/debug/seeddemo" "$w/seeddemo"
cd "$w/work" && HOME="$w/home" TMPDIR="$w/tmp" XDG_DATA_HOME="$w/data" XDG_CONFIG_HOME="$w/config" \
  XDG_CACHE_HOME="$w/cache" XDG_STATE_HOME="$w/state" timeout 120 "$w/seeddemo"
'''

SH_HEAD = r'''#!/bin/bash
# Runs the shell built from the current directory inside a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dsh=$repo/target/debug/dsh
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/home" "$w/tmp" "$w/data" "$w/config" "$w/cache" "$w/state" "$w/work"
export HOME="$w/home" TMPDIR="$w/tmp" XDG_DATA_HOME="$w/data" XDG_CONFIG_HOME="$w/config" XDG_CACHE_HOME="$w/cache" XDG_STATE_HOME="$w/state"
cd "$w/work"
'''

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(t, "r", f)
        x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "rust" in s:
        open(d + "/main.rs", "w").write(s["rust"])
        open(d + "/demo.sh", "w").write(RS_DEMO)
    else:
        open(d + "/demo.sh", "w").write(SH_HEAD + s["sh"])
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(t)
    print("wrote", d)
