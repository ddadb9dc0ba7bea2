#!/usr/bin/env python3
"""Development tool: validates planted bugs in a scratch copy (/tmp/sr) and runs the property's check on it.
usage: seedtest.py [--nocheck] [--notests] ID...   No check uses this file."""
import json, os, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
SR = os.environ.get("SR", "/tmp/sr")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sync():
    sh("rsync -rlpgoD --checksum --delete --exclude /target --exclude /.git /repo/ %s/ && cd %s && git fetch -q /repo HEAD && git reset -q --soft FETCH_HEAD; git reset -q; git checkout -q -- ." % (SR, SR))


def build():
    return sh(". /opt/vp/env.sh; cd %s && cargo test --workspace --lib --bins --tests --no-run --offline --locked" % SR)


def tests():
    r = sh(""". /opt/vp/env.sh; cd %s; T=%s/target/tw; rm -rf $T; mkdir -p $T/home $T/tmp; export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup HOME=$T/home TMPDIR=$T/tmp
rm -f target/nextest/vp/junit.xml
cargo nextest run --workspace --lib --bins --tests --offline --locked -E "not binary(=redirection)" --tool-config-file vp:/opt/vp/nextest.toml --profile vp --no-fail-fast --test-threads 8 < /dev/null
python3 /opt/vp/results.py $T/out.json junit:%s/target/nextest/vp/junit.xml; cp $T/out.json /tmp/seed-out.json""" % (SR, SR, SR))
    o = json.load(open("/tmp/seed-out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(o["passed"]))


def demo(d):
    return sh(". /opt/vp/env.sh; cd %s && timeout 300 bash %s/demo.sh" % (SR, d))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for a in args:
        d = os.path.join(V, "seeded", a)
        meta = json.load(open(d + "/meta.json"))
        sync()
        if "--nodemo" not in sys.argv:
            b = build()
            assert b.returncode == 0, b.stdout[-2000:]
            r = demo(d)
            print(a, "demo on clean tree:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
        ap = sh("cd %s && git apply %s/patch.diff" % (SR, d))
        assert ap.returncode == 0, ap.stdout
        b = build()
        if b.returncode:
            print(a, "DOES NOT BUILD", b.stdout[-3000:]); continue
        if "--notests" not in sys.argv:
            print(a, "stable tests broken:", tests(), flush=True)
        if "--nodemo" not in sys.argv:
            r = demo(d)
            print(a, "demo on patched tree:", r.returncode, r.stdout[-300:].strip().replace("\n", " | "), flush=True)
        if "--nocheck" not in sys.argv:
            t = time.time()
            r = sh("cd %s && VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py %s quick" % (V, SR, meta["property"]))
            print(a, "check:", r.returncode, "%.0fs" % (time.time() - t), [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("TOOL")], flush=True)
            if r.returncode != 1:
                print(r.stdout[-1500:])
        sync()


main()
