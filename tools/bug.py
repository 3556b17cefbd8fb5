#!/usr/bin/env python3
"""Development aid: planted bugs under seeded/ (no check uses this).

  bug.py pack ID PROPERTY "needs" "breaks"   patch from the edits in /tmp/bug, demo from /tmp/demo.rs
  bug.py test ID...                            demo without/with the patch, and the property's check
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = r'''#!/bin/bash
# Builds the crate in the current directory against models of its unfetchable dependencies and runs demo.rs.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
tar xzf "$D/models.tgz" -C "$W" || exit 3
mkdir -p "$W/demo/src" && cp "$D/demo.rs" "$W/demo/src/main.rs"
sed -i "s#/repo/src/lib.rs#$R/src/lib.rs#" "$W/stark/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS
cd "$W/demo" && cargo build --offline -q 2> "$W/log" || { tail -20 "$W/log"; exit 3; }
timeout 120 "$W/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def models():
    w = "/tmp/models"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/demo/src")
    shutil.copytree(HERE + "/shim", w + "/shim", ignore=shutil.ignore_patterns("target"))
    os.makedirs(w + "/stark")
    t = open(HERE + "/stark/Cargo.toml").read().split("[dev-dependencies]")[0]
    t = t.replace("[workspace]\n", "")
    open(w + "/stark/Cargo.toml", "w").write(t)
    open(w + "/demo/Cargo.toml", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lambdaworks-stark = { path = "../stark" }
lambdaworks-math = { path = "../shim/math" }
lambdaworks-crypto = { path = "../shim/crypto" }
bincode = { path = "../shim/bincode" }
cairo-vm = { path = "../shim/cairo-vm", features = ["cairo-1-hints"] }
sha3 = "0.10"
''')
    if os.path.exists(HERE + "/tools/demo.lock"):
        shutil.copy(HERE + "/tools/demo.lock", w + "/demo/Cargo.lock")
    return w


def pack(i, prop, needs, breaks):
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    patch = subprocess.run("git -C /tmp/bug diff", shell=True, text=True, stdout=subprocess.PIPE).stdout
    assert patch.strip(), "no change in /tmp/bug"
    open(d + "/patch.diff", "w").write(patch)
    shutil.copy("/tmp/demo.rs", d + "/demo.rs")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    w = models()
    sh("tar czf %s/models.tgz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C %s ." % (d, w))
    sh("git -C /tmp/bug checkout -- .")


def test(ids):
    for i in ids:
        d = os.path.join(SEED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
        a = sh(d + "/demo.sh", cwd="/repo")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "patch does not apply", r.stdout)
            continue
        try:
            build = sh("bash /opt/vp/build.sh")
            b = sh(d + "/demo.sh", cwd="/repo")
            c = sh("python3 check.py %s" % prop, cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        finally:
            sh("git -C /repo checkout -- .")
        caught = c.returncode == 1 and ("VIOLATION property=%s" % prop) in c.stdout
        print("%-28s %s build=%d demo clean=%d patched=%d check=%d %s" % (
            i, prop, build.returncode, a.returncode, b.returncode, c.returncode, "CAUGHT" if caught else "MISSED"), flush=True)
        if a.returncode:
            print("   clean demo:", a.stdout[-800:])
        print("   patched demo:", b.stdout.strip()[-200:].replace("\n", " | "))
        if not caught:
            print("   check:", c.stdout[-1500:])
        else:
            print("   check:", [l for l in c.stdout.splitlines() if l.startswith("  ")][:2])


if sys.argv[1] == "models":  # refresh every demo's models
    w = models()
    for i in sorted(os.listdir(SEED)):
        sh("tar czf %s/%s/models.tgz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C %s ." % (SEED, i, w))
elif sys.argv[1] == "pack":
    pack(*sys.argv[2:6])
else:
    test(sys.argv[2:] if len(sys.argv) > 2 else sorted(os.listdir(SEED)))
