#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py...
A spec defines id, prop, edits=[(file, old, new)], needs, breaks, demo (Rust
source of a main that panics when the bug shows), features (list). The bug is
kept when it builds, passes the stable tests and the demo tells the trees apart.
Works in the scratch copy /tmp/seedwork (made when absent)."""
import json, os, subprocess, sys, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = os.path.normpath(V)
W = "/tmp/seedwork"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# cwd: the repository. 0 = behaves, nonzero = broken.
here=$(cd "$(dirname "$0")" && pwd)
work=/tmp/vh-demo-{id}
rm -rf /tmp/vh-demo-{id}
mkdir -p "$work/src" || exit 0
trap 'rm -rf /tmp/vh-demo-{id}' EXIT
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
image = {{ path = "$PWD", default-features = false, features = [{feat}] }}
{deps}
[profile.dev]
debug = false
{profile}
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
cargo build --offline -q --manifest-path "$work/Cargo.toml" > "$work/log" 2>&1 || {{ tail -n 20 "$work/log"; exit 3; }}
cd "$work" && timeout 120 ./target/debug/demo
'''
def ensure():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(W):
        print("copying"); sh(f"cp -a /repo {W}")
    sh(f"git -C {W} checkout -q -f . && git -C {W} fetch -q /repo && git -C {W} checkout -q --detach {head}")
    assert sh(f"git -C {W} rev-parse HEAD").stdout.strip() == head
def tests():
    out = "/tmp/seedwork-tests.json"
    env = open("/opt/vp/env.sh").read().replace("/repo", W)
    s = env + f'''
LOG={W}/target/vp-test.log
cargo test --workspace --no-fail-fast --offline --lib --bins --tests --features "$FEATURES" -- --test-threads 8 > "$LOG" 2>&1
cargo test --workspace --no-fail-fast --offline --doc --features "$FEATURES" -- --test-threads 8 >> "$LOG" 2>&1
python3 /opt/vp/results.py {out} "cargo:$LOG"
'''
    p = "/tmp/seedwork-test.sh"; open(p, "w").write(s)
    r = sh(f"bash {p}")
    try:
        j = json.load(open(out))
    except Exception:
        print(r.stdout[-2000:]); return ["no results"]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(j.get("passed", [])) if isinstance(j.get("passed"), list) else {k for k, v in j.items() if v in ("pass", "passed", True)}
    return sorted(stable - passed)
def main():
    ensure()
    for spec in sys.argv[1:]:
        g = {"features": [], "deps": "", "profile": ""}
        exec(open(spec).read(), g)
        i = g["id"]; d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        sh(f"git -C {W} checkout -q -f .")
        bad = False
        for f, a, b in g["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(a) != 1:
                print(i, "edit matches", t.count(a), "times:", f, a[:60]); bad = True; continue
            open(f"{W}/{f}", "w").write(t.replace(a, b))
        if bad:
            shutil.rmtree(d); continue
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
        open(f"{d}/main.rs", "w").write(g["demo"])
        shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/Cargo.lock")
        open(f"{d}/demo.sh", "w").write(DEMO.format(id=i, feat=", ".join('"%s"' % x for x in g["features"]), deps=g["deps"], profile=g["profile"]))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r1 = sh(f"bash {d}/demo.sh", cwd=W)
        sh(f"git -C {W} checkout -q -f .")
        r0 = sh(f"bash {d}/demo.sh", cwd=W)
        print(i, "demo: clean", r0.returncode, "patched", r1.returncode, r1.stdout.strip()[-160:].replace("\n", " | "))
        if r0.returncode != 0: print(r0.stdout[-1500:])
        if r0.returncode != 0 or r1.returncode in (0, 3):
            print("  NOT KEPT"); os.rename(d, f"/tmp/rejected-{i}-{os.getpid()}"); continue
        sh(f"git -C {W} apply {d}/patch.diff")
        lost = tests()
        sh(f"git -C {W} checkout -q -f .")
        if lost:
            print("  stable tests lost:", lost[:5], "NOT KEPT"); os.rename(d, f"/tmp/rejected-{i}-{os.getpid()}"); continue
        print("  kept")
main()
