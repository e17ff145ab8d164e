#!/usr/bin/env python3
"""Development tool (no check uses it): validate a planted bug in a scratch copy and keep it in seeded/.

A bug is a directory /tmp/s/new/<id>/ with edit.json ({"property","needs","what_it_breaks","edits":[[file,old,new],...]})
and main.rs (the demonstration: exits 0 on the unchanged tree, non-zero with the bug).
usage: plant.py <id>... | --check <id>...   (--check: apply to /repo, run the property's check, undo)
"""
import json, os, shutil, subprocess, sys

V = "/verif"
S = "/tmp/s"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target")
DEMO = r'''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
perf-event-data = { path = "$repo" }
perf-event-open-sys2 = "5.0.3"
[workspace]
END
cd "$t" || exit 3
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    sh(f"git -C /repo archive HEAD | tar x -C {dst}; cp /repo/Cargo.lock {dst}/; cd {dst} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")


def lock():
    """A lock file for the demo crate."""
    out = V + "/dev/demo.lock"
    if not os.path.exists(out):
        t = S + "/lock"
        os.makedirs(t + "/src", exist_ok=True)
        open(t + "/src/main.rs", "w").write("fn main(){}")
        open(t + "/Cargo.toml", "w").write('[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nperf-event-data={path="/repo"}\nperf-event-open-sys2="5.0.3"\n[workspace]\n')
        shutil.copy(V + "/harness/Cargo.lock", t + "/Cargo.lock")
        print(sh("cargo build --offline", t, ENV).stdout[-300:])
        shutil.copy(t + "/Cargo.lock", out)
    return out


def plant(i):
    d = f"{S}/new/{i}"
    e = json.load(open(d + "/edit.json"))
    w = S + "/work"
    copy(w)
    for f, old, new in e["edits"]:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    patch = sh("git diff", w).stdout
    o = f"{V}/seeded/{i}"
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + "/patch.diff", "w").write(patch)
    shutil.copy(d + "/main.rs", o + "/main.rs")
    shutil.copy(lock(), o + "/Cargo.lock")
    open(o + "/demo.sh", "w").write(DEMO)
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({k: e[k] for k in ("property", "needs", "what_it_breaks")}, open(o + "/meta.json", "w"), indent=1)
    t = sh("cargo test --offline --workspace --all-features --no-fail-fast 2>&1 | grep -E '^test |error|FAILED|panicked' ", w, ENV).stdout
    bad = [l for l in t.splitlines() if "FAILED" in l or l.startswith("error")]
    n = t.count("... ok")
    r = sh("git -C /repo apply --check " + o + "/patch.diff")
    a = sh(o + "/demo.sh", "/repo")
    b = sh(o + "/demo.sh", w)
    ok = not bad and r.returncode == 0 and a.returncode == 0 and b.returncode != 0 and 'could not compile' not in b.stdout
    print(i, "OK" if ok else "BAD", "tests ok:", n, "bad:", bad, "demo clean:", a.returncode, "patched:", b.returncode)
    if not ok or "-v" in sys.argv:
        print(r.stdout, a.stdout[-600:], b.stdout[-300:])
    else:
        print("   ", [l for l in b.stdout.splitlines() if "panicked" in l or "left" in l or "right" in l][:3])


def check(i, props=None):
    o = f"{V}/seeded/{i}"
    prop = json.load(open(o + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    r = sh(f"git -C /repo apply {o}/patch.diff")
    try:
        for p in props or [prop]:
            c = sh(f"python3 check.py {p} quick", V)
            print(i, p, "exit", c.returncode, "CAUGHT" if c.returncode == 1 else "-----", [l for l in c.stdout.splitlines() if "VIOLATION" in l or "NO ANSWER" in l][:1], flush=True)
    finally:
        sh("git -C /repo checkout -- .")


a = sys.argv[1:]
if a[0] == "--check":
    for i in a[1:]:
        check(i)
elif a[0] == "--all":
    check(a[1], a[2:])
else:
    for i in a:
        if i != "-v":
            plant(i)
