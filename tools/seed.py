#!/usr/bin/env python3
"""seed.py [ID...]: (re)creates /verif/seeded/<ID>/ from tools/seeds/<ID>.txt and confirms in a scratch copy of
/repo that the change compiles, passes the tests and is exposed by its demonstration.

Format of a seed file: 'key: value' lines (property, file, needs, breaks), then blocks
  <<<<  old text  ====  new text  >>>>   (several; 'file:' lines between them switch the file)
  %%%%  rest: body of the Rust demonstration (main.rs; the library's functions come from `use iec61131std::*` paths or extern "C")
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
DEMO = """#!/bin/bash
# exit 0: the library behaves as it should; nonzero: it does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'cd /; rm -rf "$w"' EXIT
mkdir -p "$w/lib" "$w/demo/src"
export RUSTUP_TOOLCHAIN=1.80.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS
cat > "$w/lib/Cargo.toml" <<EOF
[package]
name = "iec61131std"
version = "0.1.0"
edition = "2021"
[lib]
path = "$repo/src/lib.rs"
crate-type = ["lib"]
[features]
default = []
mock_time = []
debug = []
[dependencies]
chrono = "0.4"
num = "0.4"
paste = "1.0.8"
EOF
cat > "$w/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
iec61131std = { path = "../lib"@FEAT@ }
[profile.dev]
debug = 0
[workspace]
EOF
cp "$here/Cargo.lock" "$w/demo/Cargo.lock"
cp "$here/demo.rs" "$w/demo/src/main.rs"
@STL@cd "$w/demo"
cargo build --offline -q@REL@ >"$w/log" 2>&1 || { cat "$w/log"; exit 3; }
timeout 60 "$w/target/@DIR@/demo"
"""


def lock():
    t = open("/opt/vp/rustlib/Cargo.lock").read()
    return t.replace('[[package]]\nname = "iana', '[[package]]\nname = "iana')


def parse(path):
    keys, edits, cur = {}, [], None
    text = open(path).read()
    head, demo = text.split("\n%%%%\n", 1)
    pos = 0
    fname = None
    for m in re.finditer(r"(?ms)^(\w+): (.*?)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", head):
        if m.group(1):
            if m.group(1) == "file":
                fname = m.group(2).strip()
            else:
                keys[m.group(1)] = m.group(2).strip()
        else:
            edits.append((fname, m.group(3), m.group(4)))
    return keys, edits, demo


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(wt):
    """the repository's tests in the scratch copy"""
    w = "/tmp/seedtest"
    os.makedirs(w, exist_ok=True)
    t = open("/opt/vp/rustlib/Cargo.toml").read().replace("/repo/src", wt + "/src")
    open(w + "/Cargo.toml", "w").write(t)
    shutil.copy("/opt/vp/rustlib/Cargo.lock", w)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true")
    r = run(["cargo", "test", "--offline", "--lib", "--target-dir", w + "/target"], cwd=w, env=env)
    passed = set(re.findall(r"(?m)^test (\S+)(?: - should panic)? \.\.\. ok", r.stdout))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("tests") or base
    want = [x if isinstance(x, str) else x["id"] for x in (want.values() if isinstance(want, dict) else want)]
    names = {x.split("::", 0)[-1] for x in want}
    missing = [x for x in names if not any(x.endswith(p) or p.endswith(x) for p in passed)]
    return len(passed), missing, r.stdout


def main():
    ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(f"{HERE}/tools/seeds") if f.endswith(".txt"))
    bad = 0
    for i in ids:
        keys, edits, demo = parse(f"{HERE}/tools/seeds/{i}.txt")
        shutil.rmtree(WT, ignore_errors=True)
        run(["git", "clone", "-q", "/repo", WT])
        d = f"{HERE}/seeded/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh = DEMO.replace("@FEAT@", ', features = ["mock_time"]' if keys.get("mock") else "").replace("@REL@", " --release" if keys.get("release") else "").replace("@DIR@", "release" if keys.get("release") else "debug")
        stl = re.search(r"(?m)^mod stl;", demo)
        sh = sh.replace("@STL@", 'python3 "$here/stgen.py" "$repo/iec61131-st" -o "$w/demo/src/stl.rs" 2>/dev/null\n' if stl else "")
        if stl:
            shutil.copy(f"{HERE}/stgen.py", d)
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(demo)
        shutil.copy(f"{HERE}/harness/Cargo.lock", d + "/Cargo.lock")
        clean = run(["bash", d + "/demo.sh"], cwd=WT)
        ok = True
        for f, old, new in edits:
            p = f"{WT}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT matches", s.count(old), "times:", old[:80])
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            bad += 1
            shutil.rmtree(d)
            continue
        diff = run(["git", "-C", WT, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": keys["property"], "needs": keys["needs"], "what_it_breaks": keys["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        n, missing, log = tests(WT)
        broken = run(["bash", d + "/demo.sh"], cwd=WT)
        good = clean.returncode == 0 and broken.returncode not in (0, 3, 124) and n >= 102 and not missing
        print(i, "ok" if good else f"BAD clean={clean.returncode} broken={broken.returncode} passed={n} missing={missing[:3]}", flush=True)
        if not good:
            bad += 1
            print(clean.stdout[-1500:], "\n----\n", broken.stdout[-1500:], "\n", log[-2500:] if n < 102 else "")
            if "--keep" not in sys.argv:
                shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)
    sys.exit(bad > 0)


main()
