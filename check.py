#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only HARNESS] [--jobs N]

Decides one property: compiles the library in /repo and the property's harnesses to LLVM IR, runs every harness
through the symbolic executor (irsym), replays counterexamples natively and writes evidence/<property>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time, tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", TZ="UTC")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("CARGO_INCREMENTAL", None)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
IRSYM = os.path.join(HERE, "irsym/target/release/irsym")

PROFILE = """
[profile.dev]
opt-level = 0
debug = 0
lto = "fat"
codegen-units = 1
panic = "abort"
incremental = false

# release semantics without the optimiser: overflow checks and debug assertions off
[profile.release]
opt-level = 0
debug = 0
lto = "fat"
codegen-units = 1
panic = "abort"
incremental = false
"""
PROFILE_NATIVE = """
[profile.dev]
debug = 0
panic = "abort"
incremental = false

[profile.release]
debug = 0
panic = "abort"
incremental = false
"""


def sh(cmd, cwd=None, env=None, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


class NoVerdict(Exception):
    pass


def derive_manifest():
    """/repo/Cargo.toml minus what cannot be had offline (git dependencies, build.rs), as in /opt/vp/rustlib."""
    text = open(f"{REPO}/Cargo.toml").read()
    t = tomllib.loads(text)
    deps = {k: v for k, v in t.get("dependencies", {}).items() if not (isinstance(v, dict) and "git" in v)}
    out = ["[package]", f'name = "{t["package"]["name"]}"', f'version = "{t["package"]["version"]}"', f'edition = "{t["package"].get("edition", "2021")}"', "build = false", "autotests = false", "", "[dependencies]"]
    for k, v in deps.items():
        if isinstance(v, str):
            out.append(f"{k} = {json.dumps(v)}")
        else:
            items = []
            for a, b in v.items():
                if a == "path":
                    b = os.path.normpath(os.path.join(REPO, b))
                items.append(f"{a} = {json.dumps(b)}")
            out.append(f"{k} = {{ {', '.join(items)} }}")
    out += ["", "[features]"]
    for k, v in t.get("features", {}).items():
        out.append(f"{k} = {json.dumps(v)}")
    path = t.get("lib", {}).get("path", "src/lib.rs")
    out += ["", "[lib]", f'path = "{REPO}/{path}"', 'crate-type = ["lib"]', ""]
    write(f"{BUILD}/lib/Cargo.toml", "\n".join(out))


def modules_for(prop):
    f = f"{HERE}/harness/src/{prop.lower()}.rs"
    if not os.path.exists(f):
        raise NoVerdict(f"no harness for {prop}")
    mods = [prop.lower()]
    extra, todo = set(), [f]
    while todo:
        for m in re.findall(r"(?m)^use super::(\w+)", open(todo.pop()).read()):
            if m not in extra:
                extra.add(m)
                if m != "stl":
                    todo.append(f"{HERE}/harness/src/{m}.rs")
    return mods, sorted(extra)


def translate_st():
    """the ST half of the library as Rust, module stl"""
    import stgen
    try:
        text, done, bad = stgen.generate(f"{REPO}/iec61131-st", "use crate::api::buf as room;\n")
    except stgen.Unsupported as e:
        raise NoVerdict(f"the ST sources cannot be translated: {e}")
    write(f"{BUILD}/stl.rs", text)
    return dict(translated=done, not_translated=[f"{n}: {e}" for n, e in bad])


def build_irsym():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=f"{HERE}/irsym", env={k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"})
    if r.returncode or not os.path.exists(IRSYM):
        raise NoVerdict("irsym does not build:\n" + r.stdout[-3000:])


def mods_rs(prop):
    mods, extra = modules_for(prop)
    s = ""
    for m in extra + mods:
        s += f'#[path = "{BUILD if m == "stl" else HERE + "/harness/src"}/{m}.rs"]\npub mod {m};\n'
    return s


def chrono_dep(prop):
    """the library's own chrono, for harnesses that check chrono's contract"""
    src = open(f"{HERE}/harness/src/{prop.lower()}.rs").read()
    return 'chrono = { version = "*", default-features = false }\n' if "use chrono::" in src else ""


def lockfile(dst):
    src = "/opt/vp/rustlib/Cargo.lock"
    if not os.path.exists(src):
        src = f"{HERE}/harness/Cargo.lock"
    if not os.path.exists(dst):
        shutil.copy(src, dst)


def fresh(target, profile):
    """make cargo recompile the library whatever the file times say"""
    d = f"{target}/{profile}/.fingerprint"
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.startswith(("iec61131std-", "vh-", "vhn-")):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_ir(prop, mode):
    """LLVM IR of harnesses + library + std; mode d (dev) or r (release semantics). Returns the .ll path."""
    d = f"{BUILD}/ir-{prop}"
    write(f"{d}/Cargo.toml", f'[package]\nname = "vh"\nversion = "0.1.0"\nedition = "2021"\n\n[lib]\npath = "{HERE}/harness/src/lib.rs"\ncrate-type = ["cdylib"]\n\n[dependencies]\niec61131std = {{ path = "../lib" }}\n{chrono_dep(prop)}\n[workspace]\n' + PROFILE)
    write(f"{d}/mods.rs", mods_rs(prop))
    lockfile(f"{d}/Cargo.lock")
    target = f"{BUILD}/target-ir-{mode}"
    prof = "debug" if mode == "d" else "release"
    fresh(target, prof)
    deps = f"{target}/{prof}/deps"
    if os.path.isdir(deps):
        for n in os.listdir(deps):
            if n.startswith("vh") and n.endswith(".ll"):
                os.unlink(os.path.join(deps, n))
    env = dict(ENV, VH_MODS=d, CARGO_TARGET_DIR=target)
    cmd = ["cargo", "rustc", "--offline"] + (["--release"] if mode == "r" else []) + ["--", "--emit=llvm-ir"]
    r = sh(cmd, cwd=d, env=env)
    ll = [os.path.join(deps, n) for n in os.listdir(deps) if n.startswith("vh") and n.endswith(".ll")] if os.path.isdir(deps) else []
    if r.returncode or len(ll) != 1:
        raise NoVerdict("the library with the harnesses does not compile:\n" + r.stdout[-4000:])
    out = f"{BUILD}/{prop}-{mode}.ll"
    os.replace(ll[0], out)
    return out


native_lock = threading.Lock()
native_bin = {}


def build_native(prop, mode, names):
    with native_lock:
        if (prop, mode) in native_bin:
            return native_bin[(prop, mode)]
        d = f"{BUILD}/native-{prop}"
        write(f"{d}/Cargo.toml", f'[package]\nname = "vhn"\nversion = "0.1.0"\nedition = "2021"\n\n[[bin]]\nname = "replay"\npath = "{HERE}/harness/native/src/main.rs"\n\n[dependencies]\niec61131std = {{ path = "../lib" }}\n{chrono_dep(prop)}\n[workspace]\n' + PROFILE_NATIVE)
        write(f"{d}/mods.rs", mods_rs(prop))
        arms = "".join(f'        "{n}" => {n}(),\n' for n in names)
        decl = "".join(f"    fn {n}();\n" for n in names)
        write(f"{d}/dispatch.rs", f'mod dsp {{\nextern "C" {{\n{decl}}}\npub fn go(n: &str) {{ unsafe {{ match n {{\n{arms}        _ => panic!("no such harness"),\n    }} }} }}\n}}\nfn dispatch(n: &str) {{ dsp::go(n) }}\n')
        lockfile(f"{d}/Cargo.lock")
        target = f"{BUILD}/target-native"
        fresh(target, "debug" if mode == "d" else "release")
        r = sh(["cargo", "build", "--offline"] + (["--release"] if mode == "r" else []), cwd=d, env=dict(ENV, VH_MODS=d, CARGO_TARGET_DIR=target))
        if r.returncode:
            raise NoVerdict("native replay does not compile:\n" + r.stdout[-3000:])
        b = f"{BUILD}/replay-{prop}-{mode}"
        shutil.copy(f"{target}/{'debug' if mode == 'd' else 'release'}/replay", b)
        native_bin[(prop, mode)] = b
        return b


def replay(binary, name, inputs):
    try:
        r = subprocess.run([binary, name, ",".join(v for _, v in inputs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20, env=ENV, errors="replace")
        return r.returncode, r.stdout.strip()[-400:]
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"


def list_harnesses(ll):
    return [x for x in sh([IRSYM, ll, "--list"]).stdout.split() if x.startswith("h_")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build_irsym()
        return 0
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 780 if tier == "quick" else 6 * 3600
    per = 700 if tier == "quick" else 3 * 3600
    meta = json.load(open(f"{HERE}/harness/meta.json")).get(prop, {})
    os.makedirs(BUILD, exist_ok=True)
    derive_manifest()
    translated = translate_st() if "stl" in modules_for(prop)[1] else None
    src = "".join(open(f"{HERE}/harness/src/{m}.rs").read() for m in modules_for(prop)[0])
    p = prop.lower()
    modes = sorted(set(re.findall(r"\bh_%s_([dr])[qt]_" % p, src)))
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(build_irsym)]
        fi = {m: ex.submit(build_ir, prop, m) for m in modes}
        for f in fs:
            f.result()
        lls = {m: f.result() for m, f in fi.items()}
    tb = time.time() - t0
    jobs, names = [], []
    for m in modes:
        names = list_harnesses(lls[m])
        for n in names:
            mm = re.match(r"h_%s_([dr])([qt])_" % p, n)
            if not mm or mm.group(1) != m:
                continue
            if mm.group(2) == "t" and tier == "quick":
                continue
            if a.only and not re.search(a.only, n):
                continue
            jobs.append((n, m))
    if not jobs:
        raise NoVerdict("no harness selected")
    order = meta.get("first", [])
    jobs.sort(key=lambda j: next((i for i, o in enumerate(order) if re.search(o, j[0])), 99))

    def run(job):
        n, m = job
        left = budget - (time.time() - t0)
        cmd = [IRSYM, lls[m], n, "--timeout", str(int(max(5, min(per, left)))), "--hard", "200" if tier == "quick" else "1500"]
        if "_huge" in n:
            cmd += ["--steps", "1000000000"]
        if tier == "thorough":
            cmd.append("--xcheck")
        if a.trace:
            cmd.append("--trace")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.trace else subprocess.PIPE, text=True, env=ENV)
        try:
            res = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            return dict(harness=n, status="inconclusive", error=f"irsym died (status {r.returncode}) {r.stdout[-300:]} {(r.stderr or '')[-300:]}", mode=m)
        res["mode"] = m
        return res

    # known findings: "property=<id> harness=<name> <what fails>"; a failing assertion of that harness is that finding
    findings = {}
    kf = f"{HERE}/known-findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            mm = re.match(r"property=%s harness=(\w+) (.*)" % prop, l.strip())
            if mm:
                findings[mm.group(1)] = l.strip()
    results, viol = [], []
    known, confirmed, unconfirmed = [], [], []

    def confirm(r):
        v = r["violation"]
        b = build_native(prop, r["mode"], list_harnesses(lls[r["mode"]]))
        code, out = replay(b, r["harness"], v["inputs"])
        r["replay"] = dict(exit=code, output=out)
        rp = f"{HERE}/evidence/replay/{prop}-{r['harness']}.json"
        write(rp, json.dumps(dict(property=prop, harness=r["harness"], profile="dev" if r["mode"] == "d" else "release", violation=v, native=r["replay"], command=f"{b} {r['harness']} {','.join(x for _, x in v['inputs'])}"), indent=1))
        if code in (0, 20):
            return False
        confirmed.append((r, rp))
        return True

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = {ex.submit(run, j): j for j in jobs}
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if r["status"] == "violation" and r["harness"] in findings and (r["violation"]["kind"] in ("check", "memory") or "access beyond the variable pointed at" in r["violation"]["what"]):
                known.append(r)
                print(f'KNOWN-FINDING: {findings[r["harness"]]}', flush=True)
                continue
            if a.trace or r["status"] != "ok":
                print(f'{r["harness"]}: {r["status"]} {r.get("error", "")} {json.dumps(r.get("violation", ""))}', flush=True)
            if r["status"] == "violation":
                # replay at once; one that the real code confirms is enough, do not start queued harnesses
                if confirm(r):
                    viol.append(r)
                    break
                unconfirmed.append(r)
        for g in futs:
            g.cancel()
        if viol:
            subprocess.run(["pkill", "-P", str(os.getpid()), "irsym"], check=False)

    ok = [r for r in results if r["status"] == "ok"]
    bad = [r for r in results if r["status"] not in ("ok", "violation")]
    # a known finding has to be a fact about the code, too
    for r in known:
        code, out = replay(build_native(prop, r["mode"], list_harnesses(lls[r["mode"]])), r["harness"], r["violation"]["inputs"])
        if code in (0, 20):
            unconfirmed.append(dict(r, replay=dict(exit=code, output=out)))
    # native cross-validation of the encoding: run the sample inputs of finished paths through the real code
    validated = mismatch = 0
    if not viol and not bad and not a.only:
        for m in modes:
            b = build_native(prop, m, list_harnesses(lls[m]))
            todo = [(r["harness"], s) for r in ok if r["mode"] == m for s in r.get("samples", [])]
            with cf.ThreadPoolExecutor(8) as ex:
                for (n, s), (code, out) in zip(todo, ex.map(lambda x: replay(b, x[0], x[1]), todo)):
                    validated += 1
                    if code != 0:
                        mismatch += 1
                        print(f"replay of a finished path of {n} disagrees: exit {code} {out} inputs {s}")

    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    lib = [f for f in funcs if f.startswith("iec61131std") or (re.match(r"^[A-Z][A-Za-z0-9_]*$", f))]
    disch = sum(c[1] for r in results for c in r.get("checks", {}).values())
    reached = sum(c[0] for r in results for c in r.get("checks", {}).values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=validated,
            samples=[dict(harness=r["harness"], inputs=s) for r in ok[:6] for s in r.get("samples", [])[:1]],
            explanation="symbolic execution of the LLVM IR compiled from /repo in this run: states = feasible paths explored to their end, transitions = IR instructions executed symbolically, traces_validated = inputs of finished paths replayed through the natively compiled library",
            harnesses={r["harness"]: dict(status=r["status"], paths=r.get("paths"), queries=r.get("queries"), solver_s=r.get("solver_s"), wall_s=r.get("wall_s"), assertion_instances=sum(c[0] for c in r.get("checks", {}).values())) for r in sorted(results, key=lambda r: r["harness"])},
            assertion_instances=reached, assertion_queries_unsat=disch, rejected_paths=tot("rejections"), infeasible_or_assumed_away=tot("cut"),
            solver_queries=tot("queries"), solver_cache_hits=tot("cache_hits"), hard_queries=tot("hard"), second_solver_confirmations=tot("xchecks"), known_findings_observed=[findings[r["harness"]] for r in known], solver_s=round(tot("solver_s"), 2), max_query_s=max([r.get("max_query_s", 0) for r in results] + [0]),
            functions_encoded=len(funcs), replaced_by_contract=sorted({f for r in results for f in r.get("stubs", [])}), library_functions=lib, bounds=meta.get("bounds", ""), outside=meta.get("outside", ""), build_s=round(tb, 1), exhaustive=False,
            **({"structured_text": translated} if translated else {}),
        ),
        assumptions=meta.get("assumptions", []) + json.load(open(f"{HERE}/harness/meta.json"))["common"],
        wall_s=round(time.time() - t0, 1), violations=len(confirmed),
    )
    if not a.only:
        write(f"{HERE}/evidence/{prop}.json", json.dumps(ev, indent=1))
    for r, rp in confirmed:
        v = r["violation"]
        print(f'  {r["harness"]} ({r["mode"]}): {v["kind"]}: {v["what"]}\n  inputs {v["inputs"]}\n  at {" < ".join(v["stack"][:4])}\n  native: exit {r["replay"]["exit"]} {r["replay"]["output"]}')
        print(f"VIOLATION property={prop} replay={rp}")
    if confirmed:
        return 1
    if unconfirmed:
        print("a counterexample does not reproduce natively: the encoding is wrong, no verdict", [(r["harness"], r["violation"], r["replay"]) for r in unconfirmed])
        return 2
    if bad or mismatch or len(results) != len(jobs):
        print("no verdict")
        return 2
    print(f'{prop}: held; {len(ok)} harnesses, {tot("paths")} paths, {reached} assertion instances, {tot("queries")} queries ({tot("solver_s"):.1f} s), {time.time() - t0:.0f} s')
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print(f"no verdict: {e}")
        sys.exit(2)
