#!/usr/bin/env python3
"""Authoring aid for planted bugs (not used by any check).
  seed.py new ID SPEC.py   SPEC defines prop, needs, breaks, edits=[(file, old, new)], main (Rust demo), deps (list)
  seed.py verify ID...     in a scratch copy: patch applies, builds, stable tests pass, demo passes without and fails with it
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = "/tmp/seedtry"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the guarantee holds
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2022-11-14 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target RUSTFLAGS=
mkdir -p "$T/src" "$T/.cargo"
cp "$H/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/.cargo/config.toml" <<C
[source.crates-io]
replace-with = "vp-vendor"
[source.vp-vendor]
directory = "/opt/vp/vendor"
C
cat > "$T/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rand_core = { version = "0.6.4", features = ["getrandom"] }
@DEPS@
C
cd "$T" && cargo build --release --offline >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 200 "$T/target/release/demo"
'''
DEPS = {
    "zkstd": 'zkstd = { path = "$R/zkstd" }', "bn254": 'bn-254 = { path = "$R/bn254" }', "grumpkin": 'grumpkin = { path = "$R/grumpkin" }',
    "groth16": 'zkgroth16 = { path = "$R/groth16" }', "nova": 'zknova = { path = "$R/nova" }',
    "codec": 'parity-scale-codec = { version = "2.0.0", default-features = false, features = ["derive"] }',
    "rayon": 'rayon = "1.7"',
}


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def scratch():
    os.makedirs(SD, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {SD}/repo/") if shutil.which("rsync") else sh(
        f"rm -rf {SD}/repo && mkdir -p {SD}/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {SD}/repo")


def new(i, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = "/tmp/seednew"
    shutil.rmtree(tmp, ignore_errors=True)
    sh(f"git clone -q /repo {tmp}")
    for f, o, n in ns["edits"]:
        p = os.path.join(tmp, f)
        s = open(p).read()
        if s.count(o) != 1:
            sys.exit(f"{f}: pattern occurs {s.count(o)} times")
        open(p, "w").write(s.replace(o, n))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=tmp).stdout)
    shutil.rmtree(tmp)
    open(os.path.join(d, "main.rs"), "w").write(ns["main"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", "\n".join(DEPS[x] for x in ns.get("deps", ["zkstd", "bn254", "grumpkin"]))))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def tests():
    e = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="nightly-2022-11-14", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=SD + "/target", CARGO_TERM_COLOR="never")
    ws = SD + "/ws"
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    for f in os.listdir(SD + "/repo"):
        if f not in ("Cargo.toml", "Cargo.lock", "target"):
            os.symlink(f"{SD}/repo/{f}", f"{ws}/{f}")
    t = open(SD + "/repo/Cargo.toml").read()
    open(ws + "/Cargo.toml", "w").write(re.sub(r'"pallet/nova"\s*,?', "", t))
    shutil.copy(SD + "/repo/Cargo.lock", ws)
    off = "--offline --config 'source.crates-io.replace-with=\"vp-vendor\"' --config 'source.vp-vendor.directory=\"/opt/vp/vendor\"'"
    b = sh(f"cargo test --release --workspace --all-features --all-targets --no-run {off}", cwd=ws, env=e)
    if b.returncode:
        return "build failed\n" + b.stdout[-1500:]
    p = sh(f"cargo test --release --workspace --all-features --no-fail-fast {off} -- --test-threads 8", cwd=ws, env=e)
    bad = re.findall(r"^test (.*) \.\.\. FAILED", p.stdout, re.M)
    n = len(re.findall(r"^test .* \.\.\. ok", p.stdout, re.M))
    return None if p.returncode == 0 and n >= 133 else f"tests: {n} ok, failed {bad} rc {p.returncode} {p.stdout[-800:] if not bad else ''}"


def verify(i):
    d = os.path.join(ROOT, "seeded", i)
    scratch()
    ok = sh(f"bash {d}/demo.sh", cwd=SD + "/repo")
    if ok.returncode:
        return f"demo fails on the unchanged tree: {ok.stdout[-800:]}"
    a = sh(f"patch -p1 -s < {d}/patch.diff", cwd=SD + "/repo")
    if a.returncode:
        return "patch: " + a.stdout
    t = tests()
    if t:
        return t
    ko = sh(f"bash {d}/demo.sh", cwd=SD + "/repo")
    if ko.returncode in (0, 3):
        return f"demo with patch exits {ko.returncode}: {ko.stdout[-500:]}"
    return None


if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3])
else:
    for i in sys.argv[2:]:
        print(i, verify(i) or "OK", flush=True)
