#!/usr/bin/env python3
"""Runs the check of one property: model checking of the Quint specification, generation of behaviours from it,
and their replay in the real code (or validation of behaviours recorded from the real code against it).

usage: run.py <property> [--tier quick|thorough]        exit 0 held / 1 violated (VIOLATION line) / 2 tool error
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, socket, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
import checks  # noqa: E402

TOOLCHAIN = "nightly-2022-11-14"
NCPU = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def env_cargo(hooks):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_TARGET_DIR", None)
    e["RUSTFLAGS"] = "--cfg kogarashi_verif" if hooks else ""
    return e


def build(crate):
    hooks = crate in checks.HOOKED
    target = os.path.join(BUILD, "target-hooks" if hooks else "target")
    os.makedirs(target, exist_ok=True)
    d = os.path.join(ROOT, "harness", crate)
    with open(os.path.join(BUILD, f"{crate}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target], cwd=d, env=env_cargo(hooks),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError(f"build of harness {crate} failed:\n" + p.stdout[-6000:])
    return os.path.join(target, "release", "v" + crate)


def seed_of(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def quint(args, timeout, cwd=None):
    e = dict(os.environ)
    e["NODE_OPTIONS"] = "--max-old-space-size=6000"
    e["NO_COLOR"] = "1"
    try:
        return subprocess.run(["quint"] + args, cwd=cwd or os.path.join(ROOT, "spec"), env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("quint timed out: " + " ".join(args))


def simulate(job, shard, work, seed):
    """one quint simulation: writes ITF traces of the specification, checking its invariant at every state"""
    d = os.path.join(work, f"{job['name']}.{shard}")
    os.makedirs(d, exist_ok=True)
    a = ["run", "--main", job["main"], "--step", job.get("step", "step"), "--init", job.get("init", "init"),
         "--max-samples", str(job["samples"]), "--n-traces", str(job["samples"]), "--max-steps", str(job["steps"]),
         "--seed", str(seed_of(seed, job["name"], shard)), "--out-itf", os.path.join(d, "t_{seq}.itf.json")]
    if job.get("inv"):
        a += ["--invariant", job["inv"]]
    a.append(job["file"])
    p = quint(a, job.get("timeout", 600))
    fs = sorted(glob.glob(os.path.join(d, "*.itf.json")))
    if p.returncode != 0 or not fs:
        raise ToolError(f"quint run {job['name']} failed (exit {p.returncode}):\n" + p.stdout[-3000:])
    return fs


def replay(binary, job, shard, files, work, tout):
    """steps every behaviour through the real code; returns (mismatches, summary)"""
    prog = os.path.join(work, f"{job['name']}.{shard}.progress")
    e = dict(os.environ, VH_PROGRESS=prog, RUST_BACKTRACE="0", **job.get("env", {}))
    bad, summ, files = [], [], list(files)
    while files:
        try:
            p = subprocess.run([binary, job["machine"]] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=e, timeout=tout, errors="replace")
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as ex:
            rc, out, err = "timeout", (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), ""
        for line in out.splitlines():
            if line.startswith("MISMATCH "):
                bad.append(json.loads(line[9:]))
            elif line.startswith("SUMMARY "):
                summ.append(json.loads(line[8:]))
        if rc in (0, 1):
            break
        if rc == 2:
            raise ToolError(f"harness {job['machine']}: {err[-2000:]}")
        # the code under test took the process down (abort, stack overflow) or never returned: that is an observation
        try:
            f, idx, key, args = open(prog).read().split("\n")[:4]
        except Exception:
            raise ToolError(f"harness {job['machine']} died ({rc}) before its first step: {err[-2000:]}")
        how = "does not return" if rc == "timeout" else f"ends the process ({rc}): {err.strip()[-200:]}"
        bad.append({"sig": "crash/" + key.replace(".", "/"), "file": f, "step": int(idx), "op": key, "args": args, "want": "a result", "got": how})
        files = files[files.index(f) + 1:] if f in files else []
        if rc == "timeout":
            break
    return bad, summ


TLC_RE = re.compile(r"(\d+) states generated, (\d+) distinct")


def model_check(job, work):
    """exhaustive (TLC) or symbolic (Apalache) checking of the specification itself on small constants"""
    t = time.time()
    a = ["verify", "--main", job["main"], "--init", job.get("init", "init"), "--step", job.get("step", "step"), "--invariant", job["inv"]]
    if job["backend"] == "tlc":
        a += ["--backend", "tlc"]
    else:
        a += ["--max-steps", str(job.get("steps", 5))]
    # verify writes scratch output into its working directory
    d = os.path.join(work, "mc." + job["name"])
    shutil.copytree(os.path.join(ROOT, "spec"), d, dirs_exist_ok=True)
    for attempt in range(4):
        with socket.socket() as so:  # a port of its own for the Apalache server that quint starts
            so.bind(("127.0.0.1", 0))
            port = so.getsockname()[1]
        p = quint(a + ["--server-endpoint", f"localhost:{port}", job["file"]], job.get("timeout", 800), cwd=d)
        if p.returncode == 0 or "server" not in p.stdout[-400:]:
            break
    if p.returncode != 0 or "No violation found" not in p.stdout and job["backend"] == "tlc":
        raise ToolError(f"model checking {job['name']} of the specification failed:\n" + p.stdout[-3000:])
    m = TLC_RE.findall(p.stdout)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"model": job["name"], "backend": job["backend"], "invariant": job["inv"], "generated": gen, "distinct": dis, "wall_s": round(time.time() - t, 1)}


def record(binary, job, shard, work, seed, tier):
    """records a behaviour of the real code, then asks Quint whether the specification allows it"""
    d = os.path.join(work, f"{job['name']}.{shard}")
    shutil.copytree(os.path.join(ROOT, "spec"), d, dirs_exist_ok=True)
    prog = os.path.join(d, "progress")
    e = dict(os.environ, VH_PROGRESS=prog, VH_SEED=str(seed_of(seed, job["name"], shard) % (1 << 40)), VH_TIER=tier, **job.get("env", {}))
    out = os.path.join(d, "recorded.qnt")
    try:
        p = subprocess.run([binary, job["machine"], out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                           timeout=job.get("rec_timeout", 400), errors="replace")
        rc, so, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, so, err = "timeout", "", ""
    bad, summ = [], []
    for line in so.splitlines():
        if line.startswith("MISMATCH "):
            bad.append(json.loads(line[9:]))
        elif line.startswith("SUMMARY "):
            summ.append(json.loads(line[8:]))
    if rc == 2:
        raise ToolError(f"recorder {job['machine']}: {err[-2000:]}")
    if rc not in (0, 1):
        key = open(prog).read().split("\n")[2] if os.path.exists(prog) else "?"
        bad.append({"sig": "crash/" + key.replace(".", "/"), "file": "", "step": 0, "op": key, "args": "", "want": "a result", "got": f"{rc} {err.strip()[-200:]}"})
        return bad, summ
    if not os.path.exists(out):
        return bad, summ
    n = summ[0].get("events", 0) if summ else 0
    itf = os.path.join(d, "check.itf.json")
    a = ["run", "--main", "recorded", "--init", "init", "--step", "step", "--max-samples", "1", "--max-steps", str(n), "--n-traces", "1",
         "--invariant", "accepted", "--seed", "1", "--out-itf", itf, "recorded.qnt"]
    p = quint(a, job.get("timeout", 600), cwd=d)
    if p.returncode not in (0, 1) or not os.path.exists(itf):
        raise ToolError(f"trace validation {job['name']}: " + p.stdout[-3000:])
    st = json.load(open(itf))["states"]
    last = {k.split("::")[-1]: v for k, v in st[-1].items()}
    pos = last["pos"]
    pos = int(pos["#bigint"]) if isinstance(pos, dict) else pos
    # the monitor keeps the list of rejected events with the reason
    for r in last["rejected"]:
        g = {k: (int(v["#bigint"]) if isinstance(v, dict) and "#bigint" in v else v) for k, v in r.items()}
        bad.append({"sig": str(g.get("sig")), "file": out, "step": g.get("pos", 0), "op": str(g.get("sig")), "args": "", "want": "a behaviour the specification allows", "got": str(g)})
    if pos != n:
        raise ToolError(f"trace validation {job['name']}: stopped at {pos} of {n}: " + p.stdout[-1500:])
    if summ:
        summ[0]["steps"] = summ[0].get("steps", 0) or n
    return bad, summ


def jvm_env():
    # deep terms in generated modules overflow the default stack of Apalache's importer
    return dict(os.environ, JAVA_TOOL_OPTIONS="-Xss256m", NO_COLOR="1", NODE_OPTIONS="--max-old-space-size=6000")


def to_tla(main, inv, file, d):
    """translates a Quint module to TLA+ (through Apalache)"""
    for attempt in range(4):
        with socket.socket() as so:
            so.bind(("127.0.0.1", 0))
            port = so.getsockname()[1]
        p = subprocess.run(["quint", "compile", "--target", "tlaplus", "--main", main, "--invariant", inv, "--server-endpoint", f"localhost:{port}", file],
                           cwd=d, env=jvm_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        m = re.search(r"-{4,} MODULE .*={20,}", p.stdout, re.S)
        if m:
            break
    else:
        raise ToolError(f"translation of {main} to TLA+ failed:\n" + p.stdout[-2500:])
    open(os.path.join(d, main + ".tla"), "w").write(m.group(0) + "\n")
    open(os.path.join(d, main + ".cfg"), "w").write("INIT q_init\nNEXT q_step\nINVARIANT q_inv\n")


def tlc(main, d, extra, timeout):
    jar = sorted(glob.glob("/opt/veriftools/quint/home/apalache-dist-*/apalache/lib/apalache.jar") + glob.glob("/opt/veriftools/apalache-*/lib/apalache.jar"))[0]
    p = subprocess.Popen(["java", "-Xmx4G", "-Xss256m", "-cp", jar, "tlc2.TLC", "-deadlock", "-workers", "2", "-metadir", os.path.join(d, "tlc")] + extra + [main + ".tla"],
                         cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return None, p.communicate()[0] or ""


def explore(binary, job, shard, work):
    """lets the real code write part of a model (the constraints its gadgets record) and has TLC explore what the model allows"""
    d = os.path.join(work, f"{job['name']}.{shard}")
    shutil.copytree(os.path.join(ROOT, "spec"), d, dirs_exist_ok=True)
    e = dict(os.environ, RUST_BACKTRACE="0")
    p = subprocess.run([binary, job["machine"], os.path.join(d, "gaddata.qnt"), str(shard), str(job["shards"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, env=e, timeout=200, errors="replace")
    bad, summ = [], []
    for line in p.stdout.splitlines():
        if line.startswith("MISMATCH "):
            bad.append(json.loads(line[9:]))
        elif line.startswith("SUMMARY "):
            summ.append(json.loads(line[8:]))
    if p.returncode not in (0, 1):
        raise ToolError(f"harness {job['machine']}: exit {p.returncode} {p.stderr[-1500:]}")
    to_tla(job["main"], job["inv"], job["file"], d)
    rc, out = tlc(job["main"], d, [], job.get("timeout", 150))
    how = "exhaustive"
    if rc is None:  # too many assignments survive: sample them instead
        rc, out = tlc(job["main"], d, ["-simulate", "num=100000", "-depth", "900"], job.get("timeout", 150))
        how = "sampled"
        rc = 0 if rc is None else rc
    if rc == 12:
        last = out[out.rindex("State "):] if "State " in out else out
        g = re.search(r'_name = "(\w+)"', last)
        a = re.search(r"_asg =\s*<<(.*?)>>", last, re.S)
        bad.append({"sig": "sound/" + (g.group(1) if g else "?"), "file": os.path.join(d, "gaddata.qnt"), "step": 0, "op": g.group(1) if g else "?",
                    "args": re.sub(r"\s+", " ", a.group(1)) if a else "", "want": "every assignment that satisfies the rows satisfies the relation (and the honest one satisfies the rows)",
                    "got": "an assignment that does not"})
    elif rc != 0:
        raise ToolError(f"exploration {job['name']}: TLC exit {rc}\n" + out[-2500:])
    m = TLC_RE.findall(out)
    if summ and m:
        summ[0]["steps"], summ[0]["distinct"] = int(m[-1][0]), int(m[-1][1])
        summ[0].setdefault("samples", []).append({"model": job["main"], "exploration": how, "assignments_generated": int(m[-1][0])})
    return bad, summ


def load_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    spec = checks.CHECKS[a.prop]
    work = os.path.join(BUILD, "work", a.prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    jobs = spec["jobs"](tier)
    sims = [j for j in jobs if j["kind"] == "replay"]
    recs = [j for j in jobs if j["kind"] == "record"]
    mcs = [j for j in jobs if j["kind"] == "mc"]
    exps = [j for j in jobs if j["kind"] == "explore"]
    crates = sorted({j["crate"] for j in sims + recs + exps})
    bad, summ, mc = [], [], []
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        fb = {c: ex.submit(build, c) for c in crates}
        fs = [(j, s, ex.submit(simulate, j, s, work, seed)) for j in sims for s in range(j.get("shards", 1))]
        bins = {c: f.result() for c, f in fb.items()}
        fm = [ex.submit(model_check, j, work) for j in mcs]
        fr = [ex.submit(record, bins[j["crate"]], j, s, work, seed, tier) for j in recs for s in range(j.get("shards", 1))]
        fr += [ex.submit(explore, bins[j["crate"]], j, s, work) for j in exps for s in range(j["shards"])]
        fr += [ex.submit(lambda j=j, s=s, f=f: replay(bins[j["crate"]], j, s, f.result(), work, j.get("replay_timeout", 500))) for j, s, f in fs]
        for f in fr:
            b, s = f.result()
            bad += b
            summ += s
        mc = [f.result() for f in fm]
    known = [(s, w) for p, s, w in load_findings() if p == a.prop]
    hit, viol = {}, {}
    for b in bad:
        k = next(((s, w) for s, w in known if re.fullmatch(s, b["sig"])), None)
        (hit.setdefault(k, b) if k else viol.setdefault(b["sig"], b))
    for (s, w) in hit:
        print(f"KNOWN-FINDING: property={a.prop} {s} {w}")
    rdir = os.path.join(BUILD, "replay", a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    for i, (sig, b) in enumerate(sorted(viol.items())):
        if i >= 8:
            break
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{i}.json")
        json.dump(b, open(rp, "w"), indent=1)
        if os.path.exists(b.get("file") or ""):
            shutil.copy(b["file"], os.path.join(rdir, f"{i}." + os.path.basename(b["file"])))
        print(f"  {sig}: step {b['step']} args {b['args']} specified {str(b['want'])[:300]} observed {str(b['got'])[:300]}")
        print(f"VIOLATION property={a.prop} replay={rp}")
    ops = {}
    for s in summ:
        for k, v in s.get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
    states = sum(s.get("distinct", 0) for s in summ) + sum(m["distinct"] for m in mc)
    trans = sum(s.get("steps", 0) for s in summ) + sum(m["generated"] for m in mc)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": sum(s.get("traces", 0) for s in summ),
            "steps_replayed_in_impl": sum(s.get("steps", 0) for s in summ),
            "operations": ops,
            "model_checking": mc,
            "rule": spec["rule"],
            "samples": [x for s in summ for x in s.get("samples", [])[:2]][:12] or mc,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1)
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    print(f"{a.prop} {tier}: {len(viol)} violation(s), {len(hit)} known, {trans} transitions, {ev['wall_s']} s")
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    try:
        main()
    except ToolError as e:
        print("TOOL-ERROR", e, file=sys.stderr)
        sys.exit(2)
