#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

  check.py <property> [--tier quick|thorough]      run the check
  check.py --replay <replay.json>                  run a recorded counterexample natively
"""
import fcntl, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
T = "stable-x86_64-unknown-linux-gnu"
SYMX = f"{V}/symx/target/release/symx"
sys.path.insert(0, V)
sys.dont_write_bytecode = True


class Err(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=T, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, what, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Err(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def build_symx():
    with open(f"{V}/symx/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["cargo", "build", "--release", "--offline"], f"{V}/symx", "building the symbolic executor")


def build_harness(feature, prop):
    """LLVM IR and shared library of the harness with /repo's current sources, from scratch if anything changed."""
    h = f"{V}/harness"
    out = f"{V}/target/{prop}"
    os.makedirs(out, exist_ok=True)
    with open(f"{h}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ll, so = f"{h}/target/release/deps/harness.ll", f"{h}/target/release/libharness.so"
        for f in (ll, so):
            if os.path.exists(f):
                os.remove(f)
        os.utime(f"{h}/src/lib.rs")
        run(
            ["cargo", "rustc", "--offline", "--release", "--no-default-features", "--features", feature, "--",
             "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            h, "building the harness with /repo's sources", {"RUSTFLAGS": "-Awarnings"})
        shutil.copyfile(ll, f"{out}/harness.ll")
        shutil.copyfile(so, f"{out}/libharness.so")
    return f"{out}/harness.ll", f"{out}/libharness.so"


class Run:
    """What the jobs of one check share: the time that is left, and whether a violation ends it early."""

    def __init__(s, tier, seconds, early):
        s.tier, s.end, s.early = tier, time.time() + seconds, early
        s.stop = threading.Event()
        s.lock, s.procs = threading.Lock(), set()

    def left(s):
        return s.end - time.time()

    def found(s):
        s.stop.set()
        with s.lock:
            for p in s.procs:
                p.kill()


def sym(ll, job, out, run):
    """The result of one job; None if it was dropped because a violation was found elsewhere."""
    if run.stop.is_set():
        return None
    tier, t = run.tier, min(job.time, run.left())
    if t < 1:
        return {"dropped": True}
    cmd = [SYMX, "run", "--ir", ll, "--entry", job.entry, "--out", out,
           "--time", str(t), "--samples", str(job.samples), "--solver-timeout", str(job.solver_ms),
           "--path-instrs", str(job.path_instrs)]
    if job.params:
        cmd += ["--param", ",".join(map(str, job.params))]
    if tier == "thorough" and job.cross:
        cmd += ["--cross"]
    if run.early:
        cmd += ["--viol-time", "15"]
    with run.lock:
        if run.stop.is_set():
            return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        run.procs.add(p)
    try:
        # a query that is running when the time is up may go on for its own limit
        text, _ = p.communicate(timeout=t + 25)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"dropped": True}
    finally:
        with run.lock:
            run.procs.discard(p)
    if run.stop.is_set() and p.returncode != 0:
        return None
    if p.returncode == -9:
        return {"dropped": True}
    if p.returncode != 0 or not os.path.exists(out):
        raise Err(f"symx {job.entry} {job.params}: exit {p.returncode}: {text[-1500:]}")
    with open(out) as f:
        return json.load(f)


def native(so, entry, params, inputs, out, timeout=20):
    """Run recorded inputs natively; one outcome per input."""
    inp = out + ".in"
    with open(inp, "w") as f:
        f.write("".join(x + "\n" for x in inputs))
    cmd = [SYMX, "replay", "--so", so, "--entry", entry, "--in", inp, "--out", out, "--timeout", str(timeout)]
    if params:
        cmd += ["--param", ",".join(map(str, params))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Err(f"replay {entry}: exit {p.returncode}: {p.stdout[-1500:]}")
    with open(out) as f:
        r = json.load(f)
    if len(r) != len(inputs):
        raise Err(f"replay {entry}: {len(r)} outcomes for {len(inputs)} inputs")
    return r


def confirmed(v, r):
    k, o = v["kind"], r["outcome"]
    if k == "check":
        return o == "check" and v["site"] in r["checks"] or o == "crash"
    if k == "alloc":
        return o in ("crash", "check")
    if k in ("panic", "abort", "stack", "memory", "ub"):
        return o == "crash" or o == "check"
    if k == "hang":
        return o == "hang"
    return False


def site(v):
    """The innermost function of the code under test on the stack of a violation."""
    for f in v["stack"]:
        if re.search(r"ssbh_(lib|data|write)", f):
            return f
    return v["stack"][0] if v["stack"] else ""


def known(prop, job, v, findings):
    for f in findings:
        if f.get("status") == "fixed" or f["property"] != prop:
            continue
        if f["entry"] == job.entry and f["kind"] == v["kind"] and re.search(f["at"], v["site"] + " @ " + " < ".join(v["stack"])):
            return f
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    import importlib
    t0 = time.time()
    C = checks.CHECKS[prop]
    ev = f"{V}/evidence/{prop}.json"
    os.makedirs(f"{V}/evidence", exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    with ThreadPoolExecutor(2) as ex:
        fs = ex.submit(build_symx)
        fh = ex.submit(build_harness, C.feature, prop)
        fs.result()
        ll, so = fh.result()
    t_build = time.time() - t0
    jobs = C.jobs(tier)
    if "--job" in a:
        k = a[a.index("--job") + 1]
        jobs = [j for j in jobs if j.entry == k]
    work = f"{V}/target/{prop}/jobs"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(f"{V}/known_findings.json") as f:
        findings = json.load(f)["findings"]

    # with recorded findings the whole space is explored; without, one confirmed violation settles the check
    R = Run(tier, (840 if tier == "quick" else 6 * 3600) - (time.time() - t0), not any(f["property"] == prop and f.get("status") != "fixed" for f in findings))

    def one(i):
        j = jobs[i]
        r = sym(ll, j, f"{work}/{i}.json", R)
        if r is None or "dropped" in r:
            return r
        vs = r["violations"]
        vr = native(so, j.entry, j.params, [v["input"] for v in vs], f"{work}/{i}.viol", 30) if vs else []
        if R.early and any(confirmed(v, o) for v, o in zip(vs, vr)):
            R.found()
            return r, vr, []
        ss = r["samples"]
        sr = native(so, j.entry, j.params, [s["input"] for s in ss], f"{work}/{i}.samp", 60) if ss else []
        return r, vr, sr

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    res = [None] * len(jobs)
    # errors end the check without a verdict; what is merely left open is reported as not covered
    errors, gaps, unfinished = [], [], 0
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        fut = {i: ex.submit(one, i) for i in order}
        for i in order:
            try:
                res[i] = fut[i].result()
            except Err as e:
                errors.append(str(e))

    viol, kf, paths, forks, instrs, validated = [], {}, 0, 0, 0, 0
    q = dict(queries=0, sat=0, unsat=0, unknown=0, seconds=0.0, cache_hits=0, model_hits=0, cross_checked=0, disagreements=0)
    chk, reach, fns, samples, solvers, maxsym, enc = {}, {}, {}, [], set(), 0, 0
    per_job = []
    for j, x in zip(jobs, res):
        if x is None:
            continue
        where = f"{j.entry} {j.params}"
        if isinstance(x, dict):
            unfinished += 1
            gaps.append(f"{where}: not run to the end: out of time or memory")
            continue
        r, vr, sr = x
        paths += r["paths"]
        forks += r["forks"]
        instrs += r["instructions"]
        maxsym = max(maxsym, r["max_symbolic_bytes"])
        enc = max(enc, r["encoded_instructions"])
        for k in q:
            q[k] += r["solver"].get(k, 0)
        solvers.add(r["solver"]["name"])
        if r["solver"]["second"]:
            solvers.add(r["solver"]["second"])
        for k, c in r["checks"].items():
            d = chk.setdefault(k, {"folded": 0, "proved": 0, "violated": 0})
            for m in d:
                d[m] += c[m]
        for k, n in r["reach"].items():
            reach[k] = reach.get(k, 0) + n
        for f in r["functions"]:
            fns[f] = 1
        per_job.append({"entry": j.entry, "params": j.params, "paths": r["paths"], "seconds": r["seconds"], "queries": r["solver"]["queries"], "status": r["status"]})
        n_gaps = len(gaps)
        if r["incomplete"]:
            (gaps if "limit" in r["incomplete"] else errors).append(f"{where}: incomplete: {r['incomplete']}")
        if r["unsupported"]:
            gaps.append(f"{where}: unsupported: {r['unsupported']}")
        if r["solver"]["unknown"]:
            gaps.append(f"{where}: {r['solver']['unknown']} undecided queries")
        open_ = len(gaps) > n_gaps
        unfinished += open_
        if r["solver"]["disagreements"]:
            errors.append(f"{where}: the two solvers disagree")
        for tag in j.reach:
            if not r["reach"].get(tag) and not open_ and not r["stopped"] and not r["violations"]:
                errors.append(f"{where}: never reached '{tag}'")
        for v, o in zip(r["violations"], vr):
            if not confirmed(v, o):
                errors.append(f"{where}: counterexample does not reproduce: {v['kind']} {v['site']} input={v['input'][:400]} native={o['outcome']} {o['checks']} {o['stderr'][:300]} stack={v['stack'][:6]}")
                continue
            f = known(prop, j, v, findings)
            if f:
                kf[f["id"]] = f
            else:
                viol.append((j, v, o))
        for s, o in zip(r["samples"], sr):
            if o["outcome"] != "ok" or o["log"] != s["log"] or o["reach"] != s["reach"]:
                errors.append(f"{where}: native run differs from the symbolic path: input={s['input'][:400]} native={o['outcome']} reach={o['reach']} expected={s['reach']} checks={o['checks']} {o['stderr'][:300]}")
            else:
                validated += 1
                if len(samples) < 8 and (not samples or samples[-1]["entry"] != j.entry):
                    samples.append({"entry": j.entry, "params": j.params, "input_hex": s["input"][:200], "reached": s["reach"], "logged_words": len(s["log"]), "native": "same"})
    for tag in C.reach:
        if not reach.get(tag):
            if not gaps and not viol:
                errors.append(f"never reached '{tag}'")
    if unfinished * 2 > len(jobs):
        errors.append(f"{unfinished} of {len(jobs)} jobs did not finish")
    repo_fns = sorted(f for f in fns if re.search(r"ssbh_(lib|data|write)", f))
    wall = time.time() - t0
    cov = {
        "states": paths,
        "transitions": forks,
        "traces_validated_against_impl": validated,
        "samples": samples,
        "states_are": "completed symbolic paths (each stands for all inputs satisfying its path condition)",
        "transitions_are": "solver-decided branches where both sides were feasible",
        "ir_instructions_executed": instrs,
        "bounds": C.bounds(tier),
        "jobs": len(jobs),
        "entries": sorted({j.entry for j in jobs}),
        "max_symbolic_bytes_on_a_path": maxsym,
        "queries": q,
        "solvers": sorted(solvers),
        "assertions": chk,
        "reached": reach,
        "functions_encoded": len(fns),
        "functions_encoded_in_repo": repo_fns[:400],
        "largest_encoding_ir_instructions": enc,
        "violations_replayed": len(viol) + len(kf),
        "known_findings_seen": sorted(kf),
        "build_seconds": round(t_build, 1),
        "slowest_jobs": sorted(per_job, key=lambda x: -x["seconds"])[:5],
        "jobs_not_finished": unfinished,
        "not_covered": gaps[:40],
        "errors": errors[:20],
    }
    with open(ev, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": C.assumptions + checks.COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}, f, indent=1)
    for f in kf.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop}: {len(jobs)} jobs, {paths} paths, {q['queries']} queries ({q['seconds']:.1f}s), {validated} traces validated, {len(viol)} violations, {len(gaps)} gaps, {len(errors)} errors, {wall:.1f}s (build {t_build:.1f}s)")
    for e in errors[:10]:
        print("ERROR:", e)
    for e in gaps[:10]:
        print("NOT COVERED:", e)
    if viol:
        for n, (j, v, o) in enumerate(viol[:5]):
            rp = f"{V}/evidence/{prop}.replay{n}.json"
            with open(rp, "w") as f:
                json.dump({"property": prop, "feature": C.feature, "entry": j.entry, "params": j.params, "input": v["input"], "kind": v["kind"], "site": v["site"], "stack": v["stack"], "native": o}, f, indent=1)
            print(f"  {j.entry} {j.params}: {v['kind']} {v['site']} at {site(v)}; native: {o['outcome']} {o['checks']} {o['stderr'][:200].strip()}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 2 if errors else 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    build_symx()
    _, so = build_harness(r["feature"], r["property"])
    o = native(so, r["entry"], r["params"], [r["input"]], f"{V}/target/{r['property']}/replay.out")[0]
    print(json.dumps(o, indent=1))
    return 0 if o["outcome"] == "ok" else 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("ERROR:", e)
        sys.exit(2)
