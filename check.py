#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property of /repo's current tree by symbolic execution."""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import build, props

T0 = time.time()

def engine():
    p = subprocess.run(["bash", VERIF + "/engine/build.sh"], capture_output=True, text=True)
    exe = VERIF + "/engine/build/symex"
    if p.returncode != 0 or not os.path.exists(exe):
        print("cannot build the executor:\n" + p.stderr[-3000:])
        sys.exit(2)
    return exe

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_job(symex, job, tier, procs, outdir, deadline):
    bc = build.build(job["harness"], job["mods"], job.get("defines", []), True, job.get("extra", ()), job.get("exclude", ()), job.get("srcdefs"))
    params = dict(job.get("params", {}))
    if tier == "thorough":
        params.update(job.get("thorough", {}))
    tb = job.get("ttime", 600) if tier == "thorough" else job.get("time", 60)
    tb = max(3, min(tb, deadline - time.time()))
    out = outdir + "/" + job["name"]
    os.makedirs(out, exist_ok=True)
    cmd = [symex, bc, "--entry", job["entry"], "--out", out, "--time", str(tb), "--procs", str(procs), "--samples", "3",
           "--max-steps", str(job.get("max_steps", 3000000)), "--max-findings", "6"]
    if job.get("fork"):
        cmd += ["--fork-select"]
    for k, v in params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits, start_new_session=True,
                         env=dict(os.environ, SX_RLIMIT=str(job.get("rlimit", 10) * 1000000)))
    try:
        log, _ = p.communicate(timeout=tb + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        log, _ = p.communicate()
    r = {"job": job, "params": params, "out": out, "log": log, "wall": time.time() - t, "stats": None, "findings": [], "samples": [], "budget": tb}
    try:
        r["stats"] = json.load(open(out + "/stats.json"))
    except Exception:
        pass
    for f in sorted(glob.glob(out + "/finding-*.json")):
        try: r["findings"].append(json.load(open(f)))
        except Exception: pass
    for f in sorted(glob.glob(out + "/sample-*.json")):
        try: r["samples"].append(json.load(open(f)))
        except Exception: pass
    return r

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs:
            f.write("%s x%s\n" % (n, h))

def replay(exe, job, params, path):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=66:malloc_fill_byte=170:max_malloc_fill_size=65536:max_free_fill_size=65536:free_fill_byte=165:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1")
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        p = subprocess.run([exe, job["entry"], path] + ["%s=%d" % kv for kv in params.items()], capture_output=True, timeout=20, env=env, cwd=d,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        return p.returncode, p.stdout.decode("latin1") + p.stderr.decode("latin1")
    except subprocess.TimeoutExpired:
        return "timeout", "replay did not terminate within 20 s"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    P = props.PROPS[pid]
    jobs = [j for j in P["jobs"] if not only or re.search(only, j["name"])]
    if tier == "quick":
        jobs = [j for j in jobs if not j.get("thorough_only")]
    total = P.get("budget", 300) if tier == "quick" else P.get("tbudget", 3000)
    symex = engine()
    outdir = tempfile.mkdtemp(prefix="sx-" + pid + "-")
    builds = {}
    try:
        for j in jobs:
            key = (j["harness"], tuple(j["mods"]), tuple(j.get("defines", [])))
            if key not in builds:
                build.build(j["harness"], j["mods"], j.get("defines", []), True, j.get("extra", ()), j.get("exclude", ()), j.get("srcdefs"))
                builds[key] = build.build(j["harness"], j["mods"], j.get("defines", []), False, j.get("extra", ()), j.get("exclude", ()), j.get("srcdefs"))
    except build.BuildError as e:
        print("BUILD FAILED for %s:\n%s" % (pid, str(e)[:6000]))
        shutil.rmtree(outdir, ignore_errors=True)
        sys.exit(2)
    deadline = time.time() + total
    conc = min(len(jobs), 4)
    procs = 8 if conc <= 1 else 4 if conc == 2 else 3
    order = sorted(jobs, key=lambda j: -j.get("time", 60))
    results = {}
    with cf.ThreadPoolExecutor(conc) as ex:
        futs = {ex.submit(run_job, symex, j, tier, procs, outdir, deadline): j for j in order}
        for f in cf.as_completed(futs):
            results[futs[f]["name"]] = f.result()
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/%s-*" % pid):
        os.unlink(f)
    violations, known, unconfirmed, notes, samples = [], [], [], [], []
    agg = {k: 0 for k in ("paths", "paths_completed", "assume_pruned", "instructions", "forks", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "z3_seconds",
                          "byte_domain_decided", "model_decided", "polynomials_decided", "integer_decided", "cache_hits", "assert_queries", "assert_proved", "assert_concrete", "unsupported", "abandoned")}
    funcs, harness_rows, validated, mismatches, nrep = set(), [], 0, 0, 0
    tasks = []
    for j in jobs:
        r = results[j["name"]]
        exe = builds[(j["harness"], tuple(j["mods"]), tuple(j.get("defines", [])))]
        st = r["stats"]
        row = {"harness": j["name"], "entry": j["entry"], "bounds": r["params"], "what": j.get("what", ""), "wall_s": round(r["wall"], 2)}
        if st is None:
            notes.append("%s: executor gave no result: %s" % (j["name"], r["log"][-500:]))
            row["complete"] = False
        else:
            for k in agg:
                agg[k] += st.get(k, 0)
            funcs.update(st["functions"])
            complete = not (st["timed_out"] or st["unsupported"] or st["abandoned"] or st["engine_deaths"] or not st["init_ok"] or st["z3_unknown"])
            row.update({"complete": complete, "paths": st["paths"], "reach": st["reach"], "z3_queries": st["z3_queries"], "assertions_decided_by_solver": st["assert_proved"], "assertions_folded": st["assert_concrete"]})
            if not complete and not st["findings"]:
                notes.append("INCOMPLETE %s: timed_out=%s unsupported=%d (%s) abandoned=%d deaths=%d unknown=%d" % (j["name"], st["timed_out"], st["unsupported"], st["unsupported_msg"], st["abandoned"], st["engine_deaths"], st["z3_unknown"]))
            missing = [l for l in j.get("reach", ["end"]) if l not in st["reach"]]
            if missing and not r["findings"]:
                notes.append("VACUOUS? %s: witness %s not reached" % (j["name"], missing))
        harness_rows.append(row)
        for f in r["findings"]:
            tasks.append(("f", j, r, f, exe))
        for s in r["samples"]:
            tasks.append(("s", j, r, s, exe))
    def do(i_t):
        i, (kind, j, r, f, exe) = i_t
        path = "%s/%s-%s-%d.txt" % (rdir, pid, j["name"], i)
        write_inputs(path, f["inputs"])
        rc, out = replay(exe, j, r["params"], path)
        return path, rc, out
    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(do, enumerate(tasks)))
    for (kind, j, r, f, exe), (path, rc, out) in zip(tasks, done):
        if kind == "s":
            if rc == 0:
                validated += 1
                if len(samples) < 6 and not any(s["harness"] == j["name"] for s in samples):
                    samples.append({"harness": j["name"], "inputs": f["inputs"][:12], "native_replay": "agrees"})
            else:
                mismatches += 1
                notes.append("MISMATCH %s: a path the executor completed fails natively (rc %s): %s" % (j["name"], rc, out[-600:]))
            os.unlink(path)
            continue
        nrep += 1
        confirmed = rc not in (0, 8, 9)
        desc = "%s: %s: %s at %s" % (j["name"], f["kind"], f["msg"], f["loc"])
        with open(path, "a") as fh:
            pass
        with open(path[:-4] + ".log", "w") as fh:
            fh.write("%s\nengine stack:\n%s\nreplayed natively with: %s %s %s\nrc=%s\n%s\n" % (desc, f.get("stack", ""), os.path.basename(exe), j["entry"], path, rc, out[-4000:]))
        if not confirmed:
            unconfirmed.append(desc + " (native rc %s)" % rc)
        elif j.get("known"):
            known.append((j["known"], desc))
        else:
            violations.append((desc, path))
    for what in sorted(set(k for k, d in known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for n in notes:
        print("note: " + n)
    for u in unconfirmed:
        print("note: not confirmed by native replay, not reported: " + u)
    seen = set()
    for d, p in violations:
        key = d.split(" [")[0][:200]
        if key in seen: continue
        seen.add(key)
        print("  " + d)
        print("VIOLATION property=%s replay=%s" % (pid, p))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "model_checking"),
        "coverage": {
            "states": agg["paths"], "transitions": agg["instructions"], "traces_validated_against_impl": validated, "samples": samples,
            "rule": "states = symbolic paths (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; traces = models of completed paths replayed on the ASan build of the real code",
            "exhaustive": bool(harness_rows) and all(h.get("complete") for h in harness_rows),
            "harnesses": harness_rows, "functions_encoded": len(funcs), "functions": sorted(f for f in funcs if "ply" in f or f.startswith("h_"))[:400],
            "solver": {k: agg[k] for k in agg if k.startswith(("z3", "byte", "model", "cache", "assert"))},
            "counterexamples_replayed": nrep, "unconfirmed": unconfirmed, "mismatches": mismatches, "notes": notes, "known_findings": sorted(set(k for k, d in known)),
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2), "violations": len(seen),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d z3 queries (%.1fs solver), %d replays agree, %d violations, %.1fs" % (pid, tier, len(jobs), agg["paths"], agg["z3_queries"], agg["z3_seconds"], validated, len(seen), time.time() - T0))
    for h in harness_rows:
        print("   %-34s %s paths=%s %.1fs %s" % (h["harness"], "complete" if h.get("complete") else "INCOMPLETE", h.get("paths"), h["wall_s"], h["bounds"]))
    if "--keep" not in sys.argv:
        shutil.rmtree(outdir, ignore_errors=True)
    sys.exit(1 if violations else 0)

main()
