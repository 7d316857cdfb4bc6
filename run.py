#!/usr/bin/env python3
"""run.py <property id>: decides one property by symbolic execution of the code in /repo (see DESIGN.md).

exit 0: holds on every path within the bounds; exit 1: VIOLATION line, confirmed by a native run;
exit 2: no answer (build failure, solver gave up, path or time limit, replay that does not reproduce)."""
import json, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import CHECKS, TEXT
BUILD = os.path.join(ROOT, ".build")
T0 = time.time()
# host and target builds of the crates of /repo (cdylib: no hash in their file names) must not share a directory
TRIPLE = "x86_64-unknown-linux-gnu"
# crates of /repo whose functions are reported as encoded
CRATES = ("axelar_wasm_std", "connection_router_api", "connection_router", "gateway", "nexus_gateway", "aggregate_verifier", "batching",
          "voting_verifier", "multisig", "multisig_prover", "rewards", "service_registry", "signature_verifier_api", "gateway_api", "report", "itertools")


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def sh(cmd, cwd, toolchain, log, timeout=800):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None); env.pop("CARGO_TARGET_DIR", None)
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        print(open(log).read()[-6000:])
        die("command failed: %s" % " ".join(cmd))


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    sh(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/vx"], ROOT + "/vx", "stable", BUILD + "/vx.log")
    stamp = open(ROOT + "/tools/gen_patched.py").read()
    sp = BUILD + "/patched.stamp"
    if not (os.path.exists(sp) and open(sp).read() == stamp):
        sh([sys.executable, ROOT + "/tools/gen_patched.py"], ROOT, "1.71.1", BUILD + "/patched.log")
        open(sp, "w").write(stamp)
    sh(["gcc", "-O1", "-c", ROOT + "/rt/vxrt.c", "-o", BUILD + "/vxrt.o"], ROOT, "stable", BUILD + "/rt.log")


def build_harness(g):
    td = "%s/h-%s" % (BUILD, g)
    td2 = td + "/" + TRIPLE
    deps = td2 + "/release/deps"
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("vxh-"): os.remove(os.path.join(deps, f))
        fp = td2 + "/release/.fingerprint"
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith("vxh-"): shutil.rmtree(os.path.join(fp, f))
    sh(["cargo", "rustc", "--target", TRIPLE, "--release", "--offline", "--locked", "--target-dir", td, "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=%s/vxrt.o" % BUILD],
       "%s/h/%s" % (ROOT, g), "1.71.1", BUILD + "/h-%s.log" % g)
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vxh-") and f.endswith(".ll")]
    if len(ll) != 1: die("expected one IR file, found %s" % ll)
    return ll[0], td2 + "/release/vxh"


def native(exe, entry, inputs, path, header=""):
    """runs the real code on recorded inputs; (kind, detail, reached, observed)"""
    with open(path, "w") as f:
        for n, w, h in inputs: f.write("%s %s\n" % (n, h))
    try:
        r = subprocess.run([exe, entry], env=dict(os.environ, VX_REPLAY=path, RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout", "", [], []
    out = r.stdout.decode(errors="replace"); err = r.stderr.decode(errors="replace")
    reached = list(dict.fromkeys(re.findall(r"^VXREACH (.*)$", out, re.M)))
    obs = re.findall(r"^VXOBS (.*) ([0-9a-f]{16})$", out, re.M)
    m = re.search(r"^VXVIOLATION (.*)$", out, re.M)
    if r.returncode == 86 and m: return "violation", m.group(1), reached, obs
    if r.returncode < 0: return "violation", "uncaught panic: " + err[-600:].strip(), reached, obs
    if r.returncode == 87: return "assume", "", reached, obs
    if r.returncode == 88: return "diverged", out[-300:], reached, obs
    if r.returncode == 0 and "VXDONE" in out: return "done", "", reached, obs
    return "other", "rc %d %s" % (r.returncode, err[-600:]), reached, obs


def main():
    if "--setup" in sys.argv:
        build_engine(); print("engine built"); return 0
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = "%s/evidence/%s.json" % (ROOT, pid)
    if os.path.exists(ev): os.remove(ev)
    known = [k for k in json.load(open(ROOT + "/known_findings.json"))["findings"] if k["property"] == pid]
    build_engine()
    t_build = time.time()
    entries = []  # (group, entry, required reach labels)
    for e in c["entries"]:
        if e.get("thorough") and not thorough: continue
        entries.append(e)
    groups = []
    for e in entries:
        if e["group"] not in groups: groups.append(e["group"])
    tot = {}; ent = {}; funcs = {}; reached = {}; samples = []; viol = []; errors = []; z3 = ""; irf = 0; lost = 0; engine_wall = 0.0; builds = 0.0; validated = 0
    bins = {}
    budget = c.get("timeout", 3000 if thorough else 520)
    for g in groups:
        t = time.time()
        ll, exe = build_harness(g); bins[g] = exe
        builds += time.time() - t
        names = [e["entry"] for e in entries if e["group"] == g]
        out = "%s/res-%s-%s.json" % (BUILD, pid, g)
        if os.path.exists(out): os.remove(out)
        tmp = "%s/tmp-%s" % (BUILD, pid); os.makedirs(tmp, exist_ok=True)
        left = max(60, budget - int(time.time() - T0))
        # listed findings have entries of their own, run to the end separately
        kf = {k["entry"] for k in known}
        main_names = [n for n in names if n not in kf]
        runs = ([main_names] if main_names else []) + [[n] for n in names if n in kf]
        for ns in runs:
            cmd = [BUILD + "/vx/release/vx", "--ir", ll, "--out", out, "--jobs", "8", "--timeout", str(left), "--seed", str(seed), "--rlimit", str(c.get("rlimit", 20_000_000)),
                   "--max-steps", str(c.get("max_steps", 400_000_000)), "--max-paths", str(c.get("max_paths", 2_000_000)), "--samples", "3"] + ns
            env = dict(os.environ, TMPDIR=tmp)
            with open("%s/vx-%s-%s.log" % (BUILD, pid, g), "w") as f:
                try: r = subprocess.run(cmd, stdout=f, stderr=f, timeout=left + 240, env=env)
                except subprocess.TimeoutExpired: die("engine did not end")
            if r.returncode or not os.path.exists(out):
                print(open("%s/vx-%s-%s.log" % (BUILD, pid, g)).read()[-3000:])
                die("engine failed on %s" % ns)
            d = json.load(open(out))
            z3 = d["z3"]; irf += d["ir_functions"]; lost += d["lost_workers"]; engine_wall += d["wall_secs"]
            viol += [dict(v, group=g) for v in d["violations"]]; errors += [dict(v, group=g) for v in d["errors"]]; samples += [dict(v, group=g) for v in d["samples"]]
            if d["stop"] == 0 and any(w["unfinished"] for w in d["workers_stats"]): errors.append({"entry": ",".join(ns), "message": "unexplored paths left", "group": g, "backtrace": ""})
            if d["stop"] == 2: errors.append({"entry": ",".join(ns), "message": "run ended early", "group": g, "backtrace": ""})
            for w in d["workers_stats"]:
                for k, v in w.items():
                    if k == "max_query_ns": tot[k] = max(tot.get(k, 0), v)
                    elif isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
                for e, s in w["entries"].items():
                    z = ent.setdefault(e, {})
                    for a, b in s.items(): z[a] = max(z.get(a, 0), b) if a.startswith("max") else z.get(a, 0) + b
                for f, n in w["functions"].items(): funcs[f] = funcs.get(f, 0) + n
                for e, s in w["reached"].items(): reached.setdefault(e, set()).update(s)
        shutil.rmtree(tmp, ignore_errors=True)
    # ---- counterexamples: replay each on the real code
    status = 0; lines = []; confirmed = 0; known_seen = []
    for i, v in enumerate(viol):
        path = "%s/evidence/%s-%d.replay" % (ROOT, pid, i)
        k = d_ = None
        for _ in range(8):  # hash maps are iterated in a random order natively
            k, d_, _r, _o = native(bins[v["group"]], v["entry"], v["inputs"], path)
            if k == "violation": break
        if k != "violation":
            errors.append({"entry": v["entry"], "group": v["group"], "message": "counterexample does not reproduce natively (%s %s): %s" % (k, d_, v["message"]), "backtrace": v["backtrace"]})
            continue
        confirmed += 1
        hit = [q for q in known if q["entry"] == v["entry"] and q["message"] == (d_ if q.get("native") else v["message"])]
        if hit:
            known_seen.append(hit[0]["id"])
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        with open(path, "a") as f:
            pass
        with open(path + ".txt", "w") as f:
            f.write("property %s\nentry %s (harness group %s)\nfails: %s\nnative run: %s\nat: %s\nrerun: VX_REPLAY=%s %s %s\n" % (pid, v["entry"], v["group"], v["message"], d_, v["backtrace"], path, bins[v["group"]], v["entry"]))
            for n, w, h in v["inputs"]: f.write("input %s (%d bits) = 0x%s\n" % (n, w, h))
        lines.append("  %s: %s\n  native: %s" % (v["entry"], v["message"], d_.splitlines()[0] if d_ else ""))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    # ---- explored paths: the real code has to agree with the executor on sampled ones
    written = []
    paths_ = ["%s/evidence/%s-sample%d.replay" % (ROOT, pid, i) for i in range(len(samples))]
    with ThreadPoolExecutor(8) as pool:
        runs = list(pool.map(lambda q: native(bins[q[0]["group"]], q[0]["entry"], q[0]["inputs"], q[1]), zip(samples, paths_)))
    for i, s in enumerate(samples):
        path = paths_[i]
        k, d_, r_, o_ = runs[i]
        if k == "done" and r_ == s["reached"] and [(n, h[-16:].rjust(16, "0")) for n, h in s["observed"]] == [(n, h) for n, h in o_]:
            validated += 1
            if len(written) < 6: written.append({"entry": s["entry"], "inputs": {("%s#%d" % (n, j)): "0x" + h for j, (n, w, h) in enumerate(s["inputs"])}, "reached": s["reached"], "observed": s["observed"]})
        elif k == "violation" and s["entry"] not in {q["entry"] for q in known}:
            rp = "%s/evidence/%s-n%d.replay" % (ROOT, pid, i); shutil.copy(path, rp)
            lines.append("  %s: %s (native run of a sampled path)" % (s["entry"], d_)); lines.append("VIOLATION property=%s replay=%s" % (pid, rp)); status = 1
        else:
            errors.append({"entry": s["entry"], "group": s["group"], "message": "native run of a sampled path differs: %s %s reached %s observed %s, expected %s %s" % (k, d_, r_, o_, s["reached"], s["observed"]), "backtrace": ""})
    for path in paths_: os.remove(path)
    # ---- inputs for every label, recorded on request
    wf = "%s/witness/%s.json" % (ROOT, pid)
    wit = json.load(open(wf)) if os.path.exists(wf) else {}
    if "--witness" in sys.argv:
        wit = {}
        for s in samples:
            for l in s["reached"]: wit.setdefault(s["entry"], {}).setdefault(l, s["inputs"])
        need = {e["entry"]: set(e["reach"]) for e in entries}
        wit = {e: {l: i for l, i in sorted(d.items()) if l in need.get(e, ())} for e, d in sorted(wit.items())}
        for e, n in need.items():
            if n - set(wit.get(e, {})): print("no sample for %s %s" % (e, n - set(wit.get(e, {}))))
        os.makedirs(ROOT + "/witness", exist_ok=True)
        json.dump(wit, open(wf, "w"), separators=(",", ":"), sort_keys=True)
    # ---- vacuity
    for e in entries:
        miss = [l for l in e.get("reach", []) if l not in reached.get(e["entry"], ())]
        if miss and e["entry"] not in {q["entry"] for q in known}:
            # no input within the bounds gets there. A violation if inputs that got there on the tree the check was written for do not any more, natively;
            # otherwise (or if not every path was decided) no answer
            bad = not status and not any(x["entry"] in (e["entry"], "") or e["entry"] in x["entry"].split(",") for x in errors)
            for l in miss:
                w = wit.get(e["entry"], {}).get(l)
                if not bad or w is None: continue
                path = "%s/evidence/%s-%s.replay" % (ROOT, pid, re.sub("[^a-z0-9]+", "-", l))
                k, d_, r_, _o = native(bins[e["group"]], e["entry"], w, path)
                if k in ("done", "violation") and l not in r_:
                    lines.append("  %s: no input within the bounds leads to '%s' any more, e.g. not the recorded one" % (e["entry"], l)); lines.append("VIOLATION property=%s replay=%s" % (pid, path)); status = 1
            errors.append({"entry": e["entry"], "group": e["group"], "message": "never reached: %s" % miss, "backtrace": ""})
        if e["entry"] not in ent and e["entry"] not in {v["entry"] for v in viol}: errors.append({"entry": e["entry"], "group": e["group"], "message": "no path explored", "backtrace": ""})
    if lost: errors.append({"entry": "", "group": "", "message": "%d worker processes ended abnormally" % lost, "backtrace": ""})
    mine = {f: n for f, n in funcs.items() if any(("%s::" % k) in f for k in CRATES)}
    paths = sum(e["paths"] for e in ent.values()); steps = sum(e["steps"] for e in ent.values())
    cov = {
        "states": paths, "transitions": int(tot.get("forks", 0)), "traces_validated_against_impl": validated, "samples": written,
        "explanation": "states: complete symbolic paths (each covers every input value satisfying its path condition); transitions: branch points where the solver found both sides feasible; traces: solver models of explored paths re-executed natively with equal observations",
        "bounds": c["bounds"], "outside_the_bounds": c.get("outside", ""),
        "functions_encoded": len(funcs), "functions_encoded_from_repo": len(mine), "functions_from_repo": sorted(mine, key=lambda f: -mine[f])[:150],
        "ir_functions_in_module": irf, "ir_instructions_executed": steps, "infeasible_paths": sum(e["infeasible"] for e in ent.values()),
        "solver": z3, "solver_queries": int(tot.get("queries", 0)), "solver_cache_hits": int(tot.get("cached", 0)), "solver_seconds": round(tot.get("solver_ns", 0) / 1e9, 3), "max_query_seconds": round(tot.get("max_query_ns", 0) / 1e9, 3),
        "assertions_evaluated": int(tot.get("asserts", 0)), "assertions_sent_to_solver": int(tot.get("assert_queries", 0)), "portfolio_queries": int(tot.get("portfolio", 0)),
        "idealisations_used": {"symbolic hash applications": int(tot.get("hash_uses", 0)), "wide integer operations": int(tot.get("bigops", 0)), "symbolic numbers printed": int(tot.get("fmts", 0))},
        "entries": {e: dict(s, reached=sorted(reached.get(e, []))) for e, s in ent.items()},
        "undecided": [{"entry": e["entry"], "message": e["message"]} for e in errors][:20], "known_findings_seen": known_seen,
        "seconds": {"build": round(t_build - T0 + builds, 1), "engine": round(engine_wall, 1)},
    }
    json.dump({"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": c.get("assumptions", []) + TEXT["assumptions"],
               "wall_s": round(time.time() - T0, 1), "violations": sum(1 for l in lines if l.startswith("VIOLATION"))}, open(ev, "w"), indent=1)
    for l in lines: print(l)
    if status == 0 and errors:
        for e in errors[:10]: print("UNDECIDED %s/%s: %s\n   %s" % (e["group"], e["entry"], e["message"], e["backtrace"][:1500]))
        print("%s: no answer (%d undecided)" % (pid, len(errors)))
        return 2
    print("%s: %s; %d paths, %d instructions, %d queries (%.1f s), %d native runs agree, %.0f s" % (pid, "VIOLATED" if status else "holds within bounds", paths, steps, tot.get("queries", 0), tot.get("solver_ns", 0) / 1e9, validated, time.time() - T0))
    return status


sys.exit(main())
