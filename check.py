#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

 1. compile /repo's sources to LLVM IR (and natively, for replay), and the property's harnesses to IR and natively
 2. execute every harness symbolically; the SMT solver decides each branch and each check for all values in the bounds
 3. replay every counterexample, and a sample of the explored paths, on the real program
 4. write evidence/<property>.json
exit 0: held; 1: VIOLATION line printed; 2: no answer (build failure, solver gave up, model and program disagree, ...)"""
import sys, os, json, time, subprocess, tempfile, shutil, re, hashlib, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/tools")
import vbuild
sys.path.insert(0, vbuild.VERIF + "/harness")
from specs import SPECS
VERIF = vbuild.VERIF

def known_findings(prop):
    out = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); debug = os.environ.get("VP_DEBUG")
    spec = SPECS[prop]; t0 = time.time(); work = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir="/tmp")
    try: rc = run(prop, spec, tier, seed, t0, work, debug)
    except vbuild.BuildError as e: print("ERROR build failed: %s" % e); rc = 2
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    sys.exit(rc)

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, v in inputs["choices"].items(): f.write("choice\t%s\t%d\n" % (k, v))
        for k, v in inputs["bytes"].items(): f.write("bytes\t%s\t%s\n" % (k, v))

def native(work, exe, binary, inputs, tag, env_extra=None, timeout=150):
    d = tempfile.mkdtemp(prefix="run-", dir=work); inp = d + ".in"; write_inputs(inp, inputs)
    env = dict(os.environ); env.update({"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1", "VP_EOL": work + ("/eolconvert_asan" if binary.endswith("_asan") else "/eolconvert")}); env.update(env_extra or {})
    try: p = subprocess.run([exe, inp, binary, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: shutil.rmtree(d, ignore_errors=True); return {"fails": [], "kf": [], "obs": [], "crash": True, "timeout": True, "assume": False, "raw": "TIMEOUT"}
    shutil.rmtree(d, ignore_errors=True); os.unlink(inp)
    o = p.stdout.decode("latin1").split("\n"); r = {"fails": [], "kf": [], "obs": [], "crash": False, "timeout": False, "assume": False, "raw": p.stdout.decode("latin1") + p.stderr.decode("latin1"), "rc": p.returncode}
    for l in o:
        if l.startswith("FAIL "): r["fails"].append(l[5:])
        elif l.startswith("KF "): r["kf"].append(l[3:])
        elif l.startswith("OBS "): a = l.split(" "); r["obs"].append([a[1], a[2] if len(a) > 2 else ""])
        elif l.startswith("CRASH"): r["crash"] = True
        elif l.startswith("TIMEOUT"): r["timeout"] = True
        elif l.startswith("ASSUME"): r["assume"] = True
    if p.returncode < 0 or p.returncode > 100 or "AddressSanitizer" in r["raw"]: r["crash"] = True
    return r

def run(prop, spec, tier, seed, t0, work, debug):
    pool = cf.ThreadPoolExecutor(8); npool = cf.ThreadPoolExecutor(8); bpool = cf.ThreadPoolExecutor(4)
    fe = bpool.submit(vbuild.engine); vbuild.generate(work)
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    fr = bpool.submit(vbuild.repo_bc, work, pool); fn = bpool.submit(vbuild.native_pasm, work, pool)
    fl = pool.submit(vbuild.model_bc, work, VERIF + "/rt/vlibc.c", "vlibc.bc")
    feol = bpool.submit(vbuild.eolconvert, work) if spec.get("eol") else None
    hs = {}
    for i, j in enumerate(jobs):
        d = dict(j.get("defs", {})); d["TIER"] = 1 if tier == "thorough" else 0; key = (j["harness"], tuple(sorted(d.items()))); j["_key"] = key
        if key in hs: continue
        fl_ = ["-D%s=%s" % kv for kv in d.items()]; nm = "h%d" % i; unit = j.get("unit", False)
        hs[key] = (nm, pool.submit(vbuild.model_bc, work, VERIF + "/harness/" + j["harness"], nm + ".bc", fl_ + (["-I" + vbuild.SRC] if unit else [])),
                   pool.submit(vbuild.harness_exe, work, VERIF + "/harness/" + j["harness"], nm, fl_, unit))
    symex = fe.result(); repo = fr.result(); fl.result(); real = fn.result()
    eolbc = feol.result() if feol else None
    for k in hs: hs[k][1].result(); hs[k][2].result()
    if any(j.get("unit") for j in jobs): vbuild.link_units(work, [hs[j["_key"]][0] for j in jobs if j.get("unit")])
    build_s = time.time() - t0
    budget = float(os.environ.get("VP_BUDGET", "700" if tier == "quick" else "3000"))
    # ---- symbolic execution
    def sx(j, k, n):
        nm = hs[j["_key"]][0]; out = "%s/%s.%d.%d.json" % (work, nm, id(j) % 100000, k)
        cmd = [symex, "--repo", eolbc if j.get("eol") else repo, work + "/" + nm + ".bc", work + "/vlibc.bc", "--slice", "%d/%d" % (k, n), "--out", out, "--seed", str(seed), "--max-time", str(max(30, budget - (time.time() - t0))), "--max-inst", str(j.get("max_inst", 60000000)), "--samples", str(j.get("samples", 8))] + (["--ask"] if j.get("ask") else [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.environ.get("VP_FORKS"): sys.stderr.write("".join(l + "\n" for l in p.stdout.decode("latin1").split("\n") if l.startswith("FORK")))
        if p.returncode or not os.path.exists(out): return {"error": "engine exit %d: %s" % (p.returncode, p.stdout.decode("latin1")[-500:])}
        return json.load(open(out))
    tasks = []
    for j in jobs:
        n = j.get("slices", 1)
        for k in range(n): tasks.append((j, pool.submit(sx, j, k, n)))
    tot = {k: 0 for k in ("paths", "forks", "instructions", "queries", "sat", "unsat", "unknown", "checks", "checks_solver", "checks_folded", "checks_trivial", "incomplete")}
    solver_s = 0.0; fns = {}; ends = {}; why = {}; viol = []; samples = []; reach = {}; checks = {}; csolv = {}; errors = []
    for j, f in tasks:
        r = f.result()
        if "error" in r: errors.append(r["error"]); continue
        for k in tot: tot[k] += r[k]
        solver_s += r["solver_s"]
        for a, b in (("functions", fns), ("ends", ends), ("incomplete_why", why), ("check_counts", checks), ("check_solver_counts", csolv)):
            for k, v in r[a].items(): b[k] = b.get(k, 0) + v
        for k, v in r["reach"].items(): reach.setdefault(id(j), {}); reach[id(j)][k] = reach[id(j)].get(k, 0) + v
        for v in r["violations"]: viol.append((j, v))
        for s in r["samples"]: samples.append((j, s))
    for w, n in why.items(): errors.append("incomplete: %s (x%d)" % (w, n))
    for j in jobs:
        for tag in j.get("reach", ["end"]):
            if not reach.get(id(j), {}).get(tag) and not any(v["kind"] != "known" for jj, v in viol if jj is j): errors.append("vacuous: %s %s never reaches '%s'" % (j["harness"], j.get("defs", {}), tag))
    # ---- replay
    known = known_findings(prop); found = {}; confirmed = []; unconf = []; exe = lambda j: work + "/" + hs[j["_key"]][0] + ".exe"
    asan = {}
    def asan_bin():
        if "b" not in asan: asan["b"] = vbuild.native_pasm(work, cf.ThreadPoolExecutor(8), "pasm_asan", ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift,pointer-overflow,signed-integer-overflow", "-fno-sanitize-recover=undefined", "-DNDEBUG"), "g++")
        return asan["b"]
    def asan_exe(j):
        if not j.get("unit"): return exe(j)
        asan_bin()
        return vbuild.harness_exe(work, VERIF + "/harness/" + j["harness"], hs[j["_key"]][0] + "_asan", ["-D%s=%s" % kv for kv in j["_key"][1]], True, asan=True, link=True)
    uniq = {}; slow = []
    for j, v in viol:
        key = (v["kind"], v["msg"], v["where"].split(" < ")[0] if v["kind"] in ("memory", "crash", "hang") else ""); uniq.setdefault(key, []).append((j, v))
    for key, vs in list(uniq.items()):
        kind, msg, wh = key; ok = False; res = None
        ident = msg if kind == "known" else None
        if kind in ("memory", "crash", "hang"):
            for kid in known:
                if kid.startswith("%s:%s@%s" % (kind, msg.replace(" ", "_"), wh)): ident = kid
        for j, v in vs[:4]:
            if kind in ("memory", "crash"): res = native(work, asan_exe(j), asan_bin(), v["inputs"], "v"); ok = res["crash"]
            elif kind == "hang": res = native(work, exe(j), real, v["inputs"], "v"); ok = res["timeout"] or res["crash"]
            elif kind == "known": res = native(work, exe(j), real, v["inputs"], "v"); ok = msg in res["kf"]
            else: res = native(work, exe(j), real, v["inputs"], "v"); ok = bool(res["fails"]) or res["crash"]
            if ok: break
        rec = {"property": prop, "harness": j["harness"], "defs": j.get("defs", {}), "kind": kind, "message": msg, "where": v["where"], "inputs": v["inputs"], "native": res["raw"][-3000:] if res else ""}
        if ok and ident in known: found[ident] = rec
        elif ok: confirmed.append(rec)
        elif kind == "hang" and j.get("slow") and not res["timeout"]: slow.append(rec) # paths longer than the step bound, the program does end
        else: unconf.append(rec)
    # ---- model against program on sampled paths
    validated = 0; mism = []
    def val(js):
        j, s = js; return j, s, native(work, exe(j), real, s["inputs"], "s")
    stride = max(1, len(samples) // spec.get("validate", 160)); pick = samples[::stride]
    for j, s, r in npool.map(val, pick):
        if r["fails"] or r["crash"] or r["timeout"]:
            confirmed.append({"property": prop, "harness": j["harness"], "defs": j.get("defs", {}), "kind": "replay", "message": "; ".join(r["fails"]) or r["raw"][-200:], "where": "", "inputs": s["inputs"], "native": r["raw"][-3000:]}) if (r["fails"] or r["crash"] or r["timeout"]) else None
            continue
        if r["obs"] != s["obs"] or r["assume"]: mism.append({"inputs": s["inputs"], "engine": s["obs"], "native": r["obs"], "harness": j["harness"], "raw": r["raw"][-500:]})
        else: validated += 1
    # a replay failure with no matching symbolic report would be a modelling hole; it is still a concrete failure of the real program
    if mism: errors.append("model and program disagree on %d sampled paths, e.g. %s" % (len(mism), json.dumps(mism[0])[:1500]))
    for u in unconf: errors.append("counterexample does not reproduce on the real program: %s %s %s %s" % (u["kind"], u["message"], u["where"], json.dumps(u["inputs"])[:600]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
                       "samples": [s["inputs"] for _, s in pick[:6]], "exhaustive": False,
                       "rule": "one state per fully executed symbolic path of the compiled code; each path stands for every input that satisfies its path condition; one transition per solver-decided fork",
                       "bounds": spec["bounds"], "outside": spec.get("outside", ""),
                       "functions_encoded": sorted(demangle(fns)), "ir_instructions_executed": tot["instructions"],
                       "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "seconds": round(solver_s, 2)},
                       "assertions": {"evaluated": tot["checks"], "decided_by_solver": tot["checks_solver"], "decided_by_value_set_of_the_path": tot["checks_folded"], "constant_on_the_path": tot["checks_trivial"], "by_name": checks, "solver_by_name": csolv},
                       "path_ends": ends, "incomplete": tot["incomplete"], "known_findings_seen": sorted(found), "beyond_step_bound_replayed": [r["inputs"] for r in slow], "build_s": round(build_s, 1), "errors": errors[:20]},
          "assumptions": spec.get("assumptions", []) + ["rt/vlibc.c models the C library (files in memory, console discarded, allocation below 15 MB succeeds)", "clang -O0 IR of the same sources stands for the program; sampled paths are compared with the g++ -O2 program"]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for k, rec in sorted(found.items()): print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    if debug or confirmed or errors:
        for e in errors[:12]: print("ERROR", e[:2500])
    print("%s %s: %d paths, %d forks, %d queries (%.1f s solver), %d assertions (%d by solver), %d sampled paths agree with the program, %.1f s" % (prop, tier, tot["paths"], tot["forks"], tot["queries"], solver_s, tot["checks"], tot["checks_solver"], validated, time.time() - t0))
    if confirmed:
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        for i, c in enumerate(confirmed[:10]):
            p = "%s/evidence/replay/%s-%d.json" % (VERIF, prop, i); json.dump(c, open(p, "w"), indent=1)
            print("  %s: %s [%s]  inputs %s" % (c["kind"], c["message"], c["where"][:200], json.dumps(c["inputs"])[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors: return 2
    return 0

def demangle(fns):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(fns).encode(), stdout=subprocess.PIPE); return [x for x in p.stdout.decode().split("\n") if x]
    except Exception: return list(fns)
if __name__ == "__main__": main()
