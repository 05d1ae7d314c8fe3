#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of the current tree."""
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import PROPS

VERIF = build.VERIF


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def matches(f, job, v):
    return f["entry"] == job["entry"] and f["kind"] == v["kind"] and re.search(f["msg"], v["msg"]) and \
        (not f.get("function") or any(re.search(f["function"], s) for s in [v["where"]] + v["stack"]))


def symx(exe, bc, job, out, tier, wdir, shard=None):
    os.makedirs(out, exist_ok=True)
    t = job.get("tt", 3000) if tier == "thorough" else job.get("t", 400)
    cmd = [exe, bc, "--entry", job["entry"], "--max-time", str(t), "--out", out, "--dump-paths", str(max(2, job.get("dump", 12) // (shard[1] if shard else 1))),
           "--query-timeout", str(job.get("qto", 120000)), "--max-viol", "20", "--max-instr", str(job.get("instr", 50000000)), "--repo", build.REPO.rstrip("/") + "/"]
    if shard:
        cmd += ["--shard", str(shard[0]), str(shard[1]), str(job.get("depth", 5))]
    cmd += job.get("args", [])
    if os.environ.get("SYMX_VERBOSE"):
        cmd.append("-v")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 200)
    except subprocess.TimeoutExpired:
        return {"error": "engine did not stop"}
    if os.environ.get("SYMX_VERBOSE"):
        sys.stderr.write(r.stdout[-20000:])
    rj = os.path.join(out, "result.json")
    if r.returncode != 0 or not os.path.exists(rj):
        return {"error": "engine exit %d: %s" % (r.returncode, r.stdout[-2000:])}
    return json.load(open(rj))


def merge(rs):
    """results of the shards of one entry"""
    for r in rs:
        if "error" in r:
            return r
    m = dict(rs[0])
    for r in rs[1:]:
        for k in ("paths", "forks", "instructions", "killed", "memory_checks", "symbolic_accesses", "enumerated", "dumped_paths"):
            m[k] += r[k]
        m["solver"] = {k: max(m["solver"][k], r["solver"][k]) if k.startswith("max") else m["solver"][k] + r["solver"][k] for k in m["solver"]}
        m["wall_s"] = max(m["wall_s"], r["wall_s"])
        m["complete"] = m["complete"] and r["complete"]
        m["incomplete"] = m["incomplete"] + r["incomplete"]
        m["reached"] = {k: m["reached"].get(k, 0) + r["reached"].get(k, 0) for k in {**m["reached"], **r["reached"]}}
        m["asserts"] = {k: [a + b for a, b in zip(m["asserts"].get(k, [0, 0]), r["asserts"].get(k, [0, 0]))] for k in {**m["asserts"], **r["asserts"]}}
        m["functions"] = sorted(set(m["functions"]) | set(r["functions"]))
        seen = {(v["kind"], v["msg"], v["where"]) for v in m["violations"]}
        m["violations"] = m["violations"] + [v for v in r["violations"] if (v["kind"], v["msg"], v["where"]) not in seen]
    return m


def replay(nat, entry, infile, work, alloc=None):
    res, trc = work + ".res", work + ".trc"
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_fill_byte=170:max_malloc_fill_size=1048576"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
    if alloc:
        env["SYM_ALLOC_MAX"] = str(alloc)
    try:
        r = subprocess.run([nat, entry, infile, res, trc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=env)
        code, text = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        code, text = 124, "timeout"
    return code, (open(res).read() if os.path.exists(res) else ""), (open(trc).read() if os.path.exists(trc) else ""), text


def reproduced(v, code, res):
    # the native run has to fail too: an assertion, a sanitizer report or a crash (which of them may differ when the
    # code's behaviour is undefined)
    if v["kind"] == "alloc" and code == 75:
        return True
    return code not in (0, 74, 75, 76, 78, 79)


def keep(rdir, j, v, inf, nat, n, code, res, text):
    """Stores what is needed to replay a violation; returns the script that does it."""
    os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, "%s-%d" % (j["entry"], n))
    shutil.copy(inf, base + ".in")
    shutil.copy(nat, os.path.join(rdir, os.path.basename(nat)))
    with open(base + ".sh", "w") as f:
        f.write("#!/bin/sh\n# %s: %s\n# at %s\n# exit 77: assertion violated; 99/98/134/139: sanitizer report or crash\ncd \"$(dirname \"$0\")\"\nASAN_OPTIONS=detect_leaks=0:exitcode=99:malloc_fill_byte=170:max_malloc_fill_size=1048576 ./%s %s %s /dev/stderr /dev/null\n" % (v["kind"], v["msg"], v["where"], os.path.basename(nat), j["entry"], os.path.basename(base) + ".in"))
    os.chmod(base + ".sh", 0o755)
    with open(base + ".txt", "w") as f:
        f.write("%s: %s\nat %s\n%s\n\nnative replay: exit %d\n%s\n%s\n" % (v["kind"], v["msg"], v["where"], "\n".join(v["stack"]), code, res, text[-4000:]))
    return base + ".sh"


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] or None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    jobs = [j for j in P["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and not (tier == "thorough" and j.get("quick_only"))]
    if only:
        jobs = [j for j in jobs if j["entry"] in only]
    tdef = ["-DTHOROUGH=1"] if tier == "thorough" else []
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=build.mkbuild())
    problems, violations, known, cut = [], [], [], []
    results = []
    replayed = ok_replays = 0
    samples = []
    try:
        # distinct harness builds
        groups = {}
        for j in jobs:
            defs = list(j.get("defs", [])) + tdef
            j["_key"] = (j["h"], tuple(j["dirs"]) if j.get("dirs") else None, tuple(defs), tuple(j.get("srcflags", [])))
            groups.setdefault(j["_key"], []).append(j)
        with ThreadPoolExecutor(2) as bx:
            fe = bx.submit(build.engine)
            bcs = {}
            for k in groups:
                bcs[k] = build.bitcode(k[0], list(k[1]) if k[1] else None, k[2], k[3])
            exe = fe.result()
        par = int(os.environ.get("VERIF_JOBS", build.JOBS))
        nats = {}
        with ThreadPoolExecutor(par) as ex:
            futs = []
            for n, j in sorted(enumerate(jobs), key=lambda x: -x[1].get("shards", 1)):
                k = j.get("shards", 1)
                outs = [os.path.join(work, "%d-%s-%d" % (n, j["entry"], i)) for i in range(k)]
                futs.append((j, outs, [ex.submit(symx, exe, bcs[j["_key"]], j, outs[i], tier, work, (i, k) if k > 1 else None) for i in range(k)]))
            for k in groups:
                nats[k] = build.native(k[0], list(k[1]) if k[1] else None, k[2], k[3])
            for j, outs, fs in futs:
                rs = [f.result() for f in fs]
                paths = [os.path.join(o, "path%d" % i) for o, r in zip(outs, rs) if "error" not in r for i in range(r["dumped_paths"])]
                results.append((j, paths, merge(rs)))
        kf = known_findings(pid)
        nrep = 0
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        rdir = os.path.join(evd, pid + ".replay")
        shutil.rmtree(rdir, ignore_errors=True)
        for j, paths, r in results:
            if "error" in r:
                problems.append("%s: %s" % (j["entry"], r["error"]))
                continue
            for m in r["incomplete"]:
                # running out of time is not an answer about the code: what was explored counts, and is reported as not exhaustive
                (cut if m.startswith("budget exhausted") else problems).append("%s: incomplete: %s" % (j["entry"], m))
            nat = nats[j["_key"]]
            hadv = False
            nviol = 0
            for v in r["violations"]:
                w = os.path.join(work, "cex%d" % nrep)
                nrep += 1
                code, res, trc, text = replay(nat, j["entry"], v["input"], w, 1 << 20 if v["kind"] == "alloc" else None)
                replayed += 1
                if not reproduced(v, code, res):
                    problems.append("%s: counterexample not reproduced natively (%s: %s at %s; native exit %d %s)" % (j["entry"], v["kind"], v["msg"], v["where"], code, res[-200:]))
                    continue
                ok_replays += 1
                hadv = True
                fs = [f for f in kf if matches(f, j, v)]
                if fs:
                    known.append((fs[0], v))
                    continue
                violations.append((j, v, keep(rdir, j, v, v["input"], nat, len(violations), code, res, text)))
            # labels only count when the exploration was not cut short by a violation
            if not r["violations"]:
                for lab in j.get("reach", []):
                    if not r["reached"].get(lab):
                        problems.append("%s: vacuous: %s was never reached" % (j["entry"], lab))
            # replay sampled paths natively and compare the observations
            for n, pf in enumerate(paths):
                inf = pf + ".in"
                code, res, trc, text = replay(nat, j["entry"], inf, os.path.join(work, "p-%s-%d" % (j["entry"], n)))
                exp = open(pf + ".trace").read()
                replayed += 1
                if code == 0 and trc == exp:
                    ok_replays += 1
                    if len(samples) < 6:
                        samples.append({"entry": j["entry"], "inputs": open(inf).read().split("\n")[:12], "observed": trc.split()[:16]})
                elif code in (77, 98, 99) and replay(nat, j["entry"], inf, os.path.join(work, "q-%s-%d" % (j["entry"], n)))[0] == code:
                    # the real code fails on the solver's input (undefined behaviour may make it differ from its encoding)
                    v = dict(kind="native", msg=" ".join((res.strip() or text.strip())[:200].split()), where="native replay", stack=[], input=inf)
                    fs = [f for f in kf if matches(f, j, v)]
                    if fs:
                        known.append((fs[0], v))
                    elif nviol < 2:
                        nviol += 1
                        violations.append((j, v, keep(rdir, j, v, inf, nat, len(violations), code, res, text)))
                else:
                    problems.append("%s: path %d differs natively: exit %d %s" % (j["entry"], n, code, (res + text)[-300:]))
                    if os.environ.get("KEEP"):
                        problems.append("   exp=%r got=%r" % (exp[:300], trc[:300]))
    except build.BuildError as e:
        print("BUILD-ERROR: %s" % e)
        problems.append("build: " + str(e)[:1500])
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    rs = [r for _, _, r in results if "error" not in r]
    fn = sorted({f for r in rs for f in r["functions"]})
    asserts = {}
    for r in rs:
        for m, c in r["asserts"].items():
            a = asserts.setdefault(m, [0, 0])
            a[0] += c[0]
            a[1] += c[1]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": sum(r["paths"] for r in rs),
            "transitions": sum(r["instructions"] for r in rs),
            "traces_validated_against_impl": ok_replays,
            "samples": samples,
            "explanation": "states = symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated_against_impl = paths / counterexamples replayed on the natively compiled code with identical observations",
            "entries": {j["entry"]: ({"error": r["error"]} if "error" in r else {"paths": r["paths"], "forks": r["forks"], "complete": r["complete"], "solver_queries": r["solver"]["queries"], "solver_time_s": r["solver"]["time_s"], "wall_s": r["wall_s"], "reached": r["reached"], "memory_checks": r["memory_checks"]}) for j, _, r in results},
            "solver": {k: round(sum(r["solver"][k] for r in rs), 3) for k in ("queries", "z3_calls", "cache_hits", "model_hits", "sat", "unsat", "unknown", "time_s")},
            "assertions": asserts,
            "functions_encoded": fn,
            "bounds": P.get("bounds_thorough", P["bounds"]) if tier == "thorough" else P["bounds"],
            "outside_bounds": P["outside"],
            "replays": replayed,
            "exhaustive": not problems and not cut,
        },
        "assumptions": P.get("assumptions", []) + ["clang 18 -O1 bitcode represents the sources; uninitialised memory reads as 0xAA; system calls and time are replaced by the harness' symbolic stand-ins"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if problems:
        ev["coverage"]["problems"] = problems
    if cut:
        ev["coverage"]["cut_short"] = cut
    if known:
        ev["coverage"]["known_findings"] = [f["what"] for f, _ in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted({f["what"] for f, _ in known}):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for j, v, rp in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s: %s (%s) at %s" % (v["kind"], v["msg"], j["entry"], v["where"]))
    for p in cut:
        print("NOT-EXHAUSTIVE: " + p)
    for p in problems:
        print("PROBLEM: " + p)
    print("%s %s: %d entries, %d paths, %d queries (%.1f s solver), %d/%d replays ok, %.1f s" % (pid, tier, len(jobs), ev["coverage"]["states"], ev["coverage"]["solver"]["queries"], ev["coverage"]["solver"]["time_s"], ok_replays, replayed, time.time() - t0))
    sys.stdout.flush()
    if violations:
        sys.exit(1)
    sys.exit(2 if problems else 0)


main()
