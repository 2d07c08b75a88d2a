#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current source.

usage: check.py <property id>       (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --setup             (builds the engine)
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
INPKG = os.path.join(VERIF, "inpkg")
BIN = os.path.join(VERIF, ".bin")
sys.path.insert(0, VERIF)

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GONOSUMDB="*", GONOSUMCHECK="1")
ENV.setdefault("HOME", "/root")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def src_digest(d):
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        if f.endswith(".go") or f.startswith("go."):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def build_engine():
    src = os.path.join(VERIF, "gosym")
    out = os.path.join(BIN, "gosym-" + src_digest(src))
    if os.path.exists(out):
        return out
    os.makedirs(BIN, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = sh(["go", "build", "-o", tmp, "."], cwd=src, env=ENV)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit("cannot build the engine")
    os.rename(tmp, out)
    return out


def overlay(work, extra=None):
    m = {}
    for r, _, fs in os.walk(HARN):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(r, f)
                m[os.path.join(REPO, "verifh", os.path.relpath(p, HARN))] = p
    if os.path.isdir(INPKG):
        for r, _, fs in os.walk(INPKG):
            for f in fs:
                if f.endswith(".go"):
                    p = os.path.join(r, f)
                    m[os.path.join(REPO, os.path.relpath(p, INPKG))] = p
    m.update(extra or {})
    p = os.path.join(work, "overlay.json")
    json.dump({"Replace": m}, open(p, "w"))
    return p


def build_native(work, names, inpkg):
    """A program that runs one harness function on the real environment."""
    pkgs = sorted({n.rsplit(".", 1)[0] for n in names})
    src = "package main\n\nimport (\n\t\"os\"\n"
    for p in pkgs:
        src += '\t"github.com/hound-search/hound/verifh/%s"\n' % p
    src += ")\n\nfunc main() {\n\tswitch os.Args[1] {\n"
    for n in names:
        src += '\tcase "%s":\n\t\t%s()\n' % (n, n.rsplit("/", 1)[-1])
    src += "\tdefault:\n\t\tos.Exit(4)\n\t}\n}\n"
    mp = os.path.join(work, "main.go")
    open(mp, "w").write(src)
    ov = overlay(work, {os.path.join(REPO, "verifh", "zz_replay", "main.go"): mp})
    out = os.path.join(work, "replay")
    r = sh(["go", "build", "-overlay", ov, "-o", out, "./verifh/zz_replay"], cwd=REPO, env=ENV)
    if r.returncode != 0:
        return None, r.stdout
    return out, ""


def native_run(binary, name, tier, vars_, scratch, timeout=60):
    d = tempfile.mkdtemp(dir=scratch)
    f = os.path.join(d, "vars.json")
    json.dump({"vars": vars_, "tier": tier}, open(f, "w"))
    env = dict(ENV, VERIF_REPLAY=f, VERIF_SCRATCH=d, TMPDIR=d, GOTRACEBACK="single")
    try:
        r = subprocess.run([binary, name], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = r.stdout.decode("utf8", "replace"), r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "hang", 124
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def load_known():
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', l)
            if m:
                known.append(m.groups())
    return known


def main():
    if sys.argv[1:] == ["--setup"]:
        print(build_engine())
        return 0
    pid = sys.argv[1]
    import checks
    spec = checks.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tnum = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    eng = build_engine()
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(pid, spec, tier, tnum, seed, t0, eng, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, spec, tier, tnum, seed, t0, eng, work):
    known = [k for k in load_known() if k[0] == pid]
    kf = os.path.join(work, "known")
    open(kf, "w").write("".join(k[1] + "\n" for k in known))
    harn = spec["run"]
    total = spec.get("seconds", 600 if tnum == 0 else 840)
    if tnum == 0:
        total = min(total, 700)
    results, notes = [], []
    # group harness functions that share engine settings
    groups = {}
    for h in harn:
        if isinstance(h, str):
            h = {"fn": h}
        if h.get("thorough") and not tnum:
            continue
        key = (h.get("preempt_t", h.get("preempt", 2)) if tnum else h.get("preempt", 2), h.get("inpkg", False), h.get("steps", 20000000))
        groups.setdefault(key, []).append(h)
    optional_failed = False
    for key, hs in groups.items():
        out = os.path.join(work, "r%d.json" % len(results))
        left = max(20, total - (time.time() - t0))
        cmd = [eng, "-repo", REPO, "-harness", HARN, "-run", ",".join(h["fn"] for h in hs), "-out", out, "-seconds", str(int(left / len(hs)) if tnum else int(left)),
               "-tier", str(tnum), "-preempt", str(key[0]), "-steps", str(key[2]), "-known", kf, "-seed", str(seed), "-samples", "16"]
        if key[1]:
            cmd += ["-inpkg", os.path.join(VERIF, key[1])]
        if tnum and spec.get("xcheck", True):
            cmd += ["-xcheck", "cvc5 --incremental --lang smt2"]
        r = sh(cmd, env=ENV)
        sys.stdout.write(r.stdout)
        if r.returncode != 0 or not os.path.exists(out):
            if key[1]:
                notes.append("in-package harness not applicable to this tree: " + r.stdout.strip()[-400:])
                optional_failed = True
                continue
            print("check %s: the engine cannot load this tree" % pid)
            return 2
        rr = json.load(open(out))
        for h, x in zip(hs, rr["results"]):
            x["spec"] = h
            x["load_seconds"] = rr["load_seconds"]
            results.append(x)
    # vacuity: labels that must be reached
    for x in results:
        for lab in x["spec"].get("reach", []):
            if not (x["reached"] or {}).get(lab) and not x["violations"]:
                notes.append("%s: point '%s' was not reached" % (x["harness"], lab))
    # native confirmation of counterexamples and validation of sample paths
    native_names = [x["harness"] for x in results if x["spec"].get("native")]
    binary = None
    validated = 0
    mismatches = []
    if native_names:
        binary, err = build_native(work, native_names, None)
        if binary is None:
            notes.append("native replay program does not build: " + err[-400:])
        else:
            for x in results:
                if not x["spec"].get("native"):
                    continue
                for vs in (x["samples"] or [])[:12]:
                    rc, out = native_run(binary, x["harness"], tnum, vs, work)
                    if rc == 0:
                        validated += 1
                    elif rc != 3 or "dropped" not in out:
                        mismatches.append({"harness": x["harness"], "vars": vs, "exit": rc, "output": out[-500:]})
    real, knownhit, unconfirmed = [], set(), []
    for x in results:
        for v in x["violations"] or []:
            v["harness"] = x["harness"]
            k = [k for k in known if k[1] in v["Msg"]]
            if k:
                knownhit.add(k[0])
                continue
            d = os.path.join(VERIF, "replays", pid)
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%d.json" % (x["harness"].replace("/", "_"), len(real) + len(unconfirmed)))
            rec = {"property": pid, "harness": x["harness"], "tier": tnum, "message": v["Msg"], "vars": v["Vars"], "stack": v["Stack"], "schedule": v["Sched"],
                   "how": "native: python3 %s/tools/replay.py %s" % (VERIF, f)}
            ok = None
            if x["spec"].get("native") and binary:
                rc, out = native_run(binary, x["harness"], tnum, v["Vars"], work)
                rec["native_exit"], rec["native_output"] = rc, out[-2000:]
                if rc == 3 and "terminal output" in out:
                    ok = None
                else:
                    ok = rc in (1, 2, 124) or rc < 0
            if ok is None:
                # re-execute the single recorded path (variables, schedule, faults) of the real code in the engine
                vf = os.path.join(work, "v.json")
                json.dump({"vars": v["Vars"], "tier": tnum}, open(vf, "w"))
                of = os.path.join(work, "rv.json")
                if os.path.exists(of):
                    os.remove(of)
                cmd = [eng, "-repo", REPO, "-harness", HARN, "-run", x["harness"], "-out", of, "-replay", vf, "-workers", "1",
                       "-preempt", str(x["spec"].get("preempt_t", x["spec"].get("preempt", 2)) if tnum else x["spec"].get("preempt", 2)), "-tier", str(tnum)]
                if x["spec"].get("inpkg"):
                    cmd += ["-inpkg", os.path.join(VERIF, x["spec"]["inpkg"])]
                r = sh(cmd, env=ENV)
                try:
                    vv = json.load(open(of))["results"][0]["violations"] or []
                except Exception:
                    vv = []
                ok = any(w["Msg"] == v["Msg"] for w in vv)
                rec["engine_replay"] = r.stdout[-1500:]
            json.dump(rec, open(f, "w"), indent=1)
            (real if ok else unconfirmed).append((v, f))
    for k in known:
        if k in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    # a path the solver considers feasible and correct fails natively: the model of the environment is
    # wrong there, or the code is; it is reported only when the property itself fails natively
    for m in mismatches:
        if m["exit"] == 1 and "REPLAY-VIOLATION" in m["output"]:
            notes.append("sample path fails natively: " + m["output"][-300:])
    inc = sum(sum(x["incomplete"].values()) for x in results if x["incomplete"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": sum(x["stats"]["Done"] for x in results),
            "transitions": sum(x["stats"]["Steps"] for x in results),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": x["harness"], "shape": list((x["shapes"] or {}).keys())[:3],
                         "solver_values": [(y["name"], y["v"]) for y in ((x["samples"] or [[]])[0] or [])][:60]} for x in results],
            "rule": "states: symbolic paths run to completion (each stands for every input value that satisfies its path condition); transitions: SSA instructions interpreted; "
                    "traces_validated_against_impl: sampled paths whose solver values were re-run on the natively compiled code with the same verdict",
            "harnesses": [{
                "harness": x["harness"], "paths": x["stats"]["Paths"], "completed": x["stats"]["Done"], "outside_assumptions": x["stats"]["Assumed"], "outside_bounds": x["bounds"],
                "not_encoded": x["incomplete"], "assertions_checked": x["stats"]["Asserts"], "assertions_decided_by_solver": x["stats"]["AssertQ"], "assertions_constant_true": x["stats"]["AssertsTrivial"],
                "solver_queries": x["queries"], "sat": x["sat"], "unsat": x["unsat"], "unknown": x["unknown"], "solver_seconds": round(x["solver_seconds"], 2),
                "second_solver_queries": x["xcheck_queries"], "seconds": round(x["seconds"], 2), "timed_out": x["timed_out"], "max_symbolic_variables": x["max_symbolic_vars"],
                "branches_decided_by_byte_domains": x["stats"]["DomPrune"], "distinct_shapes": x["num_shapes"], "reached": x["reached"], "preemption_bound": x["spec"].get("preempt", 2),
            } for x in results],
            "functions_encoded": sorted({"%s (%s:%d)" % (f["name"].replace("github.com/hound-search/hound/", ""), os.path.relpath(f["file"], REPO), f["line"]) for x in results for f in x["functions"] or [] if f["file"]}),
            "models_used": sorted({m.split("vmodel.")[-1] for x in results for m in x["models"] or []}),
            "bounds": spec["bounds"][tnum] if isinstance(spec["bounds"], (list, tuple)) else spec["bounds"],
            "outside": spec.get("outside", ""),
            "exhaustive": all(not x["timed_out"] and not x["incomplete"] for x in results) and not optional_failed,
            "notes": notes, "unconfirmed": [v["Msg"] for v, _ in unconfirmed], "native_mismatches": mismatches[:5],
            "known_findings_seen": [k[2] for k in knownhit],
            "solver": "z3 (z3-new), QF_BV" + (", assertions cross-checked with cvc5" if tnum else ""),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        print("NOTE:", n)
    for v, f in unconfirmed:
        print("UNCONFIRMED (not reproduced, not reported as a violation): %s %s" % (v["Msg"], f))
    for m in mismatches[:3]:
        print("NATIVE-MISMATCH:", json.dumps(m)[:600])
    if inc:
        print("INCOMPLETE: %d paths outside the encoding (see evidence)" % inc)
    for v, f in real:
        print("%s: %s" % (v["harness"], v["Msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    print("%s: %s in %.1fs, %d paths, %d natively validated" % (pid, "VIOLATED" if real else "held", time.time() - t0, sum(x["stats"]["Paths"] for x in results), validated))
    return 1 if real else 0


if __name__ == "__main__":
    sys.exit(main())
