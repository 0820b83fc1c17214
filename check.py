#!/usr/bin/env python3
"""Solver-based checks of /repo.

  check.py PROPERTY [--tier quick|thorough]   decide one property
  check.py --setup                            build the engine
  check.py --list

Every run compiles the *current* sources of /repo to LLVM IR, instruments the IR
with shadow (symbolic) values, explores the harnesses of the property with z3
and, for every counterexample, replays the solver's input against an ordinary
g++ build of the same sources.  Only what reproduces there is reported.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RIVER_REPO", "/repo")
BUILD = os.environ.get("RIVER_BUILD") or os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
sys.path.insert(0, VERIF)
from props import PROPS, ASSUME  # noqa: E402

JOBS = os.cpu_count() or 4
CLANG = "clang++-18"
SYMFLAGS = ("-std=c++17 -O1 -g0 -w -fno-vectorize -fno-slp-vectorize -ffp-contract=off "
            "-D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern").split()
NATFLAGS = "-std=c++17 -O1 -g -w -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern".split()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def cached(path, key, build):
    """Build `path` unless it is there for exactly this content key."""
    stamp = path + ".key"
    try:
        if os.path.exists(path) and open(stamp).read() == key:
            return path
    except OSError:
        pass
    if os.path.exists(stamp):
        os.unlink(stamp)
    build()
    with open(stamp, "w") as f:
        f.write(key)
    return path


def engine():
    os.makedirs(BUILD, exist_ok=True)
    e = os.path.join(VERIF, "engine")
    so, rt = os.path.join(BUILD, "sympass.so"), os.path.join(BUILD, "rt.o")

    def b_so():
        cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        sh([CLANG, "-O1", "-fPIC", "-shared", "-w"] + cxx + ["-fno-rtti", e + "/pass.cpp", "-o", so])

    def b_rt():
        sh([CLANG, "-std=c++17", "-O2", "-g", "-w", "-I" + Z3 + "/include", "-c", e + "/rt.cpp", "-o", rt])

    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(cached, so, digest([e + "/pass.cpp"]), b_so)
        b = ex.submit(cached, rt, digest([e + "/rt.cpp", e + "/arena.h", VERIF + "/harness/sym.h"]), b_rt)
        a.result(), b.result()
    return so, rt


def repo_sources():
    return sorted(glob.glob(REPO + "/src/src/*.cpp"))


def repo_key():
    fs = glob.glob(REPO + "/src/src/*") + glob.glob(REPO + "/src/include/*")
    return digest([f for f in fs if os.path.isfile(f)], REPO + " ".join(SYMFLAGS + NATFLAGS))


def incs():
    return ["-I" + REPO + "/src/include", "-I" + REPO + "/src/src", "-I" + VERIF + "/harness", "-I" + VERIF + "/engine"]


def build_all(runs, native):
    """Compile the repository and the harnesses both ways. -> {run name: (sym exe, native exe)}"""
    so, rt = engine()
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    rk = repo_key()
    hk = digest(glob.glob(VERIF + "/harness/*") + [VERIF + "/engine/native.cpp", VERIF + "/engine/arena.h"])
    jobs = []
    for s in repo_sources():
        n = os.path.basename(s)[:-4]
        bc, o = "%s/%s.bc" % (d, n), "%s/%s.o" % (d, n)
        jobs.append((bc, rk, [CLANG] + SYMFLAGS + incs() + ["-c", "-emit-llvm", s, "-o", bc]))
        if native:
            jobs.append((o, rk, ["g++"] + NATFLAGS + incs() + ["-c", s, "-o", o]))
    for r in runs:
        src = "%s/harness/%s" % (VERIF, r["src"])
        df = ["-D" + x for x in r.get("defs", [])]
        bc, o = "%s/h_%s.bc" % (d, r["name"]), "%s/h_%s.o" % (d, r["name"])
        key = hk + rk + " ".join(df)
        jobs.append((bc, key, [CLANG] + SYMFLAGS + incs() + df + ["-c", "-emit-llvm", src, "-o", bc]))
        if native:
            jobs.append((o, key, ["g++"] + NATFLAGS + incs() + df + ["-c", src, "-o", o]))
    if native:
        jobs.append((d + "/native_rt.o", hk, ["g++"] + NATFLAGS + incs() + ["-c", VERIF + "/engine/native.cpp", "-o", d + "/native_rt.o"]))
    jobs.sort(key=lambda j: 0 if "/river." in j[0] else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(cached, p, k, lambda c=c: sh(c)) for p, k, c in jobs]:
            f.result()
    names = [os.path.basename(s)[:-4] for s in repo_sources()]
    out = {}

    def finish(r):
        n = r["name"]
        exe, nat = "%s/s_%s" % (d, n), "%s/n_%s" % (d, n)
        key = hk + rk + digest([so, rt]) + " ".join(r.get("defs", []))

        def b():
            sh(["llvm-link-18", "%s/h_%s.bc" % (d, n)] + ["%s/%s.bc" % (d, x) for x in names] + ["-o", "%s/a_%s.bc" % (d, n)])
            sh(["opt-18", "-load-pass-plugin=" + so, "-passes=internalize,globaldce,function(scalarizer),sympass",
                "-internalize-public-api-list=harness", "%s/a_%s.bc" % (d, n), "-o", "%s/i_%s.bc" % (d, n)])
            sh([CLANG, "-O1", "-w", "-c", "%s/i_%s.bc" % (d, n), "-o", "%s/i_%s.o" % (d, n)])
            sh([CLANG, "%s/i_%s.o" % (d, n), rt, "-o", exe, "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp"])
            for t in "ai":
                os.unlink("%s/%s_%s.bc" % (d, t, n))

        def bn():
            sh(["g++", "%s/h_%s.o" % (d, n), d + "/native_rt.o"] + ["%s/%s.o" % (d, x) for x in names] + ["-o", nat])

        cached(exe, key, b)
        if native:
            cached(nat, key, bn)
        return n, exe, nat

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, exe, nat in ex.map(finish, runs):
            out[n] = (exe, nat)
    return out


def write_inputs(path, inputs):
    with open(path, "w") as f:
        f.write("%d\n" % len(inputs))
        for k in sorted(inputs):
            f.write("%s %d\n" % (k, inputs[k]))


def run_native(nat, inp, limit=60):
    """-> (outcome, text): ok | fail | crash | hang | assume"""
    env = dict(os.environ, RS_ALARM=str(limit))
    try:
        r = subprocess.run([nat, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 30, env=env)
    except subprocess.TimeoutExpired:
        return "hang", ""
    if r.returncode == 0:
        return "ok", r.stdout
    if r.returncode == 1:
        return "fail", r.stdout
    if r.returncode == 2:
        return "assume", r.stdout
    if r.returncode == -14:
        return "hang", r.stdout
    return "crash", r.stdout


def known_findings(prop):
    """finding: property=<id> run=<name> match=<substring> :: text   (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % prop):
                head, _, text = ln[len("finding: "):].partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
                kv["text"] = text
                out.append(kv)
    return out


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a == ["--setup"]:
        engine()
        return 0
    if a == ["--list"]:
        for k in PROPS:
            print(k, [r["name"] for r in PROPS[k]["runs"]])
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--run") + 1] if "--run" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    runs = [r for r in P["runs"] if (only is None or r["name"] == only) and (tier in r.get("tiers", ("quick", "thorough")))]
    os.makedirs(EVID, exist_ok=True)
    exes = build_all(runs, True)
    tb = time.time() - t0
    rep_dir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(rep_dir, ignore_errors=True)
    os.makedirs(rep_dir)
    tot = {k: 0 for k in "paths completed branches queries sat unsat unknown assertsSolver assertsTrivial assertsUnknown inexactBranches inexactAsserts diverged pinned concretized assumeCut forks pending lost_workers".split()}
    solver_s = 0.0
    funcs, samples, per_run, notes = set(), [], [], []
    validated = mism = 0
    exhaustive = True
    confirmed = []
    vacuous = []
    for r in runs:
        exe, nat = exes[r["name"]]
        budget = r["budget"][0 if tier == "quick" else 1]
        out = os.path.join(BUILD, "obj", r["name"] + ".json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--budget", str(budget), "--jobs", str(JOBS), "--out", out, "--max-viol", str(r.get("max_viol", 12)),
               "--path-timeout", str(r.get("path_timeout", 60)), "--query-ms", str(r.get("query_ms", 10000 if tier == "quick" else 60000)),
               "--tier", "1" if tier == "thorough" else "0"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if not os.path.exists(out):
            raise RuntimeError("engine failed on %s: rc %d\n%s" % (r["name"], p.returncode, p.stderr[-2000:]))
        j = json.load(open(out))
        for k in tot:
            tot[k] += j.get(k, 0)
        solver_s += j["solver_s"]
        funcs |= set(j["functions"])
        # translator validation: the concrete trace of a symbolic path must equal the native build's
        for i, s in enumerate(j["samples"]):
            f = os.path.join(rep_dir, "sample_%s_%d.in" % (r["name"], i))
            write_inputs(f, s["inputs"])
            oc, txt = run_native(nat, f)
            obs = [ln.split()[1:] for ln in txt.splitlines() if ln.startswith("OBS ")]
            same = len(obs) == len(s["obs"]) and all(
                x[0] == y[0] and (x[1] == y[1] or abs(float(x[1]) - float(y[1])) <= 1e-9 * max(1, abs(float(y[1])))) for x, y in zip(obs, s["obs"]))
            if same:
                validated += 1
            else:
                mism += 1
            if len([x for x in samples if x["run"] == r["name"]]) < 2:
                samples.append({"run": r["name"], "inputs": s["inputs"], "observed": s["obs"][:12], "branches": s["branches"], "queries": s["queries"], "native_agrees": same})
            os.unlink(f)
        ex = j["exhaustive"] and not j["pending"]
        exhaustive = exhaustive and ex
        cand = 0
        for i, v in enumerate(j["violations"]):
            f = os.path.join(rep_dir, "%s_%d.in" % (r["name"], i))
            write_inputs(f, v["inputs"])
            oc, txt = run_native(nat, f)
            if oc in ("fail", "crash", "hang"):
                fails = [ln for ln in txt.splitlines() if ln.startswith("FAIL ")]
                what = fails[0][5:] if fails else oc + " (" + v["msg"] + ")"
                confirmed.append({"run": r["name"], "file": f, "what": what, "all": fails or [what], "inputs": v["inputs"], "exe": nat})
            else:
                cand += 1
                os.unlink(f)
        if cand:
            notes.append("%s: %d solver counterexample(s) of the exact-arithmetic model did not reproduce natively (rounding) and were dropped; the run is not exhaustive" % (r["name"], cand))
        if j.get("completed", 1) == 0 or j["assertsSolver"] + j["assertsTrivial"] == 0:
            if not j["violations"]:
                vacuous.append(r["name"])
        per_run.append({"run": r["name"], "bounds": r["bounds"], "paths": j["paths"], "completed": j.get("completed"), "branches": j["branches"], "queries": j["queries"],
                        "asserts_decided_by_solver": j["assertsSolver"], "asserts_constant_on_path": j["assertsTrivial"], "unknown": j["unknown"] + j["assertsUnknown"],
                        "exhaustive_within_bounds": ex, "frontier_left": j["pending"], "rounding_divergences": j["diverged"], "inputs_rerun_in_machine_arithmetic": j["pinned"], "inexact_branches": j["inexactBranches"],
                        "inexact_asserts": j["inexactAsserts"], "solver_s": j["solver_s"], "wall_s": j["wall_s"], "candidates_not_reproduced": cand})
    if funcs:
        dm = subprocess.run(["c++filt"], input="\n".join(sorted(funcs)), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        funcs = {x for x in dm if x}
    kf = known_findings(prop)
    new, seen = [], set()
    for c in confirmed:
        rest = []
        for m in c["all"]:
            hit = [k for k in kf if k.get("run") == c["run"] and k.get("match", "\0").replace("_", " ") in m.replace("_", " ")]
            if hit:
                seen.add(hit[0]["text"])
            else:
                rest.append(m)
        if rest:
            c["what"] = rest[0]
            new.append(c)
    # a listed finding is also replayed from its committed input
    for k in kf:
        if "input" in k and k["run"] in exes:
            oc, _ = run_native(exes[k["run"]][1], os.path.join(VERIF, k["input"]))
            if oc in ("fail", "crash", "hang"):
                seen.add(k["text"])
    for t in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": exhaustive,
            "explanation": "states = symbolic execution paths of the instrumented real code; transitions = symbolic branches taken on them; every untaken side was put to z3",
            "completed_paths": tot["completed"], "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "asserts_decided_by_solver": tot["assertsSolver"], "asserts_constant_on_path": tot["assertsTrivial"], "asserts_unknown": tot["assertsUnknown"],
            "branches_decided_under_real_arithmetic_only": tot["inexactBranches"], "rounding_divergences": tot["diverged"], "inputs_rerun_in_machine_arithmetic": tot["pinned"], "concretized_values": tot["concretized"],
            "solver_s": round(solver_s, 3), "build_s": round(tb, 1), "trace_mismatches": mism,
            "functions_encoded": sorted(f for f in funcs if f.startswith(("river::", "rmath::", "vatti::", "scan_line::", "dcel::"))), "functions_encoded_total": len(funcs),
            "runs": per_run, "bounds": [r["name"] + ": " + r["bounds"] for r in runs], "outside_bounds": P.get("outside", ""), "notes": notes,
        },
        "assumptions": ASSUME + P.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in per_run:
        print("%s: paths=%d queries=%d asserts(solver/const)=%d/%d exhaustive=%s diverged=%d pinned=%d unknown=%d frontier=%d solver=%.1fs wall=%.1fs" % (
            r["run"], r["paths"], r["queries"], r["asserts_decided_by_solver"], r["asserts_constant_on_path"], r["exhaustive_within_bounds"], r["rounding_divergences"], r["inputs_rerun_in_machine_arithmetic"], r["unknown"], r["frontier_left"], r["solver_s"], r["wall_s"]))
    for n in notes:
        print("note: " + n)
    if new:
        c = new[0]
        print("counterexample (%s): %s" % (c["run"], c["what"]))
        print("  inputs: " + json.dumps(c["inputs"]))
        print("  replay: %s %s" % (c["exe"], c["file"]))
        print("VIOLATION property=%s replay=%s" % (prop, c["file"]))
        return 1
    if vacuous:
        print("vacuous harness: %s" % vacuous)
        return 2
    print("property=%s held on everything explored (%s, %.1fs)" % (prop, tier, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, never an answer
        print("CHECK-ERROR: %s" % e)
        sys.exit(3)
