"""Decide one property:  python3-vt check.py C01 [--tier quick|thorough]

The code under /repo is instrumented from its current source, executed
symbolically by pysx, and every obligation is discharged by z3.  Counterexamples
are replayed on the uninstrumented code in a fresh process before a VIOLATION
line is printed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(6000)

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
PLAIN = "/opt/venv/bin/python"
sys.dont_write_bytecode = True

MOD = None
DEADLINE = None
PROP = None


def setup(prop):
    global MOD, PROP
    PROP = prop
    os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    from pysx import instrument
    t = time.time()
    instrument.install([REPO + "/pykickstart", REPO + "/tools", VERIF + "/harness"])
    import pykickstart
    MOD = importlib.import_module("harness." + prop.lower())
    return instrument, time.time() - t


def run_job(i_job):
    i, job = i_job
    from pysx import api, core
    left = DEADLINE - time.time()
    if left <= 0.05:
        return i, None, [], []
    samples = []
    h = getattr(MOD, job["h"])
    try:
        st, viol = api.explore(h, job["p"], max_paths=job.get("max_paths", 20000),
                               budget_s=min(left, job.get("budget_s", 60.0)),
                               max_violations=job.get("max_violations", 1), samples=samples)
    except Exception:
        return i, "error: " + traceback.format_exc()[-1500:], [], []
    for v in viol:
        v["h"] = job["h"]
    return i, st, viol, samples


def replay(prop, cases, timeout=120):
    """Run cases on the uninstrumented code; returns list of result dicts (None: no answer)."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + ":" + VERIF,
               LANG="C.UTF-8", LC_ALL="C.UTF-8")
    out = [None] * len(cases)
    try:
        p = subprocess.run([PLAIN, os.path.join(VERIF, "replay.py"), "--batch", prop],
                           input=json.dumps(cases), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, env=env, timeout=timeout, cwd=VERIF)
        for line in p.stdout.splitlines():
            if line.startswith("@@"):
                d = json.loads(line[2:])
                out[d["i"]] = d
        if p.returncode and not any(out):
            sys.stderr.write(p.stderr[-2000:])
    except subprocess.TimeoutExpired:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--procs", type=int, default=int(os.environ.get("SX_PROCS", "8")))
    ap.add_argument("--only")
    ap.add_argument("--all-violations", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    instrument, load_s = setup(prop)
    from pysx import core
    global DEADLINE
    budget = float(os.environ.get("SX_BUDGET", getattr(MOD, "BUDGET", {}).get(tier, 100 if tier == "quick" else 2400)))
    DEADLINE = t0 + budget
    jobs = MOD.jobs(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps([j["h"], j["p"]])]
    if hasattr(MOD, "prefork"):
        MOD.prefork(tier, jobs)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    stats = core.Stats()
    cands, errors, samples = [], [], []
    done = 0
    notrun = 0
    not_exhausted = []
    per_h = {}
    confirmed = None
    known_hits = {}
    nonrepro = []
    replayed = 0
    slow = []
    pending = []
    later = []
    alone = getattr(MOD, "ISOLATE", False)          # every job in a process of its own: nothing it leaves behind is seen by another
    with mp.get_context("fork").Pool(a.procs, maxtasksperchild=1 if alone else None) as pool:
        it = pool.imap_unordered(run_job, [(i, jobs[i]) for i in order],
                                 chunksize=1 if alone else max(1, min(32, len(jobs) // (a.procs * 16))))
        for i, st, viol, smp in it:
            if st is None:
                notrun += 1
                continue
            if isinstance(st, str):
                errors.append({"job": jobs[i]["p"], "error": st})
                continue
            done += 1
            stats.merge(st)
            k = per_h.setdefault(jobs[i]["h"], [0, 0])
            k[0] += 1
            k[1] += st.paths
            slow.append((st.paths, i))
            if not st.exhausted and not viol:
                not_exhausted.append(jobs[i]["p"])
            for s in smp[:1]:
                samples.append({"h": jobs[i]["h"], "params": jobs[i]["p"], "inputs": s})
            if viol and a.all_violations:
                pending.extend(viol)
                continue
            if viol and len(nonrepro) >= 12:
                later.extend(viol)                  # many do not reproduce: replay the rest together
                continue
            if viol:
                res = replay(prop, viol)
                replayed += len(viol)
                for v, r in zip(viol, res):
                    if r and r.get("failed"):
                        v["observed"] = r
                        cands.append(v)
                        if confirmed is None:
                            confirmed = v
                            if not a.all_violations:
                                break
                        elif a.verbose:
                            print("  more:", json.dumps(v)[:600])
                    else:
                        nonrepro.append({"case": v, "replay": r})
                if confirmed is not None and not a.all_violations:
                    pool.terminate()
                    break
    for k in range(0, len(later), 40):
        if confirmed is not None or time.time() > DEADLINE + 240:
            nonrepro.extend({"case": v, "replay": None} for v in later[k:])
            break
        part = later[k:k + 40]
        replayed += len(part)
        for v, r in zip(part, replay(prop, part)):
            if r and r.get("failed") and confirmed is None:
                r = replay(prop, [v])[0]            # must fail on its own
            if r and r.get("failed"):
                v["observed"] = r
                cands.append(v)
                confirmed = confirmed or v
            else:
                nonrepro.append({"case": v, "replay": r})
    if pending:
        for v, r in zip(pending, replay(prop, pending, 900)):
            if r and r.get("failed"):
                v["observed"] = r
                cands.append(v)
                confirmed = confirmed or v
            else:
                nonrepro.append({"case": v, "replay": r})
    # encoding validation: path models run on the real code must also satisfy the property
    validated = 0
    vbad = []
    if confirmed is None and samples:
        limit = 400 if tier == "quick" else 3000
        step = max(1, len(samples) // limit)
        sel = samples[::step][:limit]
        chunks = [sel[k::a.procs] for k in range(a.procs)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(a.procs) as ex:
            for ch, res in zip(chunks, ex.map(lambda c: replay(prop, c) if c else [], chunks)):
                for s, r in zip(ch, res):
                    if r is None:
                        continue
                    if r.get("failed"):
                        vbad.append((s, r))
                    elif r.get("ok"):
                        validated += 1
        if vbad:
            s, r = vbad[0]
            r2 = replay(prop, [s])[0]
            if r2 and r2.get("failed"):
                confirmed = dict(s, label=r2["label"], observed=r2)
    findings = []
    kf = [f for f in load_findings() if f["property"] == prop]
    if kf and not a.only:
        cases = [{"h": f["harness"], "params": f["params"], "inputs": f["inputs"]} for f in kf]
        for f, r in zip(kf, replay(prop, cases)):
            if r and r.get("failed"):
                findings.append(f["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    fns = sum(count_functions(p) for p in instrument.INSTRUMENTED if p.startswith(REPO))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": stats.paths, "transitions": stats.branches,
            "traces_validated_against_impl": validated,
            "samples": samples[:: max(1, len(samples) // 5)][:5],
            "jobs": len(jobs), "jobs_completed": done, "jobs_not_run": notrun,
            "jobs_with_path_or_time_limit_hit": len(not_exhausted),
            "per_harness": {k: {"jobs": v[0], "paths": v[1]} for k, v in sorted(per_h.items())},
            "infeasible_paths": stats.infeasible,
            "inconclusive_paths": stats.aborted, "inconclusive_reasons": stats.aborts,
            "obligations": stats.obligations, "obligations_constant_folded": stats.folded,
            "smt_queries": stats.queries, "smt_unsat": stats.unsat, "smt_sat": stats.sat,
            "smt_unknown": stats.unknown, "solver_s": round(stats.solver_s, 2),
            "obligations_by_label": stats.labels, "reached": stats.cover_labels,
            "non_reproducing_counterexamples": len(nonrepro),
            "encoded_modules": len([p for p in instrument.INSTRUMENTED if p.startswith(REPO)]),
            "encoded_functions": fns,
            "functions": getattr(MOD, "ENCODED", []),
            "bounds": getattr(MOD, "BOUNDS", {}),
            "exhaustive": notrun == 0 and not not_exhausted and stats.aborted == 0 and not errors,
        },
        "assumptions": getattr(MOD, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    if errors:
        ev["coverage"]["job_errors"] = errors[:5]
        ev["coverage"]["job_error_count"] = len(errors)
    if nonrepro:
        ev["coverage"]["non_reproducing"] = nonrepro[:5]
    if findings:
        ev["coverage"]["known_findings"] = findings
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s %s: jobs %d/%d paths %d branches %d obligations %d queries %d (unsat %d) inconclusive %d limited %d "
          "nonrepro %d errors %d validated %d solver %.1fs load %.1fs wall %.1fs"
          % (prop, tier, done, len(jobs), stats.paths, stats.branches, stats.obligations, stats.queries,
             stats.unsat, stats.aborted, len(not_exhausted), len(nonrepro), len(errors), validated,
             stats.solver_s, load_s, time.time() - t0))
    if a.verbose:
        for n, i in sorted(slow, reverse=True)[:8]:
            print("  big:", n, jobs[i]["h"], json.dumps(jobs[i]["p"])[:200])
        for e in errors[:5]:
            print("  error:", json.dumps(e)[:1500])
        for n in nonrepro[:5]:
            print("  nonrepro:", json.dumps(n)[:6000])
        for n in not_exhausted[:8]:
            print("  limited:", json.dumps(n)[:300])
        print("  aborts:", dict(sorted(stats.aborts.items(), key=lambda x: -x[1])[:12]))
    if a.all_violations:
        seen = set()
        for v in cands:
            print("  cand:", v["h"], v["label"], json.dumps(v["params"])[:260], json.dumps(v["inputs"])[:200],
                  json.dumps(v["observed"].get("detail", ""))[:400])
    if confirmed is not None:
        d = os.path.join(VERIF, "out", prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "violation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": confirmed}, f, indent=1, default=str)
        print("  broken: %s  %s" % (confirmed["label"], confirmed["observed"].get("detail", "")))
        print("  inputs: %s" % json.dumps(confirmed["inputs"]))
        print("  params: %s" % json.dumps(confirmed["params"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if stats.paths == 0 or stats.obligations == 0:
        print("no obligation was decided")
        return 2
    for lab in getattr(MOD, "MUST_REACH", []):
        if lab not in stats.cover_labels and not notrun and not a.only:
            print("reachability witness missing: %s" % lab)
            return 2
    return 0


def load_findings():
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property="):
                prop, rest = line[len("known: property="):].split(" ", 1)
                out.append(dict(json.loads(rest), property=prop))
    return out


def count_functions(path):
    import ast
    try:
        with open(path, "rb") as f:
            t = ast.parse(f.read())
    except (OSError, SyntaxError):
        return 0
    return sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(t))


if __name__ == "__main__":
    sys.exit(main())
