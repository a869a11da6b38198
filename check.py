#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decide one property for /repo's current working tree.

1. pv/prove.py generates the proof obligations of the contracts the property rests on from /repo's current
   source and discharges them (z3, then cvc5).
2. rt/run.py executes the same specification on the real code (bounded; it supplies concrete failing inputs,
   and stands in for functions outside the verifier's reach).
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the machinery itself failed.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RTPY = "/opt/venv/bin/python"
VTPY = sys.executable
WORLDS = {"C03": "tf both", "C08": "tf", "C12": "tf", "C14": "tf", "C15": "tf", "C16": "tf", "C17": "none", "C18": "tf both torch none"}
DEFAULT_WORLDS = "tf both"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import z3
        import cvc5
        print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)
        sys.exit(subprocess.call([RTPY, "-c", "import numpy, sympy; print(numpy.__version__, sympy.__version__)"]))
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rpdir, f))
    scratch = tempfile.mkdtemp(prefix="asta-" + prop + "-")
    try:
        code = run(a, prop, tier, seed, t0, evdir, rpdir, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(a, prop, tier, seed, t0, evdir, rpdir, scratch):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", LANG="C.UTF-8",
               TF_CPP_MIN_LOG_LEVEL="3", TF_ENABLE_ONEDNN_OPTS="0", CUDA_VISIBLE_DEVICES="-1", VERIF_SEED=str(seed), VERIF_TIER=tier)
    for k in ("ASTARC", "ASTA_TYPECHECK", "PYTHONPATH", "PYTEST_ADDOPTS"):
        env.pop(k, None)
    env.setdefault("ASTA_REPO", "/repo")
    procs = {}
    if not a.no_proof:
        out = os.path.join(scratch, "proof.json")
        e = dict(env, PYTHONHASHSEED="0")
        procs["proof"] = (subprocess.Popen([VTPY, os.path.join(HERE, "pv", "prove.py"), prop, "--tier", tier, "--out", out], env=e, cwd=scratch,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True), out)
    worlds = [] if a.no_rt else WORLDS.get(prop, DEFAULT_WORLDS).split()
    budget = 75 if tier == "quick" else 600
    for w in worlds:
        d = os.path.join(scratch, w)
        os.makedirs(d)
        out = os.path.join(scratch, w + ".json")
        e = dict(env, RT_WORLD=w, HOME=d, TMPDIR=d)
        procs[w] = (subprocess.Popen([RTPY, os.path.join(HERE, "rt", "run.py"), prop, "--tier", tier, "--budget", str(budget), "--out", out],
                                     env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True), out)
    limit = 840 if tier == "quick" else 6000
    outs, broken = {}, []
    late = ""
    for k, (p, out) in sorted(procs.items(), key=lambda x: x[0] == "proof"):
        wait = limit - (time.time() - t0)
        if k == "proof" and any(o.get("failures") for o in outs.values()):
            wait = min(wait, 120)     # decided by a concrete failure; the proof may add the obligation that fails
        try:
            txt, _ = p.communicate(timeout=max(5, wait))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            txt, _ = p.communicate()
            txt = "TIMEOUT\n" + txt
            if k == "proof" and any(o.get("failures") for o in outs.values()):
                late = "the proof was stopped: a concrete failure had been found"
                continue
        try:
            with open(out) as f:
                outs[k] = json.load(f)
            if outs[k].get("error"):
                broken.append(f"{k}: {outs[k]['error']}")
        except (OSError, ValueError):
            broken.append(f"{k}: no result (exit {p.returncode}): {txt[-1500:]}")
    known = known_findings(prop)
    violations, n_known = [], 0

    # ---- run-time contract checks
    ev = dict(evaluations=0, distinct_nontrivial=0, worlds={}, samples=[], rule="")
    for w in worlds:
        r = outs.get(w)
        if not r:
            continue
        ev["evaluations"] += r["evaluations"]
        ev["distinct_nontrivial"] += r["nontrivial"]
        ev["rule"] = r["rule"]
        ev["worlds"][w] = dict(evaluations=r["evaluations"], nontrivial=r["nontrivial"], exhausted=r["exhausted"], time_s=round(r["time"], 1))
        ev["samples"] += r["samples"][:3]
        for i, f in enumerate(r["failures"]):
            key = json.dumps([w, f["case"]], sort_keys=True, default=str)
            if key in known:
                n_known += 1
                print(f"KNOWN-FINDING: property={prop} {known[key]}")
                continue
            path = os.path.join(rpdir, f"{prop}-{w}-{i}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, world=w, case=f["case"], message=f["message"], trace=f.get("trace"),
                               reproduce=f"RT_WORLD={w} {RTPY} {HERE}/rt/run.py {prop} --replay {path}"), fh, indent=1, default=str)
            violations.append((path, False, f["message"]))

    # ---- proof
    pr = outs.get("proof", {}).get("results", [])
    nob = ndis = 0
    solver = 0.0
    backends, funcs, undecided, trusted, inlined, assumed = {}, {}, [], set(), set(), set()
    proved_quals = set()
    for r in pr:
        nob += len(r["obligs"])
        solver += r["solver"]
        for o in r["obligs"]:
            if o["status"] == "proved":
                ndis += 1
                backends[o["backend"] or "z3"] = backends.get(o["backend"] or "z3", 0) + 1
        funcs.setdefault(r["name"], []).append(dict(world=r["world"], status=r["status"], obligations=[o["name"].split(":", 1)[-1] for o in r["obligs"]],
                                                    paths=r["paths"], solver_s=round(r["solver"], 2), time_s=round(r["time"], 1),
                                                    reason=r["reason"] if r["status"] != "proved" else "", bounded=r.get("bounded", "")))
        trusted |= set(r["trusted"])
        inlined |= set(r["inlined"])
        if r["status"] == "proved":
            proved_quals.add(r["qual"])
        assumed |= set(r["contracts"])
        if r["status"] in ("unsupported", "vacuous"):
            undecided.append(f"{r['name']} {r['world']}: {r['status']}: {r['reason'][:400]}")
    failed = [r for r in pr if r["status"] in ("refuted", "unknown")]
    done = set()
    for r in failed:
        if r["name"] in done:
            continue
        done.add(r["name"])
        bad = [o for o in r["obligs"] if o["status"] != "proved"]
        path = os.path.join(rpdir, f"{prop}-obligation-{len(done)}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, function=r["qual"], contract=r["name"], world=r["world"], failed_obligations=bad, reason=r["reason"],
                           rerun=f"{VTPY} {HERE}/pv/prove.py {prop} -v"), fh, indent=1)
        violations.append((path, True, "obligation failed: " + "; ".join(o["name"] for o in bad)))
    # concrete failures first; a failed obligation is the deciding evidence in either case
    rt_bad = [v for v in violations if not v[1]]
    pf_bad = [v for v in violations if v[1]]
    man = manifest_entry(prop)
    level = man.get("level", "proof")
    coverage = dict(ev, functions_under_contract=funcs, obligations=nob, discharged=ndis, backends=backends, solver_s=round(solver, 2),
                    checker_cmd=f"{VTPY} pv/prove.py {prop} -v",
                    trusted_base=["pv/: the verifier's own semantics of Python (values.py, engine.py, interp.py, models.py, world.py)", "z3 4.x / cvc5 1.1.2"] + sorted(trusted),
                    inlined_functions=sorted(inlined), contracts_used_at_calls=sorted(assumed),
                    contracts_used_but_not_proved_in_this_check=sorted(q for q in assumed if q not in proved_quals),
                    undecided_functions=undecided, bounded_part="rt/p_%s.py executed on the real code: %s" % (prop.lower(), ev["rule"]))
    evidence = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.time() - t0, 1), violations=len(violations),
                    assumptions=sorted(trusted) + ["integers are mathematical (Python's are)", "functions listed under undecided_functions are covered by the bounded run-time check only"])
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    print(f"{prop}: {ndis}/{nob} obligations discharged over {len(funcs)} contracts; {ev['evaluations']} run-time evaluations; {len(undecided)} undecided; {time.time() - t0:.1f}s")
    if late:
        print("  " + late)
    for u in undecided:
        print("  undecided:", u[:300])
    for path, nf, msg in rt_bad[:3]:
        print("  " + msg[:400].replace("\n", "\n    "))
        print(f"VIOLATION property={prop} replay={path}")
    if pf_bad and not rt_bad:
        for path, nf, msg in pf_bad[:3]:
            print("  " + msg[:400])
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    elif pf_bad:
        for path, nf, msg in pf_bad[:3]:
            print(f"  {msg[:400]} (see {path})")
    if violations:
        return 1
    if broken:
        print("the check itself failed:\n" + "\n".join(broken))
        return 2
    if nob == 0 and level == "proof" and not a.no_proof and any(r["status"] == "vacuous" for r in pr):
        print("no obligation was generated")
        return 2
    return 0


def manifest_entry(prop):
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            return next(c for c in json.load(f)["checks"] if c["property"] == prop)
    except (OSError, StopIteration, ValueError):
        return {}


def known_findings(prop):
    """Lines `known: property=<id> <json [world, case]> # <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                if line.startswith(f"known: property={prop} "):
                    body, _, what = line[len(f"known: property={prop} "):].rpartition(" # ")
                    out[json.dumps(json.loads(body), sort_keys=True)] = what.strip()
    except OSError:
        pass
    return out


if __name__ == "__main__":
    main()
