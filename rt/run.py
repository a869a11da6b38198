"""rt/run.py PROPERTY --out FILE [--replay FILE]: the run-time check of one property in one world."""
import argparse
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--out")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--budget", type=float, default=40)
ap.add_argument("--replay")
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
t0 = time.time()
res = dict(world=os.environ.get("RT_WORLD", "tf"), evaluations=0, distinct=0, nontrivial=0, samples=[], failures=[], rule="", exhausted=True, error=None)
real_out = sys.stdout


def save():
    res["time"] = time.time() - t0
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)


try:
    import common
    mod = importlib.import_module("p_" + a.prop.lower())
except BaseException as e:
    # the package cannot even be imported: that is a failure of the code
    res["failures"].append(dict(case={"import": "asta"}, message=f"importing asta fails: {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:]))
    save()
    print(json.dumps(res["failures"][:1])[:2000])
    sys.exit(1)


def attempt(case):
    try:
        with common.quiet():
            common.options()
            msg = mod.run(case)
    except common.Skip:
        return None, True
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        msg = f"raises {type(e).__name__}: {str(e)[:300]}"
        tb = traceback.format_exc()[-1200:]
        return msg + "\n" + tb, False
    return msg, False


if a.replay:
    with open(a.replay) as f:
        rp = json.load(f)
    msg, _ = attempt(rp["case"])
    print("REPRODUCED: " + msg if msg else "not reproduced")
    sys.exit(1 if msg else 0)

res["rule"] = mod.RULE
seen = set()
rng = random.Random(a.seed * 7919 + 13)
try:
    for case in mod.cases(a.tier, rng):
        if time.time() - t0 > a.budget:
            res["exhausted"] = False
            break
        key = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).digest()
        if key in seen:
            continue
        seen.add(key)
        msg, skipped = attempt(case)
        if skipped:
            continue
        res["evaluations"] += 1
        nt = mod.nontrivial(case) if hasattr(mod, "nontrivial") else True
        if nt:
            res["nontrivial"] += 1
            if len(res["samples"]) < 6 and res["evaluations"] % 97 == 1:
                res["samples"].append(case)
        if msg:
            res["failures"].append(dict(case=case, message=msg))
            if len(res["failures"]) >= 4:
                break
except BaseException as e:
    res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
res["distinct"] = len(seen)
save()
if a.out is None:
    for f in res["failures"]:
        print("FAIL", json.dumps(f["case"])[:600], "\n    ", f["message"][:900])
    print({k: v for k, v in res.items() if k not in ("samples", "failures", "rule")})
