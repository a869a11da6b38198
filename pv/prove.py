"""pv/prove.py PROPERTY --out FILE: discharge the obligations of one property from /repo's current source."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def job(spec):
    mname, cname, wld, budget = spec
    base = dict(contract=cname, world=list(wld))
    try:
        sys.setrecursionlimit(20000)
        import registry
        import world as W
        import contract
        m = importlib.import_module(mname)
        cls = getattr(m, cname)
        base.update(name=(cls.qual or "lemma") + (":" + cls.label if cls.label else ""), qual=cls.qual)
        w = W.World(*wld)
        w.load(registry.MODS)
        registry.install(w)
        c = cls(w)
        base.update(name=c.name())
        r = contract.verify(w, c, budget)
        base.update(status=r.status, reason=r.reason, time=r.time, solver=r.solver, paths=r.paths, queries=r.queries,
                    contracts=r.contracts, inlined=r.inlined, trusted=r.trusted, bounded=getattr(c, "bounded", ""),
                    obligs=[dict(name=o.name, status=o.status, count=o.count, backend=o.backend, detail=o.detail[:3000]) for o in r.obligs])
    except BaseException as e:
        base.update(status="unsupported", reason=f"{type(e).__name__}: {str(e)[:300]}", trace=traceback.format_exc()[-1500:], time=0, solver=0, paths=0, queries=0,
                    contracts=[], inlined=[], trusted=[], bounded="", obligs=[])
        base.setdefault("name", cname)
        base.setdefault("qual", None)
    return base


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=5)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import registry
    budget = a.budget or (240 if a.tier == "quick" else 1200)
    limit = 600 if a.tier == "quick" else 5000
    t0 = time.time()
    specs = []
    for m, c, w in registry.jobs(a.prop, a.tier):
        heavy = getattr(getattr(importlib.import_module(m), c), "heavy", 0)      # the longest proofs start first
        specs.append((-heavy, m, c, w, budget * 2 if heavy and not a.budget else budget))
    specs = [x[1:] for x in sorted(specs, key=lambda x: x[0])]
    res = []
    if specs:
        with mp.get_context("spawn").Pool(min(a.jobs, len(specs)), maxtasksperchild=1) as pool:
            pend = {i: pool.apply_async(job, (x,)) for i, x in enumerate(specs)}
            while pend:
                done = [i for i, x in pend.items() if x.ready()]
                if not done:
                    if time.time() - t0 > limit:
                        break
                    time.sleep(0.02)
                    continue
                r = pend.pop(done[0]).get()
                res.append(r)
                if a.v or not a.out:
                    print(r["name"], r["world"], r["status"], r["reason"][:600], "%.1fs solver %.1fs paths %d obligations %d" % (r["time"], r["solver"], r["paths"], len(r["obligs"])), flush=True)
                    for o in r["obligs"]:
                        if a.v or o["status"] != "proved":
                            print("    ", o["name"], o["status"], o["count"], o["backend"], o["detail"][:800])
            pool.terminate()
            for i in pend:
                m, c, w, b = specs[i]
                res.append(dict(contract=c, world=list(w), name=c, qual=None, status="unsupported", reason=f"not finished within {limit} s", time=limit, solver=0, paths=0,
                                queries=0, contracts=[], inlined=[], trusted=[], bounded="", obligs=[]))
    res.sort(key=lambda r: (r["name"], r["world"]))
    if a.out:
        with open(a.out, "w") as f:
            json.dump(dict(results=res, time=time.time() - t0), f, default=str)


if __name__ == "__main__":
    main()
