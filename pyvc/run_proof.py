"""python -m pyvc.run_proof C01 [-v] [--only substr] [-j N]: run all units of a property, JSON on stdout."""
import importlib
import json
import multiprocessing
import os
import sys

sys.setrecursionlimit(20000)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings
warnings.simplefilter("ignore")


def _one(i):
    from pyvc import unit, core
    core.STATS.__init__()
    r = unit.run_unit(unit.UNITS[i])
    r["solver_time"], r["queries"], r["by"] = core.STATS.solver_time, core.STATS.queries, core.STATS.by
    return r


def main():
    pid = sys.argv[1]
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    jobs = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 8
    from pyvc import unit, core, models, transform
    importlib.import_module("contracts.%s" % pid.lower())
    idx = [i for i, u in enumerate(unit.UNITS) if not only or only in u.name]
    if jobs == 1:
        res = []
        for i in idx:
            res.append(_one(i))
            if verbose:
                unit.report(res[-1])
    else:
        with multiprocessing.get_context("fork").Pool(min(jobs, max(1, len(idx))), maxtasksperchild=1) as pool:
            res = []
            for r in pool.imap(_one, idx, chunksize=1):
                res.append(r)
                if verbose:
                    unit.report(r)
    by = {}
    for r in res:
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
    out = {"units": res, "solver_time": sum(r["solver_time"] for r in res), "queries": sum(r["queries"] for r in res),
           "backends": by, "trusted": models.TRUSTED, "files": sorted(transform.FILES)}
    if verbose:
        print("solver %.1fs, %d queries" % (out["solver_time"], out["queries"]))
    else:
        json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
