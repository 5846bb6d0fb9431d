"""Units (one per function under contract) and the property runner."""
import json
import os
import sys
import time
import traceback

from . import core, engine
from .engine import rt, Explorer
from .core import Unsupported


class Unit(object):
    def __init__(self, name, fn, functions, max_paths, max_time):
        self.name, self.fn, self.functions = name, fn, functions
        self.max_paths, self.max_time = max_paths, max_time


UNITS = []


def unit(name, functions=(), max_paths=4000, max_time=200):
    def deco(fn):
        UNITS.append(Unit(name, fn, list(functions), max_paths, max_time))
        return fn
    return deco


def run_unit(u, verbose=False):
    t = time.time()
    ex = Explorer(u.name, u.fn, u.max_paths, u.max_time)
    rt.candidates = []
    rt.all_while = False
    rt.invariants = []
    rt.hoare = []
    rec = {"unit": u.name, "functions": u.functions, "error": None}
    try:
        ex.run()
    except Unsupported as e:
        rec["error"] = "outside the verifier's reach: %s" % (e,)
        rec["trace"] = traceback.format_exc()[-6000:]
    except Exception as e:
        rec["error"] = "exception in unit: %s: %s" % (type(e).__name__, str(e)[:500])
        rec["trace"] = traceback.format_exc()[-6000:]
    finally:
        core.Path.cur = None
    obl = ex.obligations
    rec["paths"] = getattr(ex, "paths", 0)
    rec["complete_paths"] = ex.outcomes.get("complete", 0)
    rec["obligations"] = len(obl)
    rec["discharged"] = sum(o.status == "proved" for o in obl)
    rec["backends"] = {}
    for o in obl:
        if o.status == "proved":
            rec["backends"][o.backend] = rec["backends"].get(o.backend, 0) + 1
    names = {}
    for o in obl:
        d = names.setdefault(o.name, [0, 0])
        d[0] += 1
        d[1] += o.status == "proved"
    rec["names"] = names
    failed = [{"name": o.name, "status": o.status, "detail": o.detail} for o in obl if o.status != "proved"]
    rec["nfailed"] = len(failed)
    rec["failed"] = failed[:20]
    rec["wall"] = time.time() - t
    if rec["error"] is None and (len(obl) == 0 or rec["complete_paths"] == 0):
        rec["error"] = "vacuous: no obligations or no complete path"
    return rec


def report(rec):
    print("%-50s %4d obligations %4d failed  %4d paths %6.2fs %s" % (
        rec["unit"], rec["obligations"], rec["nfailed"], rec["paths"], rec["wall"], rec["error"] or ""))
    if rec.get("trace"):
        print(rec["trace"][-3500:])
    seen = set()
    for f in rec["failed"]:
        if f["name"] in seen:
            continue
        seen.add(f["name"])
        print("   FAILED", f["name"], json.dumps(f["detail"], indent=1)[:1800])
    sys.stdout.flush()
