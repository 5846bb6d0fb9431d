"""Concrete contract harness: runs the real, uninstrumented code of /repo against the contracts.

Used to replay failed obligations (the verifier's counterexample, as a concrete input of the same
contract), and as the bounded stand-in for functions outside the verifier's reach.
"""
import os
import random
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
warnings.simplefilter("ignore")

SCENARIOS = []


class Violation(AssertionError):
    pass


class Skip(Exception):
    """the generated case is not meaningful"""


def scenario(name, n=40, thorough=8, key=None):
    """f(rng, note): one random case; note(**facts) describes it for the replay file"""
    def deco(f):
        SCENARIOS.append((name, f, n, thorough))
        return f
    return deco


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def raises(exc, f, *a, **k):
    """f must raise exactly an instance of exc; returns the exception"""
    try:
        r = f(*a, **k)
    except exc as e:
        return e
    except Exception as e:
        raise Violation("expected %s, got %s: %s" % (_n(exc), type(e).__name__, str(e)[:300]))
    raise Violation("expected %s, but the call returned %s" % (_n(exc), repr(r)[:200]))


def _n(exc):
    return exc.__name__ if isinstance(exc, type) else "/".join(e.__name__ for e in exc)


def run(seed, tier, only=None, index=None, deadline=600):
    import numpy
    out = {"evaluations": 0, "distinct": 0, "skipped": 0, "failures": [], "samples": [], "scenarios": {}}
    t0 = time.time()
    seen = set()
    for name, f, n, thorough in SCENARIOS:
        if only and name != only:
            continue
        cnt = n if tier == "quick" else n * thorough
        ts = time.time()
        done = 0
        for i in range(cnt):
            if index is not None and i != index:
                continue
            if time.time() - t0 > deadline:
                out["truncated"] = True
                break
            rng = random.Random("%s/%s/%s" % (seed, name, i))
            numpy.random.seed(rng.randrange(2 ** 32))
            raw = {}
            try:
                try:
                    f(rng, lambda **k: raw.update(k))
                finally:
                    facts = {}
                    for a, b in raw.items():
                        try:
                            facts[a] = repr(b)[:600]
                        except Exception as e:
                            facts[a] = "<%s>" % type(e).__name__
            except Skip:
                out["skipped"] += 1
                continue
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                out["failures"].append({"scenario": name, "index": i, "seed": seed, "what": "%s: %s" % (type(e).__name__, str(e)[:600]),
                                        "input": facts, "trace": traceback.format_exc()[-3000:]})
                out["evaluations"] += 1
                if sum(x["scenario"] == name for x in out["failures"]) >= 3:
                    break
                continue
            out["evaluations"] += 1
            done += 1
            d = (name, repr(sorted(facts.items())))
            if d not in seen:
                seen.add(d)
                if len(out["samples"]) < 12 and done == 1:
                    out["samples"].append({"scenario": name, "index": i, "input": facts})
        out["scenarios"][name] = {"cases": done, "wall": round(time.time() - ts, 2)}
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    return out
