"""python -m harness.run C01 --seed 1 --tier quick [--only scenario --index i] -> JSON on the last stdout line"""
import importlib
import json
import os
import sys
import tempfile
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    a = sys.argv[1:]
    pid = a[0]

    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ("", REPO)]
    sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    scratch = tempfile.mkdtemp(prefix="vcheck_%s_" % pid)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    real = os.dup(1)
    os.dup2(2, 1)          # anything the code prints goes to stderr
    try:
        from harness import base
        importlib.import_module("harness.%s" % pid.lower())
        idx = opt("--index")
        out = base.run(int(opt("--seed", "1")), opt("--tier", "quick"), opt("--only"),
                       int(idx) if idx is not None else None, float(opt("--deadline", "600")))
        import mdp
        out["mdp"] = mdp.__file__
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    os.write(real, ("\n" + json.dumps(out) + "\n").encode())
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
