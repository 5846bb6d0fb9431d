"""python3 tools/reflab.py SPEC.py [IDs]: apply behaviour-preserving edits to copies of /repo and run the checks; all must stay quiet"""
import os, subprocess, sys, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(t):
    d = tempfile.mkdtemp(prefix="ref_")
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", d])
        for f, old, new in t["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: pattern found %d times in %s: %r" % (t["id"], s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        for c in t["checks"]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev")
            try:
                r = subprocess.run([os.path.join(VERIF, "check"), c, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                lines = [l[:260] for l in r.stdout.splitlines() if l.strip() and "KNOWN" not in l and "Warning" not in l]
                out.append("%s: %s exit %d  %s" % (t["id"], c, r.returncode, lines[-1] if lines else ""))
                if r.returncode:
                    out += ["      " + l for l in lines[-6:-1]]
            except subprocess.TimeoutExpired:
                out.append("%s: %s TIMEOUT" % (t["id"], c))
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


spec = runpy.run_path(sys.argv[1])["REFACTORINGS"]
ids = sys.argv[2:]
with ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
    for r in ex.map(run, [t for t in spec if not ids or t["id"] in ids]):
        print(r, flush=True)
