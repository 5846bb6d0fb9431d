"""python3 tools/caught.py [IDs]: apply every /verif/seeded change to a copy of /repo and show what its property's check reports"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    folder = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(folder + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="caught_")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", d])
        subprocess.check_call(["git", "-C", d, "apply", folder + "/patch.diff"])
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev")
        r = subprocess.run([os.path.join(VERIF, "check"), prop, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        f = sum("failed obligation" in l for l in r.stdout.splitlines())
        return "%-24s %s exit %d  %s  (%d failed obligations shown)" % (
            i, prop, r.returncode, "missed" if not v else "no failing input" if "no-failing" in v[0] else "failing input", f)
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
with ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
    for line in ex.map(run, ids):
        print(line, flush=True)
