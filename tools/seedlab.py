"""Development aid: seedlab.py SPEC.py [ID...] [--notest] [--nocheck]
SPEC defines SEEDS = [dict(id, property, file, old, new, demo, needs, breaks)].  Each is applied to a scratch copy of
/repo, its demo is run on both trees, the stable tests on the changed one, then the property's check."""
import json, os, shutil, subprocess, sys, tempfile, runpy, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["tests"] if "tests" in json.load(open("/opt/vp/BASELINE.json")) else [])


def tests(d, tmp):
    for p in ("mdp", "bimdp"):
        subprocess.run([PY, "-m", "pytest", "-q", "-W", "ignore", "-p", "no:cacheprovider", "-p", "no:xdist", "--seed=725021957",
                        "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                        "--junitxml=%s/%s.xml" % (tmp, p), p], cwd=d, env=ENV, capture_output=True)
    subprocess.run([PY, "/opt/vp/results.py", tmp + "/out.json", "junit:%s/*.xml" % tmp], env=ENV, capture_output=True)
    r = subprocess.run([sys.executable, HERE + "/tools/regress.py", tmp + "/out.json"], capture_output=True, text=True)
    return r.stdout.strip()


def one(s, notest, nocheck):
    out = [s["id"]]
    tmp = tempfile.mkdtemp(prefix="seed_%s_" % s["id"])
    try:
        d = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            t = open(d + "/" + f).read()
            if t.count(old) != 1:
                return out + ["OLD TEXT occurs %d times in %s" % (t.count(old), f)], False
            open(d + "/" + f, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        gone = [l[1:] for l in diff.splitlines() if l[:1] == "-" and l[:3] != "---" and l[1:].strip()]
        orig = "".join(subprocess.run(["git", "show", "d3deb45:" + f], cwd=d, capture_output=True, text=True).stdout for f, _, _ in edits).splitlines()
        if any(l not in orig for l in gone) or not gone:
            out.append("NOT ORIGINAL: %s" % [l for l in gone if l not in orig])
        sd = tmp + "/seed"
        os.mkdir(sd)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\n" + s["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", sd + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True, timeout=250)
        r1 = subprocess.run(["bash", sd + "/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True, timeout=250)
        ok = r0.returncode == 0 and r1.returncode != 0
        out.append("demo %d/%d%s" % (r0.returncode, r1.returncode, "" if ok else " BAD " + (r0.stderr or r1.stderr)[-800:]))
        if r1.returncode:
            out.append("   " + (r1.stderr.strip().splitlines() or [""])[-1][:160])
        if not notest:
            t = tests(d, tmp)
            ok = ok and t.startswith("stable %d missing 0" % 911)
            out.append(t[:300])
        if not nocheck:
            r = subprocess.run([HERE + "/check", s["property"], "--tier", "quick"], cwd=HERE, env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE=tmp),
                               capture_output=True, text=True)
            out.append("check exit %d: %s" % (r.returncode, " | ".join(l[:200] for l in r.stdout.splitlines() if l.startswith("VIOL"))[:500] or "MISSED"))
        if ok and not notest:
            dst = HERE + "/seeded/" + s["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(sd, dst)
            out.append("kept")
        return out, ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    spec = [s for s in spec if not ids or s["id"] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get("W", 4))) as ex:
        for o, ok in ex.map(lambda s: one(s, "--notest" in sys.argv, "--nocheck" in sys.argv), spec):
            print("\n   ".join(o), flush=True)
