"""python3 tools/forwhile.py [SUBSTR]: rewrite, one at a time, the for loops of the functions under contract as counted while loops
(behaviour-preserving), and run the checks that have the function under contract; all must stay quiet"""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
under = {}
for f in glob.glob(VERIF + "/evidence/C*.json"):
    d = json.load(open(f))
    for q in d["coverage"].get("functions_under_contract", []):
        under.setdefault(q, set()).add(d["property"])


def own_continue(stmts):
    for st in stmts:
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if own_continue(getattr(st, f, None) or []):
                return True
        if any(own_continue(h.body) for h in getattr(st, "handlers", []) or []):
            return True
    return False


def rewrite(loop, n):
    """statements, or None"""
    if own_continue(loop.body):
        return None
    i = "pos%d" % n
    src = ast.unparse
    it, T = loop.iter, loop.target
    fn = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
    pre = []
    if fn == "range" and len(it.args) <= 2 and isinstance(T, ast.Name):
        lo, hi = ("0", src(it.args[0])) if len(it.args) == 1 else (src(it.args[0]), src(it.args[1]))
        pre = ["%s = %s" % (i, lo), "end%d = %s" % (n, hi)]
        test, head = "%s < end%d" % (i, n), ["%s = %s" % (src(T), i)]
    elif fn == "enumerate" and len(it.args) == 1 and isinstance(it.args[0], (ast.Name, ast.Attribute)) and isinstance(T, ast.Tuple):
        L = src(it.args[0])
        pre = ["%s = 0" % i]
        test, head = "%s < len(%s)" % (i, L), ["%s = %s" % (src(T.elts[0]), i), "%s = %s[%s]" % (src(T.elts[1]), L, i)]
    elif fn == "zip" and all(isinstance(a, (ast.Name, ast.Attribute)) for a in it.args) and isinstance(T, ast.Tuple) and len(it.args) == 2:
        A, B = map(src, it.args)
        pre = ["%s = 0" % i]
        test, head = "%s < min(len(%s), len(%s))" % (i, A, B), ["%s = %s[%s]" % (src(t), l, i) for t, l in zip(T.elts, (A, B))]
    elif isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
        pre = ["seq%d = %s" % (n, src(it)), "%s = 0" % i]
        test, head = "%s < len(seq%d)" % (i, n), ["%s = seq%d[%s]" % (src(T), n, i)]
    else:
        return None
    out = [ast.parse(p).body[0] for p in pre]
    w = ast.parse("while %s:\n    pass" % test).body[0]
    w.body = [ast.parse(h).body[0] for h in head] + loop.body + [ast.parse("%s += 1" % i).body[0]]
    w.orelse = loop.orelse
    return out + [w]


def sites():
    for q in sorted(under):
        mod, qual = q.split(":")
        p = mod.replace(".", "/") + ".py"
        if not os.path.exists("/repo/" + p):
            p = mod.replace(".", "/") + "/__init__.py"
        if not os.path.exists("/repo/" + p):
            continue
        src = open("/repo/" + p).read()
        body = ast.parse(src)
        node = body
        for name in qual.split("."):
            node = next((x for x in ast.walk(node) if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == name), None)
            if node is None:
                break
        if not isinstance(node, ast.FunctionDef):
            continue
        for k, lp in enumerate([x for x in ast.walk(node) if isinstance(x, ast.For)]):
            new = rewrite(lp, k)
            if new is None:
                print("skip", q, lp.lineno, ast.unparse(lp.iter)[:60])
                continue
            lines = src.splitlines(True)
            ind = " " * lp.col_offset
            text = "".join(ind + l + "\n" for st in new for l in ast.unparse(ast.fix_missing_locations(st)).splitlines())
            yield q, lp.lineno, p, "".join(lines[:lp.lineno - 1]) + text + "".join(lines[lp.end_lineno:]), sorted(under[q])


def run(t):
    q, line, p, text, checks = t
    d = tempfile.mkdtemp(prefix="ref_")
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", d])
        open(os.path.join(d, p), "w").write(text)
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev")
            r = subprocess.run([VERIF + "/check", c, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l[:300] for l in r.stdout.splitlines() if l.strip() and "KNOWN" not in l and "Warning" not in l]
            out.append("%s:%d %s exit %d %s" % (q, line, c, r.returncode, lines[-1] if lines and r.returncode else ""))
            if r.returncode:
                out += ["      " + l for l in lines[-4:-1]]
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


if __name__ == "__main__":
    todo = [t for t in sites() if len(sys.argv) < 2 or sys.argv[1] in t[0]]
    if os.environ.get("LIST"):
        for t in todo:
            print(t[0], t[1], t[4])
        sys.exit()
    with ThreadPoolExecutor(int(os.environ.get("W", "3"))) as ex:
        for r in ex.map(run, todo):
            print(r, flush=True)
