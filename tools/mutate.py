"""tools/mutate.py FILE.py[,FILE2.py…] [--count N] [--seed S] [--jobs J] [--scale X]: small changes to spreg source files, made
in scratch copies of /repo.  Those that survive the repository's own tests are given to the checks whose workloads reach the
changed line (coverage files of covrun.py in /tmp/cov).  Prints those that no check reports.  For looking for holes; no check uses it."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import multiprocessing as mp
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COV = "/tmp/cov"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
PLAIN = ("hasattr", "isinstance", "range", "getattr", "zip", "print", "set_warn")


def under(n):
    yield n
    for ch in ast.iter_child_nodes(n):
        yield from under(ch)


def sites(tree):
    skip = set()
    for n in under(tree):
        if isinstance(n, ast.FunctionDef) and n.name == "_test" or isinstance(n, (ast.Raise, ast.JoinedStr)) \
                or isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            skip |= {id(m) for m in under(n)}
    out = []
    for n in under(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((n, "cmp", 0))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not any(
                isinstance(m, ast.JoinedStr) or isinstance(m, ast.Constant) and isinstance(m.value, str) for m in under(n)):
            out.append((n, "bin", 0))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((n, "num", 0))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "bool", 0))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            out.append((n, "neg", 0))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "not", 0))
        if isinstance(n, ast.BoolOp):
            out.append((n, "boolop", 0))
        if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            out.append((n, "T", 0))
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
            for i, k in enumerate(n.keywords):
                if k.arg and nm not in PLAIN:
                    out.append((n, "kw", i))
            if len(n.args) >= 2 and nm not in PLAIN:
                out.append((n, "swap", 0))
        if isinstance(n, (ast.If, ast.For, ast.FunctionDef)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((s, "del", 0))
    return out


def edit(src, which):
    n, op, i = sites(ast.parse(src))[which]
    a0, c0, a1, c1 = n.lineno, n.col_offset, n.end_lineno, n.end_col_offset
    if op == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif op == "bin":
        n.op = BIN[type(n.op)]()
    elif op == "num":
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.1 + .001
    elif op == "bool":
        n.value = not n.value
    elif op in ("neg", "not"):
        n = n.operand
    elif op == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == "T":
        n = n.value
    elif op == "kw":
        n.keywords.pop(i)
    elif op == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    new = "pass" if op == "del" else ast.unparse(n)
    if op in ("bin", "cmp", "boolop", "neg", "not", "T", "num"):
        new = "(" + new + ")"
    b = [l.encode() for l in src.split("\n")]
    old = b"\n".join(b[a0 - 1:a1]).decode()
    txt = (b[a0 - 1][:c0] + new.encode() + b[a1 - 1][c1:])
    res = [x.decode() for x in b[:a0 - 1]] + [txt.decode()] + [x.decode() for x in b[a1:]]
    return "\n".join(res), a0, op, old, txt.decode()


def checks_for(f, line):
    """checks that reach the line (or the nearest line above it in their coverage), those with fewest lines first"""
    out = []
    for p in sorted(os.listdir(COV)):
        if p.endswith(".json"):
            h = json.load(open(os.path.join(COV, p))).get(f, [])
            if any(line - 12 <= v <= line for v in h):
                near = line in h
                out.append((not near, len(h) and -len(h), p[:-5]))
    rank = sorted(out)
    near = [c for a, _, c in rank if not a]
    return near or [c for _, _, c in rank]


def tests(tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    skip = " ".join("--ignore=spreg/tests/test_%s.py" % m for m in
                    ("diagnostics_panel", "nslx", "panel", "sur", "sur_error", "sur_lag"))
    r = subprocess.run(["bash", "-c", "cd %s && timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider %s "
                        "--deselect spreg/tests/test_error_sp.py::TestGMMError::test_regimes spreg 2>&1 | tail -3" % (tree, skip)],
                       capture_output=True, text=True, env=env)
    return " passed" in r.stdout and " failed" not in r.stdout and " error" not in r.stdout, r.stdout[-200:]


def work(a):
    f, which, scale, slot, limit = a
    tree = "/tmp/mut/w%s" % mp.current_process().name.split("-")[-1]
    if not os.path.exists(tree):
        shutil.copytree("/repo", tree, symlinks=True)
    p = "%s/spreg/%s" % (tree, f)
    src = open("/repo/spreg/" + f, newline="").read()
    try:
        new, line, op, old, txt = edit(src, which)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            return dict(f=f, which=which, res="syntax")
        open(p, "w", newline="").write(new)
        ok, msg = tests(tree)
        d = dict(f=f, which=which, line=line, op=op, old=old.strip()[:160], new=txt.strip()[:160])
        if not ok:
            return dict(d, res="tests")
        env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1")
        t0 = time.time()
        tried = []
        for c in checks_for(f, line)[:limit]:
            try:
                r = subprocess.run(["python3", V + "/check.py", c, "--no-evidence", "--jobs", "1", "--scale", str(scale)],
                                   capture_output=True, text=True, env=env, timeout=600)
            except subprocess.TimeoutExpired:
                return dict(d, res="timeout", by=c)
            tried.append(c)
            if r.returncode not in (0, 3):
                return dict(d, res="caught", by=c, t=time.time() - t0, pos=len(tried))
        return dict(d, res="MISSED", tried=tried, t=time.time() - t0)
    finally:
        shutil.copyfile("/repo/spreg/" + f, p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files")
    ap.add_argument("--count", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--scale", type=float, default=.5)
    ap.add_argument("--limit", type=int, default=12)
    ap.add_argument("--out", default="/tmp/mut/log.jsonl")
    a = ap.parse_args()
    os.makedirs("/tmp/mut", exist_ok=True)
    rnd = random.Random(a.seed)
    todo = []
    for f in a.files.split(","):
        s = sites(ast.parse(open("/repo/spreg/" + f).read()))
        cov = set()
        for p in os.listdir(COV):
            if p.endswith(".json"):
                cov |= set(json.load(open(os.path.join(COV, p))).get(f, []))
        idx = [i for i, (n, op, _) in enumerate(s) if any(v in cov for v in range(n.lineno - 3, n.lineno + 1))]
        rnd.shuffle(idx)
        todo += [(f, i, a.scale, 0, a.limit) for i in idx[:a.count]]
    rnd.shuffle(todo)
    tally = {}
    with mp.Pool(a.jobs) as pool, open(a.out, "a") as log:
        for r in pool.imap_unordered(work, todo):
            tally[r["res"]] = tally.get(r["res"], 0) + 1
            log.write(json.dumps(r) + "\n")
            log.flush()
            if r["res"] == "MISSED":
                print("MISSED %s:%s %s\n   - %s\n   + %s\n   tried %s" % (r["f"], r["line"], r["op"], r["old"], r["new"], " ".join(r["tried"])), flush=True)
    print(tally)


if __name__ == "__main__":
    main()
