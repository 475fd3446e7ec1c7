"""Mutation campaign (run by hand; no check reads this).
   mutate.py gen N SEED OUT.jsonl         sample mutants of the encoded functions
   mutate.py run IN.jsonl OUT.jsonl K M   worker K of M: run the checks of each mutant (inside tools/ns.sh)"""
import ast
import copy
import glob
import json
import os
import random
import subprocess
import sys
import time

SRC = "/repo/src/"
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
NAMES = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "lf": "lr", "lr": "lf", "width": "length", "length": "width",
         "bisect_right": "bisect_left", "bisect_left": "bisect_right", "vx": "vy", "vy": "vx", "acc": "ddelta", "union": "intersection", "append": "extend", "append": "extend", "keys": "values"}


def variants(fn):
    """(path, description, replacement) of every mutation point inside a function"""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.dump(n.value.func)) or isinstance(n, ast.JoinedStr):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.Assert) and n.msg:
            for k in ast.walk(n.msg):
                skip.add(id(k))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                if a is not None:
                    for k in ast.walk(a):
                        skip.add(id(k))
            for d in n.decorator_list:
                for k in ast.walk(d):
                    skip.add(id(k))
        if isinstance(n, ast.AnnAssign):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    for n in ast.walk(fn):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in SWAP.get(type(op), []):
                    m = copy.deepcopy(n)
                    m.ops[i] = new()
                    out.append((n, m))
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            m = copy.deepcopy(n)
            m.op = ARITH[type(n.op)]()
            out.append((n, m))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                out.append((n, copy.deepcopy(n.left)))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append((n, m))
            m = copy.deepcopy(n)
            m.values = m.values[:-1] if len(m.values) > 2 else m.values
            if len(n.values) > 2:
                out.append((n, m))
            else:
                out.append((n, copy.deepcopy(n.values[0])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((n, copy.deepcopy(n.operand)))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, ast.Constant(not n.value)))
            elif isinstance(n.value, (int, float)):
                out.append((n, ast.Constant(n.value + 1)))
                if n.value == -1 or n.value == 1:
                    out.append((n, ast.Constant(0)))
                elif isinstance(n.value, float) and n.value:
                    out.append((n, ast.Constant(n.value * 1.1)))
            elif n.value is None:
                pass
        elif isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            out.append((n, ast.Name(NAMES[n.id], ast.Load())))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in NAMES:
            m = copy.deepcopy(n)
            m.attr = NAMES[n.attr]
            out.append((n, m))
        elif isinstance(n, ast.If):
            m = copy.deepcopy(n)
            m.test = ast.UnaryOp(ast.Not(), m.test)
            out.append((n, m))
            if n.orelse:
                m = copy.deepcopy(n)
                m.orelse = []
                out.append((n, m))
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((n, ast.Pass()))
        elif isinstance(n, ast.IfExp):
            out.append((n, copy.deepcopy(n.body)))
            out.append((n, copy.deepcopy(n.orelse)))
        elif isinstance(n, (ast.Continue,)):
            out.append((n, ast.Break()))
        elif isinstance(n, ast.Break):
            out.append((n, ast.Continue()))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args):
            m = copy.deepcopy(n)
            m.args = m.args[::-1]
            out.append((n, m))
        elif isinstance(n, ast.Slice) and n.lower is not None:
            m = copy.deepcopy(n)
            m.lower = None
            out.append((n, m))
        elif isinstance(n, ast.keyword) and n.arg and isinstance(n.value, (ast.Name, ast.Attribute)):
            pass
    return out


def checks_of():
    files, hit, wall = {}, {}, {}
    for f in sorted(glob.glob("/verif/evidence/C*.json")):
        e = json.load(open(f))
        wall[e["property"]] = e["wall_s"]
        for fn in e["coverage"]["functions_encoded"]:
            hit.setdefault(fn, []).append(e["property"])
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            files.setdefault(f, []).append(p["id"])
    return files, hit, wall


def gen(n, seed, out):
    files, hit, wall = checks_of()
    muts = []
    for f in sorted(glob.glob(SRC + "dg_commons/**/*.py", recursive=True)):
        rel = f[len(SRC):]
        text = open(f).read()
        tree = ast.parse(text)

        def walk(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    walk(c, pre + c.name + ".")
                elif isinstance(c, ast.FunctionDef):
                    q = pre + c.name
                    key = f"{rel}:{q}"
                    if key not in hit or "default" in c.name or c.name in ("__repr__", "__str__", "__hash__"):
                        continue
                    prim = [p for p in files.get("src/" + rel, []) if p in hit[key]]
                    rest = sorted((p for p in hit[key] if p not in prim), key=wall.get)
                    cs = sorted(prim, key=wall.get) + (rest[:2] if prim else rest[:5])
                    for a, b in variants(c):
                        if not hasattr(a, "lineno"):
                            continue
                        old = ast.get_source_segment(text, a)
                        try:
                            new = ast.unparse(ast.fix_missing_locations(b))
                        except Exception:
                            continue
                        if isinstance(b, (ast.BinOp, ast.BoolOp, ast.Compare, ast.UnaryOp, ast.IfExp)):
                            new = f"({new})"
                        if old.startswith("elif"):
                            new = "el" + new
                        if isinstance(b, ast.If):
                            ind = " " * a.col_offset
                            new = ("\n" + ind).join(new.split("\n"))
                        muts.append({"file": rel, "fn": q, "line": a.lineno, "col": a.col_offset, "old": old, "new": new, "checks": cs})
        walk(tree, "")
    rng = random.Random(seed)
    by = {}
    for m in muts:
        by.setdefault((m["file"], m["fn"]), []).append(m)
    print(len(muts), "mutants of", len(by), "functions")
    pool = []
    for k in by:
        rng.shuffle(by[k])
    keys = list(by)
    # round robin, more from longer functions
    i = 0
    while len(pool) < n and any(by.values()):
        for k in keys:
            if by[k]:
                take = 1 + (len(by[k]) > 20)
                for _ in range(take):
                    if by[k]:
                        pool.append((i, rng.random(), by[k].pop()))
        i += 1
    pool = [p[2] for p in pool][:n]
    rng.shuffle(pool)
    with open(out, "w") as o:
        for i, m in enumerate(pool):
            m["id"] = i
            o.write(json.dumps(m) + "\n")
    print(len(pool))


def offset(text, line, col):
    ls = text.splitlines(True)
    b = "".join(ls[:line - 1]).encode() + ls[line - 1].encode()[:col]
    return len(b)


def apply(m):
    p = SRC + m["file"]
    text = open(p).read()
    k = offset(text, m["line"], m["col"])
    bt = text.encode()
    assert bt[k:k + len(m["old"].encode())] == m["old"].encode(), m
    new = (bt[:k] + m["new"].encode() + bt[k + len(m["old"].encode()):]).decode()
    compile(new, p, "exec")
    open(p, "w").write(new)
    return p, text


def run(inp, out, k, n):
    for l in open(inp):
        m = json.loads(l)
        if m["id"] % n != k:
            continue
        try:
            p, text = apply(m)
        except SyntaxError:
            continue
        try:
            m["result"] = "survived"
            m["rcs"] = {}
            t0 = time.time()
            for c in m["checks"]:
                r = subprocess.run(["timeout", "600", "./check", c], cwd="/verif", capture_output=True, text=True, env={**os.environ, "SYMX_FAILFAST": "1"})
                m["rcs"][c] = r.returncode
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m["result"] = "caught " + c
                    break
                if "INCONCLUSIVE" in r.stdout:
                    m.setdefault("inconclusive", []).append(c + ": " + [x for x in r.stdout.splitlines() if "INCONCLUSIVE" in x][0][:200])
            m["s"] = round(time.time() - t0)
        finally:
            open(p, "w").write(text)
        with open(out, "a") as o:
            o.write(json.dumps(m) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
