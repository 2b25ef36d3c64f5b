"""Developer tool: single-edit mutants of the library, and which check kills
each. Not used by any registered command.

    python3 tools/mutate.py list FILE...            number of mutants
    python3 tools/mutate.py run OUT.jsonl JOBS FILE... [--lines a-b] [--every k]

Each mutant is a scratch copy of the package under /tmp/mut; the checks run on
it with few cases each (tools/mutrun.py).
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("MUT_SRC", "/repo/src/mud")
HERE = os.path.dirname(os.path.abspath(__file__))

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.Pow: [ast.Mult], ast.MatMult: []}


def mutations(tree):
    """(line, description, function applying the edit to a fresh tree)."""
    res = []
    nodes = list(ast.walk(tree))

    def add(i, what, fn):
        res.append((nodes[i], i, what, fn))

    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    add(i, f"compare {type(op).__name__}->{new.__name__}", lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                add(i, f"binop {type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new()))
            if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Mod, ast.MatMult)):
                add(i, "binop->left", lambda m: ("replace", m.left))
                add(i, "binop->right", lambda m: ("replace", m.right))
        elif isinstance(n, ast.UnaryOp):
            add(i, f"drop {type(n.op).__name__}", lambda m: ("replace", m.operand))
        elif isinstance(n, ast.BoolOp):
            add(i, "and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                add(i, f"drop operand {k}", lambda m, k=k: ("replace", m.values[1 - k]) if len(m.values) == 2 else m.values.pop(k) and None)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(i, f"{n.value}->{not n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    add(i, f"{n.value}->{n.value + d}", lambda m, d=d: setattr(m, "value", m.value + d))
            elif isinstance(n.value, float):
                add(i, f"{n.value}->*2", lambda m: setattr(m, "value", m.value * 2 if m.value else 1.0))
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(i, "if True", lambda m: setattr(m, "test", ast.Constant(True)))
            add(i, "if False", lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                add(i, f"drop keyword {kw.arg}", lambda m, k=k: m.keywords.pop(k) and None)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute):
                add(i, f"call {n.func.attr}(x)->x", lambda m: ("replace", m.args[0]))
            if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                add(i, "swap arguments", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("reshape", "ravel", "copy", "squeeze", "flatten", "astype"):
                add(i, f"drop .{n.func.attr}()", lambda m: ("replace", m.func.value))
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            add(i, "drop .T", lambda m: ("replace", m.value))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
            add(i, "drop slice", lambda m: ("replace", m.value))
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Raise, ast.Assert, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(i, f"delete {type(n).__name__}", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.AugAssign):
            add(i, "delete AugAssign", lambda m: ("replace", ast.Pass()))
    # function bodies only, no docstrings or default texts at module level
    keep = []
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef,)):
            keep += [id(x) for s in f.body for x in ast.walk(s)] + [id(x) for x in ast.walk(f.args)]
    keep = set(keep)
    return [(n.lineno, i, w, fn) for n, i, w, fn in res if id(n) in keep and hasattr(n, "lineno")]


class Replacer(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, node):
        if node is self.old:
            return self.new
        return super().visit(node)


def apply(src, index, fn):
    tree = ast.parse(src)
    node = list(ast.walk(tree))[index]
    r = fn(node)
    if isinstance(r, tuple):
        tree = Replacer(node, r[1]).visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree))


def enclosing(tree, line):
    name = ""
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)) and f.lineno <= line <= f.end_lineno:
            name = (name + "." if name else "") + f.name
    return name


def main():
    mode = sys.argv[1]
    args = sys.argv[2:]
    every, lines = 1, None
    if "--every" in args:
        k = args.index("--every")
        every = int(args[k + 1])
        del args[k:k + 2]
    if "--lines" in args:
        k = args.index("--lines")
        lines = tuple(map(int, args[k + 1].split("-")))
        del args[k:k + 2]
    out = None
    jobs = 1
    if mode == "run":
        out, jobs, args = args[0], int(args[1]), args[2:]
    todo = []
    for f in args:
        with open(os.path.join(SRC, f)) as fp:
            src = fp.read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for ln, i, w, fn in mutations(tree):
            if lines and not lines[0] <= ln <= lines[1]:
                continue
            try:
                new = apply(src, i, fn)
                compile(new, f, "exec")
            except Exception:
                continue
            if new == base:
                continue
            todo.append(dict(file=f, line=ln, node=i, what=w, where=enclosing(tree, ln), text=src.splitlines()[ln - 1].strip(), new=new))
    todo = todo[::every]
    print(len(todo), "mutants", flush=True)
    if mode != "run":
        return
    done = set()
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            done.add((d["file"], d["node"], d["what"]))
    todo = [t for t in todo if (t["file"], t["node"], t["what"]) not in done]
    import queue

    slots = queue.Queue()
    for k in range(jobs):
        slots.put(k)
    os.makedirs("/tmp/mut", exist_ok=True)

    def one(t):
        k = slots.get()
        try:
            d = f"/tmp/mut/w{k}"
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(SRC, d + "/src/mud", ignore=shutil.ignore_patterns("__pycache__"))
            with open(os.path.join(d, "src/mud", t["file"]), "w") as fp:
                fp.write(t["new"])
            env = dict(os.environ, PYTHONPATH=f"{os.path.dirname(HERE)}:{d}/src", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
                       OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            try:
                p = subprocess.run(["nice", "-n", "5", "/opt/venv/bin/python", os.path.join(HERE, "mutrun.py"), d], env=env,
                                   capture_output=True, text=True, timeout=600, cwd=d)
                lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
                res = json.loads(lines[-1][7:]) if lines else {"killed": "crash", "msg": p.stderr[-300:]}
            except subprocess.TimeoutExpired:
                res = {"killed": "timeout"}
            t = {k2: v for k2, v in t.items() if k2 != "new"}
            t.update(res)
            with open(out, "a") as fp:
                fp.write(json.dumps(t) + "\n")
        finally:
            slots.put(k)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


main()
