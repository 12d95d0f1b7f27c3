"""Mutation campaign: how many small changes of the code do the checks notice?

python3 tools/mutate.py OUT.jsonl [--every K] [--offset O] [--jobs J] [--files SUBSTR] [--checks A,B]

Makes syntactic mutants of the files of the properties (one at a time, in a scratch copy of the
sources), runs the checks of the properties anchored in the file until one fails, and writes one
line per mutant.  Survivors are to be looked at by hand: equivalent, outside the properties, or a
hole in a check.
"""

import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "FloorDiv": "*", "Mod": "*", "Pow": "*", "BitAnd": "|", "BitOr": "&"}
CALLS = {"where": "swap", "minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "isnan": "isinf", "isfinite": "isnan", "mean": "sum", "logical_and": "logical_or", "logical_or": "logical_and", "square": "abs"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (data[:a] + new.encode() + data[b:]).decode()))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]:
                if a is not None and a.annotation is not None:
                    skip.update(ast.walk(a.annotation))
            if n.returns is not None:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, (ast.Raise, ast.Assert)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and text(n.func).split(".")[-1] in ("warn", "debug", "info", "warning", "print", "TypeVar"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            put(n, f"{text(n.left)} {CMP[op]} {text(n.comparators[0])}", f"{op}")
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            put(n, f"({text(n.left)} {BIN[type(n.op).__name__]} {text(n.right)})", type(n.op).__name__)
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            put(n, "(" + f" {op} ".join(text(v) for v in n.values) + ")", type(n.op).__name__)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            put(n, text(n.operand), type(n.op).__name__)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), f"{v}")
            elif isinstance(v, int):
                put(n, str(v + 1), f"{v}")
            elif isinstance(v, float):
                put(n, str(v + 0.5), f"{v}")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", "if True")
            put(n.test, "False", "if False")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            name = f.split(".")[-1]
            if name in CALLS:
                if CALLS[name] == "swap":
                    if len(n.args) == 3:
                        a = [text(x) for x in n.args]
                        put(n, f"{f}({a[0]}, {a[2]}, {a[1]})", "swap where")
                else:
                    put(n.func, f[: len(f) - len(name)] + CALLS[name], f"{name}->{CALLS[name]}")
            if not isinstance(n.func, ast.Name) or name[0].islower():
                for k in range(len(n.keywords)):
                    rest = [text(a) for a in n.args] + [text(x) for i, x in enumerate(n.keywords) if i != k]
                    put(n, f"{f}({', '.join(rest)})", f"without {n.keywords[k].arg}")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), (ast.Lambda,)):
            tgt = n.target if isinstance(n, ast.AugAssign) else n.targets[0]
            if isinstance(tgt, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                put(n, "pass", "deleted")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "deleted call")
        elif isinstance(n, ast.Break):
            put(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            put(n, "pass", "continue")
    uniq, res = set(), []
    for line, what, new in sorted(out, key=lambda o: o[0]):
        if new in uniq or new == src:
            continue
        uniq.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        res.append((line, what, new))
    return res, lines


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--every", type=int, default=1)
    p.add_argument("--offset", type=int, default=0)
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("--files", default="")
    p.add_argument("--checks", default="")
    p.add_argument("--timeout", type=int, default=400)
    a = p.parse_args()
    by_file = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        q = json.loads(line)
        if a.checks and q["id"] not in a.checks.split(","):
            continue
        for f in q["anchors"]["files"]:
            by_file.setdefault(f, []).append(q["id"])
    todo = []
    for f in sorted(by_file):
        if a.files and not any(s in f for s in a.files.split(",")):
            continue
        ms, lines = mutants(os.path.join(REPO, f))
        todo += [(f, k, *m, lines[m[0] - 1].strip()) for k, m in enumerate(ms)]
    todo = todo[a.offset :: a.every]
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["k"]) for d in map(json.loads, open(a.out))}
    todo = [t for t in todo if (t[0], t[1]) not in done]
    print(len(todo), "mutants", flush=True)
    out = open(a.out, "a")

    def one(t):
        f, k, line, what, new, code = t
        w = tempfile.mkdtemp(prefix="mut_")
        try:
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(w, "src"), ignore=shutil.ignore_patterns("__pycache__"))
            with open(os.path.join(w, f), "w") as fh:
                fh.write(new)
            env = dict(os.environ, WAX_SRC=os.path.join(w, "src"), MC_FAIL_FAST="1")
            status, by = "SURVIVED", ""
            for c in by_file[f]:
                try:
                    r = subprocess.run(
                        [os.path.join(HERE, "run.sh"), c, "quick", "--jobs", "3"], env=env, cwd=w,
                        capture_output=True, text=True, timeout=a.timeout,
                    )
                except subprocess.TimeoutExpired:
                    status, by = "timeout", c
                    break
                if r.returncode == 1:
                    status, by = "killed", c + " " + r.stdout.strip().split("\n")[-1][:150]
                    break
                if r.returncode != 0:
                    status, by = "error", c + " " + r.stdout.strip()[-300:]
            res = {"file": f, "k": k, "line": line, "what": what, "code": code, "status": status, "by": by}
            out.write(json.dumps(res) + "\n")
            out.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))


if __name__ == "__main__":
    sys.exit(main())
