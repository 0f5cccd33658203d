"""Development aid: small syntactic changes of the library that its tests do not notice, to see which no check notices.

  mutants.py list OUT.json            all mutants of /repo/src
  mutants.py tests OUT.json           keep those that pass the tests (scratch copies under /tmp)
  mutants.py checks OUT.json [scale]  run the checks of a copy of /verif against each until one reports it
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed
from queue import Queue

REPO = "/repo"
SCRATCH = "/tmp/mut"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0")
ORDER = {
    "filter.py": "C02 C03 C04 C05 C21", "utils.py": "C02 C03 C05", "data/operator.py": "C04 C18 C02",
    "data/path.py": "C05 C16 C06", "data/container.py": "C07 C06 C10", "error.py": "C08 C24 C19",
    "data/type.py": "C09 C10 C22", "data/attributes.py": "C09 C12 C10 C22 C06 C23", "data/schemas.py": "C11 C10 C22 C12 C23",
    "attributes_presence.py": "C13 C17 C18", "sorter.py": "C14 C18", "assets/schemas/patch_op.py": "C16 C19",
    "assets/schemas/bulk_ops.py": "C19 C20", "assets/schemas/list_response.py": "C18", "assets/schemas/error.py": "C17 C20",
    "assets/schemas/search_request.py": "C21", "assets/schemas/schema.py": "C22",
    "request_validators.py": "C15 C17 C16 C18 C19 C20 C21 C13",
}
CHEAP = ["C09", "C11", "C03", "C05", "C12", "C02", "C21", "C22", "C07", "C10", "C14", "C04", "C16", "C08", "C15", "C17", "C19",
         "C20", "C06", "C24", "C13", "C18", "C01", "C23"]

SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


class Source:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.lines = self.text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.bytes = self.text.encode()

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def get(self, node):
        a, b = self.span(node)
        return self.bytes[a:b].decode()


def edits(src):
    """(description, start, end, replacement)"""
    tree = ast.parse(src.text)
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    annotations = set()
    for n in ast.walk(tree):
        for field in ("annotation", "returns"):
            a = getattr(n, field, None)
            if a is not None:
                annotations.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.JoinedStr):
            annotations.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in annotations:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = src.span(n.left)[1], src.span(n.comparators[0])[0]
            yield "compare", a, b, " " + SWAP[type(n.ops[0])] + " "
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield "boolop", *src.span(n), "(" + op.join(f"({src.get(v)})" for v in n.values) + ")"
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                op_ = " and " if isinstance(n.op, ast.And) else " or "
                yield f"operand{i}", *src.span(n), "(" + op_.join(f"({src.get(v)})" for v in rest) + ")"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield "not", *src.span(n), f"({src.get(n.operand)})"
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield "true", *src.span(n.test), "True"
            yield "false", *src.span(n.test), "False"
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield "bool", *src.span(n), str(not n.value)
            elif isinstance(n.value, int):
                yield "int", *src.span(n), str(n.value + 1)
            elif isinstance(n.value, str) and n.value:
                yield "str", *src.span(n), repr(n.value + "x")
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            yield "delete", *src.span(n), "pass"
        if isinstance(n, ast.Continue):
            yield "break", *src.span(n), "break"
        if isinstance(n, ast.Break):
            yield "continue", *src.span(n), "continue"
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) is False:
            pass
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "upper") and not n.args:
                yield "uncall", *src.span(n), src.get(n.func.value)
            for kw in n.keywords:
                if kw.arg is None:
                    continue
                parts = [src.get(a) for a in n.args] + [src.get(k) for k in n.keywords if k is not kw]
                yield f"kw-{kw.arg}", *src.span(n), src.get(n.func) + "(" + ", ".join(parts) + ")"
            if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "dict", "set", "str", "sorted"):
                yield "uncall", *src.span(n), src.get(n.args[0])
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                rest = ", ".join(src.get(e) for j, e in enumerate(n.elts) if j != i)
                o, c = {"List": "[]", "Tuple": "()", "Set": "{}"}[type(n).__name__]
                yield f"element{i}", *src.span(n), o + rest + ("," if o == "(" else "") + c
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            yield "last", *src.span(n.slice), "-1"
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield "left", *src.span(n), src.get(n.left)
            yield "right", *src.span(n), src.get(n.right)


def listing(out):
    mutants = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            path = os.path.join(root, name)
            rel = os.path.relpath(path, os.path.join(REPO, "src"))
            src = Source(path)
            seen = set()
            for kind, a, b, new in edits(src):
                text = (src.bytes[:a] + new.encode() + src.bytes[b:]).decode()
                if text in seen or text == src.text:
                    continue
                seen.add(text)
                try:
                    compile(text, path, "exec")
                except SyntaxError:
                    continue
                line = src.bytes[:a].count(b"\n") + 1
                mutants.append({"file": rel, "line": line, "kind": kind, "old": src.bytes[a:b].decode(), "new": new,
                                "a": a, "b": b})
    json.dump(mutants, open(out, "w"), indent=0)
    print(len(mutants))


def place(slot, mutant):
    """Scratch copy of the repository with one mutant."""
    root = f"{SCRATCH}/w{slot}"
    if not os.path.exists(root):
        shutil.copytree(REPO, root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    src = open(f"{REPO}/src/{mutant['file']}", "rb").read()
    path = f"{root}/src/{mutant['file']}"
    open(path, "wb").write(src[: mutant["a"]] + mutant["new"].encode() + src[mutant["b"]:])
    return root, lambda: open(path, "wb").write(src)


def run_all(mutants, fn, save):
    slots = Queue()
    for i in range(8):
        slots.put(i)

    def one(mutant):
        slot = slots.get()
        try:
            root, undo = place(slot, mutant)
            try:
                fn(mutant, root, slot)
            finally:
                undo()
        finally:
            slots.put(slot)

    with ThreadPoolExecutor(8) as pool:
        done = 0
        for f in as_completed([pool.submit(one, m) for m in mutants]):
            f.result()
            done += 1
            if done % 50 == 0:
                save()
                print(done, "of", len(mutants), flush=True)
    save()


def tests(out):
    mutants = json.load(open(out))

    def fn(mutant, root, slot):
        r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=root,
                           env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        mutant["passes"] = r.returncode == 0

    run_all([m for m in mutants if "passes" not in m], fn, lambda: json.dump(mutants, open(out, "w"), indent=0))
    print(sum(m["passes"] for m in mutants), "pass")


def checks(out, scale="0.3", scope="near"):
    mutants = json.load(open(out))
    verif = f"{SCRATCH}/verif"

    def fn(mutant, root, slot):
        first = ORDER.get(mutant["file"], "C22 C10").split()
        mutant["odd"] = []
        mutant["caught"] = None
        mutant["scope"] = scope
        rest = [p for p in CHEAP if p not in first] if scope == "all" else []
        for pid in first + rest:
            r = subprocess.run([f"{verif}/check", pid, "--scale", scale, "--workers", "1"], cwd=verif,
                               env=dict(ENV, PYSCIM_REPO=root), capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                mutant["caught"] = pid
                mutant["how"] = r.stdout.split("\n")[1][:200]
                return
            if r.returncode:
                mutant["odd"].append(pid)

    todo = [m for m in mutants if m["passes"] and m.get("caught") is None and m.get("scope") != scope]
    run_all(todo, fn, lambda: json.dump(mutants, open(out, "w"), indent=0))
    print(sum(m.get("caught") is None for m in mutants if m["passes"]), "not caught")


if __name__ == "__main__":
    {"list": listing, "tests": tests, "checks": checks}[sys.argv[1]](*sys.argv[2:])
