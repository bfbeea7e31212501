"""
Mutation testing of the checks (developer's tool).

    python tools/mutants.py FOLDER COVERAGE JOBS [SHARE OF]

Changes sofar at one place at a time (in FOLDER), and runs the shards of the
suites that execute this line (COVERAGE: see cover.py) until one objects.
Writes one line per mutant to FOLDER/results.jsonl.
"""
import ast
import collections
import concurrent.futures
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["io.py", "sofa.py", "sofastream.py", "update_conventions.py",
         "utils.py"]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE,
       ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
SKIP = {"_check_congruency", "_complete_sofa", "__repr__"}


def variants(node, parent):
    """Replacements of a node (node, description)."""
    out = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            n = copy.deepcopy(node)
            n.ops[i] = CMP[type(op)]()
            out.append((n, "compare"))
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append((n, "and/or"))
        for i in range(len(node.values)):
            v = node.values[:i] + node.values[i + 1:]
            out.append((v[0] if len(v) == 1
                        else ast.BoolOp(node.op, v), f"drop operand {i}"))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append((node.operand, "drop not"))
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            out.append((n, f"if {v}"))
    if isinstance(node, ast.Constant) and not isinstance(
            parent, (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
        if isinstance(node.value, bool):
            out.append((ast.Constant(not node.value), "constant"))
        elif isinstance(node.value, int):
            out.append((ast.Constant(node.value + 1), "constant+1"))
            if node.value > 0:
                out.append((ast.Constant(node.value - 1), "constant-1"))
        elif isinstance(node.value, str) and len(node.value) < 25:
            out.append((ast.Constant(node.value + "X"), "string"))
        elif node.value is None and not isinstance(parent, ast.Return):
            out.append((ast.Constant(0), "none"))
    if isinstance(node, ast.BinOp):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}
        if type(node.op) in swap:
            n = copy.deepcopy(node)
            n.op = swap[type(node.op)]()
            out.append((n, "operator"))
        if isinstance(node.op, ast.Add):
            out.append((node.left, "drop right"))
            out.append((node.right, "drop left"))
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute):
            if not node.args and not node.keywords:
                out.append((node.func.value, "drop call " + node.func.attr))
            elif node.func.attr in ("replace", "strip", "union", "squeeze",
                                    "lstrip", "rstrip"):
                out.append((node.func.value, "drop call " + node.func.attr))
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            out.append((n, f"drop keyword {i}"))
        if len(node.args) == 1 and isinstance(node.func, (
                ast.Name, ast.Attribute)):
            name = getattr(node.func, "id", getattr(node.func, "attr", ""))
            if name in ("list", "sorted", "set", "str", "int", "float",
                        "squeeze", "deepcopy", "copy", "array", "abs",
                        "atleast_2d", "asarray", "tuple"):
                out.append((node.args[0], "drop call " + name))
            if name in ("min", "max", "any", "all"):
                n = copy.deepcopy(node)
                other = {"min": "max", "max": "min", "any": "all",
                         "all": "any"}[name]
                if isinstance(n.func, ast.Name):
                    n.func.id = other
                else:
                    n.func.attr = other
                out.append((n, name + " to " + other))
        if len(node.args) > 1:
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append((n, "swap arguments"))
            n = copy.deepcopy(node)
            del n.args[-1]
            out.append((n, "drop last argument"))
        if isinstance(node.func, ast.Attribute) and node.func.attr in (
                "startswith", "endswith"):
            n = copy.deepcopy(node)
            n.func.attr = {"startswith": "endswith",
                           "endswith": "startswith"}[node.func.attr]
            out.append((n, "starts/ends"))
            out.append((ast.Compare(node.args[0], [ast.In()],
                                    [node.func.value]), "contains"))
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and isinstance(
            getattr(node, "ctx", ast.Load()), ast.Load) \
            and 1 < len(node.elts) < 12 and not isinstance(
                parent, (ast.Assign, ast.Return, ast.Subscript)):
        for i in range(len(node.elts)):
            n = copy.deepcopy(node)
            del n.elts[i]
            out.append((n, f"drop element {i}"))
    if isinstance(node, ast.For):
        for what, sl in (("first", ast.Slice(ast.Constant(1), None)),
                         ("last", ast.Slice(None, ast.UnaryOp(
                             ast.USub(), ast.Constant(1))))):
            n = copy.deepcopy(node)
            n.iter = ast.Subscript(ast.Call(
                ast.Name("list", ast.Load()), [node.iter], []), sl,
                ast.Load())
            out.append((n, "loop without " + what))
    if isinstance(node, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(node, f) is not None:
                n = copy.deepcopy(node)
                setattr(n, f, None)
                out.append((n, "drop " + f))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete,
                         ast.Continue, ast.Break)) or (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
        out.append((ast.Pass(), "drop statement"))
    if isinstance(node, ast.Return) and node.value is not None:
        out.append((ast.Return(ast.Constant(None)), "return None"))
    return out


class Replace(ast.NodeTransformer):

    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutants():
    out = []
    for name in FILES:
        with open(f"{REPO}/sofar/{name}") as f:
            text = f.read()

        def walk(node, parent, function):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                function = node.name
                if function in SKIP:
                    return
            if isinstance(node, (ast.JoinedStr,)):
                return
            if isinstance(node, ast.Call) and isinstance(
                    parent, ast.Raise):
                return
            for k, (_, what) in enumerate(variants(node, parent)):
                out.append((name, getattr(node, "lineno", getattr(
                    parent, "lineno", 0)), order[node], k, what, function))
            for child in ast.iter_child_nodes(node):
                walk(child, node, function)

        tree = ast.parse(text)
        order = {n: i for i, n in enumerate(ast.walk(tree))}
        walk(tree, None, "")
    return out


def build(m, folder):
    name, line, index, k, what, function = m
    os.makedirs(folder + "/sofar", exist_ok=True)
    for f in FILES + ["__init__.py"]:
        shutil.copy(f"{REPO}/sofar/{f}", folder + "/sofar")
    with open(f"{REPO}/sofar/{name}") as f:
        tree = ast.parse(f.read())
    nodes = list(ast.walk(tree))
    target = nodes[index]
    parent = next((p for p in nodes if target in
                   list(ast.iter_child_nodes(p))), None)
    before = ast.unparse(tree).split("\n")
    new = variants(target, parent)[k][0]
    tree = ast.fix_missing_locations(Replace(target, new).visit(tree))
    text = ast.unparse(tree)
    with open(f"{folder}/sofar/{name}", "w") as f:
        f.write(text)
    import difflib
    return [d for d in difflib.unified_diff(
        before, text.split("\n"), lineterm="", n=0)
        if d[:1] in "+-" and d[:3] not in ("+++", "---")][:6]


KILLS = collections.Counter()


def shards(name, line, cover, function):
    """Shards that execute the line, one of each suite first."""
    found = sorted((s for s, (lines, _) in cover.items()
                    if (name, line) in lines), key=lambda s: cover[s][1])
    first, rest, seen = [], [], set()
    for s in found:
        (rest if s[0] in seen else first).append(s)
        seen.add(s[0])
    first.sort(key=lambda s: (-KILLS[function, s[0]], cover[s][1] < 150,
                              cover[s][1]))
    random.shuffle(rest)
    return first + rest[:6]


def evaluate(m, k, root, cover):
    folder = f"{root}/{k}"
    try:
        diff = build(m, folder)
        base = dict(file=m[0], line=m[1], what=m[4], function=m[5],
                    diff=diff, k=k)
        order = shards(m[0], m[1], cover, m[5])
        if not order:
            return dict(base, result="not covered")
        for suite, shard in order:
            out = folder + "/out"
            for end in (".json", ".ndjson", ".db"):
                if os.path.exists(out + end):
                    os.remove(out + end)
            try:
                p = subprocess.run(
                    [sys.executable, "-W", "ignore", "-m",
                     "harness.run_shard", suite, "quick", "1", str(shard),
                     "8", out], cwd=folder, timeout=240,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, env=dict(
                        os.environ, SOFAR_REPO=folder, TMPDIR=folder,
                        PYTHONPATH=HERE, PYTHONHASHSEED="0",
                        PYTHONDONTWRITEBYTECODE="1"))
            except subprocess.TimeoutExpired:
                return dict(base, result="killed", by=suite, how="timeout")
            if not os.path.exists(out + ".json"):
                return dict(base, result="killed", by=suite, how="crash "
                            + p.stdout[-300:])
            with open(out + ".json") as f:
                r = json.load(f)
            if r["violations"] or r["errors"]:
                KILLS[m[5], suite] += 1
                how = r["violations"][0]["c"] if r["violations"] \
                    else r["errors"][0]["error"][-200:]
                return dict(base, result="killed", by=suite, how=how)
        return dict(base, result="survived", runs=len(order))
    except SyntaxError as e:
        return dict(file=m[0], line=m[1], what=m[4], result="invalid",
                    error=str(e), k=k)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def main(root, coverage, jobs, share=0, of=1):
    os.makedirs(root, exist_ok=True)
    cover = {}
    for f in glob.glob(coverage + "/*.lines"):
        suite, _, _, shard, _ = os.path.basename(f)[:-6].split("-")
        with open(f) as h:
            hit = {tuple(x) for x in json.load(h)}
        with open(f[:-6] + ".json") as h:
            n = sum(json.load(h)["events"].values())
        cover[suite, int(shard)] = hit, n
    all_ = list(enumerate(mutants()))
    random.Random(5).shuffle(all_)
    done = set()
    results = root + "/results.jsonl"
    if os.path.exists(results):
        with open(results) as f:
            done = {json.loads(line)["k"] for line in f}
    todo = [(k, m) for i, (k, m) in enumerate(all_)
            if i % int(of) == int(share) and k not in done]
    print(len(all_), "mutants,", len(todo), "to do", flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(jobs)) as pool, \
            open(results, "a") as f:
        for x in concurrent.futures.as_completed(
                [pool.submit(evaluate, m, k, root, cover) for k, m in todo]):
            r = x.result()
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main(*sys.argv[1:])
