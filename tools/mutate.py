"""Mutation analysis of the checks (a development aid, not a check).

usage: mutate.py FILE... [--out results.jsonl] [--workers 4] [--sample N]
Applies small syntactic changes to copies of the package below /tmp, one at a time, and runs the checks
mapped to the file until one reports a violation. Survivors are printed for manual judgement.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(os.environ.get("MUT_VERIF") or Path(__file__).resolve().parent.parent)
SRC = Path("/repo/src/tvemoves_rufbad")
MAP = {
    "tensors.py": "C07 C08 C12 C18 C05",
    "quadrature_rules.py": "C09 C08",
    "integrators.py": "C10 C08 C19",
    "domain.py": "C01 C02 C06 C04 C05 C03 C27 C29 C11",
    "bell_finite_element.py": "C12 C13 C11",
    "interpolation.py": "C11 C13 C14 C15 C08 C26 C21",
    "helpers.py": "C16 C17 C18 C27 C20",
    "mechanical_step.py": "C22 C21 C19 C24 C25 C23",
    "thermal_step.py": "C22 C21 C20 C24 C25 C08 C28",
    "simulation.py": "C23 C25 C26 C24 C27 C30 C29",
}
SWAP = {
    ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
    ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult,
    ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
    ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.And: ast.Or, ast.Or: ast.And,
}


def mutants(tree):
    """(line, description, function changing a deep copy in place)"""
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    skip = set()
    for n in nodes:  # messages of exceptions, annotations
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                skip |= {id(x) for x in ast.walk(a)}
    res = []

    def add(k, what, fn):
        res.append((nodes[k].lineno, what, k, fn))

    for k, n in enumerate(nodes):
        if id(n) in skip and not isinstance(n, ast.Raise) or id(n) in doc:
            continue
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            add(k, f"{v} -> {v + 1}", lambda m, v=v: setattr(m, "value", v + 1))
            if v not in (0, 1):
                add(k, f"{v} -> {v * 1.001 if isinstance(v, float) else v - 1}",
                    lambda m, v=v: setattr(m, "value", v * 1.001 if isinstance(v, float) else v - 1))
            if v == 1:
                add(k, "1 -> 0", lambda m: setattr(m, "value", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(k, "flip bool", lambda m: setattr(m, "value", not m.value))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            add(k, f"op {type(n.op).__name__} -> {SWAP[type(n.op)].__name__}", lambda m: setattr(m, "op", SWAP[type(m.op)]()))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.MatMult, ast.Div)):
                def sw(m):
                    m.left, m.right = m.right, m.left
                add(k, "operands swapped", sw)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(k, "unary op dropped", lambda m: setattr(m, "op", ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()) or
                (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)) if isinstance(m.op, ast.Not) else None))
        elif isinstance(n, ast.Compare):
            add(k, f"cmp {type(n.ops[0]).__name__}", lambda m: m.ops.__setitem__(0, SWAP[type(m.ops[0])]()))
        elif isinstance(n, ast.BoolOp):
            add(k, "bool op", lambda m: setattr(m, "op", SWAP[type(m.op)]()))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def sa(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            add(k, "first two arguments swapped", sa)
            if len(n.args) >= 3:
                def sb(m):
                    m.args[-1], m.args[-2] = m.args[-2], m.args[-1]
                add(k, "last two arguments swapped", sb)
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            def se(m):
                m.elts[0], m.elts[1] = m.elts[1], m.elts[0]
            add(k, "first two elements swapped", se)
            if len(n.elts) >= 3:
                def sf(m):
                    m.elts[-1], m.elts[-2] = m.elts[-2], m.elts[-1]
                add(k, "last two elements swapped", sf)

            def sd(m):
                m.elts.pop()
            add(k, "last element dropped", sd)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(k, "condition False", lambda m: setattr(m, "test", ast.Constant(False)))
            if not isinstance(n, ast.While):
                add(k, "condition True", lambda m: setattr(m, "test", ast.Constant(True)))
        if isinstance(n, ast.comprehension):
            for j in range(len(n.ifs)):
                nodes[k].lineno = n.iter.lineno
                add(k, "filter dropped", lambda m, j=j: m.ifs.pop(j))
        if hasattr(n, "body") and isinstance(n.body, list):
            for j, st in enumerate(n.body):
                if id(st) in doc or isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass,
                                                    ast.AnnAssign)):
                    continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.For, ast.Return, ast.If)):
                    nodes[k].lineno = st.lineno
                    add(k, f"statement deleted: {ast.unparse(st)[:50]!r}", lambda m, j=j: m.body.__setitem__(j, ast.Pass()))
    if "--names" in sys.argv:
        res = []
        misuse(nodes, skip, res)
    return res


def alike(a, b):
    import re
    norm = lambda x: set(re.sub(r"\d", "", x).strip("_").split("_"))
    if len(a) <= 2 and len(b) <= 2:
        return re.sub(r"\d", "", a) == re.sub(r"\d", "", b) or {a, b} <= {"i", "j", "k", "l", "v"}
    x, y = norm(a), norm(b)
    return len(x & y) * 2 >= min(len(x), len(y)) and (x & y)


SIBLINGS = [
    {"y1", "y2", "prev_y1", "prev_y2"}, {"prev_theta", "theta"}, {"g1", "g2"}, {"prev_y", "y"},
    {"edges", "vertices", "triangles"}, {"boundary", "dirichlet_boundary", "neumann_boundary"},
    {"strain", "hyper_strain"}, {"gradient", "hessian"}, {"l1", "l2", "l3"}, {"rows", "columns"},
    {"_xlims", "_ylims"}, {"min", "max"}, {"dirichlet_vertices", "neumann_vertices", "vertices"},
    {"_grid", "_refined_grid"}, {"_y_data", "_theta_data"}, {"update_prev_y", "update_y"},
    {"transpose", "det"}, {"any", "all"}, {"_mechanical_step", "_thermal_step"}, {"width", "height"},
    {"_coarse_triangle", "_coarse_edge"}, {"append", "extend"},
]


def misuse(nodes, skip, res):
    """Another name of the same function, or a sibling attribute, instead of the one written."""
    owner = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for x in ast.walk(n):
                owner[id(x)] = n  # innermost wins: ast.walk goes outwards in
    names = {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            s = {a.arg for a in n.args.args + n.args.kwonlyargs}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.add(x.id)
                if isinstance(x, ast.Lambda):
                    s |= {a.arg for a in x.args.args}
            names[id(n)] = s - {"self", "_"}
    fun = {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            for x in ast.walk(n):
                fun[id(x)] = n
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in fun:
            cand = names[id(fun[id(n)])]
            if n.id in cand:
                for o in sorted(x for x in cand - {n.id} if alike(x, n.id)):
                    res.append((n.lineno, f"{n.id} => {o}", k, lambda m, o=o: setattr(m, "id", o)))
            for g in SIBLINGS:
                if n.id in g:
                    for o in sorted(g - {n.id} - cand):
                        res.append((n.lineno, f"{n.id} => {o}", k, lambda m, o=o: setattr(m, "id", o)))
        elif isinstance(n, ast.Attribute):
            for g in SIBLINGS:
                if n.attr in g:
                    for o in sorted(g - {n.attr}):
                        res.append((n.lineno, f".{n.attr} => .{o}", k, lambda m, o=o: setattr(m, "attr", o)))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.BinOp,)):
            def drop(m):
                m.slice = m.slice.left
            res.append((n.lineno, "offset of index dropped", k, drop))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range" and n.args:
            def less(m):
                m.args[-1] = ast.BinOp(m.args[-1], ast.Sub(), ast.Constant(1))
            res.append((n.lineno, "range one shorter", k, less))
            if len(n.args) == 1:
                def late(m):
                    m.args.insert(0, ast.Constant(1))
                res.append((n.lineno, "range from 1", k, late))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                res.append((n.lineno if hasattr(n, "lineno") else 0, "slice lower dropped", k, lambda m: setattr(m, "lower", None)))
            if n.upper is not None:
                res.append((n.lineno if hasattr(n, "lineno") else 0, "slice upper dropped", k, lambda m: setattr(m, "upper", None)))


def main():
    args = sys.argv[1:]
    out = Path(args[args.index("--out") + 1]) if "--out" in args else Path("/tmp/mutants.jsonl")
    workers = int(args[args.index("--workers") + 1]) if "--workers" in args else 4
    sample = int(args[args.index("--sample") + 1]) if "--sample" in args else None
    files = [a for a in args if a.endswith(".py")]
    tasks = []
    for f in files:
        text = (SRC / f).read_text()
        tree = ast.parse(text)
        ms = mutants(tree)
        seen = set()
        for line, what, k, fn in ms:
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            fn(m)
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, f, "exec")
            except Exception:
                continue
            if new in seen or new == ast.unparse(tree):
                continue
            seen.add(new)
            tasks.append((f, line, what, new))
    if sample:
        tasks = random.Random(1).sample(tasks, min(sample, len(tasks)))
    done = set()
    if out.exists():
        for l in out.read_text().splitlines():
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["n"]))
    count = {}
    keyed = []
    for f, line, what, new in tasks:
        n = count[(f, line, what)] = count.get((f, line, what), 0) + 1
        if (f, line, what, n) not in done:
            keyed.append((f, line, what, n, new))
    print(len(tasks), "mutants,", len(keyed), "to do", flush=True)
    checks = os.environ.get("MUT_CHECKS", "").split()

    def work(t):
        f, line, what, n, new = t
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            shutil.copytree(SRC, d + "/src/tvemoves_rufbad", ignore=shutil.ignore_patterns("__pycache__"))
            Path(d, "src/tvemoves_rufbad", f).write_text(new)
            res = {}
            for p in checks or MAP[f].split():
                env = dict(os.environ, VERIF_REPO_SRC=d + "/src", VERIF_SEED="1", VERIF_JOBS="2", VERIF_BUDGET="120")
                try:
                    q = subprocess.run(["python3", str(VERIF / "run_check.py"), p], cwd=VERIF, env=env, capture_output=True,
                                       text=True, timeout=400)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                res[p] = rc
                if rc == 1:
                    break
            return dict(file=f, line=line, what=what, n=n, res=res, killed=1 in res.values())
        finally:
            shutil.rmtree(d)

    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as o:
        for r in (f.result() for f in cf.as_completed([ex.submit(work, t) for t in keyed])):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if not r["killed"]:
                print("SURVIVED", r["file"], r["line"], r["what"], r["res"], flush=True)


main()
