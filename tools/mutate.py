#!/usr/bin/env python3
"""Mutation sweep over /repo/nnj (development tool; no check uses it).

  mutate.py list                      number of candidate mutants per file
  mutate.py run N SEED OUT [--only C01,C02] [--files a.py,b.py] [--jobs 8]
Each sampled mutant is made in a scratch copy of nnj under /tmp; one shard of every check is run on it."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, copy
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo/nnj")
PROPS = ["C%02d" % i for i in range(1, 23)]
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Gt: ast.GtE, ast.Lt: ast.LtE, ast.GtE: ast.Gt, ast.LtE: ast.Lt}
FUN = {"ones_like": "zeros_like", "zeros": "ones", "ones": "zeros", "sum": "mean", "mean": "sum", "diag_embed": "diag", "sin": "cos", "cos": "sin", "sigmoid": "tanh"}
DROP = {"transpose", "movedim", "flip", "detach", "clone", "unsqueeze", "expand", "repeat"}


def variants(node):
    """New nodes that replace this expression node."""
    out = []
    if isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            out.append(ast.Constant(not v))
        elif isinstance(v, int):
            out.append(ast.Constant(v + 1))
            if v > 0:
                out.append(ast.Constant(v - 1))
        elif isinstance(v, float):
            out.append(ast.Constant(v * 2 + 1e-3))
        elif isinstance(v, str):
            if v in ("input", "weight"):
                out.append(ast.Constant("weight" if v == "input" else "input"))
            elif "->" in v:
                l, r = v.split("->")
                ops = l.split(",")
                for k, o in enumerate(ops):
                    o2 = o.strip()
                    if len(o2) >= 3 and o2.isalpha():
                        q = list(ops); q[k] = o2[:-2] + o2[-1] + o2[-2]
                        out.append(ast.Constant(",".join(q) + "->" + r))
                    if len(o2) >= 2 and o2.isalpha() and o2[0] != "b":
                        q = list(ops); q[k] = o2[::-1]
                        out.append(ast.Constant(",".join(q) + "->" + r))
                r2 = r.strip()
                if len(r2) >= 3 and r2.isalpha():
                    out.append(ast.Constant(l + "->" + r2[:-2] + r2[-1] + r2[-2]))
    if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
        n = copy.deepcopy(node); n.op = SWAP[type(node.op)](); out.append(n)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Pow):
        out.append(node.left)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        out.append(node.operand)
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        n = copy.deepcopy(node); n.ops = [CMP[type(node.ops[0])]()]; out.append(n)
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or(); out.append(n)
        out += node.values
    if isinstance(node, ast.IfExp):
        out += [node.body, node.orelse]
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute):
            if node.func.attr in FUN:
                n = copy.deepcopy(node); n.func.attr = FUN[node.func.attr]; out.append(n)
            if node.func.attr in DROP and not (isinstance(node.func.value, ast.Name) and node.func.value.id in ("torch", "F")):
                out.append(node.func.value)
            if node.func.attr == "flip" and isinstance(node.func.value, ast.Name):
                out.append(node.args[0])
        for k, kw in enumerate(node.keywords):
            n = copy.deepcopy(node); del n.keywords[k]; out.append(n)
        for k in range(len(node.args) - 1):
            n = copy.deepcopy(node); n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]; out.append(n)
    if isinstance(node, ast.List) and len(node.elts) >= 2:
        n = copy.deepcopy(node); n.elts[0], n.elts[1] = n.elts[1], n.elts[0]; out.append(n)
    if isinstance(node, ast.Slice):
        if node.lower is not None and node.upper is None:
            n = copy.deepcopy(node); n.lower, n.upper = None, node.lower; out.append(n)
        if node.upper is not None and node.lower is None:
            n = copy.deepcopy(node); n.lower, n.upper = node.upper, None; out.append(n)
    return out


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.sites, self.fn = [], []

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.fn.pop()

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def generic_visit(self, n):
        if self.fn and isinstance(n, (ast.expr, ast.Slice)):
            for k, v in enumerate(variants(n)):
                self.sites.append(("expr", n, v, "/".join(self.fn)))
        if self.fn and isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.If) and self.fn):
            self.sites.append(("del", n, None, "/".join(self.fn)))
        super().generic_visit(n)


def candidates():
    out = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        src = open(os.path.join(SRC, f)).read()
        v = Sites(); v.visit(ast.parse(src))
        for i, (kind, n, new, fn) in enumerate(v.sites):
            out.append((f, i, fn, n.lineno))
    return out


def apply(f, i, dst):
    src = open(os.path.join(SRC, f)).read()
    v = Sites(); v.visit(ast.parse(src))
    kind, n, new, fn = v.sites[i]
    lines = src.split("\n")

    def off(l, c):
        return sum(len(x.encode()) + 1 for x in lines[: l - 1]) + c

    b = src.encode()
    lo, hi = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    if kind == "del":
        if isinstance(n, ast.If):
            new = None
            rep = "pass"
        else:
            rep = "pass"
    else:
        rep = ast.unparse(new)
        if isinstance(new, (ast.BinOp, ast.BoolOp, ast.IfExp, ast.Compare, ast.UnaryOp)):
            rep = "(" + rep + ")"
    out = b[:lo] + rep.encode() + b[hi:]
    ast.parse(out.decode())
    open(os.path.join(dst, f), "wb").write(out)
    return f"{f}:{n.lineno} {fn}: {b[lo:hi].decode()[:90]!r} -> {rep[:90]!r}"


def one(job):
    (f, i, fn, line), props, shard = job
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(SRC, os.path.join(tmp, "nnj"), ignore=shutil.ignore_patterns("__pycache__"))
        try:
            text = apply(f, i, os.path.join(tmp, "nnj"))
        except SyntaxError as e:
            return dict(file=f, site=i, text="syntax", skipped=True)
        env = dict(os.environ, NNJMON_REPO=tmp, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=HERE)
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import nnj"], env=dict(env, PYTHONPATH=tmp), capture_output=True)
        if r.returncode:
            return dict(file=f, site=i, text=text, skipped=True)
        res = {}
        for p in props:
            out = os.path.join(tmp, p + ".json")
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "nnjmon.run", p, "--shard", shard, "--out", out], env=env, cwd=HERE, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res[p] = "timeout"; continue
            if not os.path.exists(out):
                res[p] = "crash " + r.stderr[-200:]; continue
            d = json.load(open(out))
            res[p] = "KILL" if d["violations"] else ("err " + d["errors"][0]["trace"][-150:] if d["errors"] else "ok")
        return dict(file=f, site=i, text=text, result=res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    c = candidates()
    if sys.argv[1] == "list":
        import collections
        print(len(c), collections.Counter(x[0] for x in c)); return
    n, seed, outf = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    a = sys.argv[5:]
    get = lambda k, d: a[a.index(k) + 1] if k in a else d
    props = get("--only", ",".join(PROPS)).split(",")
    files = get("--files", None)
    if files:
        c = [x for x in c if x[0] in files.split(",")]
    rng = random.Random(seed)
    # stratify by file and function
    groups = {}
    for x in c:
        groups.setdefault((x[0], x[2]), []).append(x)
    pick = []
    gs = list(groups.values())
    for g in gs:
        rng.shuffle(g)
    while len(pick) < n and any(gs):
        for g in gs:
            if g and len(pick) < n and rng.random() < 0.3 + len(g) / 200:
                pick.append(g.pop())
    with ThreadPoolExecutor(int(get("--jobs", "8"))) as ex, open(outf, "a") as o:
        for r in ex.map(one, [(p, props, "%d/8" % (k % 8)) for k, p in enumerate(pick)]):
            o.write(json.dumps(r) + "\n"); o.flush()


main()
