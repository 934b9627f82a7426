#!/usr/bin/env python3
"""Mutation sweep: small syntactic breakages of the repository's sources, each run against the checks of its file until one reports it.
tools/automutate.py OUT.txt [--jobs 2] [--seed 0] [--max N] [FILE-SUBSTRING...]    survivors are printed with their diff"""
import argparse, ast, concurrent.futures, copy, os, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/flowMC/"
CHECKS = {
 "resource/kernel/MALA.py": "C01 C05", "resource/kernel/Gaussian_random_walk.py": "C02 C05", "resource/kernel/HMC.py": "C03 C05", "resource/kernel/NF_proposal.py": "C04 C09 C05",
 "resource/buffers.py": "C19 C20", "resource/states.py": "C20 C26", "resource/logPDF.py": "C24 C21", "resource/optimizer.py": "C29 C18 C26",
 "resource/model/common.py": "C13 C14 C18", "resource/model/nf_model/base.py": "C16 C18 C14 C20", "resource/model/nf_model/realNVP.py": "C13 C14 C18 C20",
 "resource/model/nf_model/rqSpline.py": "C13 C14 C18 C20", "resource/model/flowmatching/base.py": "C15 C20", "strategy/take_steps.py": "C07 C08 C06 C09 C26",
 "strategy/parallel_tempering.py": "C21 C22 C23 C09 C26 C27", "strategy/optimization.py": "C25 C09", "strategy/train_model.py": "C17 C09 C26 C29", "strategy/update_state.py": "C26 C10",
 "strategy/lambda_function.py": "C26", "Sampler.py": "C10", "resource_strategy_bundle/RQSpline_MALA.py": "C29 C11 C12 C26 C27", "resource_strategy_bundle/RQSpline_MALA_PT.py": "C29 C11 C12 C26 C27 C22",
}
SKIP = {"__repr__", "print_parameters"}


class Sites(ast.NodeVisitor):
    """Collects (description, function applied to a fresh tree's node at the same preorder index)."""
    def __init__(self):
        self.sites, self.i, self.stack = [], -1, []

    def add(self, what, fn):
        self.sites.append((self.i, what, fn))

    def generic_visit(self, n):
        self.i += 1
        self.mutations(n)
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "type_comment"):
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, ast.AST):
                        self.i += sum(1 for _ in ast.walk(x))
                continue
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.AST):
                    self.skip_or_visit(x)

    def skip_or_visit(self, x):
        if (isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in SKIP) or isinstance(x, (ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Raise)) \
                or (isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or (isinstance(x.value, ast.Call) and getattr(x.value.func, "id", "") == "print"))) \
                or (isinstance(x, ast.If) and "verbose" in ast.unparse(x.test)):
            self.i += sum(1 for _ in ast.walk(x))
            return
        self.visit(x)

    def visit(self, n):
        return self.generic_visit(n)

    def mutations(self, n):
        if isinstance(n, ast.BinOp):
            for a, bs in ((ast.Add, (ast.Sub,)), (ast.Sub, (ast.Add,)), (ast.Mult, (ast.Div,)), (ast.Div, (ast.Mult,)), (ast.FloorDiv, (ast.Mod,)), (ast.Pow, (ast.Mult,))):
                if isinstance(n.op, a):
                    for b in bs:
                        self.add(f"{a.__name__}->{b.__name__}", lambda m, b=b: setattr(m, "op", b()))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                self.add("drop right operand", lambda m: ("replace", m.left))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            T = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            o = type(n.ops[0])
            if o in T:
                self.add(f"{o.__name__}->{T[o].__name__}", lambda m, b=T[o]: m.ops.__setitem__(0, b()))
            if o in (ast.Lt, ast.Gt):
                self.add("flip comparison", lambda m, b={ast.Lt: ast.Gt, ast.Gt: ast.Lt}[o]: m.ops.__setitem__(0, b()))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            if isinstance(n.value, bool):
                self.add("flip bool", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                self.add("n+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value:
                    self.add("n-1", lambda m: setattr(m, "value", m.value - 1))
            else:
                self.add("*1.5", lambda m: setattr(m, "value", m.value * 1.5 + (m.value == 0) * 0.1))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.add("drop unary", lambda m: ("replace", m.operand))
        if isinstance(n, ast.Call):
            for j, k in enumerate(n.keywords):
                if k.arg not in ("verbose", "desc", "miniters"):
                    self.add(f"drop keyword {k.arg}", lambda m, j=j: m.keywords.pop(j))
            if len(n.args) >= 2:
                for j in range(len(n.args) - 1):
                    if ast.dump(n.args[j]) != ast.dump(n.args[j + 1]):
                        self.add(f"swap arguments {j},{j + 1}", lambda m, j=j: m.args.__setitem__(slice(j, j + 2), [m.args[j + 1], m.args[j]]))
            if ast.unparse(n.func) in ("jax.lax.stop_gradient",) and n.args:
                self.add("drop call", lambda m: ("replace", m.args[0]))
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    self.add(f"drop slice {f}", lambda m, f=f: setattr(m, f, None))
        if isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 2:
            self.add("swap targets", lambda m: m.targets[0].elts.reverse())
        if isinstance(n, ast.If):
            self.add("if True", lambda m: setattr(m, "test", ast.Constant(True)))
            self.add("if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if hasattr(n, "body") and isinstance(n.body, list):
            for f in ("body", "orelse"):
                for j, st in enumerate(getattr(n, f, []) or []):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(n, (ast.Module, ast.ClassDef)):
                        if isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or "print" in ast.unparse(st.value)):
                            continue
                        self.add(f"delete line {ast.unparse(st)[:60]!r}", lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Pass()))


def preorder(tree):
    out = []

    def go(n, parent, field, idx):
        out.append((n, parent, field, idx))
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        go(x, n, f, j)
            elif isinstance(v, ast.AST):
                go(v, n, f, None)
    go(tree, None, None, None)
    return out


def mutants(f):
    src = open(SRC + f).read()
    tree = ast.parse(src)
    v = Sites()
    v.visit(tree)
    base = ast.unparse(tree)
    for i, what, fn in v.sites:
        t = copy.deepcopy(tree)
        n, parent, field, idx = preorder(t)[i]
        line = getattr(n, "lineno", 0)
        try:
            r = fn(n)
        except Exception:
            continue
        if isinstance(r, tuple) and r and r[0] == "replace":
            if idx is None:
                setattr(parent, field, r[1])
            else:
                getattr(parent, field)[idx] = r[1]
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        if new != base:
            yield f, line, what, base, new


def run(job):
    f, line, what, base, new = job
    d = tempfile.mkdtemp(prefix="am.")
    t0 = time.time()
    try:
        shutil.copytree("/repo/src", d + "/src")
        open(d + "/src/flowMC/" + f, "w").write(new)
        for c in CHECKS[f].split():
            r = subprocess.run([sys.executable, HERE + "/run_check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO_SRC=d + "/src", VERIF_STOP_FIRST="1"), capture_output=True, text=True)
            if r.returncode != 0:
                L = [x for x in r.stdout.splitlines() if not x.startswith(("KNOWN", c))]
                return job, c, r.returncode, time.time() - t0, L[0][:150] if L else ""
        return job, None, 0, time.time() - t0, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--jobs", type=int, default=2)
    a.add_argument("--seed", type=int, default=0)
    a.add_argument("--max", type=int, default=10**9)
    a.add_argument("--count", action="store_true")
    a.add_argument("files", nargs="*")
    a = a.parse_intermixed_args()
    jobs = [m for f in CHECKS if not a.files or any(x in f for x in a.files) for m in mutants(f)]
    if a.count:
        import collections
        print(len(jobs), collections.Counter(j[0] for j in jobs))
        return
    random.Random(a.seed).shuffle(jobs)
    import difflib
    with open(a.out, "a") as o, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for job, c, rc, dt, msg in ex.map(run, jobs[: a.max]):
            f, line, what, base, new = job
            o.write(f"{'SURVIVED' if c is None else 'caught' if rc == 1 else 'EXIT%d' % rc} {f}:{line} {what} {c} {dt:.0f}s {msg}\n")
            if c is None or rc != 1:
                o.writelines("      " + x + "\n" for x in difflib.unified_diff(base.splitlines(), new.splitlines(), n=0, lineterm="") if not x.startswith(("---", "+++")))
            o.flush()


main()
