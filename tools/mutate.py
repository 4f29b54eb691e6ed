"""Systematic small changes to momlevel, to find what the checks do not see.

    mutate.py list                      number the mutants
    mutate.py tests OUT                 run the repository's tests on each (8 at a time)
    mutate.py checks TESTS OUT          run the relevant checks on those the tests do not see

Works on copies under /tmp/mut only; not part of any check.
"""

import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("MUT_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mut"
FILES = [
    "steric.py", "reference.py", "derived.py", "dynamic.py", "trend.py", "util.py", "tidegauge.py",
    "eos/wright.py", "eos/linear.py", "spice/flament.py",
]  # fmt: skip

CHECKS = {
    "steric.py": "C03 C02 C01 C24 C27",
    "reference.py": "C03 C02 C01 C24 C27",
    "dynamic.py": "C10 C27 C07",
    "tidegauge.py": "C23 C27 C05 C06 C07",
    "eos/wright.py": "C09 C10",
    "eos/linear.py": "C09 C10",
    "spice/flament.py": "C15",
    "derived.py": "C11 C13 C10 C14 C15 C03 C25 C27 C05 C06 C07",
    "util.py": "C25 C24 C22 C16 C17 C12 C26 C14 C23 C27 C05 C06 C07",
    "trend.py": "C19 C18 C20 C21 C27 C05 C06 C07",
}
FUNCTIONS = {
    "calc_dz": "C11 C01 C25", "calc_n2": "C12 C13 C27 C05", "adjust_negative_n2": "C13 C05", "calc_wave_speed": "C13 C05 C27",
    "calc_rossby_rd": "C13 C27 C05", "calc_stability_angle": "C12 C27", "calc_rel_vort": "C14 C24 C27 C05",
    "calc_pv": "C14 C27 C05", "calc_coriolis": "C14 C27 C13", "calc_rho": "C10 C27", "calc_alpha": "C10 C27", "calc_beta": "C10 C27",
    "calc_pdens": "C10 C27", "calc_masso": "C03 C27 C05", "calc_volo": "C03 C27", "calc_rhoga": "C03 C27", "calc_spice": "C15 C27",
    "geolocate_points": "C22 C23", "annual_average": "C16 C27 C24", "annual_cycle": "C17 C27 C24", "monthly_average": "C17 C16 C27 C24",
    "standard_grid_cell_area": "C25 C27", "tile_nominal_coords": "C25 C23 C27", "validate_areacello": "C24", "validate_dataset": "C24",
    "validate_tidegauge_data": "C23 C24", "reset_encoding": "C27 C07", "get_xgcm_grid": "C14 C12 C26", "default_coords": "C24 C05 C07",
    "eos_func_from_str": "C10 C24", "alphabetize_dataset": "C07 C25 C27", "get_pv_colormap": "C14 C25 C07",
    "linear_detrend": "C19 C27", "_detrend_array": "C19 C27", "calc_linear_trend": "C18 C19 C27", "broadcast_trend": "C18 C27",
    "time_conversion_factor": "C18", "seasonal_model": "C20 C27", "deseason": "C21 C27 C06",
}  # fmt: skip

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}  # fmt: skip
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def variants(n, parents):
    """Changed copies of node n."""
    out = []

    def add(c, what):
        out.append((c, what))

    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        c = copy.deepcopy(n)
        c.ops = [CMP[type(n.ops[0])]()]
        add(c, "comparison")
        if isinstance(n.ops[0], (ast.Lt, ast.LtE)):
            c = copy.deepcopy(n)
            c.ops = [ast.Gt()]
            add(c, "comparison")
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
        c = copy.deepcopy(n)
        c.op = BIN[type(n.op)]()
        add(c, "operator")
        add(copy.deepcopy(n.left), "left operand only")
        add(copy.deepcopy(n.right), "right operand only")
    if isinstance(n, ast.BoolOp):
        c = copy.deepcopy(n)
        c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        add(c, "and/or")
    if isinstance(n, ast.UnaryOp):
        add(copy.deepcopy(n.operand), "unary dropped")
    if isinstance(n, ast.IfExp):
        add(copy.deepcopy(n.body), "always first")
        add(copy.deepcopy(n.orelse), "always second")
    if isinstance(n, ast.Constant) and not isinstance(n.value, str):
        v = n.value
        if v is None:
            pass
        elif isinstance(v, bool):
            add(ast.Constant(not v), "flag")
        elif isinstance(v, int):
            add(ast.Constant(v + 1), "constant")
            if v > 0:
                add(ast.Constant(v - 1), "constant")
        elif isinstance(v, float):
            add(ast.Constant(v * 1.01 + 1e-30), "constant")
            add(ast.Constant(v + 1.0), "constant")
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not n.value.isspace():
        add(ast.Constant(n.value + "x"), "text")
    if isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            c = copy.deepcopy(n)
            del c.keywords[i]
            add(c, f"without {n.keywords[i].arg}")
        if len(n.args) > 1:
            for i in range(len(n.args)):
                c = copy.deepcopy(n)
                del c.args[i]
                add(c, f"without argument {i}")
            c = copy.deepcopy(n)
            c.args[0], c.args[1] = c.args[1], c.args[0]
            add(c, "arguments swapped")
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "xr", "pd", "os", "util", "derived")):
            add(copy.deepcopy(n.func.value), f"no .{n.func.attr}()")
        f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        for a, b in (("sum", "mean"), ("mean", "sum"), ("min", "max"), ("max", "min"), ("sin", "cos"), ("cos", "sin"), ("fillna", "where"), ("any", "all"), ("all", "any"), ("floor", "ceil"), ("notnull", "isnull"), ("isnull", "notnull"), ("minimum", "maximum"), ("maximum", "minimum"), ("first", "last")):
            if f == a:
                c = copy.deepcopy(n)
                if isinstance(c.func, ast.Attribute):
                    c.func.attr = b
                else:
                    c.func.id = b
                add(c, f"{a} -> {b}")
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        add(copy.deepcopy(n.value), "no slice")
    if isinstance(n, (ast.Dict, ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
        k = len(n.values if isinstance(n, ast.Dict) else n.elts)
        if 1 < k <= 8:
            for i in range(k):
                c = copy.deepcopy(n)
                if isinstance(n, ast.Dict):
                    del c.keys[i], c.values[i]
                else:
                    del c.elts[i]
                add(c, f"without item {i}")
    if isinstance(n, ast.If):
        for t in (True, False):
            c = copy.deepcopy(n)
            c.test = ast.Constant(t)
            add(c, f"if {t}")
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise)) and not (
        isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
    ):
        add(ast.Pass(), "statement dropped")
    return out


def mutants():
    out = []
    for f in FILES:
        path = os.path.join(SRC, "momlevel", f)
        text = open(path).read()
        tree = ast.parse(text)
        parents = {}
        for p in ast.walk(tree):
            for c in ast.iter_child_nodes(p):
                parents[c] = p
        lines = text.splitlines(keepends=True)
        starts = [0]
        for ln in lines:
            starts.append(starts[-1] + len(ln.encode()))
        raw = text.encode()
        for n in ast.walk(tree):
            if not hasattr(n, "lineno"):
                continue
            fn, q, skip = None, n, False
            while q in parents:
                if isinstance(parents[q], ast.Expr) and isinstance(q, ast.Constant):
                    skip = True
                if isinstance(q, (ast.JoinedStr, ast.FormattedValue)) or isinstance(q, ast.Raise) and q is not n:
                    skip = True
                if isinstance(q, (ast.Import, ast.ImportFrom)):
                    skip = True
                q = parents[q]
                if isinstance(q, ast.FunctionDef):
                    fn = q.name
            if fn is None or skip:
                continue
            a = starts[n.lineno - 1] + n.col_offset
            b = starts[n.end_lineno - 1] + n.end_col_offset
            for c, what in variants(n, parents):
                new = ast.unparse(ast.fix_missing_locations(c))
                if isinstance(n, ast.If):
                    new = new.replace("\n", "\n" + " " * n.col_offset)
                elif not isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise)):
                    new = "(" + new + ")"
                out.append(dict(file=f, function=fn, line=n.lineno, what=what, a=a, b=b, new=new, old=raw[a:b].decode()[:160]))
    seen, uniq = set(), []
    for m in out:
        k = (m["file"], m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    for i, m in enumerate(uniq):
        m["id"] = i
    return uniq


def install(m, where):
    shutil.rmtree(where, ignore_errors=True)
    shutil.copytree(SRC, os.path.join(where, "src"), ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(where, "src/momlevel", m["file"])
    raw = open(p, "rb").read()
    raw = raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]
    try:
        compile(raw, p, "exec")
    except SyntaxError:
        return False
    open(p, "wb").write(raw)
    return True


def tests(m):
    w = f"{WORK}/t{m['id']}"
    try:
        if not install(m, w):
            return dict(m, tests="syntax")
        shutil.copytree(os.path.join(os.path.dirname(SRC), "tests"), w + "/tests")
        env = dict(os.environ, PYTHONPATH=w + "/src", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"],
                cwd=w, env=env, capture_output=True, text=True, timeout=120,
            )
            return dict(m, tests="pass" if r.returncode == 0 else "fail")
        except subprocess.TimeoutExpired:
            return dict(m, tests="fail")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def checks(m):
    w = f"{WORK}/c{m['id']}"
    try:
        install(m, w)
        todo = FUNCTIONS.get(m["function"], CHECKS[m["file"]])
        base = CHECKS[m["file"]].split()
        order = todo.split() + [c for c in base if c not in todo.split() and c in ("C05", "C06", "C07") and os.environ.get("MUT_ALL")]
        env = dict(os.environ, MOMLEVEL_SRC=w + "/src", VERIF_PROCS="1", VERIF_TIER="quick", VERIF_OUT=w, VERIF_BOUND=os.environ.get("MUT_BOUND", "9"))
        only = os.environ.get("MUT_CHECKS")
        if only:
            order = only.split()
        for c in order:
            try:
                r = subprocess.run([os.path.join(HERE, "check"), c], env=env, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                return dict(m, caught=f"{c}: timeout")
            if r.returncode == 1:
                return dict(m, caught=c)
            if r.returncode != 0:
                return dict(m, caught=f"{c}: rc={r.returncode}", out=(r.stdout + r.stderr)[-600:])
        return dict(m, caught=None)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run(fn, todo, path, n):
    done = set()
    if os.path.exists(path):
        done = {json.loads(x)["id"] for x in open(path)}
    with open(path, "a") as f, ThreadPoolExecutor(n) as ex:
        for r in ex.map(fn, [m for m in todo if m["id"] not in done]):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "list":
        ms = mutants()
        print(len(ms))
        by = {}
        for m in ms:
            by[m["file"]] = by.get(m["file"], 0) + 1
        print(by)
    elif sys.argv[1] == "tests":
        run(tests, mutants(), sys.argv[2], 8)
    else:
        import random

        todo = [m for m in (json.loads(x) for x in open(sys.argv[2])) if m["tests"] == "pass"]
        random.Random(1).shuffle(todo)
        run(checks, todo, sys.argv[3], int(os.environ.get("MUT_JOBS", "8")))
