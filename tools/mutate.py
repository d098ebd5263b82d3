"""Random single-site mutants of ml4gw, judged by the checks of a module.

python mutate.py OUT COUNT SEED [module-substring]
"""
import ast, copy, os, random, shutil, subprocess, sys, json, time

SRC = "/repo"
MAP = {
    "spectral.py": ["C01", "C02", "C03"],
    "transforms/spectral.py": ["C01"],
    "transforms/whitening.py": ["C03", "C04"],
    "transforms/transform.py": ["C04"],
    "transforms/scaler.py": ["C04"],
    "transforms/snr_rescaler.py": ["C05"],
    "gw.py": ["C05", "C06"],
    "utils/interferometer.py": ["C06"],
    "utils/slicing.py": ["C07", "C08"],
    "augmentations.py": ["C09"],
    "transforms/waveforms.py": ["C09", "C06"],
    "dataloading/in_memory_dataset.py": ["C10"],
    "dataloading/chunked_dataset.py": ["C11"],
    "dataloading/hdf5_dataset.py": ["C12"],
    "nn/streaming/snapshotter.py": ["C13"],
    "nn/streaming/online_average.py": ["C14"],
    "distributions.py": ["C15"],
    "transforms/iirfilter.py": ["C16"],
    "transforms/pearson.py": ["C17"],
    "transforms/integrator.py": ["C18"],
    "transforms/decimator.py": ["C19"],
    "transforms/heterodyne.py": ["C20"],
    "transforms/spectrogram.py": ["C21"],
    "transforms/qtransform.py": ["C22"],
    "transforms/spline_interpolation.py": ["C23"],
    "nn/norm.py": ["C24"],
    "nn/resnet/resnet_1d.py": ["C24"],
    "nn/resnet/resnet_2d.py": ["C24"],
    "nn/ssm/s4d.py": ["C25"],
    "nn/autoencoder/base.py": ["C26"],
    "nn/autoencoder/convolutional.py": ["C26"],
    "nn/autoencoder/skip_connection.py": ["C26"],
    "nn/autoencoder/utils.py": ["C26"],
    "waveforms/conversion.py": ["C27"],
    "waveforms/cbc/taylorf2.py": ["C28"],
    "waveforms/cbc/phenom_d.py": ["C29"],
    "waveforms/cbc/phenom_p.py": ["C30"],
    "waveforms/cbc/utils.py": ["C29", "C30", "C31"],
    "waveforms/cbc/coefficients.py": ["C31"],
    "waveforms/generator.py": ["C31"],
    "waveforms/adhoc/ringdown.py": ["C32"],
    "waveforms/adhoc/sine_gaussian.py": ["C32"],
}


def sites(tree):
    """(node, kind) mutation points, docstrings and annotations excluded."""
    skip = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                for m in ast.walk(a):
                    skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Pow, ast.Mod)):
                out.append((n, "binop"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((n, "cmp"))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((n, "num"))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((n, "unary"))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "boolop"))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            out.append((n, "if"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and all(isinstance(a, ast.Name) for a in n.args[:2]):
            out.append((n, "swap"))
        elif isinstance(n, ast.AugAssign):
            out.append((n, "aug"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, "drop"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append((n, "name"))
    return out


def mutate(n, kind, rng, names):
    if kind == "binop":
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
               ast.FloorDiv: [ast.Div, ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv]}
        n.op = rng.choice(alt[type(n.op)])()
    elif kind == "cmp":
        alt = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt],
               ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
               ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        n.ops = [rng.choice(alt[type(n.ops[0])])()]
    elif kind == "num":
        v = n.value
        n.value = rng.choice([v + 1, v - 1, 0 if v else 2] if isinstance(v, int) else [v * 1.01, -v if v else 1.0, v * 2])
    elif kind == "bool":
        n.value = not n.value
    elif kind == "unary":
        return n.operand
    elif kind == "boolop":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "if":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "aug":
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        n.op = alt.get(type(n.op), ast.Add)()
    elif kind == "drop":
        return ast.Pass()
    elif kind == "name":
        pool = [x for x in names if x != n.id]
        if not pool:
            return None
        n.id = rng.choice(pool)
    return n


class Repl(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        if node is self.t:
            return self.n
        return self.generic_visit(node)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    kinds = os.environ.get("KINDS", "").split(",") if os.environ.get("KINDS") else None
    rng = random.Random(seed)
    work = f"/tmp/mut/{os.path.basename(out)}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", work + "/verif"], check=True)
    files = [f for f in MAP if only in f]
    pool = []
    for f in files:
        src = open(f"{SRC}/ml4gw/{f}").read()
        tree = ast.parse(src)
        n = len(sites(tree))
        pool.append((f, src, n))
    done = 0
    log = open(out, "a")
    while done < count:
        # modules weighted by the square root of their number of sites
        f, src, n = rng.choices(pool, weights=[p[2] ** 0.5 for p in pool])[0]
        tree = ast.parse(src)
        ss = sites(tree)
        node, kind = ss[rng.randrange(len(ss))]
        if kinds and kind not in kinds:
            continue
        if kind == "name" and rng.random() < 0.7:
            continue
        # names of the enclosing function
        names = []
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef) and fn.lineno <= node.lineno <= fn.end_lineno:
                names = sorted({m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
                               | {a.arg for a in fn.args.args if a.arg != "self"})
        before = ast.unparse(node)[:160]
        line = node.lineno
        try:
            new = mutate(node, kind, rng, names)
            if new is None:
                continue
            if new is not node:
                tree = Repl(node, new).visit(tree)
            ast.fix_missing_locations(tree)
            code = ast.unparse(tree)
            compile(code, f, "exec")
        except Exception:
            continue
        after = ast.unparse(new)[:160]
        if before == after:
            continue
        done += 1
        path = f"{work}/repo/ml4gw/{f}"
        open(path, "w").write(code)
        env = dict(os.environ, VERIF_REPO=work + "/repo", VERIF_SEED=str(rng.randrange(1, 1000)),
                   VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"))
        verdict = "MISSED"
        t0 = time.time()
        for prop in MAP[f]:
            try:
                r = subprocess.run(["bash", work + "/verif/run.sh", prop, "quick"], env=env,
                                   capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                verdict = f"caught {prop}"
                break
            if rc != 0:
                verdict = f"error rc={rc} {prop}"
                err = (r.stderr or "")[-300:]
                break
        open(path, "w").write(src)
        rec = dict(file=f, line=line, kind=kind, before=before, after=after, verdict=verdict, t=round(time.time() - t0))
        log.write(json.dumps(rec) + "\n")
        log.flush()
    shutil.rmtree(work)


main()
