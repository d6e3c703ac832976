"""Mutation campaign: which small syntactic changes of the library do the checks not notice?
usage: mutate.py OUT.jsonl N [--seed S] [--files PREFIX,...] [--full]
Every mutant lives in a scratch copy of /repo and is given one shard (1/8 of the quick cases) of the properties concerned."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = [("e2cnn/group/", "P01 P02 P03 P04 P19 P09"), ("e2cnn/gspaces/", "P08 P04 P06 P07 P19"), ("e2cnn/kernels/", "P06 P10 P21 P05"),
       ("e2cnn/diffops/", "P07 P11 P21 P05"), ("e2cnn/nn/field_type", "P09 P08 P19 P04 P17"), ("e2cnn/nn/geometric", "P09 P08 P19 P04"),
       ("e2cnn/nn/init", "P21"), ("e2cnn/nn/modules/r2_conv/r2diffop", "P11 P12 P13 P18 P21 P19"),
       ("e2cnn/nn/modules/r2_conv", "P10 P12 P13 P18 P21 P19"), ("e2cnn/nn/modules/batchnorm", "P15 P12 P13 P18 P19"),
       ("e2cnn/nn/modules/dropout", "P15 P13 P18 P19"), ("e2cnn/nn/modules/nonlin", "P14 P13 P18 P19 P12"),
       ("e2cnn/nn/modules/pooling", "P16 P13 P18 P19"), ("e2cnn/nn/modules/invariant", "P16 P13 P18 P19"),
       ("e2cnn/nn/modules/r2up", "P16 P13 P18 P19"), ("e2cnn/nn/modules/mask", "P16 P18 P19"), ("e2cnn/nn/modules/", "P17 P13 P18 P19 P12 P15")]
SKIPF = {"check_equivariance", "extra_repr", "__repr__", "testing_elements"}
PAIRS = {"in_type": "out_type", "out_type": "in_type", "min": "max", "max": "min", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor",
         "change_of_basis": "change_of_basis_inv", "change_of_basis_inv": "change_of_basis", "any": "all", "all": "any", "h": "w", "w": "h",
         "hi": "wi", "wi": "hi", "ho": "wo", "wo": "ho", "i": "o", "o": "i", "in_indices": "out_indices", "in_irrep": "out_irrep",
         "out_irrep": "in_irrep", "m": "n", "n": "m", "s": "t", "t": "s"}


def sites(src):
    """(start, end, replacement, kind)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def walk(n, fn=None):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIPF:
                return
            for d in n.body:
                walk(d, n.name)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fn is None and isinstance(n, (ast.Assign, ast.AnnAssign)):
            return
        a, b = span(n) if hasattr(n, "lineno") else (0, 0)
        if fn is not None:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
                      ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
                out.append((a, b, "(%s %s %s)" % (text(n.left), sw, text(n.comparators[0])), "compare"))
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*", ast.MatMult: None}.get(type(n.op))
                if isinstance(n.op, ast.MatMult):
                    out.append((a, b, "(%s @ %s)" % (text(n.right), text(n.left)), "matmul"))
                elif sw and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, "value", None), (int, float)):
                    out.append((a, b, "((%s) %s (%s))" % (text(n.left), sw, text(n.right)), "binop"))
                out.append((a, b, "(%s)" % text(n.left), "drop-operand"))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append((a, b, "(%s)" % text(n.operand), "unary"))
            if isinstance(n, ast.BoolOp):
                out.append((a, b, "(%s)" % (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "bool"))
                out.append((a, b, "(%s)" % text(n.values[0]), "bool-drop"))
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(Ellipsis), type(None))):
                if isinstance(n.value, bool):
                    out.append((a, b, str(not n.value), "const"))
                else:
                    out.append((a, b, "(%r)" % (n.value + 1), "const"))
                    if n.value:
                        out.append((a, b, "(%r)" % (n.value - 1), "const"))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    ka, kb = span(k)
                    if k.arg:
                        r = raw[a:b].decode()
                        inner = raw[ka:kb].decode()
                        for pat in (", " + inner, inner + ", ", inner):
                            if pat in r:
                                out.append((a, b, r.replace(pat, "", 1), "drop-keyword"))
                                break
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    (a1, b1), (a2, b2) = span(n.args[0]), span(n.args[1])
                    out.append((a1, b2, raw[a2:b2].decode() + raw[b1:a2].decode() + raw[a1:b1].decode(), "swap-args"))
            if isinstance(n, ast.Name) and n.id in PAIRS and isinstance(n.ctx, ast.Load):
                out.append((a, b, PAIRS[n.id], "name"))
            if isinstance(n, ast.Attribute) and n.attr in PAIRS:
                out.append((a, b, text(n.value) + "." + PAIRS[n.attr], "attr"))
            if isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
                ta, tb = span(n.test)
                out.append((ta, tb, "(True or %s)" % text(n.test), "if-true"))
                out.append((ta, tb, "(False and %s)" % text(n.test), "if-false"))
            if isinstance(n, (ast.AugAssign, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or \
                    (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                out.append((a, b, "pass", "drop-assert" if isinstance(n, ast.Assert) else "drop-statement"))
            if isinstance(n, ast.Assert):
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
                return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            walk(c, fn)
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                walk(c)
        else:
            walk(n)
    return out


def line_of(src, off):
    return src.encode()[:off].count(b"\n") + 1


def run(m, full=False):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/e2cnn", d + "/e2cnn", ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, m["file"])
        raw = open(p, "rb").read()
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        open(p, "wb").write(new)
        try:
            compile(new, p, "exec")
        except SyntaxError:
            return dict(m, verdict="syntax")
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", E2CNN_REPO=d, PYTHONPATH=d + ":" + HERE, VP_SCRATCH=d, MPLCONFIGDIR=d + "/mpl",
                   HYPOTHESIS_STORAGE_DIRECTORY=d + "/hyp")
        props = next(v for k, v in MAP if m["file"].startswith(k)).split()
        if full:
            props += [q for q in ["P%02d" % i for i in range(1, 22)] if q not in props]
        for q in props:
            out = d + "/out.json"
            for f in (out, out + ".early"):
                os.path.exists(f) and os.remove(f)
            pr = subprocess.Popen([PY, "-m", "vp.worker", q, "quick", str(m["seed"]), str(m["seed"] % 8), "8", out, "300", ""], cwd=HERE, env=env,
                                  stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"))
            t0 = time.time()
            verdict = None
            while True:
                if os.path.exists(out + ".early"):
                    time.sleep(0.2)
                    try:
                        verdict = (q, json.load(open(out + ".early"))["msg"][:200])
                    except ValueError:
                        verdict = (q, "?")
                    break
                if pr.poll() is not None:
                    if not os.path.exists(out):
                        verdict = (q, "worker died")
                    else:
                        r = json.load(open(out))
                        if r["violation"]:
                            verdict = (q, r["violation"]["msg"][:200])
                        elif r["error"]:
                            verdict = (q, "ERROR " + r["error"][-300:])
                    break
                if time.time() - t0 > 400:
                    verdict = (q, "timeout")
                    break
                time.sleep(0.1)
            if pr.poll() is None:
                pr.kill()
                pr.wait()
            if verdict:
                return dict(m, verdict="killed", by=verdict[0], msg=verdict[1])
        return dict(m, verdict="SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:]]
    opt = lambda k, v: a[a.index(k) + 1] if k in a else v
    out, N, seed = a[0], int(a[1]), int(opt("--seed", "1"))
    pre = opt("--files", "e2cnn/").split(",")
    kinds = opt("--kinds", "").split(",") if "--kinds" in a else None
    random.seed(seed)
    os.makedirs("/tmp/mut", exist_ok=True)
    files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "e2cnn"], text=True).split() if f.endswith(".py") and any(f.startswith(p) for p in pre)]
    allm = []
    for f in files:
        src = open("/repo/" + f).read()
        for x, y, new, kind in sites(src):
            if kinds and kind not in kinds:
                continue
            allm.append(dict(file=f, a=x, b=y, new=new, kind=kind, line=line_of(src, x), old=src.encode()[x:y].decode()))
    print(len(allm), "sites", flush=True)
    random.shuffle(allm)
    ms = [dict(m, seed=seed * 1000 + k) for k, m in enumerate(allm[:N])]
    with ThreadPoolExecutor(int(opt("--jobs", "8"))) as ex, open(out, "a") as fh:
        for r in ex.map(lambda m: run(m, "--full" in a), ms):
            fh.write(json.dumps(r) + "\n")
            fh.flush()
            if r["verdict"] == "SURVIVED" or "ERROR" in r.get("msg", ""):
                print("%s %s:%d [%s] %s  ->  %s   %s" % (r["verdict"], r["file"], r["line"], r["kind"], r["old"][:100].replace("\n", "\\n"), r["new"][:110].replace("\n", "\\n"), r.get("msg", "")[-120:]), flush=True)
