"""python tools/automut.py [-n COUNT] [-s SEED] [file-substring ...]: automatically generated single-token mutants of
/repo/gwinferno, each run against the quick checks of the properties anchored in that file (scratch copies under /tmp).
LINES=dir of per-property executed lines (VERIF_LINES of harness/reach.py) restricts each mutant to properties that run its line."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

PAR = int(os.environ.get("MUT_PAR", "3"))
ROOT = os.environ.get("VERIF_REPO", "/repo")
ORDER = {
    "cosmology": ["P11", "P12"], "distributions": ["P04", "P05"], "interpolation": ["P02", "P01", "P03", "P06"], "separable": ["P07"],
    "single": ["P06", "P08", "P07"], "smoothing": ["P25"], "parametric": ["P05", "P08"], "spline_perturbation": ["P09", "P08"],
    "numpyro_distributions": ["P10", "P17"], "analysis": ["P14", "P13", "P15", "P16", "P17"], "parser": ["P17"], "utils": ["P25", "P22", "P27", "P08", "P07"],
    "calculations": ["P26"], "plot": ["P27"], "data_collection": ["P21", "P20", "P22", "P18"], "priors": ["P23"], "conversions": ["P24"], "selection": ["P18", "P19"],
}
HIT = {}
for f in glob.glob(os.path.join(os.environ.get("LINES", "/nonexistent"), "*.json")):
    p = os.path.basename(f).split(".")[0][:3]
    for x, l in json.load(open(f)):
        HIT.setdefault((x, int(l)), set()).add(p)

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.FloorDiv: "/"}
NAMES = {"less": "less_equal", "less_equal": "less", "greater": "greater_equal", "greater_equal": "greater", "minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min",
         "sin": "cos", "cos": "sin", "exp": "expm1", "log1p": "log", "cumsum": "cumprod", "any": "all", "all": "any", "ones": "zeros", "zeros": "ones", "ones_like": "zeros_like", "zeros_like": "ones_like",
         "searchsorted": None, "mean": "median", "logical_and": "logical_or", "logical_or": "logical_and", "append": None}


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    L = src.split("\n")
    off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda line, col: off[line - 1] + col  # noqa: E731
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa: E731
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) or (isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "warn")):
            for m in ast.walk(n):
                skip.add(id(m))
    defaults = {id(d) for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for d in f.args.defaults + f.args.kw_defaults if d is not None}
    defaults |= {id(x) for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for d in f.args.defaults if d is not None for x in ast.walk(d)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue

        def put(a, e, text, what, node=n):
            out.append((node.lineno, a, e, text, what))

        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, e = seg(n.left)[1], seg(n.comparators[0])[0]
            put(a, e, " " + CMP[type(n.ops[0])] + " " + ("(" if b[a:e].strip().endswith(b"(") else ""), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, e = seg(n.left)[1], seg(n.right)[0]
            mid = b[a:e].decode()
            for s in ("**", "//", "+", "-", "*", "/", "|", "&"):
                if s in mid:
                    put(a, e, mid.replace(s, BIN[type(n.op)], 1), "operator")
                    break
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert, ast.Not)):
            a, e = seg(n)[0], seg(n.operand)[0]
            put(a, e, "" if not isinstance(n.op, ast.USub) else "+", "unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, e = seg(n)
            v = n.value
            put(a, e, str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 1.1 if v else 0.1), "default" if id(n) in defaults else "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            a, e = seg(n)
            t = b[a:e].decode()
            if "_1" in t or "_2" in t:
                put(a, e, t.replace("_1", "_#").replace("_2", "_1").replace("_#", "_2"), "component")
        elif isinstance(n, ast.Attribute) and NAMES.get(n.attr):
            e = seg(n)[1]
            put(e - len(n.attr), e, NAMES[n.attr], "function")
        elif isinstance(n, ast.Call) and len(n.keywords) >= 1:
            k = n.keywords[-1]
            if k.arg and (n.args or len(n.keywords) > 1):
                prev = n.keywords[-2].value if len(n.keywords) > 1 else n.args[-1]
                if seg(prev)[1] < seg(k.value)[1]:
                    put(seg(prev)[1], seg(k.value)[1], "", "keyword dropped")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args) and not n.keywords and n.args[0].end_lineno == n.args[1].lineno:
            (a1, e1), (a2, e2) = seg(n.args[0]), seg(n.args[1])
            put(a1, e2, (b[a2:e2] + b[e1:a2] + b[a1:e1]).decode(), "arguments swapped")
        elif isinstance(n, ast.IfExp):
            a, e = seg(n.test)
            put(a, e, "not (" + b[a:e].decode() + ")", "branch")
        elif isinstance(n, ast.If):
            a, e = seg(n.test)
            put(a, e, "not (" + b[a:e].decode() + ")", "branch")
        elif isinstance(n, ast.AugAssign):
            a, e = seg(n)
            put(a, e, "pass", "statement dropped")
    res = []
    for line, a, e, text, what in out:
        new = b[:a] + text.encode() + b[e:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != b:
            res.append((line, what, new.decode()))
    return res


def one(job):
    rel, line, what, new, props, old = job
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    tag = f"{rel}:{line} {what}: {old[line - 1].strip()[:90]}  =>  {[x for x, y in zip(new.split(chr(10)), old + [''] * 9) if x != y][:1]}"
    try:
        subprocess.run(["cp", "-a", ROOT + "/gwinferno", d], check=True)
        subprocess.run(f"cp -a /verif/harness /verif/check.sh /verif/known_findings.json {d}/", shell=True, check=True)
        open(os.path.join(d, rel), "w").write(new)
        tried = []
        for p in props:
            env = dict(os.environ, VERIF_REPO=d, VERIF_PROCS="3", VERIF_SEED="1", VERIF_FIRST="1")
            env.pop("VERIF_LINES", None)
            try:
                r = subprocess.run(["bash", "check.sh", p, "quick"], cwd=d, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                tried.append(p + ":timeout")
                continue
            if r.returncode == 1:
                return "caught", p, tag
            tried.append(f"{p}:{r.returncode}")
        return "MISSED", ",".join(tried), tag
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    n, seed, only = 100, 0, None
    while args and args[0] in ("-n", "-s", "-w"):
        if args[0] == "-n":
            n = int(args[1])
        elif args[0] == "-w":
            only = args[1]
        else:
            seed = int(args[1])
        args = args[2:]
    jobs = []
    for path in sorted(glob.glob(ROOT + "/gwinferno/**/*.py", recursive=True)):
        rel = os.path.relpath(path, ROOT)
        stem = os.path.basename(path)[:-3]
        if stem not in ORDER or (args and not any(a in rel for a in args)):
            continue
        old = open(path).read().split("\n")
        for line, what, new in sites(path):
            hit = None if what == "default" else HIT.get((rel, line))
            if only and what != only:
                continue
            props = [p for p in ORDER[stem] if not hit or p in hit][:3]
            if props:
                jobs.append((rel, line, what, new, props, old))
    print(len(jobs), "sites", flush=True)
    random.Random(seed).shuffle(jobs)
    with ThreadPoolExecutor(PAR) as ex:
        for r in ex.map(one, jobs[:n]):
            print(*r, flush=True)
