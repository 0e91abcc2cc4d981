"""tools/mutate.py SEED N [GLOB]: N random one-place changes of /repo's code in a scratch copy; which survive the checks of their file?

A survivor is a question (equivalent change, something no property speaks of, or a gap), not a verdict.
"""
import ast, fnmatch, os, random, shutil, subprocess, sys, time
seed, n = int(sys.argv[1]), int(sys.argv[2])
V = os.environ.get("MUTV", "/verif")
glob = sys.argv[3] if len(sys.argv) > 3 else "*"
MAP = [("signal/scan.py", "C10 C02 C01 C09 C04"), ("signal/trigger.py", "C07 C08 C03"), ("signal/onsets/*", "C02 C01 C10"), ("signal/pickers/*", "C10 C09"),
       ("signal/local_mag/*", "C10 C09"), ("io/scanmseed.py", "C01 C04 C07"), ("io/data.py", "C13 C10 C02"), ("io/event.py", "C10 C09 C17"),
       ("io/triggered_events.py", "C08 C07"), ("io/core.py", "C15 C14 C08 C01"), ("io/availability.py", "C01 C18"), ("io/amplitudes.py", "C10"),
       ("io/coalescence.py", "C10"), ("io/cut_waveforms.py", "C10"), ("io/*", "C01 C10"), ("util.py", "C13 C02 C10 C07 C15"), ("export/*", "C17"), ("plot/*", "C18"),
       ("lut/*", "C19 C14"), ("core/lib.py", "C12 C02")]
root = "/repo/quakemigrate"
rng = random.Random(seed)
files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "quakemigrate"], capture_output=True, text=True).stdout.split() if f.endswith(".py")]
files = [f for f in files if any(fnmatch.fnmatch(f[len("quakemigrate/"):], g) for g, _ in MAP) and fnmatch.fnmatch(f[len("quakemigrate/"):], glob) and not f.endswith("__init__.py")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Pow: ("**", "*")}


def sites(src):
    tree = ast.parse(src)
    off = [0]
    b = src.encode()
    for ln in b.splitlines(True):
        off.append(off[-1] + len(ln))
    pos = lambda nd: (off[nd.lineno - 1] + nd.col_offset, off[nd.end_lineno - 1] + nd.end_col_offset)
    out = []

    def between(a, c, old, new):
        i, j = pos(a)[1], pos(c)[0]
        t = b[i:j].decode()
        if old in t:
            out.append((i, j, t.replace(old, new, 1), a.lineno))

    def skip(nd):
        if isinstance(nd, (ast.FunctionDef,)):
            if nd.name in ("__str__", "__repr__"):
                return True
            for dec in nd.decorator_list:
                if isinstance(dec, ast.Attribute) and dec.attr == "setter":
                    return True
        if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Call):
            f = ast.unparse(nd.value.func)
            if f.startswith(("logging.", "print", "warnings.", "super()")):
                return True
        if isinstance(nd, ast.Raise) or isinstance(nd, ast.JoinedStr):
            return True
        if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Constant):
            return True
        return False

    def walk(nd):
        if skip(nd):
            return
        if isinstance(nd, ast.Compare) and len(nd.ops) == 1:
            t = type(nd.ops[0])
            between(nd.left, nd.comparators[0], SYM[t], CMP[t])
        elif isinstance(nd, ast.BinOp) and type(nd.op) in BIN:
            between(nd.left, nd.right, *BIN[type(nd.op)])
        elif isinstance(nd, ast.BoolOp):
            o, w = ("and", "or") if isinstance(nd.op, ast.And) else ("or", "and")
            between(nd.values[0], nd.values[1], o, w)
        elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.Not):
            i, j = pos(nd)
            out.append((i, j, b[pos(nd.operand)[0]:pos(nd.operand)[1]].decode(), nd.lineno))
        elif isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)):
            i, j = pos(nd)
            v = nd.value
            w = str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 1.5 + (0.5 if v == 0 else 0))
            out.append((i, j, w, nd.lineno))
        elif isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Call):
            out.append((*pos(nd), "pass", nd.lineno))
        elif isinstance(nd, ast.AugAssign):
            out.append((*pos(nd), "pass", nd.lineno))
        elif isinstance(nd, ast.Continue):
            out.append((*pos(nd), "pass", nd.lineno))
        elif isinstance(nd, ast.Call):
            f = nd.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            sw = {"min": "max", "max": "min", "rint": "floor", "ceil": "floor", "floor": "ceil", "nanmax": "nanmin", "idxmax": "idxmin", "copy": None}.get(name)
            if sw:
                i, j = pos(f)
                t = b[i:j].decode()
                out.append((i, j, t[:-len(name)] + sw, nd.lineno))
            if name == "copy" and isinstance(f, ast.Attribute) and not nd.args:
                out.append((*pos(nd), b[pos(f.value)[0]:pos(f.value)[1]].decode(), nd.lineno))
        elif isinstance(nd, ast.If) and not nd.orelse:
            out.append((*pos(nd.test), "False", nd.lineno))
        for c in ast.iter_child_nodes(nd):
            walk(c)
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            walk(st)
    return [s for s in out if s[0] < s[1]]


allsites = []
for f in files:
    src = open("/repo/" + f).read()
    allsites += [(f, *s) for s in sites(src)]
print(len(files), "files", len(allsites), "sites", flush=True)
rng.shuffle(allsites)
copy = f"/tmp/mut{seed}"
subprocess.run(["rm", "-rf", copy]); subprocess.run(["cp", "-a", "/repo", copy])
done = 0
for f, i, j, new, line in allsites:
    if done >= n:
        break
    b = open("/repo/" + f, "rb").read()
    m = b[:i] + new.encode() + b[j:]
    try:
        ast.parse(m)
    except SyntaxError:
        continue
    done += 1
    open(f"{copy}/{f}", "wb").write(m)
    rel = f[len("quakemigrate/"):]
    checks = next(c for g, c in MAP if fnmatch.fnmatch(rel, g)).split()
    t0, got = time.time(), None
    for c in checks:
        r = subprocess.run([V + "/check.sh", c, "--no-min"] + os.environ.get("TRYARGS", "--nproc 2").split(), capture_output=True, text=True,
                           cwd=V, env=dict(os.environ, QMSIM_REPO=copy))
        if r.returncode:
            got = f"{c} rc={r.returncode}"
            break
    l = b.decode().splitlines()[line - 1].strip()
    print("CAUGHT" if got else "SURVIVED", got or " ".join(checks), f"{f}:{line}", f"{b[i:j].decode()[:60]!r} -> {new[:60]!r}", "|", l[:100], f"{time.time() - t0:.0f}s", flush=True)
    open(f"{copy}/{f}", "wb").write(b)
subprocess.run(["rm", "-rf", copy])
