"""C12: the migration kernels do not depend on the thread schedule."""
import ctypes
import glob
import os
import subprocess
import numpy as np
from .. import boot
from ..core import Violation, digest, VERIF

LEVEL = "exploration"
CASES = {"quick": 2500, "thorough": 200000}
RULE = ("seeded problems (grid, samples, onsets, travel times, padding) evaluated by the repository's C kernels, called through quakemigrate.core.lib, "
        "with 1-17 simulated threads under a seeded scheduler (random, priority with change points, lock step, one thread stalled, fewer threads "
        "than asked for) that may switch at every memory access; every access checked for races and bounds, results compared with a sequential "
        "NumPy evaluation; non-trivial if at least two threads ran and were interleaved; distinct by digest of the switch sequence")
STATES = "distinct switch sequences (hash of thread and access count at every switch)"
REAL = ["quakemigrate/core/src/*.c (compiled from the working tree at -O0 or -O2 with access hooks)", "quakemigrate.core.lib.migrate, find_max_coa, "
        "overlapping_sta_lta, centred_sta_lta, recursive_sta_lta"]
STUB = ["OpenMP runtime and threads (coroutines under a seeded scheduler)", "memory behind the kernels' arguments (guarded copies)"]
ASSUME = ["sequentially consistent memory: weaker orderings can only matter where there is a race, and races are reported",
          "compiler output at -O0 and -O2 stands for the shipped -Ofast build"]


def prepare(base):
    """Compile the kernels with access hooks, once per optimisation level."""
    d = os.path.join(base, "csim")
    os.makedirs(d)
    src = sorted(glob.glob(os.path.join(boot.REPO, "quakemigrate/core/src/*.c")))

    def run(*a):
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("instrumented kernels do not build:\n" + p.stdout)
    run("gcc", "-O1", "-fPIC", "-c", os.path.join(VERIF, "sim/csim/shim.c"), "-o", f"{d}/shim.o")
    for o in "02":
        objs = []
        for s in src:
            ob = f"{d}/{os.path.basename(s)}.{o}.o"
            run("gcc", "-g", f"-O{o}", "-fopenmp", "-fPIC", "-fsanitize=thread", "-c", s, "-o", ob)
            objs.append(ob)
        run("gcc", "-shared", "-o", f"{d}/qm{o}.so", *objs, f"{d}/shim.o", "-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove,--wrap=malloc,--wrap=calloc,--wrap=free",
            "-Wl,-Bsymbolic", "-lm")


def gen(rng, i, tier):
    dims = rng.choice([[1, 1, 1], [2, 1, 1], [3, 2, 2], [2, 2, 2], [4, 3, 2], [5, 5, 3], [1, 7, 1]])
    nt = rng.choice([1, 2, 3, 5, 8, 13, 30])
    pre, post = rng.choice([0, 1, 4, 10]), rng.choice([0, 1, 5, 12])
    p = dict(dims=dims, nt=nt, pre=pre, post=post, nons=rng.choice([1, 2, 3, 6]), wseed=rng.randrange(10 ** 9), ties=rng.random() < 0.15,
             neg=rng.random() < 0.15, edge=rng.random() < 0.4, lowvals=rng.random() < 0.2, opt=rng.choice("0002"), repeat=rng.choice([1, 1, 2]),
             runs=[])
    for _ in range(rng.choice([2, 3, 4])):
        p["runs"].append(dict(threads=rng.choice([1, 2, 2, 3, 4, 5, 8, 17]), policy=rng.choice([0, 0, 0, 1, 1, 3]),
                              prob=rng.choice([300, 3000, 20000, 50000]), cap=rng.choice([32, 32, 32, 1, 2, 3]),
                              stall=rng.choice([-1, -1, 0, 1, 2]), nchange=rng.choice([1, 2, 3, 6]), seed=rng.randrange(1, 2 ** 60)))
    if rng.random() < 0.15:
        p["stalta"] = dict(n=rng.choice([12, 30, 61]), nsta=rng.choice([1, 2, 4]), nlta=rng.choice([4, 5, 8]))
    return p


class Proxy:
    """Stands in for the loaded library: every array argument is handed to the kernel as a guarded copy."""

    class Fn:
        def __init__(self, lib, name):
            self.c = getattr(lib, name)
            self.c.argtypes = None
            self.c.restype = None
            self.lib = lib
            self.name = name
            self.argtypes = None

        def __call__(self, *args):
            lib = self.lib
            out, cargs = [], []
            for k, a in enumerate(args):
                if isinstance(a, np.ndarray):
                    t = self.argtypes[k] if self.argtypes else None
                    if t is not None:
                        t.from_param(a)                # the checks ctypes would make
                    ptr = lib.sim_array(a.nbytes, 0)
                    ctypes.memmove(ptr, a.ctypes.data, a.nbytes)
                    out.append((a, ptr, a.copy()))
                    cargs.append(ctypes.c_void_p(ptr))
                elif isinstance(a, (int, np.integer)) and self.argtypes:
                    cargs.append(self.argtypes[k](int(a)))
                else:
                    cargs.append(a)
            self.c(*cargs)
            for a, ptr, before in out:
                ctypes.memmove(a.ctypes.data, ptr, a.nbytes)
            lib.sim_free()

    def __init__(self, path):
        self.lib = ctypes.CDLL(path)
        self.lib.sim_array.restype = ctypes.c_void_p
        self.lib.sim_array.argtypes = [ctypes.c_int64, ctypes.c_int]
        self.lib.sim_setup.argtypes = [ctypes.c_uint64] + [ctypes.c_int] * 5 + [ctypes.c_int64, ctypes.c_int]
        self.lib.sim_setup.restype = None
        self.fns = {}

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name not in self.fns:
            self.fns[name] = Proxy.Fn(self.lib, name)
        return self.fns[name]

    def stats(self):
        o = (ctypes.c_int64 * 24)()
        self.lib.sim_stats(o)
        return list(o)


def problem(p):
    r = np.random.default_rng(p["wseed"])
    n = p["nt"] + p["pre"] + p["post"]
    on = r.uniform(0.3, 5.0, (p["nons"], n))
    if p["lowvals"]:
        on[r.random(on.shape) < 0.3] = 0.0
    if p["ties"]:
        on = np.round(on)
    hi = p["post"]
    tt = r.integers(0, hi + 1, tuple(p["dims"]) + (p["nons"],)).astype(np.int32)
    if p["edge"]:
        tt[r.random(tt.shape) < 0.4] = hi
    if p["neg"]:
        tt[r.random(tt.shape) < 0.2] = -2
    if p["ties"]:
        tt[...] = tt[..., :1] // 2
    return on, tt


def reference(p, on, tt):
    lg = np.log(np.clip(on, 0.01, np.inf))
    m = np.zeros(tuple(p["dims"]) + (p["nt"],))
    for idx in np.ndindex(*p["dims"]):
        for k in range(p["nons"]):
            s = p["pre"] + max(0, int(tt[idx][k]))
            m[idx] += lg[k, s:s + p["nt"]]
    return np.exp(m / p["nons"])


NAMES = {"migrate": ["onsets", "lookup tables", "map4d"], "find_max_coa": ["map4d", "max_coa", "max_norm_coa", "max_coa_idx"],
         "overlapping_sta_lta": ["signal", "header", "onset"], "centred_sta_lta": ["signal", "header", "onset"],
         "recursive_sta_lta": ["signal", "header", "onset"]}


def judge(px, what, run):
    s = px.stats()
    nm = lambda k: NAMES[what][k] if 0 <= k < len(NAMES[what]) else "a shared variable"  # noqa
    if s[3]:
        k, off, w, t, size = s[14:19]
        raise Violation("bounds", f"{what}: {s[3]} accesses outside the arrays; first: thread {t} {'writes' if w else 'reads'} "
                        f"{nm(k)} at byte {off} of {size} (threads={run['threads']})")
    if s[2]:
        k, off, a, b, rw, reg = s[8:14]
        raise Violation("race", f"{what}: {s[2]} data races; first: threads {b} and {a} on {nm(k)}"
                        + (f" byte {off}" if k >= 0 else "") + f", {'write' if rw & 1 else 'read'} then {'write' if rw & 2 else 'read'} "
                        f"(threads={run['threads']})")
    return s


def execute(plan, scratch):
    import quakemigrate.core.lib as lib
    px = Proxy(os.path.join(os.environ["QMSIM_BASE"], "csim", f"qm{plan['opt']}.so"))
    real = lib.qmlib
    for nme in NAMES:
        getattr(px, nme).argtypes = getattr(real, nme).argtypes
    on, tt = problem(plan)
    ref = reference(plan, on, tt)
    mx = ref.reshape(-1, plan["nt"]).max(0)
    mn = mx * (ref.size // plan["nt"]) / ref.reshape(-1, plan["nt"]).sum(0)
    st = dict(runs=0, hooks=0, switches=0, parks=0, teams=0)
    faults = {}
    hashes, dig = [], []
    nontriv = False
    lib.qmlib = px
    try:
        for run in plan["runs"]:
            def setup(k):
                px.lib.sim_setup(run["seed"] + k, run["policy"], run["prob"], run["cap"], run["stall"], run["nchange"], hz, 4)
            for rep in range(plan["repeat"]):
                hz = ref.size * plan["nons"] * 4
                setup(rep)
                on1, tt1 = on.copy(), tt.copy()
                m = lib.migrate(on1, tt1, plan["pre"], plan["post"], plan["nons"], run["threads"])
                s = judge(px, "migrate", run)
                if m.shape != ref.shape or not np.allclose(m, ref, rtol=1e-9, atol=0):
                    bad = np.argwhere(~np.isclose(m, ref, rtol=1e-9, atol=0))[0].tolist() if m.shape == ref.shape else m.shape
                    raise Violation("map", f"the 4-D map differs from the sequential evaluation at {bad}: {m[tuple(bad)] if m.shape == ref.shape else ''} "
                                    f"for {ref[tuple(bad)] if m.shape == ref.shape else ref.shape} (threads={run['threads']})")
                if not (np.array_equal(on1, on) and np.array_equal(tt1, tt)):
                    raise Violation("inputs", "migrate altered its inputs")
                hz = ref.size * 3
                setup(rep + 7)
                m2 = m.copy()
                a, b, c = lib.find_max_coa(m2, run["threads"])
                s2 = judge(px, "find_max_coa", run)
                if not np.array_equal(m2, m):
                    raise Violation("inputs", "find_max_coa altered the map")
                first = m.reshape(-1, plan["nt"]).argmax(0)
                for nme, x, y in (("peak", a, mx), ("normalised peak", b, mn)):
                    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=0):
                        raise Violation("peak", f"the {nme} series differs from the sequential evaluation: {x} for {y} (threads={run['threads']})")
                if not np.array_equal(c, first):
                    raise Violation("index", f"the peak index series differs from the sequential evaluation: {c} for {first} (threads={run['threads']})")
                for q in (s, s2):
                    st["hooks"] += q[0]
                    st["switches"] += q[1]
                    st["parks"] += q[7]
                    st["teams"] += q[4]
                    nontriv |= q[5] > 1 and q[1] > q[5]
                    hashes.append(q[6] & 0xffffffffffffffff)
                    dig.append(q[:8])
                    if q[5] < min(run["threads"], 32):
                        faults["fewer threads than asked"] = faults.get("fewer threads than asked", 0) + 1
                    if run["stall"] >= 0 and q[5] > 1 and run["policy"] == 0:
                        faults["stalled thread"] = faults.get("stalled thread", 0) + 1
                    if run["policy"] == 1 and q[5] > 1:
                        faults["priority change"] = faults.get("priority change", 0) + run["nchange"]
                st["runs"] += 1
        if plan.get("stalta"):
            q = plan["stalta"]
            sig = np.random.default_rng(plan["wseed"]).uniform(0.5, 2.0, q["n"])
            for nme in ("overlapping_sta_lta", "centred_sta_lta", "recursive_sta_lta"):
                px.lib.sim_setup(5, 0, 3000, 32, -1, 1, 10, 4)
                getattr(lib, nme)(sig.copy(), q["nsta"], q["nlta"])
                judge(px, nme, dict(threads=1))
    finally:
        lib.qmlib = real
    return dict(digest=digest(dig, m.tobytes().hex()), faults=faults, stats=st, nontrivial=bool(nontriv), key=digest(hashes),
                states=[format(h, "x") for h in hashes], simtime=0.0)


def shrink(plan):
    for k in range(len(plan["runs"])):
        if len(plan["runs"]) > 1:
            yield dict(plan, runs=[plan["runs"][k]])
    if plan.get("stalta"):
        yield {k: v for k, v in plan.items() if k != "stalta"}
    for dims in ([1, 1, 1], [2, 1, 1], [2, 2, 2]):
        if dims != plan["dims"] and np.prod(dims) < np.prod(plan["dims"]):
            yield dict(plan, dims=dims)
    for k in ("nt", "nons", "pre", "post"):
        lo = 1 if k in ("nt", "nons") else 0
        if plan[k] > lo:
            yield dict(plan, **{k: max(lo, plan[k] // 2)})
            yield dict(plan, **{k: plan[k] - 1})
    for k in ("ties", "neg", "edge", "lowvals"):
        if plan[k]:
            yield dict(plan, **{k: False})
    if plan["repeat"] > 1:
        yield dict(plan, repeat=1)
    for k, r in enumerate(plan["runs"]):
        for t in (2, 3):
            if r["threads"] > t:
                yield dict(plan, runs=[dict(q, threads=t) if j == k else q for j, q in enumerate(plan["runs"])])
