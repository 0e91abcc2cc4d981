"""C14: a saved lookup table loads back identical, or not at all."""
import contextlib
import copy
import io
import json
import os
import pickle
import subprocess
import sys
import numpy as np
from .. import world as W, lutdiff as L, boot
from ..core import Violation, digest, in_child, VERIF
from ..simos import Sim, Killed

LEVEL = "exploration"
CASES = {"quick": 400, "thorough": 15000}
RULE = ("seeded histories of 2-7 operations on lookup tables (compute, decimate, use, convert from the layout of earlier versions, save over new and existing files, load in the same or "
        "another process, some saves killed or failing at a seeded operation or in mid-write, some loads failing) checked against a model of "
        "what each path may hold; non-trivial if a save was disturbed or overwrote a table; distinct by digest of history and operation log")
REAL = ["quakemigrate LUT.save, io.read_lut, LUT.load, LUT(lut_file=), update_lut, compute_traveltimes(save_file=), decimate", "pickle"]
STUB = ["file open/write/rename layer and process death (simulated OS)"]
ASSUME = ["after a disturbed save the path may hold the previous table, the new one, or nothing loadable"]


def gen(rng, i, tier):
    n = rng.choice([2, 3, 4, 6, 7])
    ops = []
    for k in range(n):
        o = rng.choice(["save", "save", "save", "load", "load", "decimate", "use", "compute", "old"])
        if k == 0:
            o = "save"
        d = dict(op=o, path=rng.choice([0, 0, 1]), how=rng.choice(["read_lut", "read_lut", "load", "lut_file"]), new=rng.random() < 0.25,
                 dec=rng.choice([[2, 2, 1], [1, 1, 2], [2, 1, 1]]), inplace=rng.random() < 0.5)
        if o in ("save", "old") and rng.random() < 0.5:
            d["fault"] = dict(pos=round(rng.random(), 4), kind=rng.choice(["kill", "kill", "enospc", "eio", "short"]),
                              frac=rng.choice([0.0, 0.3, 0.7, 1.0]), sticky=rng.choice([0, 0, 50]))
        ops.append(d)
    ops.append(dict(op="load", path=0, how="read_lut", new=rng.random() < 0.5))
    ops.append(dict(op="load", path=1, how="read_lut", new=rng.random() < 0.5))
    return dict(ops=ops, nsta=rng.choice([2, 3, 5]), unit=rng.choice(["km", "m"]), dx=rng.choice([2.0, 3.0, 4.0]), wseed=rng.randrange(10 ** 6),
                phases=rng.choice([["P", "S"], ["P"], ["S", "P"]]), bufsize=rng.choice([128, 1024, 8192]), interp=i % 40 == 0)


def make(plan, k, save=None):
    st = W.make_stations(plan["nsta"], np.random.default_rng(plan["wseed"] + k), 10.0, plan["unit"])
    w = dict(span=10.0, depth=4.0, dx=plan["dx"], dz=2.0, unit=plan["unit"], lut_phases=plan["phases"], vp=5.0 + 0.1 * k, vs=3.0)
    return W.make_lut(w, st)


def old_layout(lut, path, hist):
    """Writes the table as earlier versions did; what of it can be used must be the same. Returns what it is to be converted to."""
    from quakemigrate.io import read_lut
    state = {k: v for k, v in lut.__dict__.items() if k not in ("traveltimes", "_node_count", "_node_spacing", "phases", "fraction_tt", "_fraction_tt")}
    state["maps"] = {s: {"TIME_" + p: t for p, t in m.items()} for s, m in lut.traveltimes.items()}
    state["_cell_count"], state["_cell_size"] = lut.node_count, lut.node_spacing
    with open(path, "wb") as fh:
        pickle.dump(state, fh, 4)
    want = copy.deepcopy(lut)
    want.phases, want.fraction_tt = ["P", "S"], 0.1
    want.traveltimes = {s: {p: m[p] for p in m} for s, m in want.traveltimes.items()}
    got = read_lut(path)
    av = {f"{s}_{p}": 1 for p in want.phases for s in lut.traveltimes}
    for name, f in (("times", lambda t: L.h(t.serve_traveltimes(20, av))), ("largest time", lambda t: float(t.max_traveltime)),
                    ("corners", lambda t: L.h(np.round(np.asarray(t.grid_corners, float), 9))), ("extent", lambda t: L.h(np.round(np.asarray(t.grid_extent, float), 9))),
                    ("times at a node", lambda t: [float(x) for x in t.traveltime_to("S", np.array(want.node_count) // 2)])):
        a, b = f(want), f(got)
        if a != b:
            raise Violation("old-layout", f"after {hist}: a table in the layout of earlier versions has {name} {b} instead of {a}")
    return want


def execute(plan, scratch):
    from quakemigrate.io import read_lut
    from quakemigrate.lut import LUT, update_lut
    os.makedirs(os.path.join(scratch, "d"))
    paths = [os.path.join(scratch, "d", "a.lut"), os.path.join(scratch, "d", "new", "b.lut")]
    cur = make(plan, 0)
    may = [[None], [None]]              # possible contents; None = not loadable
    fired, logs, hist = {}, [], []
    disturbed = over = loads = 0
    nmake = 0
    with contextlib.redirect_stdout(io.StringIO()):
        for j, o in enumerate(plan["ops"]):
            if o["op"] == "compute":
                nmake += 1
                cur = make(plan, nmake)
            elif o["op"] == "decimate":
                if min(np.array(cur.node_count) // np.array(o["dec"])) >= 2:
                    before = L.observe(cur)
                    if o["inplace"]:
                        cur.decimate(o["dec"], inplace=True)
                    else:
                        new = cur.decimate(o["dec"])
                        d = L.diff(before, L.observe(cur))
                        if d:
                            raise Violation("memory", f"after {hist}: decimating a copy changed the table itself: {d}")
                        cur = new
            elif o["op"] == "use":
                before = L.observe(cur)
                n = np.array(cur.node_count)
                cur.traveltime_to(plan["phases"][0], (n - 1) / 2)
                cur.serve_traveltimes(50, {f"{s}_{p}": 1 for s in cur.traveltimes for p in cur.phases})
                d = L.diff(before, L.observe(cur))
                if d:
                    raise Violation("memory", f"after {hist}: using the table changed it: {d}")
            elif o["op"] in ("save", "old"):
                f = o.get("fault")
                faults = []
                p = paths[o["path"]]
                if o["op"] == "old":
                    # the same table in the layout of earlier versions, converted
                    if set(cur.phases) != {"P", "S"}:
                        continue
                    cur = old_layout(cur, os.path.join(scratch, "old.lut"), hist)
                    put = lambda q: update_lut(os.path.join(scratch, "old.lut"), q)
                else:
                    put = cur.save
                before = L.observe(cur)
                if f:
                    def count():
                        with Sim(scratch, bufsize=plan["bufsize"]) as sim:
                            put(p + ".probe")
                        os.unlink(p + ".probe")
                        return sim.main.n_mut
                    n = in_child(count)
                    fl = dict(node=0, at=int(f["pos"] * n), kind=f["kind"], frac=f["frac"])
                    if f["sticky"] and f["kind"] != "kill":
                        fl["sticky"] = f["sticky"]
                    faults = [fl]
                with Sim(scratch, faults=faults, bufsize=plan["bufsize"]) as sim:
                    try:
                        put(p)
                        out = "ok"
                    except Killed:
                        out = "killed"
                    except Exception as x:  # noqa
                        out = repr(x)
                for k, v in sim.fired.items():
                    fired[k] = fired.get(k, 0) + v
                logs.append(sim.oplog)
                if may[o["path"]] != [None]:
                    over += 1
                hist.append(f"{o['op']} {o['path']} {f['kind'] + ' at ' + str(faults[0]['at']) if f else ''}: {out}")
                d = L.diff(before, L.observe(cur))
                if d:
                    raise Violation("memory", f"after {hist}: saving changed the table in memory: {d}")
                if out == "ok":
                    may[o["path"]] = [before]
                else:
                    disturbed += 1
                    if not faults:
                        raise Violation("save-raised", f"after {hist}: save stopped with {out}")
                    may[o["path"]] = may[o["path"]] + [before, None]
            elif o["op"] == "load":
                p = paths[o["path"]]

                def load():
                    with Sim(scratch):
                        try:
                            if o["how"] == "read_lut":
                                got = read_lut(p)
                            elif o["how"] == "lut_file":
                                got = LUT(lut_file=p)
                            else:
                                got = LUT()
                                got.load(p)
                        except Exception as x:  # noqa
                            return None, f"{type(x).__name__}: {x}"
                    return L.observe(got), got
                if plan["interp"] and o["new"]:
                    r = other_interpreter(p)
                    got, tab = (json.loads(r), None) if r else (None, "not loadable in another interpreter")
                elif o["new"]:
                    got, tab = in_child(lambda: (lambda g, t: (g, t if g is None else None))(*load()))
                else:
                    got, tab = load()
                loads += 1
                hist.append(f"load {o['path']}")
                if got is None:
                    if None not in may[o["path"]]:
                        raise Violation("not-loadable", f"after {hist}: a table saved without any fault does not load: {tab}")
                else:
                    fine = [m for m in may[o["path"]] if m is not None and L.diff(json.loads(json.dumps(m)), json.loads(json.dumps(got))) is None]
                    if not fine:
                        cand = [m for m in may[o["path"]] if m is not None]
                        raise Violation("altered", f"after {hist}: the loaded table is none that was saved there: "
                                        + (L.diff(cand[-1], got) if cand else "nothing was saved there"))
                    may[o["path"]] = [fine[0]]
                    if tab is not None and not isinstance(tab, str):
                        cur = tab
    d = digest([{k: v for k, v in (m or {}).items()} for q in may for m in q], logs)
    return dict(digest=d, key=digest(d, hist), nontrivial=disturbed > 0 or over > 0, faults=fired, simtime=0.0,
                stats=dict(ops=len(plan["ops"]), loads=loads, disturbed_saves=disturbed, overwrites=over))


CODE = """
import sys, os, json, io, contextlib
sys.path.insert(0, {verif!r})
from sim import boot, lutdiff
boot.load({lib!r})
from quakemigrate.io import read_lut
try:
    with contextlib.redirect_stdout(io.StringIO()):
        o = lutdiff.observe(read_lut({path!r}))
except Exception as x:
    print("ERR")
else:
    print(json.dumps(o))
"""


def other_interpreter(path):
    env = dict(os.environ, PYTHONHASHSEED="77")
    out = subprocess.run([sys.executable, "-c", CODE.format(verif=VERIF, lib=os.environ["QMSIM_LIB"], path=path)], env=env, cwd="/",
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100)
    line = out.stdout.strip().splitlines()
    if not line:
        raise RuntimeError("interpreter failed: " + out.stderr[-500:])
    return None if line[-1] == "ERR" else line[-1]


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan["interp"]:
        yield dict(plan, interp=False)
