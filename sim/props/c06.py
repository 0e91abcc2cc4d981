"""C06: a stage that reports success has saved everything."""
import os
from .. import stages as G, results as Rs, lutdiff as L
from ..core import Violation, digest, in_child
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 260, "thorough": 9000}
RULE = ("seeded stage (detect, trigger, locate or lookup-table save), one undisturbed run and then runs with a fault (ENOSPC, EIO, short "
        "write, once or repeated) at seeded mutating operations; each run must raise or leave exactly the undisturbed results; non-trivial "
        "if a fault took effect; distinct by digest of fault and operation log")
REAL = ["quakemigrate detect, trigger, locate and LUT.save with all their result files", "obspy, pandas and numpy file output"]
STUB = ["file open/write/rename layer (simulated OS)", "clock, directory order", "archive contents (generated)"]
ASSUME = ["log files and plots are not compared"]


def gen(rng, i, tier):
    st = rng.choice(["detect", "trigger", "locate", "locate", "locate", "lut"])
    if st == "lut":
        p = dict(stage="lut", list_seed=0, unit=rng.choice(["km", "m"]))
    else:
        p = G.GEN[st](rng)
    p["bufsize"] = rng.choice([512, 2048, 8192])
    p["points"] = [dict(pos=round(rng.random(), 4), kind=rng.choice(["enospc", "eio", "short"]), frac=rng.choice([0.0, 0.3, 0.8]),
                        sticky=rng.choice([0, 0, 2, 1000])) for _ in range(rng.choice([3, 4, 6]))]
    return p


class Lut:
    def __init__(self, plan, scratch):
        from .. import trig as T
        self.plan, self.scratch = plan, scratch
        self.lut, _ = T.tiny_lut(plan["unit"])

    def fresh(self, k):
        os.makedirs(os.path.join(self.scratch, f"r{k}"))

    def path(self, k):
        return os.path.join(self.scratch, f"r{k}", "lut.qm")

    def attempt(self, k, faults=(), bufsize=None):
        import contextlib
        import io
        with Sim(self.scratch, faults=faults, bufsize=bufsize) as sim, contextlib.redirect_stdout(io.StringIO()):
            try:
                self.lut.save(self.path(k))
                out = "ok"
            except Exception as x:  # noqa
                out = x
        return out, sim

    def result(self, k):
        from quakemigrate.io import read_lut
        try:
            return {"lut": L.observe(read_lut(self.path(k)))}
        except Exception as x:  # noqa
            return {"lut": f"unreadable {type(x).__name__}"}

    def simtime(self):
        return 0.0


def execute(plan, scratch):
    g = Lut(plan, scratch) if plan["stage"] == "lut" else G.Stage(plan, scratch)
    g.fresh(0)

    def base():
        out, sim = g.attempt(0, bufsize=plan["bufsize"])
        return (out if isinstance(out, str) else repr(out)), sim.main.n_mut, sim.oplog
    out, n, log0 = in_child(base)
    if out != "ok":
        raise Violation("undisturbed", f"the undisturbed run stopped with {out}")
    want = g.result(0)
    fired, logs = {}, []
    raised = silent = 0
    for j, a in enumerate(plan["points"]):
        at = int(a["pos"] * max(1, n))
        g.fresh(j + 1)

        def broken():
            f = dict(node=0, at=at, kind=a["kind"], frac=a["frac"])
            if a["sticky"]:
                f["sticky"] = a["sticky"]
            out, sim = g.attempt(j + 1, faults=[f], bufsize=plan["bufsize"])
            return (out if isinstance(out, str) else repr(out)), sim.fired, sim.oplog
        o, fi, lg = in_child(broken)
        logs.append(lg)
        for k, v in fi.items():
            fired[k] = fired.get(k, 0) + v
        if o == "ok":
            silent += 1
            d = Rs.diff(want, g.result(j + 1), "an undisturbed run leaves", "it left")
            if d:
                raise Violation("silent", f"{plan['stage']} returned normally although a {a['kind']} fault hit operation {at} of {n} "
                                f"({log0[at][1:] if at < n else '-'}): {d}")
        else:
            raised += 1
    return dict(digest=digest(want, logs), key=digest(logs), nontrivial=bool(fired), faults=fired, simtime=g.simtime() * (1 + len(plan["points"])),
                stats={"runs_" + plan["stage"]: 1, "raised": raised, "completed": silent, "files_compared": len(want) * silent, "mutating_ops": n})


def shrink(plan):
    pts = plan["points"]
    for i in range(len(pts)):
        if len(pts) > 1:
            yield dict(plan, points=[pts[i]])
    if plan["stage"] != "lut":
        yield from G.shrink(plan)
