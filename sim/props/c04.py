"""C04: a killed detect keeps every step it had already saved."""
import os
import numpy as np
from obspy import UTCDateTime
from .. import detect as D, saved as S
from ..core import Violation, digest
from ..simos import Sim, Killed

LEVEL = "exploration"
CASES = {"quick": 260, "thorough": 9000}
RULE = ("seeded detect plans (period around midnight, write mode, archive faults, buffer size); the on-disk state is inspected "
        "before every mutating file operation of one undisturbed run and again after killing further runs at seeded operations, "
        "also in the middle of a write; non-trivial if at least two steps were saved or a kill hit a day file; distinct by digest "
        "of operation log and kills")
REAL = ["quakemigrate detect with its scanmseed and availability output", "obspy miniSEED reader and writer"]
STUB = ["file open/write/rename layer and process death (simulated OS)", "clock, directory order", "archive contents (generated)"]
ASSUME = ["the process is killed; the machine keeps running, so completed writes reach the disk in order",
          "the run directory held no earlier results for the same days"]


def gen(rng, i, tier):
    p = D.gen(rng, long=(i % 10 == 9))
    p["cont"] = rng.random() < 0.75
    p["threads"] = 1
    p["bufsize"] = rng.choice([512, 1024, 4096, 8192])
    n = rng.choice([2, 3, 4])
    p["kills"] = [dict(pos=round(rng.random(), 4), frac=rng.choice([0.0, 0.0, 0.3, 0.7, 1.0]), write=rng.random() < 0.7) for _ in range(n)]
    return p


class Monitor:
    """Follows one run: which steps have begun, what must be on disk, what is on disk."""

    def __init__(self, plan, e, run_dir, what):
        self.plan, self.e, self.run_dir, self.what = plan, e, run_dir, what
        self.nsteps, self.per = D.geometry(plan, e)
        self.total = self.nsteps * self.per
        self.begun = 0
        self.finished = False
        self.prev = None
        self.final = None
        self.snaps = []
        self.seen = 0
        self.last = None
        self.fresh = False

    def step(self, start):
        self.begun += 1

    def must(self):
        """Number of leading samples that have to be readable."""
        if self.finished:
            return self.total
        done = max(0, self.begun - 1) * self.per
        if self.plan["cont"]:
            return done
        # without continuous writing: every completed day
        e = self.e
        t = e.start + done / e.sr
        day = UTCDateTime((t + 0.25 / e.sr).date)
        return max(0, int(round((day - e.start) * e.sr)))

    def look(self, where):
        sig = S.signature(self.run_dir)
        if self.last is None or self.last[0] != sig:
            self.last = (sig, S.spans(self.run_dir, self.e, self.total))
            self.fresh = True
        val, have = self.last[1]
        self.seen += 1
        n = self.must()
        if not have[:n].all():
            k = int(np.flatnonzero(~have[:n])[0])
            raise Violation("lost", f"{self.what}, {where}: {n} samples had been saved, sample {k} ({self.e.start + k / self.e.sr}) "
                            f"is not on disk")
        if self.prev is not None and (self.prev & ~have).any():
            k = int(np.flatnonzero(self.prev & ~have)[0])
            raise Violation("shrunk", f"{self.what}, {where}: sample {k} ({self.e.start + k / self.e.sr}) was on disk before and no longer is")
        self.prev = have
        return val, have

    def on_op(self, sim, node, kind, path):
        val, have = self.look(f"before operation {node.n_ops} ({kind} {os.path.basename(path)})")
        if self.fresh:
            self.snaps.append((have, val))
            self.fresh = False

    def compare(self, val, have, final, where):
        for c in D.CH:
            bad = have & (val[c] != final[c])
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                raise Violation("value", f"{self.what}, {where}: {c} sample {k} is {val[c][k]} on disk, its value is {final[c][k]}")


def one(plan, e, name, faults=(), observe=False, what=""):
    from quakemigrate.io import Archive
    from quakemigrate import QuakeScan
    m = Monitor(plan, e, os.path.join(e.runs, name), what)
    arc = S.step_archive(Archive, m.step)(e.arc, e.stations, archive_format="YEAR/JD/STATION")
    with Sim(e.root, seed=plan["list_seed"], faults=faults, ticks=plan["ticks"], list_seed=plan["list_seed"],
             bufsize=plan["bufsize"]) as sim, D.quiet():
        q = QuakeScan(arc, e.lut, D.make_onset(plan["cfg"]), e.runs, name, timestep=plan["timestep"], threads=1,
                      continuous_scanmseed_write=plan["cont"])
        if observe:
            sim.on_op = m.on_op
        try:
            q.detect(str(e.start), str(e.end))
            m.finished = True
        except Killed:
            pass
        sim.on_op = None
    m.sim = sim
    return m


def execute(plan, scratch):
    e = D.setup(plan, scratch)
    m0 = one(plan, e, "ref", observe=True, what="undisturbed run")
    if not m0.finished:
        raise RuntimeError("undisturbed run did not finish")
    final, have = m0.look("at the end")
    for k, (h, v) in enumerate(m0.snaps):
        m0.compare(v, h, final, f"before observed operation {k}")
    n = m0.sim.main.n_mut
    muts = [op for op in m0.sim.oplog]
    writes = [i for i, op in enumerate(muts) if op[1] in ("write", "replace", "rename") and "scanmseed" in op[2]] or list(range(n))
    hits = 0
    log = [m0.sim.oplog]
    for j, k in enumerate(plan["kills"]):
        at = writes[int(k["pos"] * len(writes))] if k["write"] else int(k["pos"] * n)
        what = f"killed at operation {at} of {n} ({muts[at][1] if at < len(muts) else '?'}, fraction {k['frac']})"
        m = one(plan, e, f"k{j}", faults=[dict(node=0, at=at, kind="kill", frac=k["frac"])], what=what)
        hits += not m.finished
        val, have = m.look("afterwards")
        m.compare(val, have, final, "afterwards")
        log.append(m.sim.oplog)
    return dict(digest=digest(log), key=digest(log), nontrivial=m0.nsteps > 1 or hits > 0,
                faults=dict(e.applied, kill=hits), simtime=m0.total / e.sr * (1 + len(plan["kills"])),
                states=[digest(op[1:]) for op in muts][:0],
                stats=dict(steps=m0.nsteps, states_inspected=m0.seen, kill_points=hits, continuous=int(plan["cont"]),
                           mutating_ops=n))


def shrink(plan):
    for i in range(len(plan["kills"])):
        yield dict(plan, kills=plan["kills"][:i] + plan["kills"][i + 1:])
    from .c01 import shrink as s1
    yield from s1(plan)
