"""C16: a clear earthquake is detected, triggered and located despite faults."""
import os
import pandas as pd
import numpy as np
from obspy import UTCDateTime
from pyproj import Transformer
from .. import archive as A, detect as D, pipe as P, trig as T, results as Rs, world as W
from ..core import Violation, digest
from ..simos import Sim
from . import c03

LEVEL = "exploration"
CASES = {"quick": 240, "thorough": 12000}
RULE = ("seeded 6-7 station networks with 0-3 clear events at interior grid nodes, aimed at time step, midnight and job boundaries, and archive faults on up to two "
        "stations; the real detect (grids, decimations, time steps, day splits), trigger and locate run end to end; every event triggered once and located within "
        "one cell and a few samples, nothing else triggered; non-trivial if an archive fault took effect or an event straddles a boundary; distinct by digest of results")
REAL = ["quakemigrate detect, trigger and locate with all result files"]
STUB = ["clock, directory order, file layer (simulated OS)", "archive contents (generated)"]
ASSUME = ["events are impulsive, 12 s or more apart, and at least 15 s inside the scanned period", "the static threshold lies between the noise and the events",
          "the classic STA/LTA onset peaks up to about one short window after the arrival: the origin time may be late by that"]
FAULTS = ["gap", "gap", "flatseg", "flat", "zero", "conflict", "dup", "split", "rate2", "rate3", "foreign", "empty", "stub", "badpayload", "trunc", "absent", "dtype"]


def gen(rng, i, tier):
    p = P.gen(rng, nev=1, faults=0, mags=rng.random() < 0.2, nsta=rng.choice([6, 6, 7]))
    p["kind"] = "small"
    p["cfg"]["phases"] = ["P", "S"]
    import copy
    c = copy.deepcopy(P.CFG)
    c.update(sr=p["cfg"]["sr"], position=rng.choice(["classic", "centred"]), phases=["P", "S"])
    c["min_onset"] = 0.4
    c["all_channels"] = rng.random() < 0.3
    p["cfg"] = c
    p["rfaults"] = []
    p["lpos"] = "centred"
    p["w"]["dx"] = rng.choice([1.5, 2.0, 2.4])
    w = p["w"]
    ts = p["timestep"] = rng.choice([5.0, 10.0, 20.0, 30.0])
    p["lead"] = rng.choice([60.0, 90.0])
    nev = rng.choice([0, 1, 1, 2, 2, 3])
    p["before"] = int((p["lead"] - 25) // ts)
    start = p["lead"] - p["before"] * ts
    marks = [p["lead"]] + [start + k * ts for k in range(1, int(60 // ts) + 2)]
    times, t = [], start + 16.0
    for _ in range(nev):
        near = [m for m in marks if t <= m <= t + 30]
        x = t + rng.uniform(0, 6)
        if near and rng.random() < 0.7:
            x = max(t, rng.choice(near) + rng.choice([0, 0, -0.05, 0.1, -0.5, 0.5, -1.0, -2.0, -1.5, -3.0]))
        times.append(round(x, 2))
        t = x + rng.uniform(13, 18)
    end = max(times + [p["lead"] + 10]) + 16.0
    p["nsteps"] = int(np.ceil((end - start) / ts))
    p["span"] = round(start + p["nsteps"] * ts + 25.0)
    p["events"] = [dict(t=x, node=[rng.uniform(0.3, 0.7), rng.uniform(0.3, 0.7), rng.uniform(0.2, 0.8)], amp=rng.choice([2000.0, 5000.0])) for x in times]
    p["trig"] = []
    st = W.make_stations(w["nsta"], np.random.default_rng(w["wseed"]), w["span"], w["unit"])
    bad = rng.sample(list(st["Name"]), rng.choice([0, 1, 2, 2]))
    p["afaults"] = A.gen_faults(rng, bad, p["span"], rng.choice([1, 2, 3, 5]), [k for k in FAULTS if rng.random() < 0.6] or ["gap"],
                                [x + 2 for x in times] + marks) if bad else []
    p["dec"] = rng.choice([None, [1, 1, 2], [2, 2, 1] if w["dx"] == 1.5 else None, [2, 2, 2] if w["dx"] == 1.5 else [1, 1, 2]])
    p["cont"] = rng.random() < 0.5
    p["threads"] = rng.choice([1, 1, 2])
    p["split"] = rng.random() < 0.4
    p["sub"] = ""
    p["tp"] = dict(mw=rng.choice([1.0, 1.5, 2.0]), mei=6.0, norm=False, threshold=2.8 if c["position"] == "classic" else 4.5, method="static", pad=rng.choice([20.0, 30.0]), smooth=False, sigma=0.2,
                   width=4.0, windows=rng.random() < 0.3, region=None)
    o = p["opt"]
    o.update(mw=rng.choice([1.5, 2.0]), raw=rng.random() < 0.2, real=False, wa=False, coa=False, mcoa=False, all_sta=False)
    if rng.random() < 0.25:
        P.rename(p, W.ODD_NAMES)
    return p


def execute(plan, scratch):
    p = plan
    e = c03.setup(p, scratch)
    v = dict(c03.PLAIN, split=p["split"], threads=p["threads"], cont=p["cont"])
    runs = os.path.join(scratch, "r")
    os.makedirs(runs)
    with Sim(scratch, ticks=p["ticks"], list_seed=p["list_seed"]) as sim, c03.quiet():
        j = c03.Job(p, e, v, runs)
        for s in ("detect", "trigger", "locate"):
            for a, b in c03.jobs(p, e, v):
                try:
                    j.run(s, a, b)
                except Exception as x:  # noqa
                    import traceback
                    raise Violation("raised", f"{s} from {a} to {b} stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
    rd = os.path.join(runs, "run")
    return judge(p, e, rd, sim)


def judge(p, e, rd, sim):
    lut = e.lut
    n = np.array(lut.node_count)
    ll, sp = np.array(lut.ll_corner, float), np.array(lut.node_spacing, float)
    to_grid = Transformer.from_proj(lut.coord_proj, lut.grid_proj)
    d = os.path.join(rd, "trigger", "events")
    trig = []
    for f in sorted(os.listdir(d)):
        trig += T.read_csv(os.path.join(d, f))[1]
    truth = [(e.t0 + v["t"], np.array(v["ijk"])) for v in e.events]

    def idx(x, y, z):
        return (np.array(to_grid.transform(x, y) + (z,), float) - ll) / sp
    used = set()
    bad = {f["sta"] for f in p["afaults"]}
    npick = 0
    for t, ijk in truth:
        got = [r for r in trig if abs(UTCDateTime(r["CoaTime"]) - t) < 6]
        if len(got) != 1:
            raise Violation("triggered", f"event at {t}, node {list(ijk)}: triggered {len(got)} times ({[r['CoaTime'] for r in got]})")
        r = got[0]
        used.add(r["EventID"])
        f = os.path.join(rd, "locate", "events", r["EventID"] + ".event")
        if not os.path.exists(f):
            raise Violation("located", f"event at {t}, node {list(ijk)}: triggered at {r['CoaTime']} but not located")
        ev = pd.read_csv(f).iloc[0]
        dt = UTCDateTime(ev["DT"]) - t
        c = idx(ev["X"], ev["Y"], ev["Z"]) - ijk
        if np.abs(c).max() > 1.05:
            raise Violation("position", f"event at {t}, node {list(ijk)}: located {[round(float(q), 2) for q in c]} cells away")
        if abs(dt) > 0.4:
            raise Violation("origin-time", f"event at {t}, node {list(ijk)}: located at {ev['DT']}, {dt:+.3f} s off")
        pk = pd.read_csv(os.path.join(rd, "locate", "picks", r["EventID"] + ".picks"), converters=dict(Station=str))
        none = []
        for _, q in pk.iterrows():
            if q["Station"] in bad:
                continue
            arr = t + float(lut.traveltimes[q["Station"]][q["Phase"]][tuple(ijk)])
            if str(q["PickTime"]) == "-1":
                none.append((q["Station"], q["Phase"]))
                continue
            npick += 1
            if abs(UTCDateTime(q["PickTime"]) - arr) > 0.4:
                raise Violation("pick", f"event at {t}, node {list(ijk)}: {q['Phase']} at {q['Station']} (undisturbed) picked at {q['PickTime']}, it arrived at {arr}")
        if len(none) > 3:
            raise Violation("pick", f"event at {t}, node {list(ijk)}: no pick at the undisturbed {none}")
    extra = [r for r in trig if r["EventID"] not in used]
    if extra:
        # (the jump at the end of a flat stretch is a signal of its own)
        raise Violation("false-event", f"no event at {[(r['CoaTime'], r['COA']) for r in extra]}, but one triggered (events at {[str(t) for t, _ in truth]})")
    c = Rs.canon(rd)
    edge = any(abs((t - e.t0 - p["lead"] + 3) % p["timestep"] - 3) < 3 for t, _ in truth)
    return dict(digest=digest(c, sim.oplog), key=digest(c), nontrivial=bool(e.applied) or edge, faults=e.applied, simtime=p["span"],
                stats=dict(events=len(truth), picks=npick, false_events_not_judged=len(extra), quiet_periods=int(not truth), day_splits=int(p["split"]),
                           detect_decimated=int(bool(p["dec"]))))


def shrink(plan):
    for i in range(len(plan["events"])):
        yield dict(plan, events=plan["events"][:i] + plan["events"][i + 1:])
    for i in range(len(plan["afaults"])):
        yield dict(plan, afaults=plan["afaults"][:i] + plan["afaults"][i + 1:])
    if plan["split"]:
        yield dict(plan, split=False)
    if plan["dec"]:
        yield dict(plan, dec=None)
    if any(plan["ticks"]):
        yield dict(plan, ticks=[0.0])
