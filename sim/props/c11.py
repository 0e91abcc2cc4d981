"""C11: concurrent jobs in one run directory do not disturb each other."""
import copy
import os
import re
import shutil
import numpy as np
from obspy import UTCDateTime, read, Stream
from .. import detect as D, pipe as P, trig as T, results as Rs
from ..core import Violation, digest, in_child
from ..simos import Sim, Killed
from . import c03

LEVEL = "exploration"
CASES = {"quick": 260, "thorough": 12000}
RULE = ("2-4 jobs over one run directory as simulated processes, interleaved at every file system operation by a seeded scheduler (uniform, sticky, or holding a job that is about to change a path until another is about to change the same): "
        "detect jobs over different days, trigger jobs over different days or sub-runs, locate jobs over different events, all kinds mixed over different data, "
        "and triggers reading what a detect is continuously writing; in some runs one job is killed or hits a write error; outcome compared with each job run "
        "alone; non-trivial if the schedule switched jobs at least 5 times; distinct by digest of the schedule and results")
REAL = ["quakemigrate detect, trigger and locate with all result files"]
STUB = ["processes (threads of the simulator, one running at a time), file layer, directory order, clock (simulated OS)", "archive contents (generated)"]
ASSUME = ["processes interleave at file system operations; os.replace is atomic; a file that is open stays readable when replaced",
          "several processes are run in one interpreter, so module state would be shared (none is written by these stages)"]


def gen(rng, i, tier):
    kind = rng.choice(["detect", "detect", "trigger", "locate", "mixed", "reader", "reader"])
    p = P.gen(rng, nev=rng.choice([2, 3]), faults=rng.choice([0, 0, 1]), nsta=4)
    p["kind"] = "small"
    p["mode"] = kind
    ts = p["timestep"] = rng.choice([10.0, 20.0])
    p["span"] = max(p["span"], p["lead"] + 75.0)
    p["before"] = rng.choice([1, 2, int((p["lead"] - 20) // ts)])
    p["nsteps"] = int((p["span"] - p["lead"] - 15) // ts) + p["before"]
    p["tp"] = T.gen_params(rng, p["cfg"]["sr"], allow_dynamic=False)
    p["tp"].update(region=None, threshold=rng.choice([1.4, 1.7, 2.0]), pad=20.0)
    p["dec"] = rng.choice([None, [2, 2, 1]])
    p["cont"] = rng.random() < 0.5
    p["sub"] = ""
    o = p["opt"]
    o["real"] = o["wa"] = rng.random() < 0.2
    p["njobs"] = rng.choice([2, 2, 3, 4])
    p["stick"] = rng.choice([0.0, 0.5, 0.9, 0.98])
    p["sched"] = rng.randrange(10 ** 9)
    p["bufsize"] = rng.choice([None, 512, 4096])
    p["cut"] = [rng.random() for _ in range(4)]
    p["delays"] = [rng.random() for _ in range(4)]
    p["exists"] = rng.random() < 0.4                # the run directory holds an earlier run's results already
    p["fault"] = None
    if rng.random() < 0.25:
        p["fault"] = dict(kind=rng.choice(["kill", "kill", "enospc", "eio"]), pos=rng.random(), frac=rng.choice([0.0, 0.5]))
    p["hold"] = rng.choice([0.0, 0.1, 0.4, 0.8])
    return p


def detect_results(plan, e, run_dir):
    """Saved coalescence to work on: detect over the whole period, once."""
    a, b = c03.period(plan, e)
    j = c03.Job(dict(plan, cont=False), e, dict(c03.PLAIN), os.path.dirname(run_dir))
    with Sim(e.root, list_seed=1), c03.quiet():
        j.run("detect", a, b)


def make_jobs(plan, e):
    """[(stage, sub, start, end)]: jobs on disjoint data."""
    a, b = c03.period(plan, e)
    mid = UTCDateTime(plan["day"])
    k = plan["mode"]
    split = [("", a, mid), ("", mid, b)]
    if k in ("detect", "reader"):
        return [("detect", s, x, y) for s, x, y in split]
    if k == "trigger":
        out = [("trigger", s, x, y) for s, x, y in split]
        for n in range(plan["njobs"] - 2):
            out.append(("trigger", f"t{n}", a, b))
        return out
    ts = sorted(P.trig_times(plan, e))
    # boundaries between events
    s, t = UTCDateTime(ts[0].date), UTCDateTime(ts[-1].date) + 86400
    cuts = sorted({min(len(ts) - 1, int(c * len(ts))) for c in plan["cut"][:plan["njobs"] - 1]} - {0})
    edges = [s] + [ts[c] - (ts[c] - ts[c - 1]) / 2 for c in cuts] + [t]
    loc = [("locate", "", x, y) for x, y in zip(edges, edges[1:])]
    if len(loc) == 1:
        loc.append(("locate", "l2", s, t))
    if k == "locate":
        return loc
    # mixed: locating one sub-run, triggering another, scanning a day
    return [loc[0], ("trigger", "t1", a, b)] + ([loc[1]] if len(loc) > 1 else []) + [("trigger", "t2", mid, b)]


def stage_fn(plan, e, runs, job, bufs=None):
    stage, sub, a, b = job

    def fn():
        j = c03.Job(dict(plan, sub=sub), e, dict(c03.PLAIN, cont=plan["cont"]), runs)
        j.run(stage, a, b)
    return fn


def prepare_dir(plan, e, runs):
    """What earlier stages left in the run directory."""
    rd = os.path.join(runs, "run")
    os.makedirs(rd)
    if plan["mode"] in ("trigger", "mixed"):
        detect_results(plan, e, rd)
    if plan["mode"] in ("locate", "mixed"):
        ts = P.trig_times(plan, e)
        P.write_triggers(e, ts, "run", "", run_dir=rd)
        P.write_triggers(e, ts, "run", "l2", run_dir=rd)
    return rd


def run_sim(plan, scratch, fns, seed, faults=()):
    with Sim(scratch, seed=seed, faults=faults, ticks=plan["ticks"], list_seed=plan["list_seed"], bufsize=plan["bufsize"], max_ops=2000000) as sim, c03.quiet():
        sim.run_nodes(fns, stick=plan["stick"], hold=plan["hold"])
    return sim


def outcome(n):
    if n.error is None or n.error == "killed":
        return n.error or "ok"
    return re.sub(r"/[^ ']*/run/", "run/", f"{type(n.error).__name__}: {n.error}")        # without the scratch directory


def execute(plan, scratch):
    e = c03.setup(plan, scratch)
    jobs = make_jobs(plan, e)
    if plan["mode"] == "reader":
        return reader(plan, scratch, e, jobs)
    r0 = os.path.join(scratch, "start")
    in_child(lambda: prepare_dir(plan, e, r0) and None)
    before = Rs.canon(os.path.join(r0, "run"))
    lone, nmut = [], []
    for k, job in enumerate(jobs):
        runs = os.path.join(scratch, f"lone{k}")
        shutil.copytree(r0, runs)

        def alone():
            e.runs = runs
            sim = run_sim(plan, scratch, [stage_fn(plan, e, runs, job)], 0)
            return outcome(sim.nodes[0]), sim.nodes[0].n_mut
        o, n = in_child(alone)
        got = Rs.canon(os.path.join(runs, "run"))
        lone.append((o, {f: c for f, c in got.items() if before.get(f) != c or f not in before}))
        nmut.append(n)
    union = {}
    for k, (o, fs) in enumerate(lone):
        for f, c in fs.items():
            if f in union:
                # not disjoint after all: nothing is promised
                return dict(digest=digest("overlap"), key=digest("overlap"), nontrivial=False, faults={}, simtime=0, stats=dict(overlapping=1))
            union[f] = (k, c)
    runs = os.path.join(scratch, "both")
    shutil.copytree(r0, runs)
    if plan["exists"]:
        # an earlier, complete run of the same jobs left its results
        for k, job in enumerate(jobs):
            def again():
                e.runs = runs
                run_sim(plan, scratch, [stage_fn(plan, e, runs, job)], 0)
            in_child(again)
    f = plan["fault"]
    faults, victim = [], None
    if f:
        victim = int(f["pos"] * 997) % len(jobs)
        faults = [dict(node=victim, at=int(f["pos"] * max(1, nmut[victim])), kind=f["kind"], frac=f["frac"])]

    def together():
        e.runs = runs
        sim = run_sim(plan, scratch, [stage_fn(plan, e, runs, j) for j in jobs], plan["sched"], faults)
        return [outcome(n) for n in sim.nodes], sim.switches, digest(sim.schedule), sim.fired, sim.n_total, sim.meetings
    outs, switches, sched, fired, nops, met = in_child(together)
    names = [f"{j[0]}{' ' + j[1] if j[1] else ''} {j[2]} to {j[3]}" for j in jobs]
    hist = " | ".join(names) + (f"; {f['kind']} in job {victim}" if fired else "")
    for k, o in enumerate(outs):
        if k == victim and fired:
            continue
        if o != lone[k][0]:
            raise Violation("job-failed", f"[{hist}] run together: job {k} ended with {o}, alone with {lone[k][0]}")
    got = Rs.canon(os.path.join(runs, "run"))
    want = dict(before)
    want.update({f_: c for f_, (k, c) in union.items()})
    if fired:
        mine = {f_ for f_, (k, c) in union.items() if k == victim}
        want = {f_: c for f_, c in want.items() if f_ not in mine}
        got = {f_: c for f_, c in got.items() if f_ not in mine}
    d = Rs.diff(want, got, "one after another leave", "together they left")
    if d:
        raise Violation("differs", f"[{hist}] run together: {d}")
    kills = dict(fired)
    kills["switches"] = switches
    return dict(digest=digest(got, sched, outs), key=digest(sched, got), nontrivial=switches >= 5, faults=fired, simtime=plan["span"] * len(jobs),
                stats={"runs_" + plan["mode"]: 1, "jobs": len(jobs), "switches": switches, "fs_ops": nops, "meetings": met, "files_compared": len(want)})


def truncated(final, run_dir, ends, sr):
    """Write the saved coalescence as it was when `ends` samples of each day had been saved."""
    d = os.path.join(run_dir, "detect", "scanmseed")
    os.makedirs(d)
    for f, n in ends.items():
        if n <= 0:
            continue
        out = []
        for tr in final[f]:
            t = tr.copy()
            t.data = np.ascontiguousarray(t.data[:n])
            out.append(t)
        Stream(out).write(os.path.join(d, f), format="MSEED", encoding="STEIM2")


def reader(plan, scratch, e, jobs):
    """Triggers over what a detect is writing step by step."""
    a, b = c03.period(plan, e)
    mid = UTCDateTime(plan["day"])
    two = plan["cut"][0] < 0.3
    if not two:
        a = mid
    sr, ts = plan["cfg"]["sr"], plan["timestep"]
    plan = dict(plan, cont=True)
    runs = os.path.join(scratch, "full")

    def alone():
        e.runs = runs
        sim = run_sim(plan, scratch, [stage_fn(plan, e, runs, ("detect", "", a, b))], 0)
        return outcome(sim.nodes[0]), sim.nodes[0].n_ops
    o, nops = in_child(alone)
    if o != "ok":
        raise Violation("job-failed", f"detect {a} to {b} alone ended with {o}")
    d = os.path.join(runs, "run", "detect", "scanmseed")
    final = {f: read(os.path.join(d, f)) for f in sorted(os.listdir(d))}
    per = int(round(ts * sr))
    days = sorted(final)
    nst = {f: len(final[f][0].data) // per for f in days}
    # every state the detect can have saved, per day
    states = [[]]
    for f in days:
        states = [s + [k] for s in states for k in range(nst[f] + 1)]
    base = Rs.canon(os.path.join(runs, "run"))
    trig_days = [x for x in (a, mid) if x < b]
    trig_days = sorted({(x.year, x.julday): x for x in trig_days}.values())

    def trig(runs_, sub):
        T.make_trigger(e.lut, runs_, "run", plan["tp"], sub).trigger(str(a), str(b))

    def results():
        ok = [set() for _ in trig_days]
        for n, s in enumerate(states):
            r = os.path.join(scratch, "st")
            truncated(final, os.path.join(r, "run"), {f: k * per for f, k in zip(days, s)}, sr)
            for q, t in enumerate(trig_days):
                y = min(b, UTCDateTime(t.date) + 86400)
                with c03.quiet():
                    try:
                        T.make_trigger(e.lut, r, "run", plan["tp"], "").trigger(str(t), str(y))
                        f = os.path.join(r, "run", "trigger", "events", T.fname("run", "", t))
                        ok[q].add(Rs.decode(f) if os.path.exists(f) else "none")
                    except Exception as x:  # noqa
                        ok[q].add(type(x).__name__)
            shutil.rmtree(r)
        return ok
    ok = in_child(results)
    runs = os.path.join(scratch, "both")
    os.makedirs(os.path.join(runs, "run"))
    if plan["exists"]:           # detect is run again over what it had saved before
        shutil.copytree(os.path.join(scratch, "full", "run", "detect"), os.path.join(runs, "run", "detect"))
    ntrig = plan["njobs"] - 1
    seen = []

    def together():
        e.runs = runs
        fns = [stage_fn(plan, e, runs, ("detect", "", a, b))]
        outs = {}

        def reads(k):
            def fn():
                for m in range(2):
                    wait = int(plan["delays"][k] * nops * (0.8 if m == 0 else 0.3))
                    for _ in range(wait):
                        sim.op("wait", scratch, mut=False)
                    sub = f"t{k}{m}"
                    try:
                        trig(runs, sub)
                        outs[sub] = "ok"
                    except Killed:
                        raise
                    except Exception as x:  # noqa
                        outs[sub] = type(x).__name__
                        outs[sub + "?"] = str(x)
            return fn
        fns += [reads(k) for k in range(ntrig)]
        with Sim(scratch, seed=plan["sched"], ticks=plan["ticks"], list_seed=plan["list_seed"], bufsize=plan["bufsize"], max_ops=2000000) as sim, c03.quiet():
            sim.run_nodes(fns, stick=plan["stick"], hold=plan["hold"])
        return [outcome(n) for n in sim.nodes], outs, sim.switches, digest(sim.schedule), sim.n_total
    nodes, outs, switches, sched, total = in_child(together)
    what = f"detect {a} to {b} written step by step and {ntrig} triggers reading it"
    for k, o in enumerate(nodes):
        if o != "ok":
            raise Violation("job-failed", f"{what}: job {k} ended with {o}")
    got = {}
    partial = 0
    for sub in sorted(s for s in outs if not s.endswith("?")):
        for q, t in enumerate(trig_days):
            f = os.path.join(runs, "run", "trigger", sub, "events", T.fname("run", sub, t))
            if os.path.exists(f):
                r = Rs.decode(f)
            elif outs[sub] != "ok":
                r = outs[sub]
                # an earlier day's batch may have ended the run
                if any(outs[sub] in ok[x] for x in range(q + 1)):
                    got[sub, q] = r
                    continue
            else:
                r = "none"
            if r not in ok[q]:
                raise Violation("mixture", f"{what}: trigger {sub} gave for {t.date} {r[:400]!r} ({outs.get(sub + '?', '')[:300]}), which no saved state of the coalescence gives")
            got[sub, q] = r
            partial += len(ok[q]) > 1
    left = Rs.canon(os.path.join(runs, "run", "detect"))
    dd = Rs.diff({k[7:]: v for k, v in base.items() if k.startswith("detect/")}, left, "detect alone leaves", "with triggers reading it left")
    if dd:
        raise Violation("differs", f"{what}: {dd}")
    return dict(digest=digest(sorted(map(str, got.items())), sched), key=digest(sched, left), nontrivial=switches >= 5, faults={}, simtime=plan["span"] * (1 + 2 * ntrig),
                stats=dict(runs_reader=1, jobs=1 + ntrig, switches=switches, fs_ops=total, reads_of_changing_state=partial, states_of_coalescence=len(states),
                           **{"readers_" + ("ok" if v == "ok" else "no_data_yet"): sum(1 for s, x in outs.items() if not s.endswith("?") and (x == "ok") == (v == "ok"))
                              for v in set(x if x == "ok" else "err" for s, x in outs.items() if not s.endswith("?"))}))


def shrink(plan):
    if plan["fault"]:
        yield dict(plan, fault=None)
    if plan["njobs"] > 2:
        yield dict(plan, njobs=plan["njobs"] - 1)
    if plan["exists"]:
        yield dict(plan, exists=False)
    if plan["hold"]:
        yield dict(plan, hold=0.0)
    for s in (0.98, 0.9, 0.5):
        if plan["stick"] < s:
            yield dict(plan, stick=s)
    yield from P.shrink(plan)
