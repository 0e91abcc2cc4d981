"""C03: detect, trigger and locate results do not depend on how the job is run."""
import contextlib
import json
import os
import pickle
import random
import subprocess
import sys
import numpy as np
from obspy import UTCDateTime
from .. import archive as A, boot, detect as D, world as W, pipe as P, trig as T, results as Rs
from ..core import Violation, digest, in_child, VERIF
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 190, "thorough": 9000}
RULE = ("seeded worlds (detect, trigger and locate over a midnight; detect and trigger over 2-4 days at 1 Hz) run once plainly and 2-3 times with seeded "
        "directory orders, set orders and hash seeds, clocks (still, running, jumping both ways), thread counts, write modes, day splits in any order, one "
        "process or several, shared or fresh objects and earlier (also failed) jobs in the process; all result files compared byte by byte or decoded; "
        "non-trivial if a variant differs from the plain run in at least two ways and events were located or days crossed; distinct by digest of results and variants")
REAL = ["quakemigrate detect, trigger and locate with all result files", "C kernels with their own threads"]
STUB = ["clock, directory order, set order, file layer (simulated OS)", "archive contents (generated)"]
ASSUME = ["day splits fall on whole time steps, as the property says", "results are compared after decoding miniSEED, other files byte by byte"]


# ------------------------------------------------------------------ generation
def gen_variant(rng, plan, k):
    v = dict(list_seed=rng.randrange(10 ** 6), set_seed=rng.randrange(10 ** 6), clock0=rng.choice([1.7e9, 0.0, 86399.0, 4.1e9, 1.614988790e9]),
             ticks=[rng.choice([0.0, 0.3, 1.0, 86400.0, -86400.0, 1e7, -5.0]) for _ in range(5)],
             threads=rng.choice([1, 1, 2, 3, 4, 7]), cont=rng.random() < 0.5,
             split=rng.random() < 0.5, order=rng.choice(["fwd", "rev", "shuffle"]), oseed=rng.randrange(1000),
             procs=rng.choice(["one", "stage", "job"]), share=rng.random() < 0.4, prior=[], fresh=None, bufsize=rng.choice([None, 512, 100000]))
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            v["prior"].append(dict(stage=rng.choice(["detect", "trigger", "locate", "locate"]), seed=rng.randrange(1000),
                                   fault=rng.choice([None, None, "eio", "enospc"]), pos=rng.randrange(40), again=rng.random() < 0.6))
    return v


def gen(rng, i, tier):
    if i % 5 == 4:
        p = D.gen(rng, long=True)
        ndays = rng.choice([2, 2, 3])
        p["timestep"] = rng.choice([3600.0, 7200.0, 14400.0, 21600.0])
        p["day_off"] = -p["timestep"] * rng.choice([0, 1, 2])
        p["dur"] = 86400.0 * (ndays - 1) + p["timestep"] * rng.choice([0, 1, 2]) - p["day_off"]
        if rng.random() < 0.3:
            p["dur"] -= rng.choice([1.0, 500.0])
        span = p["dur"] + p["timestep"] + 2 * p["margin"]
        for f in p["afaults"]:
            r = span / max(1.0, 2 * p["margin"] + 40000.0)
            f["a"], f["b"] = round(f["a"] * r, 2), round(f["b"] * r, 2)
        for e in p["events"]:
            e["t"] = round(rng.uniform(0, span), 2)
        p["kind"] = "long"
        p["tp"] = T.gen_params(rng, 1)
        p["tp"].update(mw=rng.choice([5.0, 40.0]), norm=rng.random() < 0.2, pad=600.0, threshold=rng.choice([4.0, 6.0]))
        p["tp"]["mei"] = p["tp"]["mw"] * rng.choice([2, 5])
        if p["tp"]["method"] == "median_ratio":
            p["tp"]["mult"] = 4.0
    else:
        p = P.gen(rng, nev=rng.choice([1, 2, 3]), faults=rng.choice([0, 1, 2, 4]), nsta=rng.choice([4, 4, 5]))
        D.resample(rng, p)
        p["kind"] = "small"
        ts = p["timestep"] = rng.choice([10.0, 20.0])
        p["span"] = max(p["span"], p["lead"] + rng.choice([60.0, 75.0]))
        k = rng.choice([1, 2, int((p["lead"] - 20) // ts)])
        p["before"] = k
        p["nsteps"] = int((p["span"] - p["lead"] - 15) // ts) + k
        # most events after midnight already; move the period's start so that both days hold some
        p["tp"] = T.gen_params(rng, p["cfg"]["sr"])
        p["tp"]["threshold"] = rng.choice([1.4, 1.7, 2.0])
        p["dec"] = rng.choice([None, None, [2, 2, 1], [1, 1, 2]])
        p["opt"]["real"] = p["opt"]["wa"] = rng.random() < 0.3
        p["sub"] = rng.choice(["", "", "s1"])
        if i % 3 == 1:
            # channels whose order might matter: conflicting copies, differing rates and timing, written out and measured
            sta = sorted({n for n in W.NAMES if any(f["sta"] == n for f in p["afaults"])}) or [W.make_stations(
                p["w"]["nsta"], np.random.default_rng(p["w"]["wseed"]), p["w"]["span"], p["w"]["unit"])["Name"].iloc[0]]
            for kind in rng.sample(["conflict", "conflict", "dup", "offsample", "rate2", "split"], 3):
                f = A.gen_faults(rng, sta, p["span"], 1, [kind], [e["t"] + 2 for e in p["events"]])[0]
                f["a"] = round(rng.choice(p["events"])["t"] + rng.uniform(-4, 4), 2)
                f["b"] = round(f["a"] + rng.choice([2.0, 8.0, 30.0]), 2)
                p["afaults"].append(f)
            p["opt"]["raw"] = True
            p["opt"]["mags"] = rng.random() < 0.7
    p["tp"]["region"] = None
    p["variants"] = [gen_variant(rng, p, k) for k in range(2)]
    if i % 8 == 3:
        p["variants"][1]["fresh"] = rng.randrange(1, 2 ** 31)
    return p


# ------------------------------------------------------------------ execution
class OrderedAtRandom(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (set, frozenset))


@contextlib.contextmanager
def seeded_sets(seed):
    """Sets made by name in the code under test iterate in a seeded order."""
    if seed is None:
        yield
        return
    rng = random.Random(seed)

    class SimSet(set, metaclass=OrderedAtRandom):
        def __iter__(self):
            try:
                x = sorted(set.__iter__(self))
            except TypeError:
                x = list(set.__iter__(self))
            rng.shuffle(x)
            return iter(x)
    mods = [m for n, m in list(sys.modules.items()) if m is not None and n.startswith("quakemigrate") and "set" not in vars(m)]
    for m in mods:
        m.set = SimSet
    try:
        yield
    finally:
        for m in mods:
            del m.set


def period(plan, e):
    if plan["kind"] == "long":
        return e.start, e.end
    mid = UTCDateTime(plan["day"])
    a = mid - plan["before"] * plan["timestep"]
    return a, a + plan["nsteps"] * plan["timestep"]


def jobs(plan, e, v):
    a, b = period(plan, e)
    if not v["split"]:
        return [(a, b)]
    out = []
    while a < b:
        m = min(b, UTCDateTime(a.date) + 86400)
        out.append((a, m))
        a = m
    if v["order"] == "rev":
        out.reverse()
    elif v["order"] == "shuffle":
        random.Random(v["oseed"]).shuffle(out)
    return out


class Job:
    """The objects of one process and the stage runs on them."""

    def __init__(self, plan, e, v, runs, name="run", parts=None):
        self.parts = parts or {}         # stage: parts of an earlier job's object to be used again
        self.p, self.e, self.v, self.runs, self.name = dict(plan, threads=v["threads"], cont=v["cont"]), e, v, runs, name
        self.obj = {}
        self.p["afaults"] = []

    def make(self, stage):
        if self.v["share"] and stage in self.obj:
            return self.obj[stage]
        p, e = self.p, self.e
        e.runs = self.runs
        if stage == "trigger":
            lut = e.lut
            q = T.make_trigger(lut, self.runs, self.name, p["tp"], p.get("sub", ""))
        elif stage == "detect":
            if p["kind"] == "small":
                full = e.lut
                if p["dec"]:
                    e.lut = full.decimate(p["dec"])
                try:
                    q = D.make_scan(p, e, self.name)
                finally:
                    e.lut = full
            else:
                q = D.make_scan(p, e, self.name)
        else:
            q = P.make_locate(p, e, self.name, p.get("sub", ""), **({"position": p["lpos"]} if "lpos" in p else {}))
            if self.v["share"] and "detect" in self.obj and "locate" not in self.parts:
                # one onset for the whole script
                q.onset = q.picker.onset = self.obj["detect"].onset
        for k, x in self.parts.get(stage, {}).items():
            setattr(q, k, x)
        self.obj[stage] = q
        return q

    def run(self, stage, a, b):
        q = self.make(stage)
        getattr(q, stage)(str(a), str(b))


def do_prior(plan, e, v, runs):
    """Other jobs, in run directories of their own, in the same process; returns what of them the jobs to be judged use again."""
    parts = {}
    for pr in v["prior"]:
        r = random.Random(pr["seed"])
        q = json.loads(json.dumps(plan))
        q["variants"] = []
        again = pr.get("again", False)
        if not again:
            q["cfg"]["all_channels"] = r.random() < 0.5
            q["cfg"]["min_onset"] = r.choice([0.01, 0.5])
            q["cfg"]["transform"] = r.choice(["energy", "abs", "env"])
        elif pr["stage"] == "detect":
            q["timestep"] = q["timestep"] / r.choice([1, 2])
        q["tp"]["windows"] = not q["tp"]["windows"]
        q["tp"]["mw"], q["tp"]["mei"] = q["tp"]["mw"] * 2, q["tp"]["mei"] * 2
        if "opt" in q and again:
            q["opt"].update(mw=q["opt"]["mw"] * r.choice([0.5, 2, 4, 10]), all_sta=False, real=r.random() < 0.5, wa=r.random() < 0.5, raw=r.random() < 0.5)
            q["sub"] = "other"
        elif "opt" in q:
            q["opt"].update(mags=r.random() < 0.5, all_sta=False, seed_ids=r.random() < 0.5, real=r.random() < 0.5, wa=r.random() < 0.5,
                            mw=r.choice([0.5, 1.0]), pick=r.choice(["MAD", "percentile"]))
            q["sub"] = "other"
        name = f"prior{pr['seed']}"
        j = Job(q, e, dict(v, share=False, threads=r.choice([1, 2]), cont=r.random() < 0.5), runs, name)
        a, b = period(plan, e)
        if plan["kind"] == "long":
            b = min(b, a + 3 * plan["timestep"])
        if pr["stage"] == "locate":
            if plan["kind"] == "long":
                continue
            P.write_triggers(e, P.trig_times(plan, e)[:2], name, "other", run_dir=os.path.join(runs, name))
            a, b = P.span_days(plan, e)
        faults = [dict(node=0, at=pr["pos"], kind=pr["fault"], frac=0.4, sticky=3)] if pr["fault"] else ()
        with Sim(e.root, faults=faults, list_seed=pr["seed"], ticks=[1.0]), quiet():
            try:
                j.run(pr["stage"], a, b)
            except Exception:  # noqa  (an earlier job may fail; it is not judged here)
                pass
        o = j.obj.get(pr["stage"])
        if again and o is not None and pr["stage"] != "trigger":
            parts[pr["stage"]] = {k: getattr(o, k) for k in (["onset"] if pr["stage"] == "detect" else ["onset", "picker", "mags"])}
    return parts


def variant(plan, e, v, runs, scratch):
    """Run all stages as v says; returns {file: content} and what was injected."""
    stages = ["detect", "trigger"] + (["locate"] if plan["kind"] == "small" else [])
    os.makedirs(runs, exist_ok=True)
    groups = []                      # what each process does
    if v["procs"] == "one":
        groups = [[(s, a, b) for s in stages for a, b in jobs(plan, e, v)]]
    elif v["procs"] == "stage":
        groups = [[(s, a, b) for a, b in jobs(plan, e, v)] for s in stages]
    else:
        groups = [[(s, a, b)] for s in stages for a, b in jobs(plan, e, v)]
    stat = dict(listings_permuted=0, clock_reads=0)
    for gi, g in enumerate(groups):
        def proc():
            with seeded_sets(v["set_seed"]):
                j = Job(plan, e, v, runs, parts=do_prior(plan, e, v, runs + ".prior"))
                with Sim(scratch, ticks=v["ticks"], clock0=v["clock0"], list_seed=v["list_seed"], bufsize=v["bufsize"]) as sim, quiet():
                    for s, a, b in g:
                        try:
                            j.run(s, a, b)
                        except Exception as x:  # noqa
                            import traceback
                            raise Violation("raised", f"{s} from {a} to {b} stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
            return sim.lists_permuted, sim.nclock
        n, c = in_child(proc)
        stat["listings_permuted"] += n
        stat["clock_reads"] += c
    return Rs.canon(os.path.join(runs, "run")), stat


@contextlib.contextmanager
def quiet():
    with D.quiet(), contextlib.redirect_stderr(open(os.devnull, "w")):
        yield


PLAIN = dict(list_seed=None, set_seed=None, clock0=1.7e9, ticks=[0.0], threads=1, cont=False, split=False, order="fwd", oseed=0, procs="stage",
             share=False, prior=[], fresh=None, bufsize=None)


def setup(plan, root):
    os.makedirs(root, exist_ok=True)
    return D.setup(plan, root) if plan["kind"] == "long" else P.setup(plan, root)


def sub_main(planfile, out):
    """A fresh interpreter runs one variant."""
    boot.load()
    d = json.load(open(planfile))
    plan, v, root = d["plan"], d["v"], d["root"]
    try:
        e = setup(plan, root)
        r = ("ok", variant(plan, e, v, os.path.join(root, "runs"), root))
    except Violation as x:
        r = ("v", (x.kind, x.what))
    with open(out, "wb") as fh:
        pickle.dump(r, fh)


def run_fresh(plan, v, scratch):
    root = os.path.join(scratch, "fresh")
    os.makedirs(root, exist_ok=True)
    pf, out = os.path.join(scratch, "plan.json"), os.path.join(scratch, "out.pkl")
    with open(pf, "w") as fh:
        json.dump(dict(plan=plan, v=v, root=root), fh)
    env = dict(os.environ, PYTHONHASHSEED=str(v["fresh"] % 4294967295))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", f"import sys; sys.path.insert(0, {VERIF!r}); from sim.props import c03; c03.sub_main({pf!r}, {out!r})"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    if not os.path.exists(out):
        raise RuntimeError("fresh interpreter: " + p.stdout[-2000:])
    kind, r = pickle.load(open(out, "rb"))
    if kind == "v":
        raise Violation(*r)
    return r


def execute(plan, scratch):
    e = setup(plan, scratch)
    want, _ = variant(plan, e, PLAIN, os.path.join(scratch, "r0"), scratch)
    stats = {"runs_" + plan["kind"]: 1, "variants": 0, "fresh_interpreters": 0, "prior_jobs": 0, "day_splits": 0}
    faults = {}
    for k, v in enumerate(plan["variants"]):
        how = ", ".join(f"{x}={y}" for x, y in v.items() if y != PLAIN[x])
        try:
            if v["fresh"]:
                got, st = run_fresh(plan, dict(v, set_seed=None), scratch)
                stats["fresh_interpreters"] += 1
            else:
                got, st = variant(plan, e, v, os.path.join(scratch, f"r{k + 1}"), scratch)
        except Violation as x:
            raise Violation(x.kind, f"run with [{how}]: {x.what}", **x.extra)
        d = Rs.diff(want, got, "the plain run left", "this run left")
        if d:
            raise Violation("differs", f"run with [{how}]: {d}")
        stats["variants"] += 1
        stats["prior_jobs"] += len(v["prior"])
        stats["day_splits"] += v["split"]
        faults["listing_order"] = faults.get("listing_order", 0) + st["listings_permuted"]
        faults["clock_jump"] = faults.get("clock_jump", 0) + any(abs(t) > 1 for t in v["ticks"])
        for q in v["prior"]:
            if q["fault"]:
                faults["prior_" + q["fault"]] = faults.get("prior_" + q["fault"], 0) + 1
    nev = sum(f.endswith(".event") for f in want)
    days = sum(f.endswith(".scanmseed") for f in want)
    stats.update(events_located=nev, files_compared=len(want) * len(plan["variants"]))
    a, b = period(plan, e)
    return dict(digest=digest(want, plan["variants"]), key=digest(want, plan["variants"]), faults=faults, simtime=(b - a) * (1 + len(plan["variants"])),
                nontrivial=bool(nev or days > 1), stats=stats)


def shrink(plan):
    vs = plan["variants"]
    if len(vs) > 1:
        for v in vs:
            yield dict(plan, variants=[v])
    for i, v in enumerate(vs):
        for k, y in PLAIN.items():
            if v[k] != y and k not in ("order", "oseed"):
                yield dict(plan, variants=vs[:i] + [dict(v, **{k: y})] + vs[i + 1:])
        for j in range(len(v["prior"])):
            yield dict(plan, variants=vs[:i] + [dict(v, prior=v["prior"][:j] + v["prior"][j + 1:])] + vs[i + 1:])
    if plan["kind"] == "small":
        yield from P.shrink(plan)
    else:
        for i in range(len(plan["afaults"])):
            yield dict(plan, afaults=plan["afaults"][:i] + plan["afaults"][i + 1:])
