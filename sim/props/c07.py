"""C07: trigger reports exactly the events the saved coalescence contains."""
import os
import numpy as np
from obspy import UTCDateTime
from .. import trig as T
from ..core import Violation, digest, tree_digest
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 700, "thorough": 40000}
RULE = ("seeded saved-coalescence histories (scanned segments, gaps, missing days, empty steps; peaks aimed at midnights, "
        "period and segment edges) x trigger parameters x job splits in any order; non-trivial if an event was expected; "
        "distinct by digest of the event files")
REAL = ["quakemigrate Trigger, read_scanmseed, write_triggered_events"]
STUB = ["saved coalescence (written by the harness in detect's format)", "simulated OS (files, clock, listing)"]
ASSUME = ["clusters of peaks are shorter than the pad (the generator removes others)",
          "a batch with nothing saved anywhere near it may raise NoScanMseedDataException"]


def gen(rng, i, tier):
    long = i % 8 == 7
    sr = 1 if long else rng.choice([10, 20, 25, 50, 100])
    day = rng.choice(["2021-03-05", "2020-02-29", "2022-01-01", "2024-12-31", "2021-07-10"])
    shape = rng.choice(["plain", "plain", "gap", "gap", "gaps", "missing_day", "late", "early"])
    D = 86400.0
    if long:
        a, b = -D, 2 * D
        starts = [-D, 0.0, -D + 7200.0]
        ends = [D, 2 * D, D + 43200.0]
    else:
        a, b = -float(rng.choice([120, 200])), float(rng.choice([120, 200]))
        starts = [a, a + 40.0, a + 37.0 + 3 / sr, 0.0, -20.0]
        ends = [b, b - 40.0, b - 33.0 - 2 / sr, 0.0 if rng.random() < .5 else b, 30.0]
    segs = [[a, b]]
    if shape in ("gap", "gaps"):
        cut = rng.choice([0.0, -10.0, 25.0, -3.3]) if not long else rng.choice([0.0, 3000.0, -40000.0])
        ln = rng.choice([1 / sr, 0.5, 4.0, 15.0]) if not long else rng.choice([1.0, 600.0, 20000.0])
        ln = max(1 / sr, round(ln * sr) / sr)
        segs = [[a, cut], [round(cut + ln, 6), b]]
        if shape == "gaps":
            c2 = cut + ln + (30.0 if not long else 5000.0)
            segs[-1][1] = c2
            segs.append([c2 + (2.0 if not long else 900.0), b])
    elif shape == "missing_day":
        if long:
            segs = [[-D, 0.0], [D, 2 * D]]
        else:
            segs = [[a, 0.0], [D - 150.0, D + 150.0]]
            ends = [D + 100.0, D + 150.0, D]
    elif shape == "late":
        segs = [[a + 60.0, b]]
    elif shape == "early":
        segs = [[a, b - 60.0]]
    segs = [[round(x * sr) / sr, round(y * sr) / sr] for x, y in segs]
    start, end = rng.choice(starts), rng.choice(ends)
    if end <= start:
        end = start + 60.0
    tp = T.gen_params(rng, sr, allow_dynamic=len(segs) == 1)
    marks = [0.0, -1 / sr, start, end] + [x for s in segs for x in s]
    n = rng.choice([0, 1, 3, 6, 10])
    peaks = T.gen_peaks(rng, sr, segs[0][0], segs[-1][1], n, marks)
    plan = dict(sr=sr, day=day, segs=segs, peaks=peaks, hseed=rng.randrange(10 ** 6), start=round(start, 6), end=round(end, 6), tp=tp,
                unit=rng.choice(["km", "m"]), list_seed=rng.randrange(10 ** 6), order=rng.randrange(10 ** 6), sub=rng.choice(["", "s1"]))
    if tp["method"] == "static" and rng.random() < 0.2:
        z = rng.uniform(segs[0][0], segs[0][1])
        plan["zeros"] = [[round(z * sr) / sr, round((z + 10) * sr) / sr]]
    h = T.History(plan)
    # no cluster may straddle an edge of what a batch gets to see
    st, en = h.day + plan["start"], h.day + plan["end"]
    bs = T.batches(st, en)
    edges = sorted({int(round((t - h.day) * 1e9)) for x, y in bs for t in (x - tp["pad"], y + tp["pad"])})
    for _ in range(12):
        try:
            ev = T.groups(h, tp) or []
        except T.Ambiguous:
            break
        m = T.ns(tp["mw"]) + 2 * T.ns(tp["mei"])
        bad = [e for e in ev if any(e["lo"] - m <= x <= e["hi"] + m for x in edges)]
        if not bad or tp["method"] != "static":
            break
        keep = [p for p in plan["peaks"] if not any(e["lo"] - m <= p["t"] * 1e9 <= e["hi"] + m for e in bad)]
        if len(keep) == len(plan["peaks"]):
            keep = []
        plan["peaks"] = keep
        h = T.History(plan)
    if rng.random() < 0.3:
        ev = T.groups(h, tp) if tp["method"] == "static" else None
        if ev:
            r = T.to_row(h, rng.choice(ev))
            reg = [9.0, 44.0, -100000.0, 11.0, 46.0, 100000.0]
            j = rng.randrange(6)
            reg[j] = float(r[("COA_X", "COA_Y", "COA_Z")[j % 3]])
            if rng.random() < 0.4:
                reg[j] += (1e-6 if j < 3 else -1e-6) if j % 3 < 2 else (1e-3 if j < 3 else -1e-3)
            tp["region"] = reg
    return plan


def files_of(plan, h, runs):
    d = os.path.join(runs, "run", "trigger", plan["sub"], "events") if plan["sub"] else os.path.join(runs, "run", "trigger", "events")
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        out[f] = T.read_csv(os.path.join(d, f))
    return out


def judge(plan, h, got, bs, what, raised_at=None):
    tp = plan["tp"]
    n = 0
    expect = {}
    for k, (a, b) in enumerate(bs):
        if raised_at is not None and k >= raised_at:
            break
        rows = T.batch_rows(h, tp, a, b)
        f = T.fname("run", plan["sub"], a)
        expect[f] = rows
        n += len(rows or [])
        if f not in got:
            if rows:
                raise Violation("missing-file", f"{what}: no {f}, expected events {[r['EventID'] for r in rows]}")
            continue
        d = T.diff_rows(rows or [], *got[f], windows=tp["windows"])
        if d:
            raise Violation("events", f"{what}: {f}: {d}")
    for f in got:
        if f not in expect and got[f][1]:
            raise Violation("events", f"{what}: {f} was written but holds no day of this period")
    return n


def execute(plan, scratch):
    from quakemigrate import util
    h = T.History(plan)
    tp = plan["tp"]
    lut, _ = T.tiny_lut(plan["unit"])
    start, end = h.day + plan["start"], h.day + plan["end"]
    bs = T.batches(start, end)
    try:
        empty = [T.batch_rows(h, tp, a, b) is None for a, b in bs]
    except T.Ambiguous:
        return dict(digest="ambiguous", nontrivial=False)
    stop = empty.index(True) if any(empty) else None

    def run(name, jobs):
        runs = os.path.join(scratch, name)
        h.write(os.path.join(runs, "run"))
        raised = None
        with Sim(runs, seed=1, list_seed=plan["list_seed"]) as sim:
            import contextlib, io
            for a, b in jobs:
                t = T.make_trigger(lut, runs, "run", tp, plan["sub"])
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        t.trigger(str(a), str(b), region=tp["region"])
                except util.NoScanMseedDataException:
                    raised = (a, b)
                except Exception as x:  # noqa
                    import traceback
                    raise Violation("trigger-raised", f"trigger({a}, {b}) stopped with {type(x).__name__}: {x}",
                                    tb=traceback.format_exc())
        return files_of(plan, h, runs), raised, sim

    got, raised, sim = run("one", [(start, end)])
    if raised and stop is None:
        raise Violation("trigger-raised", f"trigger({start}, {end}) found no saved data although there is some for every day")
    n = judge(plan, h, got, bs, "one job", stop if raised else None)
    # global truth: for static thresholds the union over days is what the whole history contains
    if tp["method"] == "static" and not tp["smooth"] and not raised:
        rows = [T.to_row(h, e) for e in (T.groups(h, tp) or [])]     # (not ambiguous: nothing is smoothed)
        last = end._ns - (T.NS // h.sr if end == UTCDateTime(end.date) else 0)
        want = {r["EventID"] for r in rows if start._ns <= r["CoaTime"]._ns <= last and T.in_region(r, tp["region"])}
        ids = [r["EventID"] for f in got for r in got[f][1]]
        if sorted(ids) != sorted(want):
            raise Violation("exactly-once", f"events reported {sorted(ids)}; the history contains {sorted(want)}")
    if len(bs) > 1 and stop is None:
        import random
        jobs = list(bs)
        random.Random(plan["order"]).shuffle(jobs)
        got2, _, _ = run("split", jobs)
        judge(plan, h, got2, bs, "one job per day")
    try:
        merged = sum(e["n"] > 1 for e in (T.groups(h, tp) or []))
    except T.Ambiguous:
        merged = 0
    d = digest(tree_digest(scratch))
    return dict(digest=d, nontrivial=n > 0, key=d, simtime=float(plan["end"] - plan["start"]),
                faults={k: v for k, v in dict(unscanned_gaps=len(plan["segs"]) - 1, unscanned_days=sum(empty), empty_steps=len(plan.get("zeros", []))).items() if v},
                stats=dict(events=n, batches=len(bs), raised_no_data=int(bool(raised)), merged=merged))


def shrink(plan):
    for i in range(len(plan["peaks"])):
        yield dict(plan, peaks=plan["peaks"][:i] + plan["peaks"][i + 1:])
    if plan.get("zeros"):
        yield {k: v for k, v in plan.items() if k != "zeros"}
    if len(plan["segs"]) > 2:
        yield dict(plan, segs=plan["segs"][:-1])
    tp = plan["tp"]
    for k, v in (("region", None), ("windows", False), ("norm", False), ("smooth", False)):
        if tp[k] != v:
            yield dict(plan, tp=dict(tp, **{k: v}))
    if plan["sub"]:
        yield dict(plan, sub="")
    for p in range(len(plan["peaks"])):
        q = plan["peaks"][p]
        for k, v in (("top", 1), ("up", 0), ("dn_", 0), ("dn", 0)):
            if q[k] != v:
                yield dict(plan, peaks=plan["peaks"][:p] + [dict(q, **{k: v})] + plan["peaks"][p + 1:])
