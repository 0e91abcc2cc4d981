"""C01: detect output is complete and continuous whatever the archive holds."""
import os
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from .. import detect as D, refmodel as R
from ..core import Violation, digest, tree_digest
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 420, "thorough": 12000}
RULE = ("seeded plans: random network, grid, onset settings, scan period around a midnight, write mode, clock and "
        "listing schedule, and 0-8 archive faults aimed at time-step edges; non-trivial if at least one archive fault "
        "changed a file, or the run crosses midnight; distinct by digest of plan outcome")
REAL = ["quakemigrate detect: scan, archive read, data quality, onsets, C kernels, scanmseed, availability", "obspy file I/O"]
STUB = ["clock, directory order, file open/write layer (simulated OS)", "archive contents (generated)"]
ASSUME = ["ObsPy's miniSEED reader and processing primitives and NumPy/SciPy are trusted",
          "archive faults are faults of content; an I/O error while reading may be reported instead"]
FACT = {"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6}


def gen(rng, i, tier):
    if i % 9 == 8:
        return D.gen(rng, long=True)
    return D.gen(rng)


def run(plan, scratch, faults=(), **kw):
    e = D.setup(plan, scratch)
    with Sim(scratch, seed=plan.get("list_seed", 0), faults=faults, ticks=plan["ticks"],
             list_seed=plan["list_seed"]) as sim, D.quiet():
        q = D.make_scan(plan, e, **kw)
        try:
            q.detect(str(e.start), str(e.end))
        except Exception as x:  # noqa
            import traceback
            raise Violation("detect-raised", f"detect stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
    e.sim = sim
    e.run_dir = os.path.join(e.runs, "run")
    return e


def collect(plan, e):
    """Check files, channels and continuity; returns {channel: int array} over the whole period."""
    sr = e.sr
    nsteps, per = D.geometry(plan, e)
    total = nsteps * per
    try:
        files = D.read_raw(e.run_dir)
    except Exception as x:  # noqa
        raise Violation("unreadable", f"a saved day file cannot be read: {x!r}")
    out = {c: np.zeros(total, dtype=np.int64) for c in D.CH}
    have = {c: np.zeros(total, dtype=int) for c in D.CH}
    for f, chans in files.items():
        if sorted(chans) != sorted(D.CH):
            raise Violation("channels", f"{f} holds channels {sorted(chans)}")
        for c, trs in chans.items():
            for tr in trs:
                if abs(tr.stats.sampling_rate - sr) > 1e-9:
                    raise Violation("rate", f"{f} {c} is sampled at {tr.stats.sampling_rate} Hz")
                k = (tr.stats.starttime - e.start) * sr
                k0 = R.rint(k)
                if abs(k - k0) > 0.02:
                    raise Violation("times", f"{f} {c} starts off the scan samples, at {tr.stats.starttime}")
                for t in (tr.stats.starttime, tr.stats.endtime):
                    tt = t + 0.25 / sr
                    if f != f"{tt.year}_{tt.julday:03d}.scanmseed":
                        raise Violation("day", f"{f} {c} holds samples of {t}")
                if k0 < 0 or k0 + len(tr.data) > total:
                    raise Violation("extent", f"{f} {c} holds {tr.stats.starttime} - {tr.stats.endtime}; the period is "
                                    f"{e.start} + {total} samples")
                have[c][k0:k0 + len(tr.data)] += 1
                out[c][k0:k0 + len(tr.data)] = tr.data
    for c in D.CH:
        if (have[c] != 1).any():
            bad = np.flatnonzero(have[c] != 1)
            raise Violation("coverage", f"channel {c}: {len(bad)} of {total} samples are not saved exactly once, "
                            f"first at {e.start + bad[0] / sr} ({have[c][bad[0]]} times); step {bad[0] // per}")
    return out, nsteps, per


def availability(plan, e, nsteps):
    d = os.path.join(e.run_dir, "detect", "availability")
    rows = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        df = pd.read_csv(os.path.join(d, f), index_col=0)
        for idx, row in df.iterrows():
            t = UTCDateTime(str(idx))
            if f != f"{t.year}_{t.julday:03d}_StationAvailability.csv":
                raise Violation("avail-day", f"{f} holds a row for {t}")
            k = (t - e.start) / plan["timestep"]
            i = R.rint(k)
            if abs(k - i) > 1e-6 or not 0 <= i < nsteps:
                raise Violation("avail-row", f"{f} has a row for {t}, which starts no time step")
            if i in rows:
                raise Violation("avail-row", f"two availability rows for {t}")
            rows[i] = {c: row[c] for c in df.columns}
    miss = [i for i in range(nsteps) if i not in rows]
    if miss:
        raise Violation("avail-row", f"no availability row for time step {miss[0]} of {nsteps}")
    return rows


def execute(plan, scratch):
    e = run(plan, scratch)
    out, nsteps, per = collect(plan, e)
    rows = availability(plan, e, nsteps)
    _, _, steps = D.expected(plan, e, want_values=False)
    for i, (av, m4) in enumerate(steps):
        got = {k: int(v) for k, v in rows[i].items()}
        if m4 is None:
            av = {k: 0 for k in av}
        if got != av:
            k = next((k for k in sorted(set(got) | set(av)) if got.get(k) != av.get(k)))
            raise Violation("avail-flag", f"step {i}: {k} is flagged {got.get(k)}, its data say {av.get(k)}")
        for c in D.CH:
            seg = out[c][i * per:(i + 1) * per]
            if m4 is None and seg.any():
                raise Violation("zero", f"step {i} has no usable data but {c} is not zero")
        if m4 is not None and (out["COA"][i * per:(i + 1) * per] == 0).any():
            raise Violation("zero", f"step {i} has usable data but its coalescence holds zeros")
    days = len({(e.start + k * plan["timestep"]).julday for k in range(nsteps + 1)})
    empty = sum(m is None for _, m in steps)
    return dict(digest=digest(tree_digest(e.run_dir), e.sim.oplog), faults=e.applied, nontrivial=bool(e.applied) or days > 1,
                key=digest(tree_digest(e.run_dir)), simtime=nsteps * plan["timestep"],
                stats=dict(steps=nsteps, empty_steps=empty, days=days, fs_ops=e.sim.n_total,
                           listings_permuted=e.sim.lists_permuted, clock_reads=e.sim.nclock,
                           pairs_withdrawn=sum(1 for av, _ in steps for v in av.values() if not v)))


def shrink(plan):
    af = plan["afaults"]
    n = len(af)
    if n > 1:
        for h in (af[:n // 2], af[n // 2:]):
            yield dict(plan, afaults=h)
    for i in range(n):
        yield dict(plan, afaults=af[:i] + af[i + 1:])
    for k in range(len(plan["events"])):
        yield dict(plan, events=plan["events"][:k] + plan["events"][k + 1:])
    if plan["cfg"]["phases"] != ["P"] and "P" in plan["cfg"]["phases"]:
        c = dict(plan["cfg"], phases=["P"])
        c["filters"] = {"P": c["filters"]["P"]}
        c["windows"] = {"P": c["windows"]["P"]}
        yield dict(plan, cfg=c)
    if plan["w"].get("decimate"):
        yield dict(plan, w=dict(plan["w"], decimate=None))
    if plan["w"]["unit"] != "km":
        yield dict(plan, w=dict(plan["w"], unit="km"))
    if plan["threads"] != 1:
        yield dict(plan, threads=1)
    if any(plan["ticks"]):
        yield dict(plan, ticks=[0.0])
    if plan["dur"] > plan["timestep"]:
        yield dict(plan, dur=plan["timestep"])
        yield dict(plan, dur=round(plan["dur"] - plan["timestep"], 6))
    if plan["cont"]:
        yield dict(plan, cont=False)
