"""The detect workload: plan generation, execution, and comparison with the reference."""
import contextlib
import io
import os
import numpy as np
from obspy import read, UTCDateTime
from . import world as W, archive as A, refmodel as R

CH = ["COA", "COA_N", "X", "Y", "Z"]


def gen_cfg(rng, long=False, small=False):
    if long:
        sr = 1
        cfg = dict(sr=sr, filters={"P": [0.03, 0.3, 2], "S": [0.02, 0.25, 2]},
                   windows={"P": [4.0, 20.0], "S": [6.0, 30.0]})
    else:
        sr = rng.choice([10, 20, 25, 50]) if not small else rng.choice([10, 20])
        lo = rng.choice([0.5, 1.0, 2.0])
        cfg = dict(sr=sr, filters={"P": [lo, 0.4 * sr, rng.choice([1, 2])], "S": [lo / 2, 0.35 * sr, 2]},
                   windows={"P": [rng.choice([0.2, 0.3, 0.5]), rng.choice([1.0, 2.0])],
                            "S": [rng.choice([0.3, 0.5]), rng.choice([1.0, 1.5, 2.0])]})
    cfg.update(position=rng.choice(["classic", "classic", "centred"]),
               phases=rng.choice([["P", "S"], ["P", "S"], ["P", "S"], ["P"], ["S"], ["S", "P"]]),
               channel_maps={"P": "*Z", "S": "*[N,E,1,2]"}, channel_counts={"P": 1, "S": 2},
               all_channels=rng.random() < 0.4, transform=rng.choice(["energy", "energy", "abs", "env", "env_squared"]),
               min_onset=rng.choice([0.4, 0.4, 0.01, 0.8]))
    for d in (cfg["filters"], cfg["windows"]):
        for k in list(d):
            if k not in cfg["phases"]:
                d.pop(k)
    return cfg


def gen(rng, long=False, small=False, fault_rate=1.0):
    cfg = gen_cfg(rng, long, small)
    sr = cfg["sr"]
    w = dict(span=12.0 if not long else 60.0, depth=rng.choice([3.0, 5.0]), dx=rng.choice([3.0, 4.0, 2.4]) * (5 if long else 1),
             dz=2.0, unit=rng.choice(["km", "km", "m"]), nsta=rng.choice([3, 4, 5]), wseed=rng.randrange(10 ** 6),
             freq=min(4.0, 0.2 * sr), decimate=rng.choice([None, None, None, [2, 2, 1], [1, 1, 2], [3, 3, 1], [3, 2, 3]]))
    if long:
        timestep = rng.choice([1800.0, 3600.0, 7200.0])
        nsteps = rng.choice([8, 12, 30])
        day_off = rng.choice([0.0, -timestep, -2.5 * timestep, -3 * timestep - 100.0, 1000.0, -1.0])
    else:
        timestep = rng.choice([5.0, 8.0, 10.0, 10.4, 12.2, 20.0])
        if rng.random() < 0.3:
            timestep = round(rng.randint(5 * sr, 12 * sr) / sr, 6)
        nsteps = rng.choice([2, 3, 4, 5, 6])
        k = rng.randint(0, nsteps)
        day_off = rng.choice([-timestep * k, -timestep * k, -timestep * k - round(rng.randint(1, int(timestep * sr)) / sr, 6), 3600.0 * 7 + 1.0 / sr])
    dur = timestep * nsteps
    if rng.random() < 0.3:
        dur = round(dur - rng.randint(1, int(timestep * sr) - 1) / sr, 6)   # rounded up to whole steps
    plan = dict(w=w, cfg=cfg, timestep=timestep, day=rng.choice(["2021-03-05", "2020-03-01", "2022-01-01", "2019-12-31"]),
                day_off=day_off, dur=dur, cont=rng.random() < 0.5, threads=rng.choice([1, 2, 3]),
                ticks=[rng.choice([0.0, 0.01, 1.0, 3600.0, -7200.0]) for _ in range(5)],
                list_seed=rng.randrange(10 ** 6))
    margin = 40.0 if not long else 2000.0
    plan["margin"] = margin
    span = dur + timestep + 2 * margin
    st = W.make_stations(w["nsta"], np.random.default_rng(w["wseed"]), w["span"], w["unit"])
    names = list(st["Name"])
    nev = rng.choice([0, 1, 2])
    plan["events"] = [dict(t=round(rng.uniform(margin, margin + dur), 2), node=[rng.random() for _ in range(3)],
                           amp=rng.choice([500.0, 3000.0])) for _ in range(nev)]
    kinds = [k for k in A.FAULTS if rng.random() < 0.4] or ["gap"]
    n = 0 if rng.random() > fault_rate else rng.choice([0, 1, 2, 3, 5, 8])
    marks = [margin + i * timestep for i in range(nsteps + 1)]
    plan["afaults"] = A.gen_faults(rng, names, span, n, kinds, marks)
    resample(rng, plan, [1.5] if long else [1.5, 0.8])
    return plan


def resample(rng, plan, rates=(1.5, 0.8), p=0.3):
    """Some archives are resampled, with factors that suit their rates (0.8 and 1.5 times the scan's)."""
    up = plan["cfg"]["up"] = rng.choice([2, 5, 10, 10]) if rng.random() < p else None
    if 0.8 not in rates:
        up = plan["cfg"]["up"] = up and rng.choice([2, 10])
    for f in plan["afaults"]:
        if f["kind"] in ("gap", "absent", "rate3", "rate08") and up and rng.random() < 0.5:
            f["kind"] = rng.choice(["rate3", "rate08"])
        if f["kind"] == "rate08" and (up == 2 or 0.8 not in rates):
            f["kind"] = "rate3"
        if f["kind"] == "rate3" and up == 5:
            f["kind"] = "rate08"
    plan["cfg"]["interp"] = rng.random() < p / 2
    plan["cfg"]["gaps"], plan["cfg"]["partial"] = rng.choice([(False, True), (True, True), (True, False)]) if rng.random() < p else (False, False)
    if plan["cfg"]["gaps"] or plan["cfg"]["partial"]:
        for f in plan["afaults"]:
            if f["kind"] in ("flat", "absent", "blackout", "rate3", "rate08", "rate2") and rng.random() < 0.6:
                f["kind"] = rng.choice(["gap", "gap", "rate2"])
    for f in plan["afaults"]:
        if plan["cfg"]["interp"] and f["kind"] in ("gap", "flat", "split", "dup") and rng.random() < 0.5:
            f["kind"] = "offsample"


class Env:
    pass


def setup(plan, root):
    """Build world + archive below root (before the simulated OS is switched on)."""
    e = Env()
    w, cfg = plan["w"], plan["cfg"]
    e.root = root
    e.stations = W.make_stations(w["nsta"], np.random.default_rng(w["wseed"]), w["span"], w["unit"])
    w = dict(w, lut_phases=["P", "S"])
    full = W.make_lut(w, e.stations)
    e.full = full
    e.sr = cfg["sr"]
    day = UTCDateTime(plan["day"])
    e.start = day + plan["day_off"]
    e.end = e.start + plan["dur"]
    e.t0 = e.start - plan["margin"]
    # the archive's clock ticks on whole samples after midnight
    npts = int((plan["dur"] + plan["timestep"] + 2 * plan["margin"]) * e.sr)
    nc = np.array(full.node_count)
    evs = [dict(t=v["t"], ijk=[min(int(f * n), n - 1) for f, n in zip(v["node"], nc)], amp=v["amp"]) for v in plan["events"]]
    wf = W.make_waveforms(w, e.stations, full, e.t0, npts, e.sr, evs, w["wseed"])
    e.arc = os.path.join(root, "archive")
    os.makedirs(e.arc, exist_ok=True)
    e.chans, e.applied = A.build(e.arc, w, wf, e.t0, e.sr, plan["afaults"])
    e.dec = w.get("decimate")
    e.lut = full.decimate(e.dec) if e.dec else full
    e.runs = os.path.join(root, "runs")
    os.makedirs(e.runs, exist_ok=True)
    return e


def make_onset(cfg, position=None):
    from quakemigrate.signal.onsets import STALTAOnset
    import copy
    kw = dict(position=position or cfg["position"], sampling_rate=cfg["sr"], phases=list(cfg["phases"]),
              bandpass_filters=copy.deepcopy(cfg["filters"]), sta_lta_windows=copy.deepcopy(cfg["windows"]),
              channel_maps=dict(cfg["channel_maps"]), channel_counts=dict(cfg["channel_counts"]),
              all_channels=cfg["all_channels"], signal_transform=cfg["transform"],
              min_onset_value=cfg["min_onset"], allow_gaps=bool(cfg.get("gaps")), full_timespan=not cfg.get("partial"))
    if cfg.get("py"):
        kw["use_python_backend"] = True
    if cfg.get("old") and set(cfg["filters"]) == set(cfg["windows"]) == {"P", "S"}:
        # the former names of the same options
        f, w = kw.pop("bandpass_filters"), kw.pop("sta_lta_windows")
        kw.update(p_bp_filter=f["P"], s_bp_filter=f["S"], p_onset_win=w["P"], s_onset_win=w["S"], onset_centred=kw.pop("position") == "centred")
    return STALTAOnset(**kw)


def resampling(cfg):
    out = dict(resample=True, upfactor=cfg["up"]) if cfg.get("up") else {}
    if cfg.get("interp"):
        out["interpolate"] = True
    return out


def make_scan(plan, e, name="run", **kw):
    from quakemigrate import QuakeScan
    from quakemigrate.io import Archive
    arc = Archive(e.arc, e.stations, archive_format="YEAR/JD/STATION", **resampling(plan["cfg"]))
    args = dict(timestep=plan["timestep"], threads=plan["threads"], continuous_scanmseed_write=plan["cont"])
    args.update(kw)
    if plan["cfg"].get("old"):
        args.update(time_step=args.pop("timestep"), n_cores=args.pop("threads"))
    return QuakeScan(arc, e.lut, make_onset(plan["cfg"]), e.runs, name, **args)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ------------------------------------------------------------------ expectation
def geometry(plan, e):
    """Scan samples as documented: period start; end pulled back a sample at midnight;
    rounded up to whole steps."""
    sr, ts = e.sr, plan["timestep"]
    end = e.end
    if (end.hour, end.minute, end.second, end.microsecond) == (0, 0, 0, 0):
        end = end - 1.0 / sr
    nsteps = int(np.ceil(round((end - e.start) / ts, 9)))
    return nsteps, R.rint(ts * sr)


def expected(plan, e, want_values=True):
    nsteps, per = geometry(plan, e)
    cfg = plan["cfg"]
    lut = e.lut
    ttmax = max(np.max(lut.traveltimes[s][p]) for s in e.stations["Name"] for p in ("P", "S"))
    pre, post = R.pads(cfg, ttmax, plan["timestep"])
    names = list(e.stations["Name"])
    steps = []
    for i in range(nsteps):
        w0 = e.start + plan["timestep"] * i - pre
        w1 = e.start + plan["timestep"] * (i + 1) - 1.0 / e.sr + post
        av, m4 = R.step(cfg, lut, e.chans, names, e.t0, w0, w1, pre, post, values=want_values)
        steps.append((av, m4))
    return nsteps, per, steps


def node_coords(plan, e):
    """Geographic coordinates of every node of the (decimated) grid, computed from the
    full grid's corner: projected corner + index * spacing."""
    from pyproj import Transformer
    full = e.full
    n = np.array(full.node_count, dtype=int)
    ll = np.array(full.ll_corner, dtype=float)
    sp = np.array(full.node_spacing, dtype=float)
    idx = [np.arange(k) for k in n]
    if e.dec:
        # which full-grid nodes the decimated table keeps is read off the tables themselves
        sta = list(full.traveltimes)[0]
        F, D = full.traveltimes[sta]["P"], e.lut.traveltimes[sta]["P"]
        idx = []
        off = None
        df = np.array(e.dec)
        import itertools
        for o in itertools.product(*[range(d) for d in df]):
            S = F[o[0]::df[0], o[1]::df[1], o[2]::df[2]]
            if S.shape[0] >= D.shape[0] and S.shape[1] >= D.shape[1] and S.shape[2] >= D.shape[2]:
                if np.array_equal(S[:D.shape[0], :D.shape[1], :D.shape[2]], D):
                    off = o
                    break
        assert off is not None, "decimated tables are no subset of the full tables"
        idx = [off[k] + df[k] * np.arange(D.shape[k]) for k in range(3)]
    g = np.array(np.meshgrid(*idx, indexing="ij")).reshape(3, -1).T
    xyz = ll + g * sp
    tr = Transformer.from_proj(full.grid_proj, full.coord_proj)
    return np.column_stack(tr.transform(xyz[:, 0], xyz[:, 1], xyz[:, 2]))


def read_raw(run_dir):
    """{filename: {channel: [Trace]}} straight from disk."""
    d = os.path.join(run_dir, "detect", "scanmseed")
    out = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            st = read(os.path.join(d, f), format="MSEED")
            by = {}
            for tr in st:
                by.setdefault(tr.stats.station, []).append(tr)
            out[f] = by
    return out
