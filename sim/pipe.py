"""The whole pipeline on a small network: generation, set-up, and the stages."""
import copy
import os
import numpy as np
from obspy import UTCDateTime
from . import world as W, archive as A, detect as D, mags as M

CFG = dict(sr=20, filters={"P": [1.0, 8.0, 2], "S": [0.5, 7.0, 2]}, windows={"P": [0.2, 1.0], "S": [0.3, 1.5]},
           position="classic", phases=["P", "S"], channel_maps={"P": "*Z", "S": "*[N,E,1,2]"},
           channel_counts={"P": 1, "S": 2}, all_channels=False, transform="energy", min_onset=0.01)
LFAULTS = ["gap", "gap", "flatseg", "conflict", "dup", "split", "rate2", "offsample", "foreign", "empty", "stub",
           "badpayload", "trunc", "absent", "blackout", "zero", "flat", "dtype"]


def gen(rng, nev=None, dur=None, faults=None, mags=None, kinds=None, nsta=None, small=False):
    """A small pipeline world: `dur` seconds of data around a midnight with events in it."""
    cfg = copy.deepcopy(CFG)
    cfg["sr"] = rng.choice([20, 20, 25])
    cfg["position"] = rng.choice(["classic", "classic", "centred"])
    cfg["phases"] = rng.choice([["P", "S"]] * 4 + [["P"], ["S"]])
    for d in (cfg["filters"], cfg["windows"]):
        for k in list(d):
            if k not in cfg["phases"]:
                d.pop(k)
    w = dict(span=12.0, depth=rng.choice([4.0, 6.0]), dx=rng.choice([2.0, 2.4, 3.0]), dz=2.0, unit=rng.choice(["km", "km", "m"]),
             nsta=nsta or rng.choice([4, 5, 6]), wseed=rng.randrange(10 ** 6), freq=4.0)
    w["frac"] = [0.1, 0.1, 0.1, 0.02, 0.35][w["wseed"] % 5]          # uncertainty of travel times
    plan = dict(w=w, cfg=cfg, day=rng.choice(["2021-03-05", "2020-02-29", "2022-01-01", "2019-12-31"]), threads=1,
                list_seed=rng.randrange(10 ** 6), ticks=[rng.choice([0.0, 0.01, 1.0, 3600.0, -7200.0]) for _ in range(4)])
    st = W.make_stations(w["nsta"], np.random.default_rng(w["wseed"]), w["span"], w["unit"])
    names = list(st["Name"])
    plan["lead"] = rng.choice([60.0, 80.0, 100.0])           # archive starts this long before midnight
    nev = nev if nev is not None else rng.choice([2, 3, 4])
    t = 35.0 + rng.uniform(0, 5)
    evs = []
    gap = rng.choice([12.0, 16.0, 25.0])
    for _ in range(nev):
        evs.append(dict(t=round(t, 2), node=[rng.uniform(0.25, 0.75) for _ in range(3)], amp=rng.choice([800.0, 3000.0])))
        t += gap + rng.uniform(0, 4)
    plan["events"] = evs
    plan["span"] = round(t + 40.0)
    # each event: the triggered time is a few samples off
    plan["trig"] = [dict(t=e["t"], off=rng.choice([0, 0, 1, -2, 5, -9, 12]), real=True) for e in evs]
    if rng.random() < 0.35:
        plan["trig"].append(dict(t=round(rng.uniform(30, plan["span"] - 30), 2), off=0, real=False))
    if rng.random() < 0.25:
        plan["trig"].append(dict(t=rng.choice([2.0, plan["span"] - 2.0, plan["span"] + 400.0]), off=0, real=False))
    seen = set()
    tr = []
    for x in sorted(plan["trig"], key=lambda q: q["t"]):
        k = round(x["t"] * cfg["sr"]) + x["off"]
        if k not in seen:
            seen.add(k)
            tr.append(x)
    plan["trig"] = tr
    n = faults if faults is not None else rng.choice([0, 1, 2, 3, 5])
    kinds = kinds or [k for k in sorted(set(LFAULTS)) if rng.random() < 0.5] or ["gap"]
    plan["afaults"] = A.gen_faults(rng, names, plan["span"], n, kinds, [e["t"] + x for e in evs for x in (2, 2, -8, 18)])
    for f in plan["afaults"]:
        if f["kind"] in ("conflict", "dup", "gap", "flatseg", "split"):
            f["b"] = round(min(f["b"], f["a"] + 30.0), 2)
    mags = rng.random() < 0.6 if mags is None else mags
    o = dict(mw=rng.choice([0.5, 1.0, 1.5, 2.0]), mags=mags, coa=rng.random() < 0.4, mcoa=rng.random() < 0.5,
             raw=rng.random() < 0.6, real=rng.random() < 0.4, wa=rng.random() < 0.4,
             real_units=rng.choice(["displacement", "velocity"]), wa_units=rng.choice(["displacement", "velocity"]),
             pre=rng.choice([None, None, 3.0, 10.0]), post=rng.choice([None, None, 5.0, 15.0]),
             all_sta=rng.random() < 0.15, pick=rng.choice(["MAD", "percentile"]), seed_ids=rng.random() < 0.2,
             response=True, full_resp=rng.random() < 0.1, prefilt=rng.random() < 0.2, amp_filter=rng.choice([None, None, "hp", "bp"]),
             noise_window=rng.choice([3.0, 5.0]), sig=rng.choice([0.0, 2.0]))
    plan["opt"] = o
    # response faults per channel: missing / nopaz / nosens
    rf = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2])):
            rf.append(dict(sta=rng.choice(names), comp=rng.choice(["Z", "N", "E"]),
                           kind=rng.choice(["missing", "missing", "nopaz", "nosens"])))
    plan["rfaults"] = rf
    return plan


def rename(plan, names):
    """Give the stations other names, and read them from a station file."""
    m = dict(zip(W.NAMES, names))
    plan["w"]["names"] = names
    for f in plan["afaults"] + plan["rfaults"]:
        f["sta"] = m.get(f["sta"], f["sta"])


def inventory(stations, rfaults=(), t0=None, epochs=()):
    from obspy.core.inventory import Inventory, Network, Station, Channel, Site
    from obspy.core.inventory.response import Response, InstrumentSensitivity
    net = Network(code="XX", stations=[])
    for _, s in stations.iterrows():
        sta = Station(code=s["Name"], latitude=s["Latitude"], longitude=s["Longitude"], elevation=100.0, site=Site(name="x"),
                      creation_date=UTCDateTime(2000, 1, 1))
        for c in "ZNE":
            kinds = {f["kind"] for f in rfaults if f["sta"] == s["Name"] and f["comp"] == c}
            if "missing" in kinds:
                continue
            poles = [-0.037 + 0.037j, -0.037 - 0.037j, -200.0 + 0j]
            w1 = 2j * np.pi
            a0 = 1.0 / abs(w1 * w1 / np.prod([w1 - p for p in poles]))
            # (one epoch, or two of another gain each)
            cuts = [(t0 + v["t"], v["gain"]) for v in epochs if v["sta"] == s["Name"] and v["comp"] in ("*", c)][:1]
            spans = [(UTCDateTime(2000, 1, 1), cuts[0][0] if cuts else None, 1.0e4)] + [(t, None, g) for t, g in cuts]
            for start, end, gain in spans:
                r = Response.from_paz(zeros=[0j, 0j], poles=poles, stage_gain=gain,
                                      stage_gain_frequency=1.0, input_units="M/S", output_units="COUNTS",
                                      normalization_frequency=1.0, normalization_factor=a0)
                if "nopaz" in kinds:
                    r.response_stages = []
                if "nosens" in kinds:
                    r.instrument_sensitivity = None
                sta.channels.append(Channel(code="BH" + c, location_code="", latitude=s["Latitude"], longitude=s["Longitude"],
                                            elevation=100.0, depth=0.0, sample_rate=20.0, response=r, start_date=start, end_date=end))
        net.stations.append(sta)
    return Inventory(networks=[net], source="sim")


def setup(plan, root):
    e = D.Env()
    w, cfg = plan["w"], plan["cfg"]
    e.root, e.sr = root, cfg["sr"]
    e.stations = W.make_stations(w["nsta"], np.random.default_rng(w["wseed"]), w["span"], w["unit"], w.get("names"))
    if w.get("names"):
        e.stations = W.through_file(e.stations, os.path.join(root, "stations.txt"))
    e.lut = W.make_lut(dict(w, lut_phases=["P", "S"]), e.stations)
    e.t0 = UTCDateTime(plan["day"]) - plan["lead"]
    nc = np.array(e.lut.node_count)
    e.events = [dict(t=v["t"], ijk=[min(int(f * n), n - 1) for f, n in zip(v["node"], nc)], amp=v["amp"]) for v in plan["events"]]
    wf = W.make_waveforms(w, e.stations, e.lut, e.t0, int(plan["span"] * e.sr), e.sr, e.events, w["wseed"])
    e.wf = wf
    e.arc = os.path.join(root, "archive")
    os.makedirs(e.arc, exist_ok=True)
    e.chans, e.applied = A.build(e.arc, w, wf, e.t0, e.sr, plan["afaults"])
    e.runs = os.path.join(root, "runs")
    os.makedirs(e.runs, exist_ok=True)
    e.inv = inventory(e.stations, plan["rfaults"], e.t0, plan.get("epochs", ())) if plan["opt"]["response"] else None
    return e


def trig_times(plan, e):
    sr = e.sr
    out = []
    for x in plan["trig"]:
        k = round(x["t"] * sr) + x["off"]
        out.append(UTCDateTime(ns=e.t0._ns + k * 10 ** 9 // sr))
    return out


def uid(t):
    return "".join(c for c in str(t) if c.isdigit())[:17]


def write_triggers(e, times, name, sub="", run_dir=None):
    """Triggered-events files, one per day, as the trigger stage writes them."""
    import pandas as pd
    d = os.path.join(run_dir or os.path.join(e.runs, name), "trigger", sub, "events")
    os.makedirs(d, exist_ok=True)
    by = {}
    for t in sorted(times):
        by.setdefault((t.year, t.julday), []).append(t)
    stem = name if not sub else f"{name}_{sub}"
    for (y, j), ts in by.items():
        rows = [dict(EventID=uid(t), CoaTime=t, TRIG_COA=3.5, COA_X=10.0, COA_Y=45.0, COA_Z=1.0, COA=3.5, COA_NORM=1.5) for t in ts]
        pd.DataFrame(rows).to_csv(os.path.join(d, f"{stem}_{y}_{j:03d}_TriggeredEvents.csv"), index=False)


def make_archive(plan, e, cls=None, **kw):
    from quakemigrate.io import Archive
    o = plan["opt"]
    rp = dict(water_level=60.0)
    if o["prefilt"]:
        rp["pre_filt"] = (0.05, 0.1, 0.4 * e.sr, 0.45 * e.sr)
    if o["full_resp"]:
        rp["remove_full_response"] = True
    args = dict(archive_format="YEAR/JD/STATION", read_all_stations=o["all_sta"], **D.resampling(plan["cfg"]))
    if e.inv is not None:
        args.update(response_inv=e.inv, response_removal_params=rp)
    args.update(kw)
    return (cls or Archive)(e.arc, e.stations, **args)


def make_locate(plan, e, name="run", sub="", opt=None, archive=None, log=False, **kw):
    from quakemigrate import QuakeScan
    from quakemigrate.signal.pickers import GaussianPicker
    from quakemigrate.signal.local_mag import LocalMag
    o = dict(plan["opt"], **(opt or {}))
    onset = D.make_onset(plan["cfg"], position=kw.pop("position", "centred" if plan["cfg"]["position"] == "centred" else "classic"))
    arc = archive or make_archive(plan, e)
    pk = dict(threshold_method=o["pick"], plot_picks=False, write_seed_ids=o["seed_ids"])
    if o["pick"] == "MAD":
        pk["mad_pick_threshold"] = 8.0
    else:
        pk["percentile_pick_threshold"] = 0.99
    if o.get("pick_frac") is not None:
        pk["fraction_tt"] = o["pick_frac"]
    picker = GaussianPicker(onset=onset, **pk)
    args = dict(run_subname=sub, marginal_window=o["mw"], threads=plan["threads"], picker=picker, plot_event_summary=False,
                write_cut_waveforms=o["raw"], write_real_waveforms=o["real"], write_wa_waveforms=o["wa"],
                real_waveform_units=o["real_units"], wa_waveform_units=o["wa_units"],
                write_coalescence=o["coa"], write_marginal_coalescence=o["mcoa"], log=log)
    if o["mags"]:
        ap = dict(signal_window=o["sig"], noise_window=o["noise_window"])
        if o["amp_filter"] == "hp":
            ap.update(highpass_filter=True, highpass_freq=o.get("lc", 1.0))
        elif o["amp_filter"] == "bp":
            ap.update(bandpass_filter=True, bandpass_lowcut=o.get("lc", 1.0), bandpass_highcut=o.get("hc", 8.0))
        ap.update(o.get("ap") or {})
        args["mags"] = LocalMag(ap, M.params(o.get("mp")), plot_amplitudes=False)
    args.update(kw)
    q = QuakeScan(arc, e.lut, onset, e.runs, name, **args)
    if o["pre"]:
        q.pre_cut = o["pre"]
    if o["post"]:
        q.post_cut = o["post"]
    return q


def span_days(plan, e):
    """A period that holds every trigger."""
    ts = trig_times(plan, e)
    return UTCDateTime(min(ts).date), UTCDateTime(max(ts).date) + 86400


def locate(plan, e, name="run", sub="", opt=None, times=None, **kw):
    q = make_locate(plan, e, name, sub, opt, **kw)
    if times is None:
        s, t = span_days(plan, e)
    else:
        s, t = times
    with D.quiet():
        q.locate(str(s), str(t))
    return q


def shrink(plan):
    af = plan["afaults"]
    for i in range(len(af)):
        yield dict(plan, afaults=af[:i] + af[i + 1:])
    for i in range(len(plan["rfaults"])):
        yield dict(plan, rfaults=plan["rfaults"][:i] + plan["rfaults"][i + 1:])
    for i in range(len(plan["trig"])):
        if len(plan["trig"]) > 1:
            yield dict(plan, trig=plan["trig"][:i] + plan["trig"][i + 1:])
    o = plan["opt"]
    for k in ("mags", "coa", "mcoa", "raw", "real", "wa", "all_sta", "seed_ids", "full_resp", "prefilt"):
        if o[k]:
            yield dict(plan, opt=dict(o, **{k: False}))
    for k in ("pre", "post", "amp_filter"):
        if o[k]:
            yield dict(plan, opt=dict(o, **{k: None}))
    if plan.get("epochs"):
        yield dict(plan, epochs=[])
    if any(plan["ticks"]):
        yield dict(plan, ticks=[0.0])
