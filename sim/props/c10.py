"""C10: the outputs of a located event agree with each other and the archive."""
import csv as C
import io
import os
import copy
import numpy as np
from obspy import read, UTCDateTime, Trace
from .. import pipe as P, detect as D, refmodel as R, results as Rs, world as W, mags as M, locs as LOC, amps as AMP
from ..core import Violation, digest, in_child
from ..simos import Sim
from .c09 import by_event, brief

LEVEL = "exploration"
CASES = {"quick": 300, "thorough": 6000}
RULE = ("seeded networks, archive and response faults, event sets and locate options; one run with all its outputs checked against the archive's "
        "ground truth and each other, then runs with one option changed; non-trivial if an event was located; distinct by digest of results")
REAL = ["quakemigrate QuakeScan.locate with onsets, migration kernels, pickers, magnitudes and all outputs", "obspy response removal and file I/O"]
STUB = ["archive and response inventory contents (generated)", "directory order and clock (simulated OS)", "triggered-events files (generated)"]
ASSUME = ["ObsPy's Trace.simulate, remove_response and miniSEED reader are trusted",
          "without pre_cut / post_cut the cut window is the period read from the archive, at least the migration window"]
FLIPS = ["raw", "real", "wa", "coa", "mcoa", "mags", "units", "seed_ids", "threads", "pre", "plain"]


def gen(rng, i, tier):
    p = P.gen(rng, nev=rng.choice([1, 2, 2]), faults=rng.choice([0, 0, 1, 2, 4]))
    o = p["opt"]
    o["coa"] = rng.random() < 0.8
    o["mcoa"] = rng.random() < 0.8
    for k in ("raw", "real", "wa"):
        o[k] = rng.random() < 0.6
    p["flips"] = rng.sample(FLIPS, 2)
    p["fmt"] = "MSEED"
    p["rfaults"] = [f for f in p["rfaults"] if f["kind"] in ("missing", "nopaz")]
    D.resample(rng, p)
    if rng.random() < 0.7:
        names = list(W.make_stations(p["w"]["nsta"], np.random.default_rng(p["w"]["wseed"]))["Name"])
        o["ap"], o["mp"] = M.gen(rng, names)
        if rng.random() < 0.4:
            o["hc"], o["lc"] = rng.choice([5.0, 10.0, 12.5, 30.0]), rng.choice([0.5, 2.0])
    if rng.random() < 0.2:
        o["pick_frac"] = rng.choice([0.01, 0.05, 0.3, 0.5])
    if rng.random() < 0.4:
        # the gain of a channel changes
        names = list(W.make_stations(p["w"]["nsta"], np.random.default_rng(p["w"]["wseed"]))["Name"])
        p["epochs"] = [dict(sta=rng.choice(names), comp=rng.choice("ZNE**"), t=round(rng.choice(p["trig"])["t"] + rng.choice([-40, -15, -8, 3, 15]) + rng.uniform(-3, 3), 2) + 0.0037,
                            gain=rng.choice([2.0e3, 3.0e4])) for _ in range(rng.choice([1, 1, 2]))]
    if "plain" in p["flips"] and rng.random() < 0.7:
        # something wrong with the data just outside the windows that are located with
        o.update(pre=rng.choice([None, 15.0, 20.0]), post=rng.choice([20.0, 30.0]))
        o[rng.choice(["raw", "real", "wa"])] = True
        for _ in range(rng.choice([2, 3])):
            a = round(rng.choice(p["trig"])["t"] + rng.choice([-17, -14, -11, 17, 21, 25]) + rng.uniform(-2, 2), 2)
            p["afaults"].append(dict(kind=rng.choice(["dtype", "dtype", "conflict", "gap"]), sta=rng.choice(W.NAMES),
                                     comp=rng.choice("*ZNE"), a=a, b=round(a + rng.choice([0.3, 2.0]), 2), v=3, off=0.0))
    return p


def csv(text):
    r = list(C.reader(io.StringIO(text)))
    return r[0], [dict(zip(r[0], x)) for x in r[1:]]


def coords_of(e, ijk):
    from pyproj import Transformer
    lut = e.lut
    tr = Transformer.from_proj(lut.grid_proj, lut.coord_proj)
    g = np.array(lut.ll_corner) + np.atleast_2d(ijk) * np.array(lut.node_spacing)
    return np.column_stack(tr.transform(g[:, 0], g[:, 1], g[:, 2]))


def grid_of(e, xyz):
    from pyproj import Transformer
    lut = e.lut
    tr = Transformer.from_proj(lut.coord_proj, lut.grid_proj)
    g = np.array(tr.transform(*xyz))
    return (g - np.array(lut.ll_corner)) / np.array(lut.node_spacing)


def tt_at(e, sta, ph, ijk):
    """Travel time of the grid node nearest to the position (arrivals are modelled from nodes)."""
    t = e.lut.traveltimes[sta][ph]
    k = [min(max(R.rint(x), 0), n - 1) for x, n in zip(ijk, t.shape)]
    return float(t[tuple(k)])


def check_event(plan, e, run_dir, t, stats):
    u, o, sr, cfg = P.uid(t), plan["opt"], e.sr, plan["cfg"]
    mw = o["mw"]
    loc = os.path.join(run_dir, "locate")
    with open(os.path.join(loc, "events", u + ".event")) as fh:
        text = fh.read()
    _, rows = csv(text)
    if len(rows) != 1:
        raise Violation("event", f"event file {u} has {len(rows)} rows")
    ev = rows[0]
    if ev["EventID"] != u:
        raise Violation("event", f"event file {u} holds event {ev['EventID']}")
    otime = UTCDateTime(ev["DT"])
    xyz = [float(ev[c]) for c in "XYZ"]
    ttmax = max(np.max(e.lut.traveltimes[s][p]) for s in e.stations["Name"] for p in ("P", "S"))
    pre, post = R.pads(cfg, ttmax, 4 * mw)
    w0, w1 = t - 2 * mw - pre, t + 2 * mw + post
    av, m4 = R.step(cfg, e.lut, e.chans, list(e.stations["Name"]), e.t0, w0, w1, pre, post)
    if m4 is None:
        raise Violation("event", f"event {u} was located although no station has usable data")
    eps = 1e-4 if cfg.get("interp") else 5e-6
    n = R.rint(4 * mw * sr) + 1
    k_ot = R.rint((otime - (t - 2 * mw)) * sr)
    if abs((otime - (t - 2 * mw)) * sr - k_ot) > 1e-3:
        raise Violation("otime", f"event {u}: origin time {otime} is not a sample of the scan around {t}")
    # ---- coalescence maps
    full = cov = None
    if o["coa"]:
        full = np.load(os.path.join(loc, "coalescence_maps", u + ".npy"))
        if full.shape != tuple(e.lut.node_count) + (n,):
            raise Violation("map", f"event {u}: coalescence map has shape {full.shape}")
        if m4 is not R.ILL:
            err = np.abs(full - m4) - eps * np.abs(m4) - 1e-9
            if (err > 0).any():
                j = np.unravel_index(np.argmax(err), err.shape)
                raise Violation("map", f"event {u}: coalescence map is {full[j]} at {j}, the data give {m4[j]}")
            stats["maps"] = stats.get("maps", 0) + 1
    ref = full if full is not None else (None if m4 is R.ILL else m4)
    if ref is not None:
        mx = ref.reshape(-1, ref.shape[-1]).max(axis=0)
        lo, hi = max(0, R.rint(k_ot - mw * sr - 1e-6 + .499999)), None
        win = [k for k in range(len(mx)) if abs(k - k_ot) <= mw * sr + 1e-6]
        best = mx.max()
        if mx[k_ot] < best * (1 - eps):
            raise Violation("otime", f"event {u}: origin time is at sample {k_ot} (coalescence {mx[k_ot]}), the peak {best} is at sample {int(mx.argmax())}")
        if abs(float(ev["COA"]) - best) > 6e-4 * best:
            raise Violation("otime", f"event {u}: COA is {ev['COA']}, the peak of the map is {best}")
        nn = best * (ref.size // ref.shape[-1]) / ref[..., k_ot].sum()
        if abs(float(ev["COA_NORM"]) - nn) > 6e-4 * nn:
            raise Violation("otime", f"event {u}: COA_NORM is {ev['COA_NORM']}, the map gives {nn}")
        marg = ref[..., win].sum(axis=-1)
        marg = marg / marg.max()
        if o["mcoa"]:
            got = np.load(os.path.join(loc, "marginalised_coalescence_maps", u + ".npy"))
            if got.shape != marg.shape or np.abs(got - marg).max() > 4 * eps:
                raise Violation("marginal", f"event {u}: the marginalised map is not the sum over the marginal window about the origin time "
                                f"(largest difference {np.abs(got - marg).max() if got.shape == marg.shape else got.shape})")
            stats["marginals"] = stats.get("marginals", 0) + 1
        near = np.argwhere(marg >= 1 - 2 * eps)
        gl = grid_of(e, xyz)
        if not any((np.abs(gl - q) <= 2.001).all() for q in near):
            raise Violation("location", f"event {u}: position {xyz} is grid index {gl}, the peak of the marginalised map is at {near[0]}")
        saved = marg if full is not None else (got if o["mcoa"] else None)
        if saved is not None:
            cov = LOC.check(u, e, ev, saved, stats)
    gl = grid_of(e, xyz)
    # ---- picks
    with open(os.path.join(loc, "picks", u + ".picks")) as fh:
        h, picks = csv(fh.read())
    want = {k for k, v in av.items() if v}
    got = [f"{p['Station']}_{p['Phase']}" for p in picks]
    if sorted(got) != sorted(want):
        raise Violation("picks", f"event {u}: picks for {sorted(got)}, usable onsets are {sorted(want)}")
    half_way = bool((np.abs(np.abs(gl - np.rint(gl)) - 0.5) < 2e-3).any())
    picked, mod = set(), {}
    for p in picks:
        mod[p["Station"], p["Phase"]] = UTCDateTime(p["ModelledTime"])
        m = otime + tt_at(e, p["Station"], p["Phase"], gl)
        if not half_way and abs(m - mod[p["Station"], p["Phase"]]) > 2e-3:
            raise Violation("picks", f"event {u}: modelled {p['Phase']} arrival at {p['Station']} is {p['ModelledTime']}, position and origin time give {m}")
    for p in picks:
        s, ph = p["Station"], p["Phase"]
        if p["PickTime"] == "-1":
            if (p["PickError"], p["SNR"], p["Residual"]) != ("-1", "-1", "-1"):
                raise Violation("picks", f"event {u}: failed pick {p}")
            continue
        pt = UTCDateTime(p["PickTime"])
        picked.add(s)
        m = mod[s, ph]
        half = tt_at(e, s, ph, gl) * (e.lut.fraction_tt if o.get("pick_frac") is None else o["pick_frac"]) + mw + 2.0 / sr
        if abs(pt - m) > half:
            raise Violation("picks", f"event {u}: {ph} pick at {s} is {pt - m} s from its modelled arrival, window is +-{half}")
        other = mod.get((s, "S" if ph == "P" else "P"))
        if other is not None:
            mid = m + (other - m) / 2
            if (pt - mid) * (1 if ph == "S" else -1) < -2.0 / sr:
                raise Violation("picks", f"event {u}: {ph} pick at {s} is {pt}, beyond the mid-point {mid} between the modelled arrivals")
        if abs(float(p["Residual"]) - (pt - m)) > 1e-4:
            raise Violation("picks", f"event {u}: residual {p['Residual']} of {ph} at {s}, pick minus modelled time is {pt - m}")
        if not (float(p["SNR"]) > 0 and float(p["PickError"]) >= 0):
            raise Violation("picks", f"event {u}: pick {p}")
    stats["picks"] = stats.get("picks", 0) + len(picks)
    stats["picked"] = stats.get("picked", 0) + sum(p["PickTime"] != "-1" for p in picks)
    # ---- amplitudes
    if o["mags"]:
        check_amps(plan, e, loc, u, ev, otime, xyz, gl, picks, mod, stats, cov)
    # ---- waveforms
    check_waves(plan, e, loc, u, otime, w0, w1, stats)


def check_amps(plan, e, loc, u, ev, otime, xyz, gl, picks, mod, stats, cov=None):
    from obspy.geodetics import gps2dist_azimuth
    o, sr = plan["opt"], e.sr
    with open(os.path.join(loc, "amplitudes", u + ".amps")) as fh:
        h, rows = csv(fh.read())
    names = list(e.stations["Name"])
    lm = (o.get("ap") or {}).get("loc_method", "spline")
    if lm == "gaussian":
        xyz = [float(ev[f"GAU_{c}"]) for c in "XYZ"]
        gl = grid_of(e, xyz)
    if lm == "covariance" and cov is not None:
        xyz, lm = cov, "saved"
        gl = grid_of(e, xyz)
    if len(rows) != 3 * len(names):
        raise Violation("amps", f"event {u}: {len(rows)} amplitude rows for {len(names)} stations")
    has_pick = {p["Station"] for p in picks if p["PickTime"] != "-1"}
    seen = set()
    for r in rows:
        if r["id"] in seen:
            raise Violation("amps", f"event {u}: {r['id']} appears twice")
        seen.add(r["id"])
        s = r["id"].split(".")[1]
        st = e.stations[e.stations["Name"] == s].iloc[0]
        d = gps2dist_azimuth(xyz[1], xyz[0], st["Latitude"], st["Longitude"])[0] / 1000
        if lm != "covariance" and abs(d - float(r["epi_dist"])) > 1e-3 + 1e-4 * d:
            raise Violation("amps", f"event {u}: distance of {r['id']} is {r['epi_dist']}, position gives {d}")
        z = (xyz[2] - st["Elevation"]) / (1000.0 if plan["w"]["unit"] == "m" else 1.0)
        if lm != "covariance" and abs(z - float(r["z_dist"])) > 2e-3 + 1e-4 * abs(z):
            raise Violation("amps", f"event {u}: vertical distance of {r['id']} is {r['z_dist']}, position gives {z}")
        if r["P_amp"] or r["S_amp"]:
            if (r["is_picked"] == "True") != (s in has_pick):
                raise Violation("amps", f"event {u}: {r['id']} is_picked={r['is_picked']}, picks file has picks for {sorted(has_pick)}")
        for ph in "PS":
            if not r[f"{ph}_time"]:
                continue
            at = UTCDateTime(r[f"{ph}_time"])
            tt = {q: tt_at(e, s, q, gl) for q in "PS"}
            # the window holds the arrival +- its uncertainty; picks may move it by as much again
            half = tt[ph] * (e.lut.fraction_tt + max(e.lut.fraction_tt, o.get("pick_frac") or 0)) + 2 * o["mw"] + 3.0 / sr
            a, b = otime + tt[ph] - half, otime + tt[ph] + half + o["sig"]
            for p in picks:                      # (made about the arrival from another estimate of the location)
                if lm != "spline" and p["Station"] == s and p["Phase"] == ph and p["PickTime"] != "-1":
                    a, b = min(a, UTCDateTime(p["PickTime"]) - half), max(b, UTCDateTime(p["PickTime"]) + half + o["sig"])
            if not a <= at <= b:
                raise Violation("amps", f"event {u}: {ph} amplitude of {r['id']} measured at {at}, outside {a} - {b}")
            stats["amps"] = stats.get("amps", 0) + 1
    n = np.array(e.lut.node_count)
    if lm in ("spline", "saved", "gaussian") and (np.abs(np.abs(gl - np.rint(gl)) - 0.5) > 2e-3).all() and (gl > -0.49).all() and (gl < n - 0.51).all():
        AMP.check(u, plan, e, rows, otime, lambda e, s, q: tt_at(e, s, q, gl), picks, correct, stats)
    M.check(u, h, rows, ev, o.get("mp") or dict(A0="Hutton-Boore"), stats)


def truth(ch, t0):
    """{(rate, offset): {sample number: set of stored values}} of one channel."""
    out = {}
    for sr, off, n0, d in ch.pieces:
        m = out.setdefault((sr, round(off, 6)), {})
        for k, v in enumerate(d.tolist()):
            m.setdefault(n0 + k, set()).add(v)
    return out


def check_waves(plan, e, loc, u, otime, w0, w1, stats):
    o = plan["opt"]
    pre, post = o["pre"], o["post"]
    raw = None
    lo = otime - pre if pre else w0
    hi = otime + post if post else w1
    p = os.path.join(loc, "raw_cut_waveforms", u + ".m")
    if o["raw"]:
        raw = read(p) if os.path.exists(p) else []
        check_raw(plan, e, u, raw, lo, hi, bool(pre), bool(post), stats)
    for kind in ("real", "wa"):
        if not o[kind]:
            continue
        units = o[f"{kind}_units"]
        p = os.path.join(loc, f"{kind}_cut_waveforms", u + ".m")
        st = read(p) if os.path.exists(p) else []
        bad = {(f["sta"], f["comp"]) for f in plan["rfaults"]
               if f["kind"] != "nopaz" or not o["full_resp"] or True}
        if raw is not None:
            want = {key(x) for x in raw if (x.stats.station, x.stats.channel[-1]) not in bad and x.data.max() != x.data.min()}
            got = [key(x) for x in st]
            if set(want) != set(got):            # channels stored twice with conflicting values come in several copies
                raise Violation("waveforms", f"event {u}: {kind} waveforms lack {sorted(set(want) - set(got))} and have {sorted(set(got) - set(want))} beyond "
                                "the raw ones that have a response")
        for x in st:
            # (several raw ones where conflicting values are stored)
            src = [r for r in (raw if raw is not None else [rebuild(e, x)]) if r is not None and key(r) == key(x)]
            if any(np.abs(AMP.detrend(r.data)).max() < 1e-6 * np.abs(r.data).max() for r in src):
                continue                         # (a trend and nothing else: only rounding errors are left)
            bad = []
            for r in src:
                w = correct(plan, r, kind, units)
                m = np.abs(w.data).max()
                if len(w.data) == len(x.data) and np.abs(w.data - x.data).max() <= 1e-5 * m:
                    break
                bad.append(f"{np.abs(w.data - x.data).max() if len(w.data) == len(x.data) else 'length'} of {m}")
            else:
                if bad:
                    raise Violation("waveforms", f"event {u}: {kind} waveform of {x.id} is not the raw one in {units} (largest difference {bad[-1]})")
                continue
            stats["corrected_waveforms"] = stats.get("corrected_waveforms", 0) + 1


def key(x):
    return (x.id, str(x.stats.starttime), x.stats.npts)


def rebuild(e, x):
    for ch in e.chans:
        if (ch.sta, ch.chan) == (x.stats.station, x.stats.channel):
            for (sr, off), m in truth(ch, e.t0).items():
                if abs(sr - x.stats.sampling_rate) > 1e-6:
                    continue
                k0 = R.rint((x.stats.starttime - e.t0) * sr - off)
                v = [m.get(k0 + j) for j in range(x.stats.npts)]
                if all(q is not None and len(q) == 1 for q in v):
                    v = [next(iter(q)) for q in v]
                    if len({type(q) for q in v}) > 1:
                        return None
                    return Trace(np.array(v, np.int32 if isinstance(v[0], int) else np.float64), header=x.stats)
    return None


def correct(plan, raw, kind, units):
    o = plan["opt"]
    tr = raw.copy()
    if kind == "wa":
        tr.detrend("linear")
    tr.detrend("linear")
    pf = (0.05, 0.1, 0.4 * plan["cfg"]["sr"], 0.45 * plan["cfg"]["sr"]) if o["prefilt"] else None
    kw = dict(pre_filt=pf, water_level=60.0, taper=True)
    if o["full_resp"]:
        inv = plan["_inv"]
        tr.remove_response(inventory=inv, output="VEL" if units == "velocity" else "DISP", **kw)
    else:
        resp = plan["_inv"].get_response(tr.id, tr.stats.starttime)
        paz = copy.deepcopy(resp.get_paz())
        z = [0j, 0j] + ([] if units == "velocity" else [0j])
        tr.simulate(paz_remove=dict(poles=paz.poles, zeros=z, gain=paz.normalization_factor, sensitivity=resp.instrument_sensitivity.value), sacsim=True, pitsasim=False, **kw)
    if kind == "wa":
        tr.simulate(paz_simulate=dict(poles=[-6.283185 - 4.712j, -6.283185 + 4.712j], zeros=[0j, 0j], sensitivity=2080, gain=1.0),
                    sacsim=True, pitsasim=False, **kw)
    return tr


def check_raw(plan, e, u, raw, lo, hi, exact_lo, exact_hi, stats):
    by = {}
    for x in raw:
        by.setdefault(x.id, []).append(x)
    chans = {f"XX.{c.sta}..{c.chan}": c for c in e.chans}
    for i in by:
        if i not in chans:
            raise Violation("raw", f"event {u}: waveform of unknown channel {i}")
    for i, ch in chans.items():
        tr = truth(ch, e.t0)
        if len({(str(d.dtype)) for _, _, _, d in ch.pieces}) > 1:
            continue
        seen = {}
        for x in by.get(i, []):
            sr = x.stats.sampling_rate
            ok = False
            for (s, off), m in tr.items():
                if abs(s - sr) > 1e-6:
                    continue
                kf = (x.stats.starttime - e.t0) * s - off
                k0 = R.rint(kf)
                if abs(kf - k0) > 2e-4 * s:
                    continue
                v = x.data.tolist()
                if all(q in m.get(k0 + j, ()) for j, q in enumerate(v)):
                    ok = True
                    seen.setdefault((s, off), set()).update(range(k0, k0 + len(v)))
                    for k, lim, out in ((k0, exact_lo, lambda t: t < lo - 0.51 / s), (k0 + len(v) - 1, exact_hi, lambda t: t > hi + 0.51 / s)):
                        at = e.t0 + (k + off) / s
                        if lim and out(at):
                            raise Violation("raw", f"event {u}: {i} has a sample at {at}, outside the requested window {lo} - {hi}")
                    break
            if not ok:
                raise Violation("raw", f"event {u}: the cut waveform {x} is not what the archive holds")
            stats["raw_samples"] = stats.get("raw_samples", 0) + x.stats.npts
        ambiguous = any(len(q) > 1 for m in tr.values() for q in m.values()) or len(tr) > 1
        if ambiguous:
            continue
        for (s, off), m in tr.items():
            a = int(np.ceil((lo - e.t0) * s - off + 0.01))
            b = int(np.floor((hi - e.t0) * s - off - 0.01))
            miss = [k for k in range(a, b + 1) if k in m and k not in seen.get((s, off), ())]
            if miss:
                raise Violation("raw", f"event {u}: {i} lacks {len(miss)} archived samples of the window {lo} - {hi}, first at {e.t0 + (miss[0] + off) / s}")


def execute(plan, scratch):
    e = P.setup(plan, scratch)
    plan["_inv"] = P.inventory(e.stations, (), e.t0, plan.get("epochs", ()))
    times = P.trig_times(plan, e)
    o = plan["opt"]

    def job(k, opt, **kw):
        e.runs = os.path.join(scratch, f"j{k}")
        os.makedirs(os.path.join(e.runs, "run"))
        P.write_triggers(e, times, "run", run_dir=os.path.join(e.runs, "run"))

        def inner():
            with Sim(scratch, ticks=plan["ticks"], list_seed=plan["list_seed"]):
                P.locate(plan, e, "run", opt=opt, **kw)
        try:
            in_child(inner)
        except Exception as x:  # noqa
            raise Violation("aborted", f"locate with options {opt} stopped with {brief(x)}")
        return Rs.canon(os.path.join(e.runs, "run"))
    base = job("b", {})
    ev = by_event(base)
    stats = {"events": len(times)}
    for t in times:
        if any(k.endswith(".event") for k in ev.get(P.uid(t), {})):
            stats["located"] = stats.get("located", 0) + 1
            check_event(plan, e, os.path.join(scratch, "jb", "run"), t, stats)
    for f in plan["flips"]:
        opt, kw, hide = {}, {}, ()
        if f in ("raw", "real", "wa", "coa", "mcoa"):
            opt[f] = not o[f]
            hide = {"raw": ("raw_cut",), "real": ("real_cut",), "wa": ("wa_cut",), "coa": ("locate/coalescence",), "mcoa": ("marginalised",)}[f]
        elif f == "units":
            opt = {k: "velocity" if o[k] == "displacement" else "displacement" for k in ("real_units", "wa_units")}
            hide = ("real_cut", "wa_cut")
        elif f == "threads":
            kw["threads"] = 3
        elif f == "seed_ids":
            opt[f] = not o[f]
            hide = (".picks",)
        elif f == "pre":
            opt = dict(pre=None if o["pre"] else 7.0, post=None if o["post"] else 9.0)
            hide = ("_cut_",)
            if o["mags"] and abs((o["noise_window"] + o["mw"]) * e.sr % 1 - 0.5) < 1e-6:
                # the amplitude window starts half-way between two samples: which one is nearest is a tie
                hide = ("_cut_", ".amps", ".event")
        elif f == "plain":
            opt = dict(raw=False, real=False, wa=False, mags=False)
            hide = (".amps", ".event", "_cut_")
        elif f == "mags":
            opt[f] = not o[f]
            hide = (".amps", ".event") if o["pre"] and o["post"] else (".amps", ".event", "_cut_")
        other = job(f, opt, **kw)
        strip = lambda r: {k: v for k, v in r.items() if not any(h in k for h in hide)}
        d = Rs.diff(strip(base), strip(other), "before", f"after changing option {f}")
        if d:
            raise Violation("option", f"changing only option {f} changes another output: {d}")
        if f in ("mags", "plain"):
            for k in base:
                if k.endswith(".event"):
                    _, a = csv(base[k])
                    _, b = csv(other.get(k, base[k].splitlines()[0]))
                    if not b:
                        raise Violation("option", f"changing option {f} changes which events are located: {k}")
                    for c in a[0]:
                        if not c.startswith("ML") and a[0][c] != b[0].get(c):
                            raise Violation("option", f"changing option {f} changes {c} of {k}: {b[0].get(c)} instead of {a[0][c]}")
        stats["flips"] = stats.get("flips", 0) + 1
    plan.pop("_inv")
    faults = dict(e.applied)
    for f in plan["rfaults"]:
        faults["response_" + f["kind"]] = faults.get("response_" + f["kind"], 0) + 1
    return dict(digest=digest(base), key=digest(base), nontrivial=stats.get("located", 0) > 0, faults=faults, stats=stats,
                simtime=plan["span"] * (1 + len(plan["flips"])))


def shrink(plan):
    for i in range(len(plan["flips"])):
        yield dict(plan, flips=plan["flips"][:i] + plan["flips"][i + 1:])
    yield from P.shrink(plan)
