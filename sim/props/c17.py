"""C17: exported catalogues contain every located event once, unaltered."""
import contextlib
import csv
import os
import random
import re
import warnings
import numpy as np
from obspy import UTCDateTime, read
from .. import detect as D, pipe as P, world as W, results as Rs
from ..core import Violation, digest, in_child
from ..simos import Sim, Killed
from . import c03

LEVEL = "exploration"
CASES = {"quick": 220, "thorough": 9000}
RULE = ("seeded histories of 1-5 locate runs (killed, failing with EIO or ENOSPC, whole; other sub-runs, with and without magnitudes, fewer events) over one run "
        "directory; after each, the catalogue is exported (also with read errors) and with it NonLinLoc, Snuffler and SAC files, and compared with the "
        "files of undisturbed runs, parsed independently; non-trivial if a run was disturbed or repeated and an event exported; distinct by digest of the "
        "operation logs and exports")
REAL = ["quakemigrate.export.to_obspy, to_nlloc, to_snuffler, to_mfast", "quakemigrate locate with all its result files"]
STUB = ["file open/write/rename/list layer and process death (simulated OS)", "clock", "archive contents (generated)"]
ASSUME = ["the process is killed or an operation fails; the machine keeps running", "rounding of the result files (e.g. three digits of uncertainties) is theirs, not the export's"]


def gen(rng, i, tier):
    p = P.gen(rng, nev=rng.choice([1, 2, 2, 3]), faults=rng.choice([0, 1, 2, 4]), nsta=4)
    D.resample(rng, p)
    p["rfaults"] = [f for f in p["rfaults"] if f["kind"] == "missing"]
    p["opt"].update(raw=rng.random() < 0.75, coa=False, mcoa=False, wa=rng.random() < 0.2, real=rng.random() < 0.2, all_sta=False)
    subs = rng.choice([[""], [""], ["s1"], ["", "s1"]])
    p["hist"] = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        p["hist"].append(dict(sub=rng.choice(subs), mags=p["opt"]["mags"] if rng.random() < 0.7 else not p["opt"]["mags"],
                              fault=rng.choice([None, "kill", "kill", "kill", "eio", "enospc"]), pos=round(rng.random(), 4),
                              frac=rng.choice([0.0, 0.0, 0.3, 0.6, 0.95, 1.0]), cut=rng.choice([0, 0, 0, 1]), bufsize=rng.choice([64, 512, 8192, None]),
                              rfault=rng.choice([None, None, None, round(rng.random(), 4)])))
    p["subs"] = subs
    if rng.random() < 0.3:
        P.rename(p, W.ODD_NAMES)
    return p


# ------------------------------------------------------------------ independent reading of the result files
def table(path):
    with open(path, newline="") as fh:
        rows = list(csv.reader(fh))
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def num(x):
    return float("nan") if x in ("", "nan", "NaN") else float(x)


def same(a, b, tol=1e-9):
    a, b = (float("nan") if v is None else float(v) for v in (a, b))
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def near(t, s, tol=2e-6):
    return t is not None and abs(t - UTCDateTime(s)) <= tol


def bad(what):
    raise Violation("export", what)


# ------------------------------------------------------------------ judging one export
def judge_event(ev, uid, d, unit, where):
    f = 1e3 if unit == "km" else 1.0
    e = table(os.path.join(d, "events", uid + ".event"))[0]
    for o, pre in zip(ev.origins, ("", "GAU_")):
        if not near(o.time, e["DT"]):
            bad(f"{where}: {o.method_id} origin time {o.time}, the event file says {e['DT']}")
        for name, got, want in (("longitude", o.longitude, num(e[pre + "X"])), ("latitude", o.latitude, num(e[pre + "Y"])), ("depth", o.depth, num(e[pre + "Z"]) * f),
                                ("depth error", o.depth_errors.uncertainty, num(e["GAU_ErrZ"]) * f),
                                ("longitude error", o.longitude_errors.uncertainty, num(e["GAU_ErrX"]) * f / 1e3 / 111.19492664455873),
                                ("latitude error", o.latitude_errors.uncertainty, num(e["GAU_ErrY"]) * f / 1e3 / 111.19492664455873)):
            if not same(got, want, 1e-6 if "tude error" in name else 1e-9):
                bad(f"{where}: {o.method_id} {name} {got}, the event file says {want}")
        c = o.origin_uncertainty.confidence_ellipsoid
        got = [c.semi_major_axis_length, c.semi_intermediate_axis_length, c.semi_minor_axis_length]
        want = [num(e[f"COV_Err{q}"]) * f for q in "YXZ"]
        if not all(same(x, y) for x, y in zip(sorted(got, key=str), sorted(want, key=str))) and not all(same(x, y) for x, y in zip(got, want)):
            bad(f"{where}: {o.method_id} ellipsoid with axes {got}, the event file says {want}")
    if len(ev.origins) != 2 or ev.preferred_origin() is None or not near(ev.preferred_origin().time, e["DT"]) or ev.preferred_origin().method_id.id[-6:] != "spline":
        bad(f"{where}: origins {[str(o.method_id) for o in ev.origins]}, preferred {ev.preferred_origin_id}")
    for k in ("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"):
        if not same(ev.extra[k.lower()].value, num(e[k])):
            bad(f"{where}: {k} {ev.extra[k.lower()].value}, the event file says {e[k]}")
    # picks
    rows = table(os.path.join(d, "picks", uid + ".picks"))
    want = []
    for r in rows:
        want.append((r["Station"], r["Phase"], "modelled", r["ModelledTime"], None, None))
        if r["PickTime"] != "-1":
            want.append((r["Station"], r["Phase"], "autopick", r["PickTime"], num(r["PickError"]), num(r["SNR"])))
    got = list(ev.picks)
    if len(got) != len(want):
        bad(f"{where}: {len(got)} picks, the picks file gives {len(want)}")
    for w in want:
        m = [q for q in got if q.waveform_id.station_code == w[0] and q.phase_hint == w[1] and str(q.method_id).endswith(w[2])]
        if len(m) != 1 or not near(m[0].time, w[3]):
            bad(f"{where}: {w[2]} {w[1]} pick at {w[0]} should be at {w[3]}, exported {[str(q.time) for q in m]}")
        if w[4] is not None and not (same(m[0].time_errors.uncertainty, w[4]) and same(m[0].extra.snr.value, w[5])):
            bad(f"{where}: {w[1]} pick at {w[0]} with error {w[4]} and SNR {w[5]}, exported {m[0].time_errors.uncertainty} and {m[0].extra.snr.value}")
    for sub, key in (("raw_cut", "cut"), ("real_cut", "real_cut"), ("wa_cut", "wa_cut")):
        p = os.path.realpath(os.path.join(d, sub + "_waveforms", uid + ".m"))
        if os.path.exists(p) and os.path.realpath(ev.extra.get(key + "_waveforms_file", {}).get("value", "")) != p:
            bad(f"{where}: the {sub} waveforms are in {p}, exported {ev.extra.get(key + '_waveforms_file')}")
    # magnitudes
    if "ML" not in e:
        if ev.magnitudes or ev.amplitudes or ev.station_magnitudes:
            bad(f"{where}: the event file holds no magnitude, {len(ev.magnitudes)} magnitudes and {len(ev.amplitudes)} amplitudes exported")
    else:
        if np.isnan(num(e["ML"])):
            if ev.magnitudes:
                bad(f"{where}: no magnitude was measured, {[m.mag for m in ev.magnitudes]} exported")
        elif len(ev.magnitudes) != 1 or not same(ev.magnitudes[0].mag, num(e["ML"])) or not same(ev.magnitudes[0].mag_errors.uncertainty, num(e["ML_Err"])):
            bad(f"{where}: magnitudes {[(m.mag, m.mag_errors.uncertainty) for m in ev.magnitudes]}, the event file says {e['ML']} +/- {e['ML_Err']}")
        amps = table(os.path.join(d, "amplitudes", uid + ".amps"))
        want = sorted((r["id"], ph, num(r[ph]) / 1e3) for r in amps for ph in ("P_amp", "S_amp") if not np.isnan(num(r[ph])))
        got = sorted((q.waveform_id.id, str(q.method_id).split("/")[-1], q.generic_amplitude) for q in ev.amplitudes)
        if [g[1] for g in got] != [w[1] for w in want] or not all(same(g[2], w[2]) and g[0] == w[0] for g, w in zip(got, want)):
            bad(f"{where}: amplitudes {got[:4]}, the file says {want[:4]} ({len(got)} and {len(want)} in all)")
        ids = {q.resource_id: q for q in ev.amplitudes}
        got = sorted((ids[m.amplitude_id].waveform_id.id, m.mag) for m in ev.station_magnitudes)
        want = sorted((r["id"], num(r["ML"])) for r in amps if not np.isnan(num(r["S_amp"])) and not np.isnan(num(r.get("ML", ""))))
        if len(got) != len(want) or not all(g[0] == w[0] and same(g[1], w[1]) for g, w in zip(got, want)):
            bad(f"{where}: station magnitudes {got[:4]}, the file says {want[:4]}")
        for q in ev.amplitudes:
            r, ph = next(r for r in amps if r["id"] == q.waveform_id.id), str(q.method_id).split("/")[-1][0]
            if not same(q.generic_amplitude_errors.uncertainty, num(r["Noise_amp"]) / 1e3) or not same(q.period, 1 / num(r[ph + "_freq"])) \
                    or not near(q.time_window.reference, r[ph + "_time"]) or any(
                        k in q.extra and not same(q.extra[k].value, num(r[f"{ph}_{k}"]) / u) for k, u in (("filter_gain", 1), ("avg_amp", 1e3))):
                bad(f"{where}: {ph} amplitude of {r['id']} with noise {q.generic_amplitude_errors.uncertainty}, period {q.period}, at {q.time_window.reference}, "
                    f"{dict(q.extra)}; the file says {r}")
        for m in ev.station_magnitudes:
            r = next(r for r in amps if r["id"] == ids[m.amplitude_id].waveform_id.id)
            if not same(m.mag_errors.uncertainty, num(r["ML_Err"])) or str(m.extra.picked.value) != r["is_picked"] or any(
                    not same(m.extra[k].value, num(r[k])) for k in ("epi_dist", "z_dist")):
                bad(f"{where}: station magnitude of {r['id']} {m.mag_errors.uncertainty} {dict(m.extra)}, the file says {r}")
        if ev.magnitudes and not same(ev.magnitudes[0].extra.r2.value, num(e["ML_r2"])):
            bad(f"{where}: r2 {ev.magnitudes[0].extra.r2.value}, the event file says {e['ML_r2']}")
        if ev.magnitudes and ev.magnitudes[0].station_count != len(want):
            bad(f"{where}: magnitude of {ev.magnitudes[0].station_count} stations, the file has {len(want)}")
    return rows, e


def judge_files(ev, uid, rows, e, d, out, stations, opt, where):
    """The NonLinLoc, Snuffler and SAC files made from one exported event."""
    from quakemigrate.export.to_nlloc import nlloc_obs
    from quakemigrate.export.to_snuffler import snuffler_markers, snuffler_stations
    from quakemigrate.export.to_mfast import sac_mfast
    n = 0
    for auto in (True, False):
        f = os.path.join(out, f"{uid}.{auto}.obs")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nlloc_obs(ev, f, autopick=auto)
        want = sorted((r["Station"], r["Phase"], UTCDateTime(r["PickTime" if auto else "ModelledTime"]), num(r["PickError"]) if auto else -1.0)
                      for r in rows if not auto or r["PickTime"] != "-1")
        got = []
        for ln in open(f):
            q = ln.split()
            got.append((q[0], q[4], UTCDateTime(q[6] + "T" + q[7]) + float(q[8]), float(q[10])))
        got.sort()
        if len(got) != len(want):
            bad(f"{where}: NonLinLoc file with {len(got)} phases, {len(want)} expected")
        for g, w in zip(got, want):
            if g[:2] != w[:2] or abs(g[2] - w[2]) > 6e-5 or not same(g[3], w[3], 6e-3):
                bad(f"{where}: NonLinLoc file gives {[str(x) for x in g]} for {[str(x) for x in w]}")
        n += len(got)
    sta = stations.copy()
    sta["Network"] = [f"X{i}" for i in range(len(sta))]
    for net in (None, "QQ"):
        snuffler_stations(sta, out, "stations.txt", network_code=net)
        for ln, (_, s) in zip(open(os.path.join(out, "stations.txt")).read().splitlines(), sta.iterrows(), strict=True):
            q = ln.split()
            if q[0] != f"{net or s['Network']}.{s['Name']}." or float(q[1]) != s["Latitude"] or float(q[2]) != s["Longitude"]:
                bad(f"{where}: Snuffler station line {ln!r} for {dict(s)}")
    snuffler_markers(ev, out)
    lines = open(os.path.join(out, uid, uid + ".markers")).read().splitlines()[1:]
    want = [("event:", uid, UTCDateTime(e["DT"]))]
    for r in rows:
        want.append((r["Station"], r["Phase"], UTCDateTime(r["ModelledTime"])))
        if r["PickTime"] != "-1":
            want.append((r["Station"], r["Phase"], UTCDateTime(r["PickTime"])))
    if len(lines) != len(want):
        bad(f"{where}: {len(lines)} Snuffler markers, {len(want)} expected")
    for ln, w in zip(lines, want):
        q = ln.split()
        t = UTCDateTime(q[1] + "T" + q[2])
        ok = q[0] == "event:" and q[4] == w[1] if w[0] == "event:" else (q[0] == "phase:" and q[4].split(".")[1] == w[0] and q[8] == w[1])
        if not ok or abs(t - w[2]) > 2e-6:
            bad(f"{where}: Snuffler marker {ln!r} for {[str(x) for x in w]}")
    n += len(lines)
    m = os.path.join(d, "raw_cut_waveforms", uid + ".m")
    if opt["raw"] and os.path.exists(m):
        sac_mfast(ev, stations, out, opt["unit"])
        st = read(m, format="MSEED")
        files = {f for f in os.listdir(os.path.join(out, uid)) if not f.endswith(".markers")}
        for r in stations["Name"]:
            t = {ph: next((UTCDateTime(q["PickTime"] if q["PickTime"] != "-1" else q["ModelledTime"]) for q in rows if q["Station"] == r and q["Phase"] == ph), None) for ph in "PS"}
            for c in "ZNE":
                f = f"{uid}.{r}.{c.lower()}"
                trs = [x for x in st if x.stats.station == r and x.stats.channel.endswith(c)]
                if not trs or t["S"] is None:
                    if f in files:
                        bad(f"{where}: SAC file {f}, but there are no data or no S pick")
                    continue
                if f not in files:
                    bad(f"{where}: no SAC file {f}")
                s = read(os.path.join(out, uid, f), format="SAC")[0]
                h = s.stats.sac
                ref = s.stats.starttime - h.b
                for key, w in (("t0", t["S"]), ("a", t["P"]), ("o", UTCDateTime(e["DT"]))):
                    if w is not None and (key not in h or abs(ref + float(h[key]) - w) > 2e-3):
                        bad(f"{where}: SAC file {f} has {key} at {ref + float(h[key]) if key in h else None}, should be {w}")
                if not any(len(x) == len(s) and np.array_equal(np.asarray(x.data, np.float32), s.data) and abs(x.stats.starttime - s.stats.starttime) < 2e-3 for x in trs):
                    bad(f"{where}: SAC file {f} does not hold the cut waveform")
                n += 1
    return n


def export(p, e, runs, sub, scratch, k, mfast_ok=True):
    """Export sub-run `sub` and judge it against its files."""
    from quakemigrate.export.to_obspy import read_quakemigrate
    rd = os.path.join(runs, "run")
    where = f"export of sub-run '{sub}' after run {k}"
    try:
        cat = read_quakemigrate(rd, p["w"]["unit"], run_subname=sub)
    except Exception as x:  # noqa
        import traceback
        raise Violation("raised", f"{where} stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
    d = os.path.join(rd, "locate", sub)
    evd = os.path.join(d, "events")
    files = sorted(f[:-6] for f in os.listdir(evd) if f.endswith(".event")) if os.path.isdir(evd) else []
    ids = sorted(str(ev.resource_id).split("/")[-1] for ev in cat)
    if ids != files:
        bad(f"{where}: catalogue holds {ids}, there are event files {files}")
    n = 0
    out = os.path.join(scratch, f"exp{k}{sub}")
    os.makedirs(out)
    for ev in cat:
        uid = str(ev.resource_id).split("/")[-1]
        w = f"{where}, event {uid}"
        rows, row = judge_event(ev, uid, d, p["w"]["unit"], w)
        try:
            n += judge_files(ev, uid, rows, row, d, out, e.stations, dict(raw=p["opt"]["raw"] and mfast_ok, unit=p["w"]["unit"]), w)
        except Violation:
            raise
        except Exception as x:  # noqa
            import traceback
            raise Violation("raised", f"{w} to other formats stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
    return files, n


def run_one(p, e, runs, h, faults, scratch):
    q = P.make_locate(p, e, "run", h["sub"], dict(mags=h["mags"]))
    ts = P.trig_times(p, e)
    a, b = P.span_days(p, e)
    if h["cut"] and len(ts) > 1:
        b = sorted(ts)[len(ts) // 2]
    with Sim(scratch, faults=faults, ticks=p["ticks"], list_seed=p["list_seed"], bufsize=h["bufsize"]) as sim, c03.quiet():
        try:
            q.locate(str(a), str(b))
            out = "ok"
        except Killed:
            out = "killed"
        except Exception as x:  # noqa
            out = type(x).__name__
    return out, sim


def execute(plan, scratch):
    p = plan
    e = P.setup(p, scratch)
    ts = P.trig_times(p, e)
    e.runs = os.path.join(scratch, "runs")

    def prepare(runs):
        for s in p["subs"]:
            P.write_triggers(e, ts, "run", s, run_dir=os.path.join(runs, "run"))
    refs, nops = {}, {}
    for sub, mags in sorted({(h["sub"], h["mags"]) for h in p["hist"]}):
        runs = os.path.join(scratch, f"ref{sub}{int(mags)}")
        prepare(runs)

        def whole():
            e.runs = runs
            out, sim = run_one(p, e, runs, dict(sub=sub, mags=mags, cut=0, bufsize=None), (), scratch)
            return out, sim.main.n_mut
        out, n = in_child(whole)
        if out != "ok":
            raise Violation("raised", f"an undisturbed locate stopped with {out}")
        refs[sub, mags] = Rs.canon(os.path.join(runs, "run"))
        nops[sub, mags] = n
    runs = os.path.join(scratch, "runs")
    prepare(runs)
    fired, logs, hist, total, exported = {}, [], [], 0, []
    stale = set()
    for k, h in enumerate(p["hist"]):
        n = nops[h["sub"], h["mags"]]
        f = [dict(node=0, at=int(h["pos"] * n), kind=h["fault"], frac=h["frac"])] if h["fault"] else []

        def attempt():
            e.runs = runs
            out, sim = run_one(p, e, runs, h, f, scratch)
            return out, sim.fired, digest(sim.oplog)
        out, fi, lg = in_child(attempt)
        logs.append(lg)
        hist.append(f"{'with' if h['mags'] else 'without'} magnitudes in '{h['sub']}': {out}")
        for x, v in fi.items():
            fired[x] = fired.get(x, 0) + v
        if out != "ok":
            stale.add(h["sub"])           # cut waveforms may be torn: their export is judged again once located whole
        elif not h["cut"]:
            stale.discard(h["sub"])
        now = Rs.canon(os.path.join(runs, "run"))
        for sub in p["subs"]:
            # what there is must be what some whole run writes
            for name, c in now.items():
                if name.startswith(os.path.join("locate", sub, "").replace("//", "/")) and name.endswith((".event", ".picks", ".amps")) and \
                        (sub or not name.startswith("locate/s1/")):
                    want = [r[name] for (s, m), r in refs.items() if s == sub and name in r]
                    if c not in want:
                        raise Violation("file", f"after [{'; '.join(hist)}] {name} holds {str(c)[-300:]!r}, which no whole run writes")
            files, m = in_child(lambda: export(p, e, runs, sub, scratch, k, sub not in stale))
            total += m
            exported.append(files)
            if h["rfault"] is not None:
                o = in_child(lambda: failing_export(p, e, runs, sub, scratch, h["rfault"], files, f"export of sub-run '{sub}' with a read error after [{'; '.join(hist)}]"))
                if o:
                    fired["eio_read"] = fired.get("eio_read", 0) + 1
    nev = sum(map(len, exported))
    return dict(digest=digest(logs, exported, total), key=digest(logs, exported), nontrivial=bool(nev and (fired or len(hist) > 1)), faults=fired,
                simtime=p["span"] * len(hist), stats=dict(locate_runs=len(hist), exports=len(exported), events_exported=nev, lines_and_sac_files_checked=total,
                                                          odd_station_names=int(bool(p["w"].get("names")))))


def failing_export(p, e, runs, sub, scratch, pos, files, where):
    """An export during which one read fails must fail, or be whole."""
    from quakemigrate.export.to_obspy import read_quakemigrate
    rd = os.path.join(runs, "run")
    with Sim(scratch, raw_reads=True) as sim:
        read_quakemigrate(rd, p["w"]["unit"], run_subname=sub)
        n = sim.main.n_ops
    with Sim(scratch, raw_reads=True, faults=[dict(node=0, at="r:%d" % (1 + int(pos * n)), kind="eio")]) as sim:
        try:
            cat = read_quakemigrate(rd, p["w"]["unit"], run_subname=sub)
        except OSError:
            return bool(sim.fired)
        except Exception as x:  # noqa
            raise Violation("raised", f"{where} stopped with {type(x).__name__}: {x}")
    ids = sorted(str(ev.resource_id).split("/")[-1] for ev in cat)
    if ids != files:
        bad(f"{where} reports success with {ids}, there are event files {files}")
    return bool(sim.fired)


def shrink(plan):
    hs = plan["hist"]
    if len(hs) > 1:
        for i in range(len(hs)):
            yield dict(plan, hist=hs[:i] + hs[i + 1:])
    for i, h in enumerate(hs):
        for k, v in (("fault", None), ("rfault", None), ("cut", 0), ("bufsize", None), ("frac", 0.0)):
            if h[k] != v:
                yield dict(plan, hist=hs[:i] + [dict(h, **{k: v})] + hs[i + 1:])
    yield from P.shrink(plan)
