"""C18: plots show the results they belong to, and never change or stop anything else."""
import contextlib
import io
import os
import numpy as np
from obspy import UTCDateTime
from .. import stages as G, detect as D, pipe as P, trig as T, refmodel as R, results as Rs, mags as M, world as W
from ..core import Violation, digest, in_child
from ..simos import Sim, Killed
from .c09 import by_event, expect
from .c10 import csv, grid_of

LEVEL = "exploration"
CASES = {"quick": 200, "thorough": 6000}
RULE = ("seeded trigger stages (saved-coalescence histories with gaps, station availability of none, some or all days) and locate stages (archive and "
        "response faults, all options), run without plots, with all plots, and with plots and a fault (kill, ENOSPC, EIO, short write) at a seeded file "
        "operation of the plotting, then again; result files compared, what every figure shows compared with the result files; non-trivial if a figure "
        "was made; distinct by digest of results and figures")
REAL = ["quakemigrate trigger and locate with plot.trigger, plot.event, plot.phase_picks, plot.amplitudes and LUT.plot", "Matplotlib"]
STUB = ["clock, directory order, file layer and process death (simulated OS)", "archive contents, saved coalescence and availability files (generated)",
        "rendering of most figures to PDF (every case renders some for real)"]
ASSUME = ["the lines, points and texts of a figure at the time it is saved are what it shows", "a plot left by an interrupted run may be damaged"]
KINDS = {"trigger": ["_Trigger.pdf"], "locate": ["_EventSummary.pdf"]}


def gen(rng, i, tier):
    st = rng.choice(["trigger", "trigger", "locate", "locate", "locate"])
    if st == "trigger":
        p = G.gen_trigger(rng)
        a, b = p["per"]
        sr = p["sr"]
        if rng.random() < 0.4:
            m = rng.choice(["mad", "median_ratio"])
            p["tp"].update(method=m, window=rng.choice([33.3, 60.0, 3600.0]) * (20 if sr == 1 else 1), mult=rng.choice([8.0, 20.0] if m == "mad" else [1.2, 1.5]))
        if rng.random() < 0.3:
            p["tp"].update(smooth=True, sigma=rng.choice([0.1, 0.2]) if sr > 1 else 2.0)
        if rng.random() < 0.35:
            c = rng.choice([0.0, -10.0, 12.5]) if sr > 1 else rng.choice([0.0, 3000.0])
            p["segs"] = [[a, c], [c + (4.0 if sr > 1 else 500.0), b]] if a < c < b - 5 else p["segs"]
        ph = rng.choice([["P", "S"], ["P", "S"], ["P"], ["S"]])
        p["avail"] = dict(days=[rng.random() < rng.choice([1, 1, 0.5, 0]) for _ in range(4)], phases=ph, same=rng.random() < 0.4,
                          seed=rng.randrange(10 ** 6), step=rng.choice([10.0, 60.0, 700.0]))
        if rng.random() < 0.3:
            p["tp"]["region"] = [9.0, 44.0, -1e5, rng.choice([10.004, 10.2]), 46.0, 1e5]
    else:
        p = P.gen(rng, nev=rng.choice([1, 1, 2]), faults=rng.choice([0, 1, 2, 4]), nsta=rng.choice([3, 4, 5]))
        D.resample(rng, p)
        p["stage"] = "locate"
        p["sub"] = rng.choice(["", "", "s1"])
        p["opt"]["fmt"] = "MSEED"
        for k in ("coa", "mcoa"):
            p["opt"][k] = rng.random() < (0.3 if k == "coa" else 0.6)
        p["opt"]["mags"] = rng.random() < 0.7
        if rng.random() < 0.7:
            names = list(W.make_stations(p["w"]["nsta"], np.random.default_rng(p["w"]["wseed"]))["Name"])
            p["opt"]["ap"], p["opt"]["mp"] = M.gen(rng, names)
        p["rfaults"] = [f for f in p["rfaults"] if f["kind"] in ("missing", "nopaz")]
        p["show"] = dict(summary=rng.random() < 0.85, picks=rng.random() < 0.6, amps=rng.random() < 0.7)
    p["all_stns"] = rng.random() < 0.5
    p["xy"] = rng.random() < 0.3
    p["render"] = rng.randrange(6)
    p["fault"] = rng.choice([None, None, dict(pos=round(rng.random(), 3), kind=rng.choice(["kill", "kill", "enospc", "eio", "short"]),
                                              frac=rng.choice([0.0, 0.5]), sticky=rng.choice([0, 0, 1000]))])
    return p


# ------------------------------------------------------------------ recording
def floats(x):
    try:
        return np.asarray(x, float).ravel()
    except Exception:  # noqa
        return np.array([])


def contents(fig):
    out = []
    for ax in fig.axes:
        a = dict(lines=[], pts=[], texts=[t.get_text() for t in ax.texts] + [ax.get_title()],
                 at={t.get_text(): tuple(getattr(t, "xy", t.get_position())) for t in ax.texts},
                 ticks=dict(zip((t.get_text() for t in ax.get_yticklabels()), floats(ax.get_yticks()))))
        for ln in ax.lines:
            a["lines"].append((floats(ln.get_xdata(orig=False)), floats(ln.get_ydata(orig=False))))
        a["spans"], a["ellipses"], a["mesh"] = [], [], []
        for q in ax.patches:
            b = q.get_path().transformed(q.get_patch_transform()).get_extents()
            a["spans"].append((float(b.x0), float(b.x1)))
            if hasattr(q, "get_center") and b.width and b.height:
                a["ellipses"].append(tuple(float(x) for x in (*q.get_center(), b.width, b.height)))
        for c in ax.collections:
            if hasattr(c, "_coordinates") and c.get_array() is not None:
                k = np.asarray(c._coordinates, float)
                v = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan)
                if v.size == (k.shape[0] - 1) * (k.shape[1] - 1):
                    k = (k[1:, 1:] + k[:-1, 1:] + k[1:, :-1] + k[:-1, :-1]) / 4
                if v.size == k.shape[0] * k.shape[1]:
                    a["mesh"].append(np.column_stack([k.reshape(-1, 2), v.ravel()]))
                continue
            o = c.get_offsets() if hasattr(c, "get_offsets") else None
            if o is not None and len(o):
                a["pts"].append(np.ma.filled(np.ma.asarray(o, float), np.nan))
        out.append(a)
    return out


class Recorder:
    """Notes what every saved figure shows; renders figure number `render` for real."""

    def __init__(self, root, render):
        self.root, self.render, self.shown, self.n = root, render, {}, 0

    def __enter__(self):
        from matplotlib.figure import Figure
        self.F, self.real = Figure, Figure.savefig
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.n += 1
            if isinstance(fname, (str, os.PathLike)):
                rec.shown[os.path.relpath(os.fspath(fname), rec.root)] = contents(fig)
                if (rec.n - 1) % 6 != rec.render:
                    with open(os.fspath(fname), "wb") as fh:
                        fh.write(b"%PDF-1.4 not rendered " + b"x" * 20000)
                        fh.write(b"\n%%EOF\n")
                    return None
            return rec.real(fig, fname, *a, **k)
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.F.savefig = self.real


class Job(G.Stage):
    def fresh(self, k):
        super().fresh(k)
        if self.st == "trigger":
            self.write_avail(self.run_dir(k))

    def write_avail(self, run_dir):
        import pandas as pd
        v, h = self.plan["avail"], self.h
        rng = np.random.default_rng(v["seed"])
        self.avail = {}
        d = os.path.join(run_dir, "detect", "availability")
        a, b = self.plan["segs"][0][0], self.plan["segs"][-1][1]
        names = list(self.lut.station_data["Name"])
        n = int((b - a) / v["step"]) + 1
        rows = {}
        for k in range(n):
            t = h.day + a + k * v["step"]
            P_ = rng.integers(0, 2, len(names)) if rng.random() < .8 else np.ones(len(names), int) * int(rng.integers(0, 2))
            S_ = P_ if v["same"] else rng.integers(0, 2, len(names))
            rows.setdefault((t.year, t.julday), []).append((t, dict(P=P_, S=S_)))
        for i, (day, rr) in enumerate(sorted(rows.items())):
            if not v["days"][i % 4]:
                continue
            os.makedirs(d, exist_ok=True)
            cols = [f"{s}_{q}" for s in names for q in v["phases"]]
            df = pd.DataFrame([[int(x[q][names.index(s)]) for s in names for q in v["phases"]] for _, x in rr], columns=cols,
                              index=[str(t) for t, _ in rr])
            df.to_csv(os.path.join(d, f"{day[0]}_{day[1]:03d}_StationAvailability.csv"))
            self.avail[day] = (df, names)

    def run_plots(self, k, on):
        p = self.plan
        kw = {}
        if on and p["xy"]:
            kw["xy_files"] = os.path.join(self.scratch, "xy.csv")
        if self.st == "trigger":
            s, t = self.h.day + p["per"][0], self.h.day + p["per"][1]
            tr = T.make_trigger(self.lut, self.runs(k), "run", p["tp"], p["sub"], **kw)
            tr.plot_trigger_summary, tr.plot_all_stns = on, p["all_stns"]
            tr.trigger(str(s), str(t), region=p["tp"]["region"])
        else:
            self.e.runs = self.runs(k)
            q = P.make_locate(p, self.e, "run", p["sub"], plot_all_stns=p["all_stns"], **kw)
            if on:
                q.plot_event_summary = p["show"]["summary"]
                q.picker.plot_picks = p["show"]["picks"]
                if q.mags is not None:
                    q.mags.plot = p["show"]["amps"]
            s, t = P.span_days(p, self.e)
            q.locate(str(s), str(t))

    def go(self, k, on, faults=()):
        """One run in a process of its own: (outcome, figures, fired, operations)."""
        def inner():
            p = self.plan
            with Recorder(self.run_dir(k), p["render"]) as rec, \
                    Sim(self.scratch, faults=faults, ticks=p.get("ticks", [0.0]), list_seed=p["list_seed"]) as sim, \
                    contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    self.run_plots(k, on)
                    out = "ok"
                except Killed:
                    out = "killed"
                except Exception as x:  # noqa
                    import traceback
                    tb = [ln.strip() for ln in traceback.format_exc().splitlines() if "quakemigrate" in ln]
                    out = f"{type(x).__name__}: {x} ({tb[-1] if tb else ''})"
            import matplotlib.pyplot as plt
            return out, rec.shown, sim.fired, sim.oplog, plt.get_fignums()
        return in_child(inner)


def name(plan):
    return "run_" + plan["sub"] if plan["sub"] else "run"


def num(t):
    """Matplotlib's date number of a time."""
    return t._ns / 86400e9


def has_vline(fig, t, tol=2e-4, ax=None):
    d, tol = num(t), tol / 86400
    return any(len(x) == 2 and abs(x[0] - d) < tol and abs(x[1] - d) < tol for a in (fig if ax is None else [ax]) for x, _ in a["lines"])


def has_span(fig, x, y, tol=2e-4):
    """(x or y None: whatever time; a window may be longer than the interval.)"""
    def near(p, t):
        return t is None or abs(p - num(t)) * 86400 < tol
    return any(near(p, x) and near(q, y) or near(q, x) and near(p, y) for a in fig for p, q in a["spans"])


def has_series(fig, y, tol, x0=None):
    for a in fig:
        for x, v in a["lines"]:
            if len(v) == len(y) and np.all(np.abs(v - y) <= tol) and (x0 is None or abs(x[0] - num(x0)) * 86400 < 2e-3):
                return True
    return False


def text(fig):
    return "\n".join(t for a in fig for t in a["texts"] if t)


# ------------------------------------------------------------------ oracles
def check_trigger(plan, g, res, shown, stats):
    h, tp = g.h, plan["tp"]
    s, t = h.day + plan["per"][0], h.day + plan["per"][1]
    for a, b in T.batches(s, t):
        stem = os.path.join("trigger", plan["sub"], "summaries", f"{name(plan)}_{a.year}_{a.julday:03d}_Trigger.pdf")
        ev = next((v for k, v in res.items() if k.endswith(T.fname("run", plan["sub"], a))), None)
        if stem not in shown:
            raise Violation("missing-plot", f"trigger returned normally without the summary plot {stem} (made: {sorted(shown)})")
        if ev is None:
            raise Violation("missing-plot", f"there is a plot {stem} but no triggered-events file")
        fig = shown[stem]
        sr = h.sr
        ka, kb = (a - tp["pad"] - h.day) * sr, (b + tp["pad"] - h.day) * sr
        lo, hi = max(0, int(np.ceil(ka - 1e-6)) - h.k0), min(len(h.have) - 1, int(np.floor(kb + 1e-6)) - h.k0)
        idx = np.flatnonzero(h.have[lo:hi + 1]) + lo
        for c in ("COA", "COA_N"):
            y = h.v[c][idx]
            if tp["smooth"]:
                y = T.smooth(y, sr, tp)
            if tp["norm"] == (c == "COA_N"):
                on = y
            if not has_series(fig, y, 1e-6, h.time(idx[0] + h.k0)):
                raise Violation("shows", f"{stem} does not show the saved {c} of its period ({len(y)} samples)")
        if not any(has_series([q], T.threshold(on, sr, tp), 1e-6) and has_series([q], on, 1e-6) for q in fig):
            raise Violation("shows", f"{stem} does not show the detection threshold ({tp['method']}) with the trace triggered on")
        want = [f"{tp['mw']} s", f"{tp['mei']} s"] + ([f"{tp['threshold']}"] if tp["method"] == "static" else [f"{tp['window']} s", f"{tp['mult']}x"])
        if not all(w in text(fig) for w in want):
            raise Violation("shows", f"{stem}: the summary does not name the parameters {want}: {text(fig)}")
        _, rows = csv(ev)
        tx = text(fig)
        if f"Triggered {len(rows)} event" not in tx:
            raise Violation("shows", f"{stem}: {len(rows)} events triggered, the plot says {[x for x in tx.splitlines() if 'Triggered' in x]}")
        for r in rows:
            if not has_vline(fig, UTCDateTime(r["CoaTime"])):
                raise Violation("shows", f"{stem} does not show event {r['EventID']} on the coalescence trace")
            c = UTCDateTime(r["CoaTime"])
            for what, x, y in (("minimum interval", r.get("MinTime"), c - tp["mw"]), ("marginal window", c - tp["mw"], c + tp["mw"]),
                               ("minimum interval", c + tp["mw"], r.get("MaxTime"))):
                x, y = (UTCDateTime(v) if isinstance(v, str) else v for v in (x, y))
                if not has_span(fig, x, y):
                    raise Violation("shows", f"{stem} does not show the {what} {x} - {y} of event {r['EventID']}")
        if rows:
            want = sorted((round(float(r["COA_X"]), 6), round(float(r["COA_Y"]), 6)) for r in rows)
            if not any(len(p) == len(rows) and sorted((round(x, 6), round(y, 6)) for x, y in p) == want for q in fig for p in q["pts"]):
                raise Violation("shows", f"{stem} does not show the triggered events at {want} on the map")
        reg = tp["region"]
        if reg is not None:
            boxes = [sorted({(round(float(x), 6), round(float(y), 6)) for x, y in zip(*ln)}) for q in fig for ln in q["lines"] if len(ln[0]) == 5]
            for i, j in ((0, 1), (0, 2), (2, 1)):
                if sorted({(reg[x], reg[y]) for x in (i, i + 3) for y in (j, j + 3)}) not in boxes:
                    raise Violation("shows", f"{stem} does not show the trigger region {reg} in {'XYZ'[i]} and {'XYZ'[j]}")
            both = T.batch_rows(h, tp, a, b, rest=True)
            if both is not None and [r["EventID"] for r in both[0]] == [r["EventID"] for r in rows]:
                for r in both[1]:
                    if not has_vline(fig, r["CoaTime"]) or not has_span(fig, r["MinTime"], r["MaxTime"]):
                        raise Violation("shows", f"{stem} does not show the event {r['EventID']} that was left out, {r['MinTime']} - {r['MaxTime']}")
                want = sorted((round(float(r["COA_X"]), 6), round(float(r["COA_Y"]), 6)) for r in both[1])
                if want and not any(len(p) == len(want) and sorted((round(x, 6), round(y, 6)) for x, y in p) == want for q in fig for p in q["pts"]):
                    raise Violation("shows", f"{stem} does not show the events left out at {want} on the map")
                stats["left_out"] = stats.get("left_out", 0) + len(both[1])
        stats["figures"] = stats.get("figures", 0) + 1
        # availability of the days of the batch, from their files
        days, d = [], UTCDateTime(a.date)
        last = b - (1 / sr if b == UTCDateTime(b.date) else 0)
        while d <= last:
            if (d.year, d.julday) in g.avail:
                days.append(g.avail[d.year, d.julday])
            d += 86400
        if days:
            names, ph = days[0][1], plan["avail"]["phases"]
            col = {q: np.concatenate([df[[f"{n}_{q}" for n in names]].values for df, _ in days]) for q in ph}
            same = len(ph) == 1 or (col["P"] == col["S"]).all()
            for q in ph[:1] if same else ph:
                y = col[q].sum(axis=1)
                y = np.append(y, y[-1])
                if not has_series(fig, y, 1e-9, UTCDateTime(days[0][0].index[0])):
                    raise Violation("shows", f"{stem} does not show the {q} availability {list(y)[:20]} of its days")
            stats["availability"] = stats.get("availability", 0) + 1
            used = [n for j, n in enumerate(names) if plan["all_stns"] or any(col[q][:, j].any() for q in ph)]
        else:
            used = list(g.lut.station_data["Name"])
        stations_on_map(plan, g.lut, fig, stem, used)


def stations_on_map(plan, lut, fig, stem, used):
    sd = lut.station_data
    got = {n for n in sd["Name"] if any(n in a["texts"] for a in fig)}
    if got != set(used):
        raise Violation("shows", f"{stem} shows the stations {sorted(got)} on the map instead of {sorted(used)}")
    for _, r in sd.iterrows():
        if r["Name"] in got and not any(np.allclose(a["at"].get(r["Name"], (np.nan, np.nan)), (r["Longitude"], r["Latitude"]), atol=1e-9) for a in fig):
            raise Violation("shows", f"{stem} shows station {r['Name']} at the wrong place")


def check_locate(plan, g, run_dir, res, shown, stats):
    e, o, show, cfg = g.e, plan["opt"], plan["show"], plan["cfg"]
    stem = os.path.join("locate", plan["sub"]) if plan["sub"] else "locate"
    per = by_event(res)
    want = set()
    for t in P.trig_times(plan, e):
        u = P.uid(t)
        files = per.get(u, {})
        evf = next((k for k in files if k.endswith(".event")), None)
        if evf is None:
            continue
        ev = csv(files[evf])[1][0]
        picks = csv(files[[k for k in files if k.endswith(".picks")][0]])[1]
        otime = UTCDateTime(ev["DT"])
        used = sorted({p["Station"] for p in picks})
        if show["summary"]:
            f = os.path.join(stem, "summaries", f"{name(plan)}_{u}_EventSummary.pdf")
            want.add(f)
            if f not in shown:
                raise Violation("missing-plot", f"event {u} was located without its summary plot (made: {sorted(shown)})")
            mf = os.path.join(run_dir, stem, "marginalised_coalescence_maps", u + ".npy")
            marg = np.load(mf) if o["mcoa"] else None
            check_summary(plan, e, f, shown[f], t, u, otime, ev, picks, used, marg, stats)
        if show["picks"]:
            for s in used:
                f = os.path.join(stem, "pick_plots", u, f"{u}_{s}.pdf")
                want.add(f)
                if f not in shown:
                    raise Violation("missing-plot", f"event {u} has picks of {s} but no pick plot of it (made: {sorted(shown)})")
                fig = shown[f]
                tx = text(fig)
                if u not in tx or s not in tx:
                    raise Violation("shows", f"{f} is not labelled with its event and station: {tx[:100]!r}")
                for p in picks:
                    if p["Station"] != s:
                        continue
                    if not has_vline(fig, UTCDateTime(p["ModelledTime"]), 2e-3):
                        raise Violation("shows", f"{f} does not show the modelled {p['Phase']} arrival {p['ModelledTime']}")
                    if p["PickTime"] != "-1":
                        if not has_vline(fig, UTCDateTime(p["PickTime"])):
                            raise Violation("shows", f"{f} does not show the {p['Phase']} pick {p['PickTime']}")
                        stats["picks_shown"] = stats.get("picks_shown", 0) + 1
                stats["figures"] = stats.get("figures", 0) + 1
        if o["mags"] and show["amps"]:
            f = os.path.join(stem, "amplitude_plots", f"{name(plan)}_{u}_AmpVsDistance.pdf")
            if ev["ML"] not in ("", "nan"):
                want.add(f)
                if f not in shown:
                    raise Violation("missing-plot", f"event {u} has a magnitude but no amplitude plot (made: {sorted(shown)})")
                fig = shown[f]
                if u not in text(fig):
                    raise Violation("shows", f"{f} is not labelled with its event")
                check_amps(f, fig, ev, csv(files[[k for k in files if k.endswith(".amps")][0]])[1], o.get("mp") or dict(A0="Hutton-Boore"))
                stats["figures"] = stats.get("figures", 0) + 1
    extra = {k for k in shown if k.endswith(".pdf")} - want
    if extra:
        raise Violation("foreign-plot", f"plots of nothing located or asked for: {sorted(extra)}")


def check_amps(f, fig, ev, amps, m):
    lines = [q for a in fig for q in a["lines"]]
    near = lambda a, b: np.abs(a - b) <= 2e-3 * np.abs(b)
    rows = M.model(amps, m)
    for r in rows:
        y = r["amp"] * 10 ** r["corr"]
        if np.isfinite(y) and np.isfinite(r["noise"]) and y > 0 and not any(len(x) == len(v) and np.any(near(x, r["dist"]) & near(v, y)) for x, v in lines):
            raise Violation("shows", f"{f} does not show the amplitude {y} of {r['id']} at {r['dist']} km")
    label = {}
    for r in rows:
        if r["used"] is None:
            return
        if r["used"]:
            label.setdefault(r["id"][:-1], []).append(r["id"][-1])
    tx = [t for a in fig for t in a["texts"]]
    for s, c in label.items():
        if f"{s}[{','.join(c)}]" not in tx:
            raise Violation("shows", f"{f} does not label the amplitudes used of {s}: {c} ({tx})")
    if m.get("dist_filter") and not any(len(x) == 2 and np.all(near(x, m["dist_filter"])) for x, v in lines):
        raise Violation("shows", f"{f} does not show the distance filter")


def check_summary(plan, e, f, fig, t, u, otime, ev, picks, used, marg, stats):
    o, sr, mw = plan["opt"], e.sr, plan["opt"]["mw"]
    tx = text(fig)
    if u not in tx:
        raise Violation("shows", f"{f} is not labelled with its event")
    if otime.strftime("%H:%M:%S.%f")[:12] not in tx:
        raise Violation("shows", f"{f} does not give the origin time {otime}: {tx[:300]!r}")
    if not has_vline(fig, otime):
        raise Violation("shows", f"{f} does not mark the origin time {otime}")
    names = list(e.stations["Name"])
    stations_on_map(plan, e.lut, fig, f, names if plan["all_stns"] else used)
    # the coalescence trace about the origin time: as long as the window, largest where the origin time is
    ok = False
    for a in fig:
        for x, y in a["lines"]:
            if len(y) < 3 or len(y) > R.rint(2 * mw * sr) + 2:
                continue
            j = int(np.argmax(y))
            if abs(x[j] * 86400e9 - otime._ns) < 2e6 and abs(y[j] - float(ev["COA"])) <= 1e-3 * abs(y[j]):
                ok = True
    if not ok:
        raise Violation("shows", f"{f} shows no coalescence trace that peaks at the origin time {otime} with {ev['COA']}")
    # modelled arrivals in the rows of their stations: those of one node of the grid, near the hypocentre
    rows = names if plan["all_stns"] else used
    gather = next((a for a in fig if set(a["ticks"]) & set(names)), None)
    if gather is None or set(gather["ticks"]) != set(rows):
        raise Violation("shows", f"{f} shows the stations {gather and sorted(gather['ticks'])} in the gather instead of {sorted(rows)}")
    near = None
    for ph in plan["cfg"]["phases"]:
        here = np.zeros(e.lut.traveltimes[names[0]][ph].shape, bool)
        for q in gather["pts"]:
            if len(q) != len(rows):
                continue
            fits = np.ones_like(here)
            for s_ in rows:
                x_ = q[np.abs(q[:, 1] - gather["ticks"][s_]) < 1e-6, 0]
                fits &= np.abs(e.lut.traveltimes[s_][ph] - (x_[0] * 86400 - otime._ns / 1e9)) < 2e-3 if len(x_) == 1 else False
            here |= fits
        near = here if near is None else near & here
    c = grid_of(e, [float(ev[k]) for k in "XYZ"])
    if near.any() and not any(np.all(np.abs(ijk - c) <= 3) for ijk in np.argwhere(near)):
        raise Violation("shows", f"{f}: the modelled arrivals are those of node {np.argwhere(near)[0]}, the hypocentre is at {c}")
    if not near.any():
        raise Violation("shows", f"{f}: the modelled arrivals are not those of their stations for any place in the grid")
    # the hypocentre: in words and as the crosshair of the map
    import re
    x, y, z = (float(ev[k]) for k in "XYZ")
    nums = {}
    for key, pat in (("Y", "(-?[0-9.e-]+)\u00b0N \u00b1 ([0-9.e-]+|nan) km"), ("X", "(-?[0-9.e-]+)\u00b0E \u00b1 ([0-9.e-]+|nan) km")):
        mt = re.search(pat, tx)
        if not mt:
            raise Violation("shows", f"{f} does not give the hypocentre: {tx[:300]!r}")
        nums[key] = float(mt.group(1))
    if abs(nums["X"] - x) > 1e-5 or abs(nums["Y"] - y) > 1e-5:
        raise Violation("shows", f"{f} gives the hypocentre {nums}, the event file X {x}, Y {y}")
    if not any(any(len(u_) == 2 and u_[0] == u_[1] and abs(u_[0] - x) < 1e-5 for u_, _ in a["lines"]) and
               any(len(v_) == 2 and v_[0] == v_[1] and abs(v_[0] - y) < 1e-5 for _, v_ in a["lines"]) for a in fig):
        raise Violation("shows", f"{f} does not mark the hypocentre {x}, {y} on the map")
    # the error ellipses and the slices of the marginalised map, each in its own section
    lut, h = e.lut, (x, y, z)
    tol = (1.5e-6, 1.5e-6, 0.51 if lut.unit_name == "m" else 0.51e-3)
    gau, err = ([float(ev[pre + k]) for k in "XYZ"] for pre in ("GAU_", "GAU_Err"))
    lim = np.asarray(lut.get_grid_extent(cells=True), float)
    side = None
    if np.isfinite(gau + err).all() and min(err) > 10 * tol[2]:
        side = 2 * np.abs(np.array(gau) - lut.coord2grid(lut.coord2grid(gau)[0] + np.array(err), inverse=True)[0])
    for i, j in ((0, 1), (0, 2), (2, 1)):
        def crossed(a):
            return any(len(u_) == 2 and np.abs(u_ - h[i]).max() < 2 * tol[i] for u_, _ in a["lines"]) and \
                any(len(v_) == 2 and np.abs(v_ - h[j]).max() < 2 * tol[j] for _, v_ in a["lines"])
        at = [a for a in fig if crossed(a)]
        if not at:
            raise Violation("shows", f"{f} does not mark the hypocentre {h} in the section {'XYZ'[i]}{'XYZ'[j]}")
        if side is not None and not any(abs(q[0] - gau[i]) < 2 * tol[i] and abs(q[1] - gau[j]) < 2 * tol[j] and
                                        abs(q[2] / side[i] - 1) < 0.06 and abs(q[3] / side[j] - 1) < 0.06 for a in at for q in a["ellipses"]):
            raise Violation("shows", f"{f} shows error ellipses {[q for a in at for q in a['ellipses']]} in the section {'XYZ'[i]}{'XYZ'[j]}, "
                            f"the Gaussian position is {gau}, its errors {err}")
        if marg is None:
            continue
        ok = False
        for pk in np.argwhere(marg == np.nanmax(marg)):
            w = {3: marg[:, :, pk[2]], 2: marg[:, pk[1], :], 1: marg[pk[0]]}[{(0, 1): 3, (0, 2): 2, (2, 1): 1}[i, j]]
            w = w.T if (i, j) == (2, 1) else w
            xs, ys = (lim[0][d] + (np.arange(n_) + 0.5) * (lim[1][d] - lim[0][d]) / n_ for d, n_ in ((i, w.shape[0]), (j, w.shape[1])))
            wx, wy = (q.ravel() for q in np.meshgrid(xs, ys, indexing="ij"))
            for a in at:
                for m_ in a["mesh"]:
                    if len(m_) == w.size:
                        m_ = m_[np.lexsort((np.rint(m_[:, 1] / (ys[-1] - ys[0] or 1) * 1e4), np.rint(m_[:, 0] / (xs[-1] - xs[0] or 1) * 1e4)))]
                        ok = ok or (np.allclose(m_[:, 2], w.ravel(), rtol=1e-4, atol=1e-6, equal_nan=True) and
                                    np.abs(m_[:, 0] - wx).max() <= 0.02 * abs(xs[1] - xs[0] if len(xs) > 1 else 1) and
                                    np.abs(m_[:, 1] - wy).max() <= 0.02 * abs(ys[1] - ys[0] if len(ys) > 1 else 1))
        if not ok:
            raise Violation("shows", f"{f} does not show the slice of the marginalised map through its peak in the section {'XYZ'[i]}{'XYZ'[j]}")
        stats["slices_shown"] = stats.get("slices_shown", 0) + 1
    if side is not None:
        stats["ellipses_shown"] = stats.get("ellipses_shown", 0) + 1
    if ev.get("ML") not in (None, "", "nan"):
        mt = re.search("(-?[0-9.e+-]+) \u00b1 (-?[0-9.e+-]+|nan)   r\u00b2 = (-?[0-9.e+-]+|nan)", tx)
        if not mt or abs(float(mt.group(1)) - float(ev["ML"])) > 6e-3 * max(1, abs(float(ev["ML"]))):
            raise Violation("shows", f"{f} gives the magnitude {mt and mt.group(0)}, the event file {ev['ML']}")
    stats["figures"] = stats.get("figures", 0) + 1


def whole(path):
    with open(path, "rb") as fh:
        b = fh.read()
    return b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF")


def judge(plan, g, k, base, out, shown, what, stats):
    """A run with plots that returned normally."""
    res = g.result(k)
    d = Rs.diff(base, res, "without plots", "with plots")
    if d:
        raise Violation("changes", f"{plan['stage']} with plots{what} leaves other results than without: {d}")
    for f in shown:
        q = os.path.join(g.run_dir(k), f)
        if not os.path.exists(q) or not whole(q):
            raise Violation("missing-plot", f"{plan['stage']}{what} returned normally but left the plot {f} {'torn' if os.path.exists(q) else 'out'}")
    if plan["stage"] == "trigger":
        check_trigger(plan, g, res, shown, stats)
    else:
        check_locate(plan, g, g.run_dir(k), res, shown, stats)


def execute(plan, scratch):
    from ..trig import Ambiguous
    g = Job(plan, scratch)
    with open(os.path.join(scratch, "outline.csv"), "w") as fh:
        fh.write("# an outline\n10.0,45.0\n10.05,45.02\n")
    with open(os.path.join(scratch, "xy.csv"), "w") as fh:
        fh.write(f"# files\n{scratch}/outline.csv,black,0.5,-\n")
    g.fresh(0)
    out, shown, _, log0, _ = g.go(0, False)
    if out != "ok":
        raise Violation("undisturbed", f"{plan['stage']} without plots stopped with {out}")
    if shown:
        raise Violation("foreign-plot", f"plots were made although none was asked for: {sorted(shown)}")
    base = g.result(0)
    g.fresh(1)
    out, shown, _, log, figs = g.go(1, True)
    stats = {"runs_" + plan["stage"]: 1}
    if out != "ok":
        raise Violation("stopped", f"{plan['stage']} runs without plots, but with plots it stopped with {out}")
    if figs:
        raise Violation("open-figures", f"{len(figs)} figures were left open (each is kept in memory)")
    judge(plan, g, 1, base, out, shown, "", stats)
    fired = {}
    f = plan["fault"]
    plot_ops = [k for k, x in enumerate(log) if ".pdf" in str(x) or "plots" in str(x) or "summaries" in str(x)]
    if f and plot_ops:
        at = plot_ops[min(len(plot_ops) - 1, int(f["pos"] * len(plot_ops)))]
        fa = dict(node=0, at=at, kind=f["kind"], frac=f["frac"])
        if f["sticky"] and f["kind"] != "kill":
            fa["sticky"] = f["sticky"]
        g.fresh(2)
        out2, shown2, fired, _, _ = g.go(2, True, [fa])
        what = f" and {f['kind']} at operation {at} of {len(log)} ({log[at][1:]})"
        if out2 == "ok":
            judge(plan, g, 2, base, out2, shown2, what, stats)
        else:
            res = g.result(2)
            for k in res:
                if k in base and res[k] != base[k]:
                    raise Violation("damaged", f"{plan['stage']} with plots{what} stopped with {out2} and left {k} as {str(res[k])[:200]}")
                if k not in base:
                    raise Violation("damaged", f"{plan['stage']} with plots{what} stopped and left {k}, which a whole run does not")
        out3, shown3, _, _, _ = g.go(2, True)
        if out3 != "ok":
            raise Violation("rerun", f"{plan['stage']} with plots{what}, then run again, stopped with {out3}")
        judge(plan, g, 2, base, out3, shown3, what + ", run again,", stats)
    fired = dict(fired)
    if plan["stage"] == "locate":
        for k, v in g.e.applied.items():
            fired[k] = fired.get(k, 0) + v
    d = digest(base, sorted(shown))
    return dict(digest=d, key=d, nontrivial=bool(shown), faults=fired, simtime=g.simtime() * 2, stats=stats)


def shrink(plan):
    if plan["fault"]:
        yield dict(plan, fault=None)
    for k in ("xy", "all_stns"):
        if plan[k]:
            yield dict(plan, **{k: False})
    if plan["stage"] == "locate":
        for k in ("summary", "picks", "amps"):
            if plan["show"][k]:
                yield dict(plan, show=dict(plan["show"], **{k: False}))
    yield from G.shrink(plan)
