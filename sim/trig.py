"""Synthetic saved-coalescence histories and an independent model of the trigger stage."""
import os
import numpy as np
import pandas as pd
from obspy import UTCDateTime, Stream
from . import world as W

NS = 10 ** 9
BASE_COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
UCF = {"km": 1000.0, "m": 1.0}


def tiny_lut(unit="km"):
    w = dict(span=8.0, depth=2.0, dx=4.0, dz=2.0, unit=unit)
    st = W.make_stations(3, np.random.default_rng(5), 8.0, unit)
    return W.make_lut(w, st), st


class History:
    """Samples at integer index k = time since midnight `day` in samples."""

    def __init__(self, plan):
        self.sr = sr = plan["sr"]
        self.day = UTCDateTime(plan["day"])
        self.segs = [(int(round(a * sr)), int(round(b * sr))) for a, b in plan["segs"]]
        k0, k1 = self.segs[0][0], self.segs[-1][1]
        self.k0 = k0
        n = k1 - k0
        r = np.random.default_rng(plan["hseed"])
        coa = 1.0 + 0.02 * r.random(n)
        nor = 1.0 + 0.02 * r.random(n)
        for p in plan["peaks"]:
            for arr, h, dt in ((coa, p["h"], 0), (nor, p["hn"], p["dn"])):
                c = int(round(p["t"] * sr)) - k0 + dt
                up, top, dn = p["up"], p["top"], p["dn_"]
                shape = np.concatenate([np.linspace(0, 1, up + 2)[1:-1], np.ones(top), np.linspace(1, 0, dn + 2)[1:-1]])
                s = c - up
                a, b = max(0, s), min(n, s + len(shape))
                if b > a:
                    arr[a:b] = np.maximum(arr[a:b], 1.0 + (h - 1.0) * shape[a - s:b - s])
        for z0, z1 in plan.get("zeros", []):
            a, b = int(round(z0 * sr)) - k0, int(round(z1 * sr)) - k0
            coa[max(0, a):max(0, b)] = 0
            nor[max(0, a):max(0, b)] = 0
        self.unit = plan.get("unit", "km")
        k = np.arange(n)
        self.i = dict(
            COA=np.round(coa * 1e5).astype(np.int32), COA_N=np.round(nor * 1e5).astype(np.int32),
            X=(10_000_000 + (k * 37) % 9001).astype(np.int32), Y=(45_000_000 - (k * 53) % 7001).astype(np.int32),
            Z=((k * 11) % 2003 * (10 if self.unit == "km" else 1) - 500).astype(np.int32))
        f = dict(COA=1e5, COA_N=1e5, X=1e6, Y=1e6, Z=1e3 * UCF[self.unit])
        self.v = {c: self.i[c] / f[c] for c in f}
        self.have = np.zeros(n, bool)
        for a, b in self.segs:
            self.have[a - k0:b - k0] = True

    def time(self, k):
        return UTCDateTime(ns=self.day._ns + int(k) * NS // self.sr)

    def write(self, run_dir):
        d = os.path.join(run_dir, "detect", "scanmseed")
        os.makedirs(d, exist_ok=True)
        per = 86400 * self.sr
        files = {}
        for a, b in self.segs:
            while a < b:
                m = min(b, (a // per + 1) * per)
                t = self.time(a)
                fn = f"{t.year}_{t.julday:03d}.scanmseed"
                for c in self.i:
                    files.setdefault(fn, []).append(W.trace("NW", c, "", self.i[c][a - self.k0:m - self.k0], t, self.sr))
                a = m
        for fn, trs in files.items():
            trs.sort(key=lambda t: list(self.i).index(t.stats.station))
            Stream(trs).write(os.path.join(d, fn), format="MSEED", encoding="STEIM2")
        return sorted(files)


# --------------------------------------------------------------------- model
def ns(x):
    return int(round(x * 1e9))


class Ambiguous(Exception):
    pass


def smooth(x, sr, tp):
    from scipy.ndimage import gaussian_filter1d
    return gaussian_filter1d(x, tp["sigma"] * sr, truncate=tp["width"])


def threshold(on, sr, tp):
    """Detection threshold at every sample of the trace triggered on."""
    if tp["method"] == "static":
        thr = np.full(len(on), float(tp["threshold"]))
    else:
        wl = int(tp["window"] * sr)
        thr = np.empty(len(on))
        for s in range(0, len(on), wl):
            c = on[s:s + wl]
            med = np.median(c)
            if tp["method"] == "mad":
                thr[s:s + wl] = med + 1.4826 * np.median(np.abs(c - med)) * tp["mult"]
            else:
                thr[s:s + wl] = med * tp["mult"]
    return thr


def groups(h, tp, ka=None, kb=None):
    """Merged candidate groups in samples [ka, kb] (inclusive): list of dicts."""
    n = len(h.have)
    a = 0 if ka is None else max(0, ka - h.k0)
    b = n - 1 if kb is None else min(n - 1, kb - h.k0)
    if b < a:
        return None
    idx = np.flatnonzero(h.have[a:b + 1]) + a
    if not len(idx):
        return None
    coa, nor = h.v["COA"][idx], h.v["COA_N"][idx]
    if tp.get("smooth"):
        coa, nor = smooth(coa, h.sr, tp), smooth(nor, h.sr, tp)
    on = nor if tp["norm"] else coa
    thr = threshold(on, h.sr, tp)
    if (tp["method"] != "static" or tp.get("smooth")) and np.any(np.abs(on - thr) < 1e-9):
        raise Ambiguous()
    above = on >= thr
    mw, mei = ns(tp["mw"]), ns(tp["mei"])
    step = NS // h.sr
    cands = []
    j, m = 0, len(idx)
    while j < m:
        if not above[j]:
            j += 1
            continue
        e = j
        while e + 1 < m and above[e + 1] and idx[e + 1] == idx[e] + 1:
            e += 1
        p = j + int(np.argmax(coa[j:e + 1]))
        T = lambda q: int(idx[q] + h.k0) * step
        lo = T(p) - mei if T(p) - T(j) < mw else T(j) - (mei - mw)
        hi = T(p) + mei if T(e) - T(p) < mw else T(e) + (mei - mw)
        cands.append(dict(t=T(p), on=on[p], i=int(idx[p]), coa=coa[p], nor=nor[p], lo=lo, hi=hi))
        j = e + 1
    out = []
    for c in cands:
        if out and not (out[-1][-1]["hi"] < c["t"] - mw and c["lo"] > out[-1][-1]["t"] + mw):
            out[-1].append(c)
        else:
            out.append([c])
    ev = []
    for g in out:
        best = max(g, key=lambda c: c["on"])       # first of equals
        ev.append(dict(best, lo=min(c["lo"] for c in g), hi=max(c["hi"] for c in g), n=len(g)))
    return ev


def to_row(h, e):
    t = UTCDateTime(ns=h.day._ns + e["t"])
    digits = "".join(ch for ch in str(t) if ch.isdigit())[:17]
    return dict(EventID=digits, CoaTime=t, TRIG_COA=e["on"], COA_X=h.v["X"][e["i"]], COA_Y=h.v["Y"][e["i"]],
                COA_Z=h.v["Z"][e["i"]], COA=e["coa"], COA_NORM=e["nor"],
                MinTime=UTCDateTime(ns=h.day._ns + e["lo"]), MaxTime=UTCDateTime(ns=h.day._ns + e["hi"]))


def in_region(r, reg):
    return reg is None or all(reg[j] <= r[c] <= reg[j + 3] for j, c in enumerate(("COA_X", "COA_Y", "COA_Z")))


def batches(start, end):
    out, a = [], start
    while a < end:
        nxt = UTCDateTime(a.date) + 86400
        out.append((a, min(nxt, end)))
        a = nxt
    return out


def batch_rows(h, tp, a, b, rest=False):
    """Expected rows of one batch, or None if nothing at all is saved around it. With rest, also what lies outside of it or its region."""
    sr = h.sr
    ka, kb = (a - tp["pad"] - h.day) * sr, (b + tp["pad"] - h.day) * sr
    g = groups(h, tp, int(np.ceil(ka - 1e-6)), int(np.floor(kb + 1e-6)))
    if g is None:
        return None
    last = b._ns
    if b == UTCDateTime(b.date):
        last -= NS // sr
    rows = [to_row(h, e) for e in g]
    inside = [r for r in rows if a._ns <= r["CoaTime"]._ns <= last and in_region(r, tp.get("region"))]
    return (inside, [r for r in rows if r not in inside]) if rest else inside


def fname(run, sub, day):
    stem = run if not sub else f"{run}_{sub}"
    return f"{stem}_{day.year}_{day.julday:03d}_TriggeredEvents.csv"


def read_csv(path):
    """Rows of a triggered-events file, as strings (no type guessing)."""
    df = pd.read_csv(path, dtype=str, keep_default_na=False)
    return list(df.columns), df.to_dict("records")


def diff_rows(want, cols, got, windows):
    """None, or a description of the first difference between file and expectation."""
    names = BASE_COLS + (["MinTime", "MaxTime"] if windows else [])
    if sorted(cols) != sorted(names):
        return f"columns {cols}, expected {names}"
    wt = {r["EventID"]: r for r in want}
    gt = {}
    for r in got:
        if r["EventID"] in gt:
            return f"event {r['EventID']} appears twice"
        gt[r["EventID"]] = r
    for k in sorted(set(wt) - set(gt)):
        return f"event {k} is missing (file has {sorted(gt)})"
    for k in sorted(set(gt) - set(wt)):
        return f"event {k} is no event of this period (expected {sorted(wt)})"
    if [r["EventID"] for r in got] != sorted(gt):
        return "events are not in time order"
    for k, w in wt.items():
        for c in names[1:]:
            if isinstance(w[c], UTCDateTime):
                ok = UTCDateTime(gt[k][c]) == w[c]
            else:
                ok = abs(float(gt[k][c]) - w[c]) <= 1e-9 * max(1.0, abs(w[c]))
            if not ok:
                return f"event {k}: {c} is {gt[k][c]}, expected {w[c]}"
    return None


# ----------------------------------------------------------------- generation
def gen_params(rng, sr, allow_dynamic=True):
    if sr == 1:
        mw = rng.choice([2.0, 3.0, 5.0])
    else:
        mw = rng.choice([0.2, 0.5, 1.0, 2.0])
    mei = round(mw * rng.choice([2.0, 2.0, 2.5, 4.0]), 6)
    tp = dict(mw=mw, mei=mei, norm=rng.random() < 0.35, threshold=rng.choice([1.5, 1.5, 1.25, 2.0, 1.73]), method="static",
              pad=rng.choice([20.0, 30.0, 45.0]) * (8 if sr == 1 else 1), smooth=False, sigma=0.2, width=4.0,
              windows=rng.random() < 0.4, region=None)
    if allow_dynamic and rng.random() < 0.25:
        tp["method"] = rng.choice(["mad", "median_ratio"])
        tp["window"] = rng.choice([60.0, 100.0, 3600.0]) * (20 if sr == 1 else 1)
        tp["mult"] = rng.choice([8.0, 20.0]) if tp["method"] == "mad" else rng.choice([1.2, 1.5])
    if allow_dynamic and rng.random() < 0.15:
        tp["smooth"] = True
        tp["sigma"] = rng.choice([0.1, 0.2]) if sr > 1 else 2.0
    return tp


def gen_peaks(rng, sr, a, b, n, marks=()):
    out = []
    for _ in range(n):
        if marks and rng.random() < 0.6:
            t = rng.choice(list(marks)) + rng.choice([0, 1, -1, 2, -2, rng.randint(-40, 40)]) / sr
        else:
            t = rng.uniform(a, b)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            h = rng.choice([1.4, 1.5, 1.6, 1.8, 2.0, 3.0])
            out.append(dict(t=round(round(t * sr) / sr, 6), h=h, hn=rng.choice([1.2, 1.5, 1.8, h]),
                            dn=rng.choice([0, 0, 1, -2, 3]), up=rng.choice([0, 1, 3, 10]),
                            top=rng.choice([1, 1, 2, 5, int(3 * sr)]), dn_=rng.choice([0, 1, 5, 12])))
            t += rng.choice([0.3, 1.0, 2.0, 4.0, 5.0]) * (2 if sr == 1 else 1)
    return out


def make_trigger(lut, runs, name, tp, sub="", **more):
    from quakemigrate import Trigger
    kw = dict(threshold_method=tp["method"], marginal_window=tp["mw"], min_event_interval=tp["mei"],
              normalise_coalescence=tp["norm"], pad=tp["pad"], plot_trigger_summary=False,
              write_event_time_windows=tp["windows"], trigger_name=sub, static_threshold=tp["threshold"])
    if tp["method"] == "mad":
        kw.update(mad_window_length=tp["window"], mad_multiplier=tp["mult"])
    elif tp["method"] == "median_ratio":
        kw.update(median_window_length=tp["window"], median_multiplier=tp["mult"])
    if tp["smooth"]:
        kw.update(smooth_coa=True, smoothing_kernel_sigma=tp["sigma"], smoothing_kernel_width=tp["width"])
    if "log" in tp:
        kw["log"] = tp["log"]
    if not (tp["windows"] and tp["threshold"] in (1.73, 2.0)):
        return Trigger(lut, runs, name, **dict(kw, **more))
    # the former names of the options
    if tp["method"] == "mad":
        kw["threshold_method"] = "dynamic"
    t = Trigger(lut, runs, name, **dict(kw, min_event_interval=999.0, **more))
    t.minimum_repeat = tp["mei"]
    return t
