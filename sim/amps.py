"""Amplitudes measured again, from what the archive holds and the picks written."""
import numpy as np
from obspy import UTCDateTime, Trace

from .core import Violation
from . import refmodel as R


def raw_trace(e, ch, a, b):
    """(trace, True) of the samples nearest to a..b; (None, True): no whole data; (None, False): cannot tell."""
    ps = [p for p in ch.pieces if len(p[3])]
    t = [((e.t0 + (n0 + off) / sr), (e.t0 + (n0 + off + len(d) - 1) / sr)) for sr, off, n0, d in ps]
    ps = [p for p, (x, y) in zip(ps, t) if y > a - 1.5 / p[0] and x < b + 1.5 / p[0]]
    if not ps:
        return None, True
    if len({(p[0], round(p[1], 6), str(p[3].dtype)) for p in ps}) > 1:
        return None, False
    sr, off = ps[0][:2]
    fa, fb = (a - e.t0) * sr - off, (b - e.t0) * sr - off
    if min(abs(f - np.floor(f) - 0.5) for f in (fa, fb)) < 0.02:
        return None, False
    ka, kb = R.rint(fa), R.rint(fb)
    v, have = np.zeros(kb - ka + 1, ps[0][3].dtype), np.zeros(kb - ka + 1, bool)
    for _, _, n0, d in ps:
        i, j = max(n0, ka), min(n0 + len(d), kb + 1)
        if j > i:
            s = slice(i - ka, j - ka)
            x = d[i - n0:j - n0]
            if (have[s] & (v[s] != x)).any():
                return None, False
            v[s], have[s] = x, True
    if not have[2:-2].all():
        return None, True
    if not have.all():
        return None, False                  # up to a sample may be missing at either end
    return Trace(v.copy(), header=dict(network="XX", station=ch.sta, channel=ch.chan, sampling_rate=sr, starttime=e.t0 + (ka + off) / sr)), True


def detrend(x):
    k = np.arange(len(x), dtype=float)
    return x - np.polyval(np.polyfit(k - k.mean(), x, 1), k - k.mean())


def cut(tr, a, b):
    sr = tr.stats.sampling_rate
    fa, fb = (a - tr.stats.starttime) * sr, (b - tr.stats.starttime) * sr
    if min(abs(f - np.floor(f) - 0.5) for f in (fa, fb)) < 0.02:
        return None
    i, j = R.rint(fa), R.rint(fb)
    if i < 0 or j > tr.stats.npts - 1 or j - i < 3:
        return None
    return i, np.asarray(tr.data, float)[i:j + 1]


def average(x, how):
    from scipy.signal import hilbert
    if how == "STD":
        return 1000 * np.std(x)
    if how == "ENV":
        return 1000 * np.mean(np.abs(hilbert(x)))
    return 1000 * np.sqrt(np.mean(x ** 2))


def swing(x, mult):
    """(full swing, index of either end) of the largest neighbouring peak and trough; 'none', or None: cannot tell."""
    from scipy.signal import find_peaks
    pr = mult * np.abs(x).max()
    pk, tr = find_peaks(x, prominence=pr)[0], find_peaks(-x, prominence=pr)[0]
    if len(pk) == 0 or len(tr) == 0:
        return "none"
    q = sorted([(k, 1) for k in pk] + [(k, -1) for k in tr])
    if any(a[1] == b[1] for a, b in zip(q, q[1:])):
        return None
    s = np.array([abs(x[a[0]] - x[b[0]]) for a, b in zip(q, q[1:])])
    k = int(s.argmax())
    if (s >= s[k] * (1 - 1e-4)).sum() > 1:
        return None
    return s[k], q[k][0], q[k + 1][0]


def g(x, n):
    """Tolerance of a number written with n digits."""
    return 0.51 * 10.0 ** (np.floor(np.log10(abs(x))) - n + 1) if x else 1e-12


def check(u, plan, e, rows, otime, tt_at, picks, correct, stats):
    from scipy.signal import butter, freqz, sosfreqz  # noqa
    o, mw = plan["opt"], plan["opt"]["mw"]
    ap = o.get("ap") or {}
    fr = e.lut.fraction_tt
    ttmax = max(float(np.max(e.lut.traveltimes[s][q])) for s in e.stations["Name"] for q in ("P", "S"))
    pre, post = o["noise_window"] + mw, o["sig"] + ttmax * (1 + fr) + mw
    extra = np.ceil((pre + post) * 0.06)
    a, b = otime - pre - extra, otime + post + extra
    bad = {(f["sta"], f["comp"]) for f in plan["rfaults"]}
    got = {}
    for r in rows:
        _, s, _, c = r["id"].split(".")
        got.setdefault(s, {})[c[-1] if c[-1] != "]" else c[1]] = r
    for ch in e.chans:
        comp = ch.chan[-1]
        if ch.sta not in got or comp not in got[ch.sta]:
            continue
        r = got[ch.sta][comp]
        raw, sure = raw_trace(e, ch, a, b)
        if not sure:
            continue
        vals = [r[k] for k in ("P_amp", "P_freq", "P_time", "P_avg_amp", "S_amp", "S_freq", "S_time", "S_avg_amp", "Noise_amp")]
        if raw is None or raw.data.max() == raw.data.min() or (ch.sta, comp) in bad:
            if any(vals) and raw is None:
                raise Violation("amps", f"event {u}: {r['id']} has amplitudes although the archive lacks data between {a} and {b}")
            if any(vals):
                raise Violation("amps", f"event {u}: {r['id']} has amplitudes although it is dead or has no response")
            continue
        # ---- windows
        mine = {p["Phase"]: p["PickTime"] for p in picks if p["Station"] == ch.sta}
        tt = {q: tt_at(e, ch.sta, q) for q in "PS"}
        at = {q: otime + tt[q] for q in "PS"}
        if not mine or len(mine) == 2:
            for q, v in mine.items():
                if v != "-1":
                    at[q] = UTCDateTime(v)
        if at["P"] >= at["S"]:
            if any(vals):
                raise Violation("amps", f"event {u}: {r['id']} has amplitudes although its P arrival {at['P']} is not before its S arrival {at['S']}")
            continue
        half = {q: mw + tt[q] * fr for q in "PS"}
        p0, p1, s0, s1 = at["P"] - half["P"], at["P"] + half["P"], at["S"] - half["S"], at["S"] + half["S"] + o["sig"]
        if abs(p1 - s0) < 1e-4 or abs(s0 - p1 - o["sig"]) < 1e-4 and o["sig"]:
            continue
        if s0 < p1:
            m = p1 + (s0 - p1) / 2
            p1, s0 = m, m
        else:
            p1 = min(s0, p1 + o["sig"]) if s0 - p1 < o["sig"] else p1 + o["sig"]
        # ---- the trace
        try:
            x = correct(plan, raw, "wa", "displacement")
        except Exception:  # noqa
            continue
        sr = x.stats.sampling_rate
        ba = None
        if o["amp_filter"]:
            x.detrend("linear")
            x.taper(0.05, "cosine")
            hc, k, lc = o.get("hc", 8.0), ap.get("filter_corners", 4), o.get("lc", 1.0)
            if o["amp_filter"] == "bp" and hc < sr / 2 - 1e-6:
                x.filter("bandpass", freqmin=lc, freqmax=hc, corners=k, zerophase=False)
                ba = butter(k, [lc, hc], "bandpass", fs=sr, output="sos")
            else:
                x.filter("highpass", freq=lc, corners=k, zerophase=False)
                ba = butter(k, lc, "highpass", fs=sr, output="sos")
        scale = np.abs(x.data).max()
        how, mult = ap.get("noise_measure", "RMS"), ap.get("prominence_multiplier", 0.0)
        for ph, lo, hi in (("P", p0, p1), ("S", s0, s1)):
            c = cut(x, lo, hi)
            if c is None:
                continue
            i0, d = c
            d = detrend(d)
            if np.abs(d).max() < 1e-6 * scale:
                continue
            sw = swing(d, mult)
            if sw is None:
                continue
            A = r[f"{ph}_amp"]
            if sw == "none":
                if A and float(A) > 1.0 * scale:
                    raise Violation("amps", f"event {u}: {r['id']} has a {ph} amplitude although there is no peak and trough in {lo} - {hi}")
                continue
            f = sr / (2.0 * abs(sw[1] - sw[2]))
            gain = 1.0 if ba is None else abs(sosfreqz(ba, worN=[f], fs=sr)[1][0])
            if gain < 1e-4:
                continue
            if not A and sw[0] < 1e-3 * scale:
                continue
            if not A:
                raise Violation("amps", f"event {u}: {r['id']} has no {ph} amplitude, although there are whole data about {lo} - {hi} (swing {sw}, scale {scale}, {raw})")
            if ba is not None:
                if abs(float(r[f"{ph}_filter_gain"]) - gain) > g(gain, 3):
                    raise Violation("amps", f"event {u}: filter gain of the {ph} amplitude of {r['id']} is {r[ph + '_filter_gain']} at {f:.3f} Hz, the filter's is {gain}")
            elif r[f"{ph}_filter_gain"]:
                raise Violation("amps", f"event {u}: {r['id']} has a filter gain without a filter")
            mid = x.stats.starttime + (i0 + (sw[1] + sw[2]) / 2) / sr
            w = dict(amp=sw[0] * 500 / gain, avg_amp=average(d, how) / gain)
            tol = 2e-5 * scale * 1000 / gain
            for k, v in w.items():
                if abs(float(r[f"{ph}_{k}"]) - v) > g(v, 5) + tol:
                    raise Violation("amps", f"event {u}: {ph}_{k} of {r['id']} is {r[ph + '_' + k]} mm, the archived data between {lo} and {hi} give {v:.6g}")
            if abs(UTCDateTime(r[f"{ph}_time"]) - mid) > 1e-3 or abs(float(r[f"{ph}_freq"]) - f) > g(f, 2) + 1e-6:
                # (another swing of the same size, within the accuracy)
                if sw[0] * 500 / gain > 50 * tol:
                    raise Violation("amps", f"event {u}: {ph} amplitude of {r['id']} at {r[ph + '_time']}, {r[ph + '_freq']} Hz, the data give {mid}, {f:.3f} Hz")
            stats["amplitudes_remeasured"] = stats.get("amplitudes_remeasured", 0) + 1
        c = cut(x, p0 - o["noise_window"], p0)
        if c is not None and (r["P_amp"] or r["S_amp"]):
            v = average(detrend(c[1]), how)
            if not r["Noise_amp"] or abs(float(r["Noise_amp"]) - v) > g(v, 5) + 2e-5 * scale * 1000:
                raise Violation("amps", f"event {u}: noise amplitude of {r['id']} is {r['Noise_amp']} mm, the data before {p0} give {v:.6g}")
