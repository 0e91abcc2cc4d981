"""Reference model of detect, written from the documentation: what should be on disk.

Trusted: ObsPy's detrend/taper/filter/decimate primitives (called directly), NumPy, SciPy.
"""
import fnmatch
import math
import numpy as np
from obspy import Trace, UTCDateTime
from scipy.signal import hilbert


def rint(x):
    return int(math.floor(x + 0.5))


def trim2sample(t, sr):
    return int(np.ceil(t * sr) / sr * 1000) / 1000


def pads(cfg, ttmax, timespan):
    """Pre- and post-pad (s) around a window: onset windows, largest travel time, taper."""
    win = cfg["windows"]
    lta = max(w[1] for w in win.values())
    sta = max(w[0] for w in win.values())
    pre = lta + 3 * sta
    post = np.ceil(ttmax + 2 * lta)
    span = timespan + pre + post
    sr = cfg["sr"]
    return (trim2sample(pre + np.ceil(span * 0.06), sr),
            trim2sample(post + np.ceil(span * 0.06), sr))


class Channel:
    """What the archive holds for one channel: pieces of (sampling rate, offset, first
    sample number since the world's t0, values)."""

    def __init__(self, sta, chan):
        self.sta, self.chan = sta, chan
        self.pieces = []          # (sr, off, n0, data)
        self.base = 0.0           # where the samples since midnight lie, in samples after t0

    def add(self, sr, off, n0, data):
        if len(data):
            self.pieces.append((float(sr), float(off), int(n0), np.asarray(data)))

    def exists(self, t_beg, t_end):
        for sr, off, n0, d in self.pieces:
            a = max(rint(t_beg * sr - off - n0 - 1e-6), 0)
            b = min(rint(t_end * sr - off - n0 + 1e-6), len(d) - 1)
            if b >= a:
                return True
        return False

    def window(self, t_beg, t_end, interpolate=False):
        """Samples in [t_beg, t_end] s after t0, to the nearest sample: a list of unbroken records
        (sr, n0, data), empty if there is none; None if what there is contradicts itself. Samples between
        those since midnight are moved to the nearest of these, or their values there interpolated."""
        got = []
        for sr, off, n0, d in self.pieces:
            # sample k is at (n0 + k + off) / sr, off in (-0.5, 0.5)
            a = rint(t_beg * sr - off - n0 - 1e-6)
            b = rint(t_end * sr - off - n0 + 1e-6)
            a_, b_ = max(a, 0), min(b, len(d) - 1)
            if b_ < a_:
                continue
            got.append((sr, off, n0 + a_, d[a_:b_ + 1]))
        if not got:
            return []
        if len({g[0] for g in got}) > 1 or len({str(g[3].dtype) for g in got}) > 1:
            return None                       # mixed rates or types under one id: not used
        if len({round(g[1], 6) for g in got}) > 1:
            return None
        sr, off = got[0][0], got[0][1]
        lo = min(g[2] for g in got)
        hi = max(g[2] + len(g[3]) for g in got)
        vals = np.zeros(hi - lo, dtype=got[0][3].dtype)
        have = np.zeros(hi - lo, dtype=bool)
        for _, _, n0, d in got:
            s = slice(n0 - lo, n0 - lo + len(d))
            if (have[s] & (vals[s] != d)).any():
                return None                   # conflicting values
            vals[s] = d
            have[s] = True
        cut = np.flatnonzero(np.diff(have.astype(int))) + 1
        out = []
        shift = off - self.base
        for i, x in zip([0, *cut], np.split(vals, cut)):
            if not have[i]:
                continue
            if interpolate and len(x) > 1 and abs(shift) > 2e-6 * sr:
                x = at_sample(x, shift)
            out.append((sr, lo + i + self.base, x))
        return out


def at_sample(x, shift, a=20):
    """Lanczos interpolation of samples at k + shift to the positions k; the position outside them is a copy."""
    n = len(x)
    y = np.zeros(n)
    ks = np.arange(n)
    at = ks - shift
    for m in range(-a, a + 1):
        i = np.floor(at).astype(int) + m
        u = at - i
        y += np.where((i >= 0) & (i < n) & (np.abs(u) <= a), x[np.clip(i, 0, n - 1)] * np.sinc(u) * np.sinc(u / a), 0.0)
    if shift > 0:
        y[0] = y[1]
    else:
        y[-1] = y[-2]
    return y


def preprocess(data, sr_in, start_n, cfg, phase, t0, w0, w1):
    """Raw samples -> filtered float samples at the scan rate, trimmed to the window."""
    sr = cfg["sr"]
    tr = Trace(np.array(data), header=dict(sampling_rate=sr_in, starttime=t0 + start_n / sr_in))
    if sr_in % sr:
        up = cfg.get("up")
        if not up or len(data) < 2:
            return None
        tr = upsample(tr, up, w0, w1)
    if tr.stats.sampling_rate != sr:
        tr.detrend("linear")
        tr.detrend("demean")
        tr.taper(type="cosine", max_percentage=0.05)
        tr.filter("lowpass", freq=float(sr) / 2.000001, corners=2, zerophase=True)
        factor = int(round(tr.stats.sampling_rate / sr))
        # the first sample that is a whole number of scan samples after the start of the window
        skip = -max(int((tr.stats.starttime - w0) * tr.stats.sampling_rate + 1e-3), 0) % factor
        tr.data = tr.data[skip:]
        tr.stats.starttime += skip / tr.stats.sampling_rate
        if not len(tr.data):
            return None
        tr.decimate(factor=factor, strict_length=False, no_filter=True)
    tr.trim(starttime=w0 - 1e-5, endtime=w1 + 1e-5, nearest_sample=False)
    if not len(tr.data):
        return None
    lo, hi, order = cfg["filters"][phase]
    tr.detrend("linear")
    tr.detrend("constant")
    tr.taper(type="cosine", max_percentage=0.05)
    tr.filter(type="bandpass", freqmin=lo, freqmax=hi, corners=order, zerophase=True)
    return tr, rint((tr.stats.starttime - w0) * sr)


def usable_data(got, cfg, ph, t0, w0, w1, n_need):
    """One channel's records in a window: the samples to use, None if they do not do."""
    gaps, partial = cfg.get("gaps"), cfg.get("partial")
    if not got or any(d.max() == d.min() for _, _, d in got):
        return None
    segs = []
    for s_in, n0, d in got:
        if s_in % cfg["sr"] and (not cfg.get("up") or len(d) < 2):
            return None
        x = preprocess(d, s_in, n0, cfg, ph, t0, w0, w1)
        if x is not None:
            segs.append(x)
    if not segs or any(tr.data.max() == tr.data.min() for tr, _ in segs):
        return None
    if not gaps and any(k + tr.stats.npts != k_ for (tr, k), (_, k_) in zip(segs, segs[1:])):
        return None
    if not partial and (len(segs) > 1 or segs[0][0].stats.npts < n_need):
        return None
    if not gaps and not partial:
        return segs[0][0].data
    out = np.full(n_need, np.sqrt(np.finfo(float).tiny))
    for tr, k in segs:
        tr.taper(type="cosine", max_percentage=0.05)
        out[k:k + tr.stats.npts] = tr.data
    return out


def upsample(tr, up, w0, w1):
    """Linear interpolation, with constant values up to an edge of the window less than a sample away."""
    fine = tr.stats.sampling_rate * up
    d = np.asarray(tr.data, float)
    y = np.interp(np.arange((len(d) - 1) * up + 1) / up, np.arange(len(d)), d)
    a, b = tr.stats.starttime - w0, w1 - tr.stats.endtime
    k = rint(a * fine) if 0 < a < tr.stats.delta else 0
    j = rint(b * fine) if 0 < b < tr.stats.delta else 0
    y = np.concatenate([np.full(k, d[0]), y, np.full(j, d[-1])])
    out = Trace(y, header=dict(sampling_rate=fine, starttime=tr.stats.starttime - k / fine))
    out.trim(starttime=w0 - 1e-5, endtime=w1 + 1e-5, nearest_sample=False)
    return out


def stalta(x, nsta, nlta, position, exact=True):
    """Window sums, divided."""
    n = len(x)
    out = np.ones(n)
    c = np.concatenate([[0.0], np.cumsum(x, dtype=np.longdouble)])
    if position == "classic":
        for_i = np.arange(nlta - 1, n)
        sta = (c[for_i + 1] - c[for_i + 1 - nsta]) / nsta
        lta = (c[for_i + 1] - c[for_i + 1 - nlta]) / nlta
    else:
        for_i = np.arange(nlta - 1, n - nsta)
        sta = (c[for_i + 1 + nsta] - c[for_i + 1]) / nsta
        lta = (c[for_i + 1] - c[for_i + 1 - nlta]) / nlta
    low = max(lta.max(), sta.max()) if len(for_i) else 0.0
    if len(for_i) and not min(lta.min(), sta.min()) > 3e-7 * low:
        if not exact and not lta.min() > 1e-16 * low:
            # what is left of the signal is the round-off of the resampling and of the filters
            raise IllConditioned
        x = np.asarray(x, float)
        l_ = np.lib.stride_tricks.sliding_window_view(x, nlta).sum(axis=1)[for_i - nlta + 1] / nlta
        s_ = np.lib.stride_tricks.sliding_window_view(x, nsta).sum(axis=1)[for_i + 1 - (nsta if position == "classic" else 0)] / nsta
        sta, lta = s_, l_
    with np.errstate(all="ignore"):
        out[for_i] = np.where(lta > (0.0 if position == "classic" else 1e-30 * sta), sta / lta, 1.0).astype(float)
    return out


class IllConditioned(Exception):
    """Window sums span so many orders of magnitude that their ratio is round-off noise."""


ILL = "ill-conditioned"

TRANS = {
    "energy": lambda x: x ** 2, "abs": np.abs, "env": lambda x: np.abs(hilbert(x)),
    "env_squared": lambda x: np.abs(hilbert(x)) ** 2,
}


def step(cfg, lut, channels, stations, t0, w0, w1, pre, post, values=True):
    """One window. Returns availability {sta_ph: 0/1} and the 4-D stack (None without any
    usable data, True if values are not wanted, ILL if they are round-off noise)."""
    sr = cfg["sr"]
    avail, onsets, tts = {}, [], []
    n_need = rint((w1 - w0) * sr) + 1
    for ph in cfg["phases"]:
        comps = cfg["channel_maps"][ph]
        nsta = round(cfg["windows"][ph][0] * sr) + 1
        nlta = round(cfg["windows"][ph][1] * sr) + 1
        for sta in stations:
            usable, present, exact, filled = [], 0, True, False
            for ch in channels:
                if ch.sta != sta or not fnmatch.fnmatch(ch.chan, comps):
                    continue
                got = ch.window(w0 - t0, w1 - t0, cfg.get("interp"))
                if ch.exists(w0 - t0, w1 - t0):
                    present += 1
                x = usable_data(got, cfg, ph, t0, w0, w1, n_need)
                if x is not None:
                    usable.append(x)
                    exact = exact and not got[0][0] % sr and not cfg.get("interp")
                    filled = filled or len(got) > 1 or len(got[0][2]) < (w1 - w0) * got[0][0] - 1
            if cfg["all_channels"]:
                good = len(usable) == present == cfg["channel_counts"][ph]
            else:
                good = len(usable) > 0
            avail[f"{sta}_{ph}"] = int(good)
            if good:
                if not values:
                    onsets.append(None)
                    continue
                if filled and cfg["transform"].startswith("env"):
                    onsets.append(ILL)        # round-off of the whole record's spectrum
                    continue
                try:
                    fs = [stalta(TRANS[cfg["transform"]](x), nsta, nlta, cfg["position"], exact) for x in usable]
                except IllConditioned:
                    onsets.append(ILL)
                    continue
                f = np.sqrt(np.mean([g ** 2 for g in fs], axis=0))
                onsets.append(np.clip(f, cfg["min_onset"], np.inf))
                tts.append(np.rint(lut.traveltimes[sta][ph] * sr).astype(int))
    if not onsets:
        return avail, None
    if not values:
        return avail, True
    if any(f is ILL for f in onsets):
        return avail, ILL
    fs, ls = rint(pre * sr), rint(post * sr)
    n = n_need - fs - ls
    shape = tts[0].shape
    acc = np.zeros(shape + (n,))
    base = np.arange(n) + fs
    for f, tt in zip(onsets, tts):
        acc += np.log(np.clip(f, 0.01, np.inf))[np.maximum(tt, 0)[..., None] + base]
    return avail, np.exp(acc / len(onsets))


def summarise(map4d):
    flat = map4d.reshape(-1, map4d.shape[-1])
    mx = flat.max(axis=0)
    return mx, mx * flat.shape[0] / flat.sum(axis=0), flat
