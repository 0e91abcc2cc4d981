"""What is on disk in a detect run directory, sample by sample, and what must be there."""
import hashlib
import os
import numpy as np
from obspy import read
from . import detect as D, refmodel as R
from .core import Violation


def spans(run_dir, e, total):
    """{channel: int array}, {channel: bool mask} over the scan samples; raises Violation if a
    day file cannot be read or its channels cover different periods."""
    d = os.path.join(run_dir, "detect", "scanmseed")
    val = {c: np.zeros(total, dtype=np.int64) for c in D.CH}
    have = {c: np.zeros(total, dtype=bool) for c in D.CH}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith(".scanmseed"):
            continue
        p = os.path.join(d, f)
        try:
            st = read(p, format="MSEED")
        except Exception as x:  # noqa
            raise Violation("unreadable", f"{f} ({os.path.getsize(p)} bytes) cannot be read: {type(x).__name__}: {str(x)[:100]}")
        cover = {}
        for tr in st:
            k0 = R.rint((tr.stats.starttime - e.start) * e.sr)
            k1 = k0 + tr.stats.npts
            cover.setdefault(tr.stats.station, set()).update(((k0, k1),))
            if k0 < 0 or k1 > total or tr.stats.station not in val:
                raise Violation("extent", f"{f} {tr.stats.station} holds {tr.stats.starttime} - {tr.stats.endtime}")
            val[tr.stats.station][k0:k1] = tr.data
            have[tr.stats.station][k0:k1] = True
        if len(cover) != 5 or any(have[c].sum() != have["COA"].sum() or (have[c] != have["COA"]).any() for c in D.CH):
            raise Violation("channels", f"{f}: the channels cover different periods: "
                            + ", ".join(f"{c} {sorted(v)}" for c, v in sorted(cover.items())))
    return val, have["COA"]


def signature(run_dir):
    """Changes whenever a scanmseed file may have changed."""
    d = os.path.join(run_dir, "detect", "scanmseed")
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".scanmseed"):
            with open(os.path.join(d, f), "rb") as fh:
                out.append((f, hashlib.sha256(fh.read()).digest()))
    return out


def step_archive(cls, rec):
    """Archive that reports when the reading of each time step begins."""
    class Stepper(cls):
        def read_waveform_data(self, starttime, endtime, *a, **k):
            rec(starttime)
            return super().read_waveform_data(starttime, endtime, *a, **k)
    return Stepper
