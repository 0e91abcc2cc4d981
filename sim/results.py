"""Canonical, decoded content of a run directory, for comparing histories."""
import hashlib
import os
import numpy as np
from obspy import read


def decode(path):
    """Content of one result file in a form that is equal iff a user reads the same data."""
    if path.endswith((".scanmseed", ".m")):
        st = read(path, format="MSEED")
        by = {}
        for tr in st:
            by.setdefault(tr.id, []).append(tr)
        out = {}
        for k, trs in by.items():
            trs.sort(key=lambda t: t.stats.starttime)
            pieces = []
            for t in trs:                      # join pieces that follow on from each other
                d = np.asarray(t.data)
                if pieces and pieces[-1][1] == t.stats.sampling_rate and \
                        abs((t.stats.starttime - pieces[-1][0]) * t.stats.sampling_rate - len(pieces[-1][2])) < 1e-3:
                    pieces[-1][2] = np.concatenate([pieces[-1][2], d])
                else:
                    pieces.append([t.stats.starttime, t.stats.sampling_rate, d])
            out[k] = [(str(a), b, len(d), hashlib.sha256(np.ascontiguousarray(d, dtype=float).tobytes()).hexdigest()[:16])
                      for a, b, d in pieces]
        return out
    if path.endswith(".npy"):
        a = np.load(path)
        return (a.shape, str(a.dtype), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16])
    with open(path, "rb") as fh:
        b = fh.read()
    if path.endswith((".csv", ".event", ".picks", ".amps")):
        return b.decode()
    return hashlib.sha256(b).hexdigest()[:16]


RESULT_EXT = (".scanmseed", ".csv", ".event", ".picks", ".amps", ".npy", ".m")


def canon(run_dir, plots=False):
    """{relative path: decoded content} of every result file; logs and scratch names excluded."""
    out = {}
    for d, ds, fs in os.walk(run_dir):
        ds.sort()
        if os.path.basename(d) == "logs":
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(RESULT_EXT) and not (plots and f.endswith(".pdf")):
                continue
            rel = os.path.relpath(p, run_dir)
            if f.endswith(".pdf"):
                out[rel] = "pdf"
                continue
            try:
                out[rel] = decode(p)
            except Exception as x:  # noqa
                out[rel] = ("unreadable", f"{type(x).__name__}: {x}"[:120])
    return out


def diff(want, got, what_want="expected", what_got="found"):
    """None or a one-line description of the first difference."""
    for k in sorted(set(want) - set(got)):
        return f"{k} is missing"
    for k in sorted(set(got) - set(want)):
        return f"{k} should not exist"
    for k in sorted(want):
        if want[k] != got[k]:
            a, b = want[k], got[k]
            if isinstance(a, str) and isinstance(b, str) and "\n" in a + b:
                la, lb = a.splitlines(), b.splitlines()
                if len(la) != len(lb):
                    return f"{k}: {what_got} has {len(lb)} lines, {what_want} {len(la)}"
                for x, y in zip(la, lb):
                    if x != y:
                        return f"{k}: {what_got} {y[:300]!r}, {what_want} {x[:300]!r}"
            if isinstance(a, dict) and isinstance(b, dict):
                for c in sorted(set(a) | set(b)):
                    if a.get(c) != b.get(c):
                        return f"{k} {c}: {what_got} {b.get(c)}, {what_want} {a.get(c)}"
            return f"{k}: {what_got} {str(b)[:300]}, {what_want} {str(a)[:300]}"
    return None
