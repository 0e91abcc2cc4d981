"""Archive ground truth: clean records plus planned data faults -> files on disk and the
matching refmodel.Channel objects."""
import os
import numpy as np
from obspy import read, Stream, UTCDateTime
from . import world as W
from .refmodel import Channel

FAULTS = ["gap", "flat", "flatseg", "conflict", "dup", "split", "rate2", "rate3", "rate08", "offsample",
          "foreign", "empty", "stub", "badpayload", "trunc", "absent", "blackout", "dtype", "zero", "fdata"]


def gen_faults(rng, names, dur, n, kinds, marks=()):
    """n faults as plain dicts. marks: interesting instants (s after t0) to aim at."""
    out = []
    for _ in range(n):
        kind = rng.choice(kinds)
        sta = rng.choice(names)
        comp = rng.choice(["*", "Z", "N", "E", "*"])
        if marks and rng.random() < 0.5:
            a = rng.choice(list(marks)) + rng.uniform(-3, 3)
        else:
            a = rng.uniform(0, dur)
        length = rng.choice([0.2, 1.0, 5.0, 20.0, 60.0, dur])
        f = dict(kind=kind, sta=sta, comp=comp, a=round(a, 2), b=round(min(a + length, dur + 1), 2))
        f["v"] = rng.choice([1, 5, -37, 1000, 123456])
        f["off"] = rng.choice([-0.4, -0.25, 0.1, 0.3, 0.4])
        if kind == "blackout":
            f["sta"], f["comp"] = "*", "*"
            f["b"] = round(min(a + rng.choice([5.0, 20.0, 60.0]), dur + 1), 2)
        out.append(f)
    return out


def build(root, w, wf, t0, sr, faults, net="XX"):
    """Writes the archive. Returns the channels (ground truth) and a count of fault kinds."""
    applied = {}
    chans = []
    wf2 = {}
    for (sta, c), d in wf.items():
        ch = Channel(sta, "BH" + c)
        chans.append(ch)
        mine = [f for f in faults if f["sta"] in ("*", sta) and f["comp"] in ("*", c)]
        rate = sr
        kinds = {f["kind"] for f in mine}
        if "absent" in kinds:
            applied["absent"] = applied.get("absent", 0) + 1
            continue
        if "rate2" in kinds:
            rate = 2 * sr
            x = np.arange(len(d) * 2) / 2.0
            d = np.round(np.interp(x, np.arange(len(d)), d)).astype(np.int32)
            applied["rate2"] = applied.get("rate2", 0) + 1
        elif kinds & {"rate3", "rate08"}:
            kind = "rate3" if "rate3" in kinds else "rate08"
            rate = {"rate3": 1.5, "rate08": 0.8}[kind] * sr
            # t0 need not be a whole number of these samples after midnight
            ch.base = -((t0 - UTCDateTime(t0.date)) * rate) % 1.0
            if ch.base > 0.999999:
                ch.base = 0.0
            x = (np.arange(int(len(d) * rate / sr) - 1) + ch.base) * sr / rate
            d = np.round(np.interp(x, np.arange(len(d)), d)).astype(np.int32)
            applied[kind] = applied.get(kind, 0) + 1
        if "fdata" in kinds:                  # physical units, say
            d = (d * 0.0013).astype(np.float32)
            applied["fdata"] = applied.get("fdata", 0) + 1
        off = ch.base
        for f in mine:
            if f["kind"] == "offsample":
                off = ch.base + f["off"]
                applied["offsample"] = applied.get("offsample", 0) + 1
        d = d.copy()
        segs = [(0, len(d))]
        extra = []
        junk = []
        isfloat = False
        for f in mine:
            k = f["kind"]
            a, b = max(0, int(f["a"] * rate)), min(len(d), int(f["b"] * rate))
            if k in ("gap", "blackout"):
                new = []
                for s, e in segs:
                    if b <= s or a >= e:
                        new.append((s, e))
                        continue
                    if a > s:
                        new.append((s, a))
                    if b < e:
                        new.append((b, e))
                segs = new
            elif k == "flat":
                d[:] = f["v"]
            elif k == "zero":
                d[:] = 0
            elif k == "flatseg":
                d[a:b] = f["v"]
            elif k == "split":
                segs = [x for s, e in segs for x in ([(s, a), (a, e)] if s < a < e else [(s, e)])]
            elif k in ("dup", "conflict"):
                extra.append((k, a, b))
            elif k in ("foreign", "empty", "stub", "badpayload", "trunc"):
                junk.append(f)
            elif k == "dtype":
                isfloat = True
                extra.append((k, a, b))
            else:
                continue
            applied[k] = applied.get(k, 0) + 1
        tag = 0
        pieces = [(s, d[s:e]) for s, e in segs if e > s]
        for k, a, b in extra:
            if b - a < 2:
                continue
            x = d[a:b].copy()
            if k == "conflict":
                x = x + 7
            if k == "dtype":
                x = x.astype(np.float32)
            pieces.append((a, x))
        files = {}
        for s, x in pieces:
            tr = W.trace(net, sta, "BH" + c, x, t0 + (s + off) / rate, rate)
            for p in W.day_pieces(tr):
                n0 = int(round((p.stats.starttime - t0) * rate - off))
                path = W.archive_path(root, p.stats.starttime, sta, "BH" + c, f".{tag}" if tag else "")
                W.write_mseed(path, p)
                files[path] = (n0, p)
                tag += 1
        for f in junk:
            k = f["kind"]
            if k in ("foreign", "empty", "stub"):
                path = W.archive_path(root, t0 + max(0.0, min(f["a"], len(d) / rate)), sta, "BH" + c, f".j{tag}")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                body = {"foreign": b"station notes: serviced\n" * 40, "empty": b"", "stub": b"000001D " + b"A" * 92}[k]
                if k == "stub" and files:
                    body = open(sorted(files)[0], "rb").read()[:100]
                with open(path, "wb") as fh:
                    fh.write(body)
                tag += 1
            elif files:
                able = sorted(q for q in files if k != "badpayload" or files[q][1].data.dtype == np.int32)
                if not able:
                    continue
                path = able[int(abs(f["a"])) % len(able)]
                b = bytearray(open(path, "rb").read())
                if k == "badpayload":
                    for i in range(0, len(b), 512):
                        b[i + 64:i + 512] = bytes(min(512, len(b) - i) - 64)
                    with open(path, "wb") as fh:
                        fh.write(bytes(b))
                    files.pop(path)
                else:
                    cut = int(len(b) * (0.2 + 0.6 * (abs(f["a"]) % 1)))
                    cut = max(cut, 600)
                    with open(path, "wb") as fh:
                        fh.write(bytes(b[:cut]))
                    st = read(path)
                    files[path] = None
                    for tr in st:
                        ch.add(tr.stats.sampling_rate, off, round((tr.stats.starttime - t0) * rate - off), tr.data)
                    files.pop(path)
        for path, v in files.items():
            n0, p = v
            ch.add(rate, off, n0, p.data)
    return chans, applied
