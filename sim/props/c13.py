"""C13: archive reads return exactly the stored samples."""
import contextlib
import io
import os
import warnings
import numpy as np
import pandas as pd
from obspy import Stream, UTCDateTime
from .. import world as W, detect as D, refmodel as R
from ..core import Violation, digest
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 900, "thorough": 40000}
RULE = ("seeded archives (seven directory structures, miniSEED encodings or SAC, several networks and locations, prefix station names, records split, "
        "duplicated, in conflict, off-sample, mixed rate or type, with damaged, foreign and empty files beside them) read for 3-7 windows each under seeded "
        "listing orders and read errors (EIO, file gone) at seeded operations; every returned trace compared with the stored samples; non-trivial if a window "
        "held data of a channel with at least two stored pieces or a fault took effect; distinct by digest of plan-independent results")
REAL = ["quakemigrate.io.Archive.read_waveform_data, WaveformData.check_availability, util.merge_stream and shift_to_sample", "ObsPy readers"]
STUB = ["directory order and read errors (simulated OS)", "archive contents (generated)"]
ASSUME = ["archives are split into days, as documented", "sampling rates are whole numbers of Hz or repeat within a second; window ends do not fall midway between samples",
          "permission errors on directories are not injected (pathlib hides them)"]
FORMATS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY", "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"]
SINGLE = "/STATION/STATION.YearMonthDay"


def gen(rng, i, tier):
    sr = rng.choice([1, 10, 20, 25, 40, 50, 100, 12.5, 62.5]) if rng.random() < 0.9 else 5
    names = rng.choice([["AB", "ABC1", "Q2"], ["S1", "S10"], ["AB", "B", "CAB"], ["X01", "X02", "X03", "X04"]])
    fmt = rng.choice(FORMATS)
    span = rng.choice([40.0, 90.0]) if sr > 1 else rng.choice([300.0, 900.0])
    p = dict(sr=sr, names=names, fmt=fmt, span=span, lead=rng.choice([0.0, 0.0, 20.0, 20.0, span // 4 * 2, -3600.0, 2.0]), sac=rng.random() < 0.12,
             day=rng.choice(["2021-03-05", "2020-02-29", "2020-01-01", "2020-12-31"]), seed=rng.randrange(10 ** 9),
             list_seed=rng.randrange(10 ** 6), sel=None, all_sta=rng.random() < 0.25, interp=rng.random() < 0.08,
             channels=rng.choice(["*", "*", "[B,H]H*", "BHZ*"]) if fmt == "SeisComp3" else "*", chans=[], junk=[], wins=[], rf=None)
    if rng.random() < 0.3:
        p["sel"] = rng.sample(names, rng.randint(1, len(names)))
    for s in names:
        for c in rng.choice([["BHZ"], ["BHZ", "BHN", "BHE"], ["BHZ", "HHZ"], ["EHZ", "BH1"], ["BHZ", "BHN"]]):
            for loc in rng.choice([[""], [""], ["00"], ["", "10"]]):
                ch = dict(sta=s, chan=c, loc=loc, net=rng.choice(["XX", "XX", "YY"]), rate=sr * rng.choice([1, 1, 1, 1, 2]), dtype=rng.choice(["i4"] * 5 + ["f4", "f8"]),
                          off=rng.choice([0.0] * 5 + [0.3, -0.4, 0.02, 0.1]), cuts=[], gaps=[], extra=[], reclen=rng.choice([256, 512, 512, 4096]),
                          enc=rng.choice([None, "STEIM1", "STEIM2", "INT32"]), tag=rng.choice(["", ".a"]), gone=rng.random() < 0.05)
                ch["cuts"] = sorted(round(rng.uniform(0, span), 3) for _ in range(rng.choice([0, 0, 1, 2, 4])))
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    a = rng.uniform(0, span)
                    ch["gaps"].append([round(a, 3), round(a + rng.choice([0.0, 0.5, 3.0, 20.0]) + 1.01 / ch["rate"], 3)])
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    a = rng.uniform(0, span)
                    ch["extra"].append(dict(kind=rng.choice(["dup", "dup", "dup", "conflict", "conflict", "one", "dtype", "rate", "off"]), a=round(a, 3),
                                            b=round(a + rng.choice([0.3, 2.0, 10.0, span]), 3)))
                p["chans"].append(ch)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        p["junk"].append(dict(kind=rng.choice(["text", "empty", "stub", "payload", "zeros", "header"]), sta=rng.choice(names), at=round(rng.random(), 3),
                              first=rng.random() < 0.5))
    for _ in range(rng.choice([3, 5, 7])):
        a = rng.choice([0.0, p["lead"], p["lead"] - 5, rng.uniform(-10, span), rng.uniform(0, span)])
        if p["chans"] and rng.random() < 0.4:
            ch = rng.choice(p["chans"])
            ms = ch["cuts"] + [x for g in ch["gaps"] for x in g] + [x[k] for x in ch["extra"] for k in "ab"]
            if ms:
                a = rng.choice(ms) + rng.choice([0, 0, -1, 1, -2]) / sr - rng.choice([0, 0, 5.0, 10.0])
        ln = rng.choice([1.0, 5.0, 10.0, 10.0, 30.0, span + 20]) * (1 if sr > 1 else 10)
        p["wins"].append(dict(a=round(a * sr) / sr, n=int(ln * sr), pre=rng.choice([0.0, 0.0, 3.0, 7.33]), post=rng.choice([0.0, 0.0, 4.0])))
    if rng.random() < 0.35:
        p["rf"] = dict(pos=rng.random(), kind=rng.choice(["eio", "eio", "vanish"]), n=rng.choice([1, 1, 3, 50]), win=rng.randrange(len(p["wins"])))
    return p


def path_of(p, root, ch, t, tag):
    t = UTCDateTime(t)
    y, j, s = t.year, t.julday, ch["sta"]
    f = p["fmt"]
    ld = ch["loc"]
    if f == "SeisComp3":
        q = f"{y}/{ch['net']}/{s}/{ch['chan']}.D/{ch['net']}{tag}.{s}.{ld}.{ch['chan']}.D.{y}.{j:03d}"
    elif f == "YEAR/JD/*_STATION_*":
        q = f"{y}/{j:03d}/{ch['net']}_{s}_{ld}{ch['chan']}{tag}"
    elif f == "YEAR/JD/STATION":
        q = f"{y}/{j:03d}/{s}{tag}_{ld}{ch['chan']}.m"
    elif f == "STATION.YEAR.JULIANDAY":
        q = f"{ch['net']}{tag}.{s}.{ld}{ch['chan']}.{y}.{j:03d}"
    elif f == SINGLE:
        q = f"{s}/{s}.{y}{t.month:02d}{t.day:02d}"
    elif f == "YEAR_JD/STATION*":
        q = f"{y}_{j:03d}/{s}{tag}{ld}{ch['chan']}"
    else:
        q = f"{y}_{j:03d}/{s}_{tag}{ld}{ch['chan']}"
    return os.path.join(root, q)


def build(p, root, t0):
    """Writes the archive; returns {id: [(rate, off, n0, values)]}."""
    stored, files, used = {}, {}, {}
    for ci, ch in enumerate(p["chans"]):
        cid = ".".join([ch["net"], ch["sta"], ch["loc"], ch["chan"]])
        if ch["gone"] or cid in stored:
            continue
        stored[cid] = []
        rate = ch["rate"]
        r = np.random.default_rng([p["seed"], ci])
        n = int(p["span"] * rate)
        y = np.round(r.normal(0, 300, n)).cumsum()
        y = (y + np.arange(n) % 7).astype({"i4": np.int32, "f4": np.float32, "f8": np.float64}[ch["dtype"]])
        if ch["dtype"] == "f8":
            y = y + r.random(n)
        if p["sac"]:
            y = np.clip(y, -1e6, 1e6).astype(np.float32)
        edges = [0] + sorted({min(n, max(0, int(c * rate))) for c in ch["cuts"]}) + [n]
        segs = [(a, b) for a, b in zip(edges, edges[1:]) if b > a]
        for ga, gb in ch["gaps"]:
            ga, gb = int(ga * rate), int(np.ceil(gb * rate))
            segs = [x for s, e in segs for x in ((s, min(e, ga)), (max(s, gb), e)) if x[1] > x[0]]
        pieces = [(rate, ch["off"], s, y[s:e]) for s, e in segs]
        for x in ch["extra"]:
            a, b = max(0, int(x["a"] * rate)), min(n, int(x["b"] * rate))
            if b - a < 2:
                continue
            d, k = y[a:b].copy(), x["kind"]
            if k == "conflict":
                d = d + d.dtype.type(11)
            elif k == "one":
                d[len(d) // 2] += 1
            elif k == "dtype":
                if p["sac"]:
                    continue
                d = d.astype(np.float32 if d.dtype != np.float32 else np.float64)
            elif k == "rate":
                if p["sac"] or not p["fmt"] != SINGLE:
                    continue
                pieces.append((rate * 2, ch["off"], a * 2, np.repeat(d, 2)))
                continue
            elif k == "off":
                pieces.append((rate, 0.25 if ch["off"] <= 0 else -0.25, a, d))
                continue
            pieces.append((rate, ch["off"], a, d))
        for rt, off, s, d in pieces:
            tr = W.trace(ch["net"], ch["sta"], ch["chan"], d, UTCDateTime(ns=t0._ns + int(round((s + off) * 1e9 / rt))), rt, ch["loc"])
            for q in W.day_pieces(tr):
                k0 = s + int(round((q.stats.starttime - tr.stats.starttime) * rt))
                stored[cid].append((rt, off, k0, q.data.copy()))
                key = path_of(p, root, ch, q.stats.starttime, "")
                if p["fmt"] != SINGLE:
                    k = used[key] = used.get(key, -1) + 1
                    if k or p["sac"]:
                        key = path_of(p, root, ch, q.stats.starttime, ch["tag"] + (f"-{k}" if k else ""))
                        if key in files:
                            key = path_of(p, root, ch, q.stats.starttime, f"-{ci}-{k}")
                files.setdefault(key, []).append((q, ch))
    for path, trs in files.items():
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if p["sac"] and p["fmt"] != SINGLE:
            trs[0][0].write(path, format="SAC")
            continue
        with open(path, "wb") as fh:
            for q, ch in trs:
                kw = {}
                if ch["enc"] and q.data.dtype == np.int32:
                    kw["encoding"] = ch["enc"]
                b = io.BytesIO()
                Stream([q]).write(b, format="MSEED", reclen=ch["reclen"], **kw)
                fh.write(b.getvalue())
    junked = {}
    for k, j in enumerate(p["junk"]):
        if p["fmt"] == SINGLE:
            continue
        t = t0 + (0 if j["first"] else p["span"] - 1)
        path = path_of(p, root, dict(net="XX", sta=j["sta"], loc="", chan="BHZ"), t, f"-j{k}")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        some = sorted(f for f in files if p["sac"] or len(files[f]) == 1)
        raw = b""
        pick = some[min(int(j["at"] * len(some)), len(some) - 1)] if some else None
        if some:
            with open(pick, "rb") as fh:
                raw = fh.read()
        body = {"text": b"Station log\n" * 30, "empty": b"", "stub": raw[:80], "zeros": bytes(1024), "header": raw[:48] + bytes(464),
                "payload": None}[j["kind"]]
        if j["kind"] == "payload":
            if p["sac"] or not some or files[pick][0][0].data.dtype != np.int32 \
                    or files[pick][0][1]["enc"] == "INT32":
                continue
            rl = files[pick][0][1]["reclen"]
            b = bytearray(raw)
            for i in range(0, len(b), rl):
                b[i + 64:i + rl] = bytes(rl - 64)
            body = bytes(b)
        if j["kind"] in ("stub", "header", "payload") and not raw:
            continue
        with open(path, "wb") as fh:
            fh.write(body)
        junked[j["kind"]] = junked.get(j["kind"], 0) + 1
    return stored, junked


def near(x):
    return int(np.floor(x + 0.5))


def cut(pieces, a, b):
    """Samples of [a, b] seconds after t0 to the nearest sample: (class, what).
    'none'; 'runs' [(k, values)]; 'conflict' / 'odd' (mixed rates, types or offsets); 'tie'."""
    got = []
    for rt, off, k0, d in pieces:
        xa, xb = a * rt - off, b * rt - off
        for x in (xa, xb):
            if abs(x - np.floor(x) - 0.5) < 0.02:
                return "tie", None
        lo, hi = max(near(xa), k0), min(near(xb), k0 + len(d) - 1)
        if hi >= lo:
            got.append((rt, off, lo, d[lo - k0:hi - k0 + 1]))
    if not got:
        return "none", None
    if len({(g[0], round(g[1], 6), str(g[3].dtype)) for g in got}) > 1:
        return "odd", got
    lo = min(g[2] for g in got)
    hi = max(g[2] + len(g[3]) for g in got)
    v = np.zeros(hi - lo, got[0][3].dtype)
    have = np.zeros(hi - lo, bool)
    for _, _, k, d in got:
        s = slice(k - lo, k - lo + len(d))
        if (have[s] & (v[s] != d)).any():
            return "conflict", got
        v[s] = d
        have[s] = True
    runs, j = [], 0
    idx = np.flatnonzero(np.diff(np.concatenate([[0], have.astype(int), [0]])))
    for s, e in zip(idx[::2], idx[1::2]):
        runs.append((lo + int(s), v[s:e]))
    return "runs", (got[0][0], got[0][1], runs)


def compare(p, t0, trs, cls, truth, shifted, what, stored):
    """Check the traces returned for one channel."""
    if cls == "tie":
        return
    if cls == "none":
        if any(len(t) for t in trs):
            raise Violation("invented", f"{what}: {len(trs)} traces returned where nothing is stored")
        return
    if cls in ("odd", "conflict"):
        if p["interp"] and shifted:
            return
        # may be left out, or passed on as it is; never made up
        for t in trs:
            if np.ma.is_masked(t.data):
                raise Violation("invented", f"{what}: samples masked into one trace")
            if not pieced(t, stored, t0, shifted):
                raise Violation("invented", f"{what}: trace {t} is not what is stored")
        return
    rt, off, runs = truth
    trs = sorted(trs, key=lambda t: t.stats.starttime)
    if len(trs) != len(runs):
        raise Violation("segments", f"{what}: {len(trs)} segments returned ({[str(t) for t in trs]}), {len(runs)} stored "
                        f"({[(str(t0 + (k + off) / rt), len(v)) for k, v in runs]})")
    for t, (k, v) in zip(trs, runs):
        want = t0 + (k + (0.0 if shifted else off)) / rt
        if abs(t.stats.sampling_rate - rt) > 1e-6 * rt:
            raise Violation("times", f"{what}: sampling rate {t.stats.sampling_rate}, stored {rt}")
        if abs(t.stats.starttime - want) > (2e-5 if p["sac"] else 5e-6):
            raise Violation("times", f"{what}: segment starts at {t.stats.starttime}, expected {want}")
        if t.stats.npts != len(v):
            raise Violation("samples", f"{what}: segment of {t.stats.npts} samples from {t.stats.starttime}, {len(v)} stored")
        if p["interp"] and shifted and (off or p["sac"]) and len(v) > 1:
            y = R.at_sample(np.asarray(v, float), off) if off else np.asarray(v, float)
            # time stamps are floats of seconds since 1970, and SAC's sampling interval is in single precision
            err = np.abs(np.asarray(t.data) - y) > (1e-2 if p["sac"] else 1e-4) * float(np.abs(v).max())
            if p["sac"] and not off:
                # single precision puts these off-sample by microseconds to either side: the edge is padded for a shift either way
                err[0] = err[-1] = False
            if err.any():
                n = int(err.argmax())
                raise Violation("values", f"{what}: sample {n} of the segment from {t.stats.starttime} is {t.data[n]}, interpolation gives {y[n]}")
            continue
        if not np.array_equal(np.asarray(t.data), v):
            n = int(np.flatnonzero(np.asarray(t.data) != v)[0])
            raise Violation("values", f"{what}: sample {n} of the segment from {t.stats.starttime} is {t.data[n]}, stored {v[n]}")


def pieced(t, stored, t0, shifted):
    """Is every sample of t one of those stored for its time?"""
    n = t.stats.npts
    ok = np.zeros(n, bool)
    for rt, off, k0, d in stored:
        if abs(rt - t.stats.sampling_rate) > 1e-6 * rt:
            continue
        x = (t.stats.starttime - t0) * rt - off
        for k in {int(np.floor(x)), int(np.ceil(x))}:
            if abs(x - k) > (0.5 if shifted else 0.02):
                continue
            lo, hi = max(k, k0), min(k + n, k0 + len(d))
            if hi > lo:
                ok[lo - k:hi - k] |= np.asarray(t.data)[lo - k:hi - k] == d[lo - k0:hi - k0]
    return bool(ok.all())


def execute(plan, scratch):
    from quakemigrate.io import Archive
    from quakemigrate import util
    p = plan
    root = os.path.join(scratch, "archive")
    os.makedirs(root)
    t0 = UTCDateTime(p["day"]) - p["lead"]
    stored, faults = build(p, root, t0)
    sel = p["sel"] or p["names"]
    arc = Archive(root, pd.DataFrame({"Name": sel}), archive_format=p["fmt"], channels=p["channels"], read_all_stations=p["all_sta"], interpolate=p["interp"])
    import fnmatch
    if p["channels"] != "*":
        pat = p["channels"].replace("[B,H]", "[BH]")
        stored = {c: v for c, v in stored.items() if fnmatch.fnmatch(c.split(".")[3] + ".D", pat)}
    out, nontriv, nops = [], False, 0
    cnt = {}
    for wi, w in enumerate(p["wins"]):
        a = w["a"]
        b = a + w["n"] / p["sr"]
        s, e = t0 + a, t0 + b

        def read(faults):
            with Sim(scratch, list_seed=p["list_seed"] + wi, faults=faults, raw_reads=bool(faults)) as sim, D.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    return arc.read_waveform_data(s, e, w["pre"], w["post"]), None, sim
                except (util.ArchiveEmptyException, util.DataGapException) as x:
                    return None, x, sim
                except OSError as x:
                    return None, x, sim
                except Exception as x:  # noqa
                    raise Violation("exception", f"reading {s} to {e}: {type(x).__name__}: {x}")
        flt = []
        rf = p["rf"]
        if rf and rf["win"] == wi:
            with Sim(scratch, list_seed=p["list_seed"] + wi, raw_reads=True) as sim, D.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    arc.read_waveform_data(s, e, w["pre"], w["post"])
                except Exception:  # noqa
                    pass
                n = sim.main.n_ops
            at = 1 + int(rf["pos"] * max(1, n))
            flt = [dict(node=0, at=f"r:{k}", kind=rf["kind"]) for k in range(at, at + rf["n"])]
        data, err, sim = read(flt)
        hit = sum(sim.fired.values())
        for k, v in sim.fired.items():
            faults["read_" + k] = faults.get("read_" + k, 0) + v
        nops += sim.n_total
        if sim.lists_permuted:
            faults["listing_order"] = faults.get("listing_order", 0) + 1
        what = f"window {s} to {e} (pre {w['pre']}, post {w['post']})" + (f", {rf['kind']} at read operation {at} of {n}" if hit else "")
        if isinstance(err, OSError):
            if not hit:
                raise Violation("exception", f"{what}: {type(err).__name__}: {err}")
            out.append("oserror")
            nontriv = True
            continue
        mine = {c: v for c, v in stored.items() if c.split(".")[1] in sel}
        cls = {}
        for c, v in mine.items():
            cls[c] = cut(v, a, b)
        if data is None:
            some = [c for c, v in cls.items() if v[0] == "runs"]
            if some:
                raise Violation("missing", f"{what}: {type(err).__name__}, but {some} are stored")
            out.append("nodata")
            nontriv |= bool(hit)
            continue
        res = {}
        for c, (k, truth) in cls.items():
            trs = data.waveforms.select(id=c)
            compare(p, t0, trs, k, truth, True, f"{what}: {c}", mine[c])
            cnt[k] = cnt.get(k, 0) + 1
            res[c] = [(str(t.stats.starttime), digest(np.ascontiguousarray(t.data).tobytes())) for t in sorted(trs, key=lambda t: (t.stats.starttime, t.stats.npts))]
            if k == "conflict" and len(trs):
                _, av = data.check_availability(trs, allow_gaps=True, full_timespan=False)
                if av.get(c):
                    raise Violation("conflict-used", f"{what}: {c} holds conflicting samples and is passed as available ({[str(t) for t in trs]})")
            if k == "runs" and len(mine[c]) > 1:
                nontriv = True
            if k == "runs" and len(truth[2]) == 1 and truth[2][0][1].min() != truth[2][0][1].max():
                lo, hi = near(a * truth[0] - truth[1]), near(b * truth[0] - truth[1])
                full = len(truth[2][0][1]) == hi - lo + 1
                _, av = data.check_availability(trs, full_timespan=True)
                nfull = truth[2][0][1].size >= round((b - a) * truth[0], 6) + 1
                if bool(av[c]) != nfull:
                    raise Violation("availability", f"{what}: {c} is {'complete' if nfull else 'incomplete'} but reported as {'un' if not av[c] else ''}available")
        for c in {t.id for t in data.waveforms}:
            if p["all_sta"] and c.split(".")[1] not in sel:
                raise Violation("unselected", f"{what}: waveforms hold {c}, which was not selected")
        raw = stored if p["all_sta"] else mine
        for c, v in raw.items():
            k, truth = cut(v, a - w["pre"], b + w["post"])
            compare(p, t0, data.raw_waveforms.select(id=c), k, truth, False, f"{what}: raw {c}", v)
        for c in {t.id for t in data.waveforms} | {t.id for t in data.raw_waveforms}:
            if c not in stored and c.split(".")[1] in sel and p["channels"] == "*":
                raise Violation("invented", f"{what}: {c} is not in the archive")
        out.append(res)
        nontriv |= bool(hit)
    return dict(digest=digest(out), key=digest(out), nontrivial=nontriv, faults=faults, simtime=sum(w["n"] / p["sr"] for w in p["wins"]),
                stats=dict(reads=len(p["wins"]), file_operations=nops, **{"channel_windows_" + k: v for k, v in cnt.items()}))


def shrink(plan):
    for key in ("wins", "chans", "junk"):
        n = len(plan[key])
        if n > 1 or key == "junk":
            for i in range(n):
                q = dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
                if key == "wins" and plan["rf"]:
                    w = plan["rf"]["win"]
                    if w == i:
                        continue
                    q["rf"] = dict(plan["rf"], win=w - (i < w))
                yield q
    for i, c in enumerate(plan["chans"]):
        for k in ("cuts", "gaps", "extra"):
            for j in range(len(c[k])):
                yield dict(plan, chans=plan["chans"][:i] + [dict(c, **{k: c[k][:j] + c[k][j + 1:]})] + plan["chans"][i + 1:])
        if c["off"]:
            yield dict(plan, chans=plan["chans"][:i] + [dict(c, off=0.0)] + plan["chans"][i + 1:])
    if plan["rf"]:
        yield dict(plan, rf=None)
    for i, w in enumerate(plan["wins"]):
        for k in ("pre", "post"):
            if w[k]:
                yield dict(plan, wins=plan["wins"][:i] + [dict(w, **{k: 0.0})] + plan["wins"][i + 1:])
