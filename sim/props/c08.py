"""C08: triggered-event files always reflect the latest trigger run; locate selects exactly."""
import contextlib
import io
import json
import os
import random
import numpy as np
from obspy import UTCDateTime
from .. import trig as T, world as W
from ..core import Violation, digest, tree_digest
from ..simos import Sim, Killed

LEVEL = "exploration"
CASES = {"quick": 420, "thorough": 20000}
RULE = ("seeded histories of 2-7 trigger runs (parameters, thresholds that leave no event, regions, options, sub-run names, periods, "
        "same or new process; some killed or stopped by EIO/ENOSPC, also in mid-write) and locate selections over one run directory, compared after every operation with a model that "
        "remembers the last run per day; non-trivial if some day was covered at least twice; distinct by digest of outcome")
REAL = ["quakemigrate Trigger, triggered-events I/O, QuakeScan.locate event selection"]
STUB = ["saved coalescence (written by the harness)", "archive (records the window asked for, holds no data)", "simulated OS"]
ASSUME = ["a day file is replaced as a whole by a run that covers part of that day (documented file naming)",
          "locating a period without any triggered-events file may raise NoTriggerFilesFound"]


def gen(rng, i, tier):
    sr = rng.choice([10, 20, 25])
    a, b = -100.0, 100.0
    plan = dict(sr=sr, day=rng.choice(["2021-03-05", "2020-02-29", "2022-01-01", "2024-12-31"]), segs=[[a, b]],
                hseed=rng.randrange(10 ** 6), unit="km", list_seed=rng.randrange(10 ** 6))
    plan["peaks"] = T.gen_peaks(rng, sr, a + 12, b - 12, rng.choice([3, 6, 8, 10]), [0.0, -1 / sr, 20.0, -20.0])
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        sub = rng.choice(["", "", "s1", "s2"])
        newp = rng.random() < 0.3
        if ops and rng.random() < 0.45:
            per = rng.choice([None, [a, b], [a, 0.0], [0.0, b], [-20.0, 20.0], [0.0, 86400.0], [-86400.0, 0.0]])
            ev = rng.choice([None, "start", "end", "both"])
            ops.append(dict(op="locate", sub=sub, per=per, at=ev, pick=rng.random(), new=newp, file=rng.random() < 0.35,
                            mw=rng.choice([0.5, 1.0, 2.0])))
        else:
            tp = T.gen_params(rng, sr, allow_dynamic=False)
            tp["pad"] = rng.choice([20.0, 30.0])
            if rng.random() < 0.6:
                tp["threshold"], tp["norm"] = 1.25, False
            if rng.random() < 0.3:
                tp["threshold"] = rng.choice([1.9, 2.9, 5.0, 50.0])
            if rng.random() < 0.2:
                tp["region"] = rng.choice([[9.0, 44.0, -1e5, 10.004, 46.0, 1e5], [11.0, 44.0, -1e5, 12.0, 46.0, 1e5]])
            per = rng.choice([[a, b], [a, b], [a, 0.0], [0.0, b], [-40.0, 30.0], [10.0, b], [a, -10.0]])
            ops.append(dict(op="trigger", sub=sub, per=per, tp=tp, new=newp))
    plan["ops"] = ops
    if rng.random() < 0.5:
        for k, o in enumerate(ops):
            if o["op"] == "trigger" and rng.random() < 0.35:
                o["fault"] = dict(node=0, at=rng.randrange(12), kind=rng.choice(["kill", "kill", "eio", "enospc"]), frac=rng.choice([0.0, 0.4, 0.9, 1.0]))
                if o["fault"]["kind"] == "kill" and k + 1 < len(ops):
                    ops[k + 1]["new"] = True
        plan["bufsize"] = rng.choice([128, 512, 8192])
    return plan


def events_dir(runs, sub):
    return os.path.join(runs, "run", "trigger", sub, "events") if sub else os.path.join(runs, "run", "trigger", "events")


def scan(runs, e_arc, st, lut, sub, mw, rec):
    from quakemigrate import QuakeScan, util
    from quakemigrate.io import Archive
    from quakemigrate.signal.onsets import STALTAOnset

    class Recorder(Archive):
        def read_waveform_data(self, starttime, endtime, pre_pad=0.0, post_pad=0.0):
            rec.append((starttime, endtime))
            raise util.ArchiveEmptyException

    arc = Recorder(e_arc, st, archive_format="YEAR/JD/STATION")
    on = STALTAOnset(position="classic", sampling_rate=20)
    return QuakeScan(arc, lut, on, runs, "run", run_subname=sub, marginal_window=mw, plot_event_summary=False, log=False)


def execute(plan, scratch):
    from quakemigrate import util
    h = T.History(plan)
    lut, st = T.tiny_lut()
    runs = os.path.join(scratch, "runs")
    arc = os.path.join(scratch, "arc")
    os.makedirs(arc)
    h.write(os.path.join(runs, "run"))
    model = {}            # (sub, file) -> (rows, windows)
    cover = {}
    nsel = [0]
    fired = {}

    # processes: consecutive ops until one that starts a new process
    groups, cur = [], []
    for k, o in enumerate(plan["ops"]):
        if o["new"] and cur:
            groups.append(cur)
            cur = []
        cur.append((k, o))
    groups.append(cur)

    def check(what):
        for sub in ("", "s1", "s2"):
            d = events_dir(runs, sub)
            on_disk = sorted(f for f in os.listdir(d) if f.endswith(".csv")) if os.path.isdir(d) else []
            for f in on_disk:
                if (sub, f) not in model:
                    raise Violation("stray", f"{what}: {sub or 'run'} holds {f}, a day no run has covered")
            for (s, f), (rows, windows) in model.items():
                if s != sub:
                    continue
                if f not in on_disk:
                    if rows:
                        raise Violation("missing-file", f"{what}: {f} does not exist, the last run over that day found "
                                        f"{[r['EventID'] for r in rows]}")
                    continue
                cols, got = T.read_csv(os.path.join(d, f))
                if not rows and not got:
                    continue
                df = T.diff_rows(rows, cols, got, windows)
                if df:
                    raise Violation("stale", f"{what}: {f}: {df}")

    def perform(k, o):
        if o["op"] == "trigger":
            tp = o["tp"]
            s, e = h.day + o["per"][0], h.day + o["per"][1]
            t = T.make_trigger(lut, runs, "run", tp, o["sub"])
            t.trigger(str(s), str(e), region=tp["region"])
            return
        rec = []
        q = scan(runs, arc, st, lut, o["sub"], o["mw"], rec)
        sel, kw, desc = selection(o)
        if sel is None:
            return
        try:
            q.locate(**kw)
        except util.NoTriggerFilesFound:
            if sel:
                raise Violation("selection", f"op {k}: {desc}: no trigger files found, expected {sorted(sel)}")
            return
        pre, post = q.onset.pad(4 * o["mw"])
        got = sorted(x + 2 * o["mw"] + pre for x, _ in rec)
        want = sorted(sel)
        if [round(g.timestamp, 5) for g in got] != [round(w.timestamp, 5) for w in want]:
            raise Violation("selection", f"op {k}: {desc}: events processed {[str(g) for g in got]}, expected {[str(w) for w in want]}")
        nsel[0] += len(want)

    def half(k, o):
        """A trigger run was stopped half-way: each day it covers has its events as before or as found by it."""
        for a, b in T.batches(h.day + o["per"][0], h.day + o["per"][1]):
            key = (o["sub"], T.fname("run", o["sub"], a))
            f = os.path.join(events_dir(runs, o["sub"]), key[1])
            new = (T.batch_rows(h, o["tp"], a, b) or [], o["tp"]["windows"])
            if os.path.exists(f):
                try:
                    cols, got = T.read_csv(f)
                except Exception as x:  # noqa
                    raise Violation("torn", f"op {k} trigger stopped by {o['fault']['kind']}: {key[1]} left unreadable ({type(x).__name__}: {x})")
                if (not new[0] and not got) or T.diff_rows(new[0], cols, got, new[1]) is None:
                    model[key] = new
                    cover[key] = cover.get(key, 0) + 1

    def selection(o):
        """Event times locate must process, its arguments, a description."""
        mine = {f: rows for (s, f), (rows, _) in model.items() if s == o["sub"]}
        rows = [r for f in mine for r in mine[f]]
        s = e = None
        per = o["per"]
        if per:
            s, e = h.day + per[0], h.day + per[1]
            times = sorted(r["CoaTime"] for r in rows)
            if times and o["at"] in ("start", "both"):
                s = min(times[int(o["pick"] * len(times))], e)
            if times and o["at"] in ("end", "both"):
                e = max(times[int((1 - o["pick"]) * len(times)) % len(times)], s)
        kw = {}
        if o["file"]:
            have = sorted(f for f in mine if os.path.exists(os.path.join(events_dir(runs, o["sub"]), f)))
            if not have:
                return None, None, None
            f = have[int(o["pick"] * len(have))]
            rows = mine[f]
            kw["trigger_file"] = os.path.join(events_dir(runs, o["sub"]), f)
        elif not per:
            return None, None, None
        if s is not None and not o["file"]:
            kw.update(starttime=str(s), endtime=str(e))
            mid = e == UTCDateTime(e.date)
            rows = [r for r in rows if s <= r["CoaTime"] and (r["CoaTime"] < e if mid else r["CoaTime"] <= e)]
        return [r["CoaTime"] for r in rows], kw, f"locate({kw})"

    ops_run = 0
    for g in groups:
        # model of what the whole group does to the day files
        def body():
            for k, o in g:
                sim = None
                try:
                    with Sim(scratch, seed=k, list_seed=plan["list_seed"], faults=[o["fault"]] if o.get("fault") else (), bufsize=plan.get("bufsize")) as sim, \
                            contextlib.redirect_stdout(io.StringIO()):
                        perform(k, o)
                except Violation:
                    raise
                except (Killed, Exception) as x:  # noqa
                    if not sim.fired:
                        import traceback
                        raise Violation("raised", f"op {k} {o['op']} stopped with {type(x).__name__}: {x}", tb=traceback.format_exc())
                    for q, v in sim.fired.items():
                        fired[q] = fired.get(q, 0) + v
                    half(k, o)
                    check(f"after op {k} ({o['op']} {o['sub'] or '-'} {o['per']}) was stopped by {o['fault']['kind']}")
                    continue
                if o["op"] == "trigger":
                    for a, b in T.batches(h.day + o["per"][0], h.day + o["per"][1]):
                        key = (o["sub"], T.fname("run", o["sub"], a))
                        model[key] = (T.batch_rows(h, o["tp"], a, b) or [], o["tp"]["windows"])
                        cover[key] = cover.get(key, 0) + 1
                check(f"after op {k} ({o['op']} {o['sub'] or '-'} {o['per']})")
        if len(groups) == 1:
            body()
        else:
            in_child(body, model, cover, nsel, fired)
        ops_run += len(g)
    d = digest(tree_digest(runs))
    return dict(digest=d, key=d, nontrivial=any(v > 1 for v in cover.values()),
                stats=dict(ops=ops_run, processes=len(groups), rewritten_days=sum(v > 1 for v in cover.values()),
                           located_selected=nsel[0], empty_results=sum(not r for r, _ in model.values())),
                faults=dict(fired, **({"process_restart": len(groups) - 1} if len(groups) > 1 else {})), simtime=200.0)


def in_child(body, model, cover, nsel, fired):
    """Run body in a forked process; its updates of model and cover come back pickled."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                body()
                blob = pickle.dumps(("ok", dict(model), dict(cover), nsel, fired))
            except Violation as v:
                blob = pickle.dumps(("v", v.kind, v.what))
            except BaseException as x:  # noqa
                blob = pickle.dumps(("x", repr(x), ""))
            while blob:
                blob = blob[os.write(w, blob):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    res = pickle.loads(buf)
    if res[0] == "v":
        raise Violation(res[1], res[2])
    if res[0] == "x":
        raise RuntimeError(res[1])
    model.update(res[1])
    cover.update(res[2])
    nsel[:] = res[3]
    fired.update(res[4])


def shrink(plan):
    n = len(plan["ops"])
    for i in range(n):
        yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    for i in range(len(plan["peaks"])):
        yield dict(plan, peaks=plan["peaks"][:i] + plan["peaks"][i + 1:])
    for i, o in enumerate(plan["ops"]):
        if o["new"]:
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, new=False)] + plan["ops"][i + 1:])
        if o.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
        if o["op"] == "trigger" and o["tp"]["region"]:
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, tp=dict(o["tp"], region=None))] + plan["ops"][i + 1:])
