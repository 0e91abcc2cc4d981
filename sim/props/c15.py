"""C15: every stage run with logging on leaves its own log file."""
import contextlib
import io
import logging
import os
import time
from obspy import UTCDateTime
from .. import pipe as P, trig as T, detect as D
from ..core import Violation, digest, in_child
from ..simos import Sim, Killed

LEVEL = "exploration"
CASES = {"quick": 260, "thorough": 12000}
RULE = ("seeded histories of 2-7 detect, trigger and locate runs (completing, raising, killed at a seeded storage operation) over one run directory in "
        "1-3 processes, with objects made early, late or used again, logging on or off at either level, logging set up by the user, lookup tables "
        "computed in between, and a clock that runs, stands still or jumps; after every run all log files are compared with the messages emitted; "
        "non-trivial if at least two runs had logging on; distinct by digest of the history's messages and file names")
REAL = ["quakemigrate detect, trigger, locate, create_lut and their logging set-up", "Python's logging package", "obspy, pandas, numpy"]
STUB = ["clock", "file open/write layer and process death (simulated OS)", "archive contents and saved coalescence (generated)"]
ASSUME = ["a run is the call of detect(), trigger() or locate(); its start time is the clock between the call and its first message",
          "no disk faults in the log file itself"]


def gen(rng, i, tier):
    p = P.gen(rng, nev=rng.choice([1, 2]), faults=rng.choice([0, 0, 1, 2]), nsta=4, mags=rng.random() < 0.3)
    p["opt"].update(coa=False, mcoa=False, raw=rng.random() < 0.3, real=False, wa=False)
    p["name"] = rng.choice(["run", "run", "run", "r.n", "Run-2021", "a b"])
    p["sub"] = rng.choice(["", "", "s1", "t.2"])
    sr = 20
    a, b = rng.choice([(-60.0, 60.0), (100.0, 220.0)])
    p["h"] = dict(sr=sr, day="2018-06-01", segs=[[a, b]], hseed=rng.randrange(10 ** 6), unit="km", per=[a, b],
                  peaks=T.gen_peaks(rng, sr, a + 12, b - 12, rng.choice([1, 3]), [0.0]))
    p["tp"] = dict(T.gen_params(rng, sr, allow_dynamic=False), windows=False)
    p["clock0"] = rng.choice([1.7e9, 1.7e9 + 0.4, 951868799.5])
    p["procs"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        pr = dict(foreign=rng.choice([None, None, None, None, "stream", "null", "debug"]), objs=[], ops=[])
        nops = rng.choice([1, 2, 3, 4])
        for j in range(nops):
            kind = rng.choice(["detect", "trigger", "trigger", "locate", "locate", "lut"])
            o = dict(kind=kind, obj=None, jump=rng.choice([0.0, 0.0, 0.0, 1.0, 60.0, -5.0, -86400.0, 3.2e7]), kill=None,
                     bad=rng.random() < 0.15, tick=rng.choice([0.0, 0.0, 0.001, 0.4, 1.0, -0.6]))
            if kind != "lut":
                key = "trigger" if kind == "trigger" else "scan"
                same = [k for k, x in enumerate(pr["objs"]) if x["kind"] == key]
                if same and rng.random() < 0.4:
                    o["obj"] = rng.choice(same)
                else:
                    pr["objs"].append(dict(kind=key, sub=rng.choice([p["sub"], p["sub"], ""]), log=rng.random() < 0.75,
                                           level=rng.choice(["info", "info", "debug"]), early=rng.random() < 0.4))
                    o["obj"] = len(pr["objs"]) - 1
            else:
                o["log"] = rng.random() < 0.3
            pr["ops"].append(o)
        if rng.random() < 0.25:
            pr["ops"][-1]["kill"] = round(rng.random(), 3)
        p["procs"].append(pr)
    return p


class Recorder:
    """All messages handed to the logging package, by whoever, before any level or handler is asked."""
    NAMES = ["debug", "info", "warning", "error", "critical"]

    def __enter__(self):
        self.msgs = []
        self.saved = {}
        rec = self

        def wrap(name, real):
            lv = getattr(logging, name.upper())

            def f(lg, msg, *a, **k):
                rec.msgs.append((lv, lg.name, str(msg) % a if a and not (len(a) == 1 and isinstance(a[0], dict)) else str(msg)))
                return real(lg, msg, *a, **k)
            return f
        for n in self.NAMES:
            self.saved[n] = getattr(logging.Logger, n)
            setattr(logging.Logger, n, wrap(n, self.saved[n]))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(logging.Logger, n, f)


def logs_of(root):
    out = {}
    for d, _, fs in os.walk(root):
        if os.path.basename(d) != "logs":
            continue
        for f in fs:
            with io.open(os.path.join(d, f), "rb") as fh:
                out[os.path.relpath(os.path.join(d, f), root)] = fh.read().decode("utf-8", "replace")
    return out


def matches(text, msgs, level, killed):
    """Does text hold exactly the messages (those of other packages optional)?"""
    lv = logging.DEBUG if level == "debug" else logging.INFO
    ours = lambda n: n == "root" or n.startswith("quakemigrate")
    want = [(ours(n), m + "\n") for l, n, m in msgs if l >= lv]
    pos = 0
    for k, (own, m) in enumerate(want):
        if text.startswith(m, pos):
            pos += len(m)
        elif own:
            if killed and (m.startswith(text[pos:]) and not any(o for o, _ in want[k + 1:])):
                return None
            return f"message {k} of {len(want)}, {m[:60]!r}, is not there; the log goes on with {text[pos:pos + 60]!r}"
    if pos != len(text):
        return f"after the run's {len(want)} messages the log goes on with {text[pos:pos + 80]!r}"
    return None


def execute(plan, scratch):
    e = P.setup(plan, scratch)
    name = plan["name"]
    clean = lambda s: s.replace(".", "_")
    rd = os.path.join(e.runs, clean(name))
    os.makedirs(rd)
    for sub in {"", plan["sub"]}:
        P.write_triggers(e, P.trig_times(plan, e), clean(name), clean(sub), run_dir=rd)
    h = T.History(plan["h"])
    lut, _ = T.tiny_lut()
    h.write(rd)
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    clock = [plan["clock0"]]
    known, hist, trace, nlogged, fired, stats, simtime = {}, [], [], 0, {}, {}, 0.0
    s0, t0 = P.span_days(plan, e)
    ds = e.t0 + 25

    def make(ob):
        with D.quiet():
            if ob["kind"] == "trigger":
                q = T.make_trigger(lut, e.runs, name, dict(plan["tp"], log=ob["log"]), ob["sub"], loglevel=ob["level"])
            else:
                q = P.make_locate(plan, e, name, ob["sub"], log=ob["log"], loglevel=ob["level"], timestep=10.0)
        return q

    def one(op, ob, q):
        kind = op["kind"]
        clock[0] += op["jump"]
        times = []

        def attempt(faults):
            sim = Sim(scratch, faults=faults, clock0=clock[0], ticks=[op["tick"]], list_seed=plan["list_seed"])
            real_now = sim.now

            def now():
                v = real_now()
                times.append((v, len(rec.msgs)))
                return v
            sim.now = now
            with sim, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    if kind == "detect":
                        a, b = (ds, ds + 20) if not op["bad"] else (ds, ds - 20)
                        q.detect(str(a), str(b))
                    elif kind == "trigger":
                        a, b = plan["h"]["per"]
                        off = 86400 * 40 if op["bad"] else 0
                        q.trigger(str(h.day + a + off), str(h.day + b + off), region=plan["tp"]["region"])
                    elif kind == "locate":
                        off = 86400 * 40 if op["bad"] else 0
                        q.locate(str(s0 + off), str(t0 + off))
                    else:
                        from quakemigrate.lut import compute_traveltimes
                        here = os.getcwd()
                        os.chdir(cwd)
                        try:
                            compute_traveltimes(dict(ll_corner=[9.9, 44.9, -1.0], ur_corner=[10.1, 45.1, 3.0], node_spacing=[4.0, 4.0, 2.0],
                                                     grid_proj=lut.grid_proj, coord_proj=lut.coord_proj), e.stations, method="homogeneous",
                                                phases=["P"], vp=5.0, vs=3.0, log=op["log"])
                        finally:
                            os.chdir(here)
                    out = "ok"
                except Killed:
                    out = "killed"
                except Exception as x:  # noqa
                    out = f"{type(x).__name__}"
            clock[0] = sim.clock
            return out, sim

        rec = Recorder()
        with rec:
            f = []
            if op["kill"] is not None:
                f = [dict(node=0, at=int(2 + op["kill"] * op["kill"] * 120), kind="kill", frac=0.5)]
            out, sim = attempt(f)
        return out, rec.msgs, times, sim.fired

    def process(pr, known):
        root = logging.getLogger()
        for x in list(root.handlers):
            root.removeHandler(x)
        root.setLevel(logging.WARNING)
        if pr["foreign"] == "stream":
            root.addHandler(logging.StreamHandler(io.StringIO()))
        elif pr["foreign"] == "null":
            root.addHandler(logging.NullHandler())
            root.setLevel(logging.ERROR)
        elif pr["foreign"] == "debug":
            logging.basicConfig(level=logging.DEBUG, stream=io.StringIO(), format="%(levelname)s %(message)s")
        objs = {}
        for k, ob in enumerate(pr["objs"]):
            if ob["early"]:
                objs[k] = make(ob)
        res = []
        for op in pr["ops"]:
            ob = pr["objs"][op["obj"]] if op["obj"] is not None else None
            if ob is not None and op["obj"] not in objs:
                objs[op["obj"]] = make(ob)
            q = objs.get(op["obj"])
            c0 = clock[0] + op["jump"]
            out, msgs, times, fi = one(op, ob, q)
            logged = bool(ob and ob["log"])
            now = logs_of(e.runs)
            what = f"{op['kind']}{' (logging on)' if logged else ''} at {UTCDateTime(c0)}: {out}"
            hist.append(what)
            h_ = "; ".join(hist)
            for f in known:
                if f not in now:
                    raise Violation("log-lost", f"log {f} is gone after [{h_}]")
                if now[f] != known[f]:
                    n = len(known[f])
                    d = now[f][n:n + 80] if now[f].startswith(known[f]) else now[f][:80]
                    raise Violation("log-changed", f"the log of an earlier run, {f}, changed ({d!r}) in the last run of [{h_}]")
            new = sorted(set(now) - set(known))
            if not logged:
                if new and op["kind"] != "lut":
                    raise Violation("log-unasked", f"{new} appeared with logging off, after [{h_}]")
            else:
                stage = op["kind"]
                d = os.path.join(clean(name), stage, clean(ob["sub"]), "logs")
                if len(new) != 1 or os.path.dirname(new[0]) != os.path.normpath(d):
                    if out == "killed" and not new and len(msgs) == 0:
                        pass
                    else:
                        raise Violation("log-missing", f"new log files {new}, expected one in {d}, after [{h_}]")
                else:
                    nm = clean(name) + ("_" + clean(ob["sub"]) if ob["sub"] else "")
                    stamps = {time.strftime("%Y-%m-%d_%H-%M-%S", time.gmtime(v)) for v, n in times if n == 0}
                    b = os.path.basename(new[0])
                    if not b.startswith(nm + "_") or not any(b[len(nm) + 1:].startswith(s) for s in stamps):
                        raise Violation("log-name", f"log file {new[0]} is not named after the run and its start time {sorted(stamps)}, after [{h_}]")
                    m = matches(now[new[0]], msgs, ob["level"], out == "killed")
                    if m:
                        raise Violation("log-content", f"{new[0]}: {m}; after [{h_}]")
            known = now
            res.append((what, new, len(msgs), digest([m[2].replace(scratch, "") for m in msgs])))
            for k, v in fi.items():
                fired[k] = fired.get(k, 0) + v
            if out == "killed":
                break
        return known, res, clock[0], fired, list(hist)

    n = 0
    for pr in plan["procs"]:
        known, res, clock[0], fi, hist[:] = in_child(lambda: process(pr, known))
        for k, v in fi.items():
            fired[k] = fired.get(k, 0) + v
        trace += res
        n += len(res)
        nlogged += sum(1 for r in res if "logging on" in r[0])
        if pr["foreign"]:
            fired["foreign_logging"] = fired.get("foreign_logging", 0) + 1
        for op in pr["ops"]:
            if op["jump"]:
                k = "clock_back" if op["jump"] < 0 else "clock_forward"
                fired[k] = fired.get(k, 0) + 1
            if op["tick"] <= 0:
                fired["clock_stands_or_runs_back"] = fired.get("clock_stands_or_runs_back", 0) + 1
            if op["bad"]:
                fired["stage_raises"] = fired.get("stage_raises", 0) + 1
    return dict(digest=digest(trace), key=digest(trace), nontrivial=nlogged >= 2, faults=fired, simtime=60.0 * n,
                stats=dict(stage_runs=n, logged_runs=nlogged, messages=sum(r[2] for r in trace)))


def shrink(plan):
    ps = plan["procs"]
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(plan, procs=ps[:i] + ps[i + 1:])
    for i, pr in enumerate(ps):
        for j in range(len(pr["ops"])):
            if len(pr["ops"]) > 1:
                yield dict(plan, procs=ps[:i] + [dict(pr, ops=pr["ops"][:j] + pr["ops"][j + 1:])] + ps[i + 1:])
        for j, o in enumerate(pr["ops"]):
            for k, v in (("jump", 0.0), ("tick", 1.0), ("kill", None), ("bad", False)):
                if o[k] != v:
                    yield dict(plan, procs=ps[:i] + [dict(pr, ops=pr["ops"][:j] + [dict(o, **{k: v})] + pr["ops"][j + 1:])] + ps[i + 1:])
        if pr["foreign"]:
            yield dict(plan, procs=ps[:i] + [dict(pr, foreign=None)] + ps[i + 1:])
    yield from P.shrink(plan)
