"""One stage of the pipeline as a repeatable unit: what it needs, how to run it, what it leaves."""
import contextlib
import io
import os
import shutil
from obspy import UTCDateTime
from . import detect as D, trig as T, pipe as P, results as Rs
from .simos import Sim, Killed


def gen_detect(rng):
    p = D.gen(rng, small=True, fault_rate=0.4)
    p["w"]["nsta"] = min(p["w"]["nsta"], 4)
    p["threads"] = 1
    p["stage"] = "detect"
    return p


def gen_trigger(rng):
    sr = rng.choice([10, 20, 25])
    a, b = rng.choice([(-100.0, 100.0), (-60.0, 130.0), (-50.0, 86400.0 + 50.0)]) if rng.random() < 0.9 else (-100.0, -5.0)
    if b > 86000:
        sr = 1
    segs = [[a, b]]
    p = dict(stage="trigger", sr=sr, day=rng.choice(["2021-03-05", "2020-02-29", "2022-01-01"]), segs=segs, hseed=rng.randrange(10 ** 6),
             unit="km", list_seed=rng.randrange(10 ** 6), ticks=[0.0], sub=rng.choice(["", "", "s1"]))
    p["peaks"] = T.gen_peaks(rng, sr, a + 12, b - 12, rng.choice([2, 5, 9]), [0.0, -1 / sr, 20.0, -20.0])
    p["tp"] = T.gen_params(rng, sr, allow_dynamic=False)
    if rng.random() < 0.15:
        p["tp"]["threshold"] = 50.0
    p["per"] = [a, b]
    return p


def gen_locate(rng):
    p = P.gen(rng, nev=rng.choice([1, 2, 3]), faults=rng.choice([0, 0, 1]), nsta=4)
    p["stage"] = "locate"
    p["opt"]["fmt"] = rng.choice(["MSEED", "MSEED", "MSEED", "SAC"])
    p["rfaults"] = [f for f in p["rfaults"] if f["kind"] == "missing"]
    p["sub"] = rng.choice(["", "", "s1"])
    return p


GEN = {"detect": gen_detect, "trigger": gen_trigger, "locate": gen_locate}


class Stage:
    """Prepared inputs; `.fresh(k)` makes run directory k, `.run(k)` runs the stage in it."""

    def __init__(self, plan, scratch):
        self.plan, self.scratch = plan, scratch
        self.st = plan["stage"]
        if self.st == "detect":
            self.e = D.setup(plan, scratch)
        elif self.st == "trigger":
            self.h = T.History(plan)
            self.lut, self.stations = T.tiny_lut()
        else:
            self.e = P.setup(plan, scratch)

    def runs(self, k):
        return os.path.join(self.scratch, f"r{k}")

    def run_dir(self, k):
        return os.path.join(self.runs(k), "run")

    def fresh(self, k):
        os.makedirs(self.run_dir(k))
        if self.st == "trigger":
            self.h.write(self.run_dir(k))
        elif self.st == "locate":
            P.write_triggers(self.e, P.trig_times(self.plan, self.e), "run", self.plan["sub"], run_dir=self.run_dir(k))

    def run(self, k, log=False):
        p = self.plan
        if self.st == "detect":
            e = self.e
            e.runs = self.runs(k)
            q = D.make_scan(p, e, log=log)
            q.detect(str(e.start), str(e.end))
        elif self.st == "trigger":
            s, t = self.h.day + p["per"][0], self.h.day + p["per"][1]
            T.make_trigger(self.lut, self.runs(k), "run", dict(p["tp"], log=log), p["sub"]).trigger(str(s), str(t), region=p["tp"]["region"])
        else:
            self.e.runs = self.runs(k)
            q = P.make_locate(p, self.e, "run", p["sub"], log=log)
            q.cut_waveform_format = p["opt"].get("fmt", "MSEED")
            s, t = P.span_days(p, self.e)
            q.locate(str(s), str(t))

    def attempt(self, k, faults=(), bufsize=None, seed=0, log=False, clock=None):
        """(outcome, sim): outcome 'ok', 'killed' or the exception."""
        p = self.plan
        with Sim(self.scratch, seed=seed, faults=faults, ticks=p.get("ticks", [0.0]), list_seed=p["list_seed"], bufsize=bufsize) as sim, \
                contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                self.run(k, log)
                out = "ok"
            except Killed:
                out = "killed"
            except Exception as x:  # noqa
                out = x
        return out, sim

    def result(self, k):
        out = Rs.canon(self.run_dir(k))
        # other waveform formats: content as bytes
        for d, _, fs in os.walk(self.run_dir(k)):
            for f in fs:
                if f.endswith(".sac"):
                    q = os.path.join(d, f)
                    out[os.path.relpath(q, self.run_dir(k))] = Rs.decode(q)
        return out

    def simtime(self):
        return self.plan.get("dur") or self.plan.get("span") or 200.0

    def drop(self, k):
        shutil.rmtree(self.runs(k), ignore_errors=True)


def shrink(plan):
    if plan["stage"] == "detect":
        from .props.c01 import shrink as s
        yield from s(plan)
    elif plan["stage"] == "locate":
        yield from P.shrink(plan)
    else:
        for i in range(len(plan["peaks"])):
            yield dict(plan, peaks=plan["peaks"][:i] + plan["peaks"][i + 1:])
