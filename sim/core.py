"""Runner: seeded cases in forked children, minimisation, replay files, evidence."""
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.time
CASE_TIMEOUT = 120.0


class Violation(Exception):
    """Raised by a scenario's oracle: the property does not hold in this run."""

    def __init__(self, kind, what, **extra):
        super().__init__(what)
        self.kind, self.what, self.extra = kind, what, extra


def case_seed(prop, seed, i):
    return f"{prop}:{seed}:{i}"


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, (bytes, bytearray)):
            h.update(p)
        else:
            h.update(json.dumps(p, sort_keys=True, default=str).encode())
        h.update(b"|")
    return h.hexdigest()[:24]


def tree_digest(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def run_case(mod, plan, scratch):
    """Execute one plan in this process. Always returns a JSON-able dict."""
    os.makedirs(scratch, exist_ok=True)
    t = _now()
    if "gen_error" in plan:                # the generator is at fault, not the code
        return dict(ok=False, violation=None, error="generator: " + plan["gen_error"], wall=0)
    try:
        out = mod.execute(plan, scratch)
        res = dict(ok=True, violation=None)
        res.update(out or {})
    except Violation as v:
        res = dict(ok=False, violation=dict(kind=v.kind, what=v.what))
        res.update(v.extra)
    except OSError as e:
        if e.errno in (28, 12, 24) and "scratch" not in str(e):
            res = dict(ok=False, violation=None, error="environment: " + repr(e) + traceback.format_exc())
        else:
            res = dict(ok=False, violation=dict(kind="exception", what=repr(e), tb=traceback.format_exc()))
    except MemoryError as e:
        res = dict(ok=False, violation=None, error="environment: " + repr(e))
    except BaseException as e:  # noqa
        res = dict(ok=False, violation=dict(kind="exception", what=f"{type(e).__name__}: {e}",
                                            tb=traceback.format_exc()))
    res["wall"] = round(_now() - t, 3)
    return res


def in_child(fn):
    """Run fn in a forked process (a fresh process of the program under test, as far as its own
    state goes) and return what it returns; Violations and exceptions come back as such."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                blob = pickle.dumps(("ok", fn()))
            except Violation as v:
                blob = pickle.dumps(("v", (v.kind, v.what, v.extra)))
            except BaseException as x:  # noqa
                blob = pickle.dumps(("x", f"{type(x).__name__}: {x}\n" + traceback.format_exc()))
            while blob:
                blob = blob[os.write(w, blob):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Violation("died", "the process running the code died")
    kind, val = pickle.loads(buf)
    if kind == "v":
        raise Violation(val[0], val[1], **val[2])
    if kind == "x":
        raise RuntimeError(val)
    return val


class Pool:
    """Each job runs in a child forked from this (loaded, otherwise idle) process."""

    def __init__(self, mod, base, nproc):
        self.mod, self.base, self.nproc = mod, base, nproc
        self.live = {}
        self.n = 0

    def start(self, tag, plan):
        self.n += 1
        scratch = os.path.join(self.base, f"c{self.n}")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("QMSIM_STDERR"):
                    os.dup2(dn, 2)
                if callable(plan):
                    plan = plan()
                res = run_case(self.mod, plan, os.path.join(scratch, "w"))
                res["plan"] = plan
                blob = json.dumps(res, default=str).encode()
                while blob:
                    blob = blob[os.write(w, blob):]
                os.close(w)
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = dict(pid=pid, tag=tag, t=_now(), buf=b"", plan=plan, scratch=scratch)

    def poll(self, timeout=0.5):
        """Yields (tag, result) of finished jobs."""
        done = []
        if not self.live:
            return done
        rs, _, _ = select.select(list(self.live), [], [], timeout)
        for r in rs:
            j = self.live[r]
            b = os.read(r, 1 << 20)
            if b:
                j["buf"] += b
                continue
            os.close(r)
            del self.live[r]
            _, st = os.waitpid(j["pid"], 0)
            self._kill(j["pid"])
            shutil.rmtree(j["scratch"], ignore_errors=True)
            try:
                res = json.loads(j["buf"])
            except ValueError:
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                if sig == signal.SIGKILL:
                    res = dict(ok=False, violation=None, error="environment: worker was killed")
                else:
                    res = dict(ok=False, violation=dict(
                        kind="died", what=f"the process running the code died (signal {sig}, status {st})"))
            done.append((j["tag"], res))
        for r, j in list(self.live.items()):
            if _now() - j["t"] > CASE_TIMEOUT:
                self._kill(j["pid"])
                os.close(r)
                del self.live[r]
                try:
                    os.waitpid(j["pid"], 0)
                except ChildProcessError:
                    pass
                shutil.rmtree(j["scratch"], ignore_errors=True)
                done.append((j["tag"], dict(ok=False, violation=dict(
                    kind="hang", what=f"no progress: still running after {CASE_TIMEOUT:.0f} s"))))
        return done

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def drain(self):
        while self.live:
            yield from self.poll()

    def stop(self):
        for r, j in list(self.live.items()):
            self._kill(j["pid"])
            try:
                os.waitpid(j["pid"], 0)
            except ChildProcessError:
                pass
            os.close(r)
        self.live = {}


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(known, v):
    for kind, rx, text in known:
        if kind == v["kind"] and rx.search(v["what"]):
            return text
    return None


def minimise(pool, mod, plan, kind, budget):
    """Greedy delta-debugging over mod.shrink(plan); keeps the violation's kind."""
    t_end = _now() + budget
    steps = 0
    improved = True
    while improved and _now() < t_end:
        improved = False
        cands = list(mod.shrink(plan))
        i = 0
        while i < len(cands) and _now() < t_end:
            batch = cands[i:i + pool.nproc]
            i += len(batch)
            for k, c in enumerate(batch):
                pool.start(k, c)
            res = {}
            while pool.live and _now() < t_end + 5:
                for tag, r in pool.poll():
                    res[tag] = r
            pool.stop()
            steps += len(batch)
            good = [k for k in sorted(res) if res[k].get("violation") and res[k]["violation"]["kind"] == kind]
            if good:
                plan = batch[good[0]]
                improved = True
                break
    return plan, steps


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--nproc", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = _now()
    mod = importlib.import_module(f"sim.props.{a.prop.lower()}")
    base = tempfile.mkdtemp(prefix=f"qmsim-{a.prop}-", dir=boot.scratch_base())
    rc = 2
    try:
        os.environ["QMSIM_LIB"] = boot.build_lib(os.path.join(base, "build"))
        os.environ["QMSIM_BASE"] = base
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        boot.load()
        pool = Pool(mod, base, a.nproc)
        if a.replay:
            rc = replay(a, mod, pool)
        else:
            rc = explore(a, mod, pool, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    return rc


def replay(a, mod, pool):
    rec = json.load(open(a.replay))
    pool.start(0, rec["plan"])
    for _, r in pool.drain():
        v = r.get("violation")
        if r.get("error"):
            print("ERROR", r["error"])
            return 2
        if v is None:
            print(f"no violation: property {a.prop} held on this replay")
            return 0
        print(v["kind"] + ": " + v["what"])
        if "tb" in v:
            print(v["tb"])
        same = v["kind"] == rec["violation"]["kind"] and v["what"] == rec["violation"]["what"]
        print("exact reproduction" if same else "a different violation from the recorded one: " + rec["violation"]["what"])
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    return 2


def explore(a, mod, pool, t0):
    prop, tier = a.prop, a.tier
    ncases = a.cases or mod.CASES[tier]
    wall = a.wall or (getattr(mod, "WALL", {}).get(tier) or (180.0 if tier == "quick" else 3000.0))
    known = known_findings(prop)
    results, errors, viol, known_hit = [], [], [], {}
    retry = []
    nxt = a.start
    end = a.start + ncases

    def planner(i):
        def f():
            try:
                plan = mod.gen(random.Random(case_seed(prop, a.seed, i)), i, tier)
            except Exception:  # noqa
                plan = dict(gen_error=traceback.format_exc())
            plan["case"] = i
            plan["seed"] = a.seed
            return plan
        return f

    stop = False
    while not stop:
        while len(pool.live) < pool.nproc and (retry or (nxt < end and _now() - t0 < wall)):
            if retry:
                tag, _ = retry.pop()
                pool.start(("retry", tag), planner(tag))
            else:
                pool.start(nxt, planner(nxt))
                nxt += 1
        if not pool.live:
            break
        for tag, r in pool.poll():
            again = isinstance(tag, tuple)
            i = tag[1] if again else tag
            r["case"] = i
            v = r.get("violation")
            if r.get("error") or (v and v["kind"] in ("hang", "died") and not again):
                if not again:
                    retry.append((i, r))
                else:
                    errors.append(r)
                continue
            if v:
                k = is_known(known, v)
                if k:
                    known_hit.setdefault(k, r)
                    results.append(r)
                    continue
                if "plan" not in r:
                    r["plan"] = planner(i)()
                viol.append(r)
                if a.v or a.all:
                    print("case", i, v["kind"], v["what"][:1500], v.get("tb", "")[-1500:], flush=True)
                if not a.all:
                    stop = True
                    break
            results.append(r)
    pool.stop()
    explored = _now() - t0
    # determinism: the same plan again must give the same execution
    det = dict(rerun=0, differ=0)
    if not viol:
        pick = [r for r in results if r.get("digest")][: 4 if tier == "quick" else 24]
        for k, r in enumerate(pick):
            pool.start(k, r["plan"])
            if len(pool.live) >= pool.nproc or k == len(pick) - 1:
                for tag, q in pool.drain():
                    det["rerun"] += 1
                    if q.get("digest") != pick[tag].get("digest"):
                        det["differ"] += 1
                        print(f"note: case {pick[tag]['case']} was not exactly repeatable", file=sys.stderr)
    for k, r in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {k}")
    rc, path = 0, None
    if viol:
        rc = 1
        viol.sort(key=lambda r: r["case"])
        r = viol[0]
        plan, v = r["plan"], r["violation"]
        steps = 0
        if not a.no_min and hasattr(mod, "shrink") and v["kind"] not in ("hang", "died"):
            plan, steps = minimise(pool, mod, plan, v["kind"], 45.0 if tier == "quick" else 300.0)
        pool.start(0, plan)
        for _, q in pool.drain():
            if q.get("violation"):
                v = q["violation"]
            else:
                plan = r["plan"]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join("replays", f"{prop}-{a.seed}-{r['case']}.json")
        with open(os.path.join(VERIF, path), "w") as fh:
            json.dump(dict(property=prop, seed=a.seed, case=r["case"], violation=v, plan=plan,
                           minimiser_steps=steps, original_plan=r["plan"]), fh, indent=1, default=str)
        print(f"{v['kind']}: {v['what']}"[:3000])
        if "tb" in v:
            print(v["tb"][-2500:])
        print(f"seed={a.seed} case={r['case']} (replay with: /verif/check.sh {prop} --replay {path})")
    elif errors and len(errors) > 0.1 * max(1, len(results)):
        rc = 2
        print("ERROR: the check could not run:", errors[0].get("error"))
    evidence(a, mod, results, viol, errors, known_hit, det, explored, _now() - t0)
    print(f"{prop} {tier}: {len(results)} runs, {len({r.get('key') for r in results if r.get('nontrivial')})} distinct non-trivial, "
          f"{len(viol)} violations, {explored:.0f} s")
    if viol:
        print(f"VIOLATION property={prop} replay={path}")
    return rc


def evidence(a, mod, results, viol, errors, known_hit, det, explored, wall):
    faults, probes = {}, {}
    simtime = 0.0
    keys, states = set(), set()
    for r in results:
        for k, n in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + n
        for k, n in (r.get("stats") or {}).items():
            probes[k] = probes.get(k, 0) + n
        simtime += r.get("simtime", 0.0)
        if r.get("nontrivial"):
            keys.add(r.get("key") or r.get("digest"))
        states.update(r.get("states") or [])
    hours = max(explored, 1e-6) / 3600
    samples = []
    for r in [r for r in results if r.get("nontrivial")][:2] or results[:1]:
        samples.append(dict(case=r["case"], plan=r.get("plan"), outcome=dict(
            violation=r.get("violation"), stats=r.get("stats"), faults=r.get("faults"), digest=r.get("digest"))))
    cov = dict(
        evaluations=len(results), distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
        seeds=len(results), runs_per_hour=round(len(results) / hours), simulated_seconds=round(simtime, 1),
        fault_kinds_fired=faults, counters=probes, distinct_states=len(states),
        state_measure=getattr(mod, "STATES", "distinct digests of (operation log, outputs) over runs"),
        distinct_executions=len({r.get("digest") for r in results if r.get("digest")}),
        determinism_rerun=det, real_components=mod.REAL, stubbed_components=mod.STUB,
        environment_errors=len(errors), known_findings_hit=sorted(known_hit))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=mod.LEVEL, coverage=cov,
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{a.prop}.json")
    with open(p, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
