"""C09: locate processes each triggered event once, independently of the others."""
import os
import numpy as np
from .. import pipe as P, detect as D, refmodel as R, results as Rs
from ..core import Violation, digest, in_child
from ..simos import Sim

LEVEL = "exploration"
CASES = {"quick": 240, "thorough": 8000}
RULE = ("seeded networks, event sets, archive and response faults, locate options, and partitions of the events into jobs (order, process, "
        "trigger file or period); non-trivial if faults are present or an event is expected to be skipped; distinct by digest of results")
REAL = ["quakemigrate QuakeScan.locate with onsets, migration kernels, pickers, magnitudes and all outputs", "obspy response removal and file I/O"]
STUB = ["archive and response inventory contents (generated)", "directory order and clock (simulated OS)", "triggered-events files (generated)"]
ASSUME = ["events whose refined time cannot be told apart from a tie or from the marginal window's edge are not predicted, only compared between jobs"]


def gen(rng, i, tier):
    p = P.gen(rng, nev=rng.choice([2, 2, 3, 4]), faults=rng.choice([0, 1, 2, 3, 5]))
    n = len(p["trig"])
    order = list(range(n))
    rng.shuffle(order)
    p["part"] = [dict(ev=k, new=rng.random() < 0.5, how=rng.choice(["period", "file", "file", "many"])) for k in order]
    if rng.random() < 0.5:
        p["rfaults"] = p["rfaults"] + [dict(sta="*pick*", comp=c, kind=k) for c, k in zip("ZNE", [rng.choice(["missing", "nopaz", "nosens"])] * 3)]
        names = sorted({f["sta"] for f in p["afaults"]} | {"ST00"})
        p["rfaults"] = [dict(f, sta=rng.choice(names) if f["sta"] == "*pick*" else f["sta"]) for f in p["rfaults"]]
    p["variant"] = rng.choice([None, "response", "response", "station"])
    p["vpick"] = rng.randrange(100)
    p["vkind"] = rng.choice(["flat", "zero", "rate3", "gap"])
    D.resample(rng, p)
    if p["cfg"]["gaps"] or p["cfg"]["partial"]:
        p["vkind"] = rng.choice(["flat", "zero"])
    elif p["cfg"]["up"]:
        p["vkind"] = rng.choice(["flat", "zero", "gap"])
    return p


def expect(plan, e, t):
    """'skip', 'located', or None when it cannot be told, for the event triggered at t."""
    cfg, mw = plan["cfg"], plan["opt"]["mw"]
    ttmax = max(np.max(e.lut.traveltimes[s][p]) for s in e.stations["Name"] for p in ("P", "S"))
    pre, post = R.pads(cfg, ttmax, 4 * mw)
    av, m4 = R.step(cfg, e.lut, e.chans, list(e.stations["Name"]), e.t0, t - 2 * mw - pre, t + 2 * mw + post, pre, post)
    if m4 is None:
        return "skip"
    if m4 is R.ILL:
        return None
    mx = m4.reshape(-1, m4.shape[-1]).max(axis=0)
    n = len(mx)
    # every sample that could be the peak
    near = np.flatnonzero(mx >= mx.max() * (1 - (1e-4 if cfg.get("interp") else 1e-5)))
    off = (near - R.rint(2 * mw * e.sr)) / e.sr
    inside = np.abs(off) < mw - 1e-9
    edge = np.abs(np.abs(off) - mw) < 1e-6
    if edge.any() or inside.any() != inside.all() or n != R.rint(4 * mw * e.sr) + 1:
        return None
    return "located" if inside.all() else "skip"


def brief(x):
    ln = str(x).strip().splitlines() or [type(x).__name__]
    at = [q.strip() for q in ln if q.strip().startswith('File') and 'quakemigrate' in q]
    return ln[0][:200] + (f" ({at[-1]})" if at else "")


def by_event(res):
    out = {}
    for k, v in res.items():
        f = os.path.basename(k)
        if "/trigger/" in "/" + k or k.startswith("trigger"):
            continue
        u = f.split(".")[0].split("_")[0]
        out.setdefault(u, {})[k] = v
    return out


def rows(text, drop=None):
    lines = text.splitlines()
    return [ln for ln in lines if drop is None or drop not in ln]


def execute(plan, scratch):
    e = P.setup(plan, scratch)
    o = plan["opt"]
    times = P.trig_times(plan, e)
    uids = [P.uid(t) for t in times]

    def job(k, sel, how="period", q=None, env=None, opt=None):
        """One locate job over run directory k; returns the QuakeScan used."""
        env = env or e
        env.runs = os.path.join(scratch, f"j{k}")
        if not os.path.isdir(os.path.join(env.runs, "run")):
            os.makedirs(os.path.join(env.runs, "run"))
        P.write_triggers(e, [times[i] for i in sel], "run", run_dir=os.path.join(env.runs, "run"))
        if q is None:
            q = P.make_locate(plan, env, "run", opt=opt)
        with D.quiet():
            if how == "file":
                t = times[sel[0]]
                q.locate(trigger_file=os.path.join(env.runs, "run", "trigger", "events", f"run_{t.year}_{t.julday:03d}_TriggeredEvents.csv"))
            else:
                s, t = P.span_days(plan, e)
                q.locate(str(s), str(t))
        return q

    def sim(fn):
        def inner():
            with Sim(scratch, ticks=plan["ticks"], list_seed=plan["list_seed"]):
                fn()
        try:
            in_child(inner)
        except Violation:
            raise
        except Exception as x:  # noqa
            return x
        return None

    x = sim(lambda: job(0, range(len(times))))
    if x is not None:
        raise Violation("aborted", f"locating {len(times)} events together stopped with {brief(x)}")
    whole = Rs.canon(os.path.join(scratch, "j0", "run"))
    ev = by_event(whole)
    stats = {"events": len(times), "located": len(ev)}
    for u in ev:
        if u not in uids:
            raise Violation("foreign", f"output of an event {u} that was never triggered: {sorted(ev[u])}")
    skip = 0
    for t, u in zip(times, uids):
        want = expect(plan, e, t)
        has = any(k.endswith(".event") for k in ev.get(u, {}))
        if want is None:
            stats["unpredicted"] = stats.get("unpredicted", 0) + 1
            continue
        if want == "located" and not has:
            raise Violation("missing", f"event {u} has usable data and peaks inside the marginal window but has no event file")
        if want == "skip" and has:
            raise Violation("spurious", f"event {u} should not be located (no usable data or peak outside the marginal window)")
        skip += want == "skip"
    for u, files in ev.items():
        ext = {k.rsplit(".", 1)[-1] for k in files}
        if "event" in ext:
            need = {"event", "picks"} | ({"amps"} if o["mags"] else set())
            if not need <= ext:
                raise Violation("outputs", f"event {u} has only {sorted(files)}")
            if len(files[[k for k in files if k.endswith(".event")][0]].splitlines()) != 2:
                raise Violation("outputs", f"event file of {u} does not hold exactly one event")
        elif any(x in ext for x in ("picks", "amps", "m")):
            raise Violation("outputs", f"event {u} has outputs but no event file: {sorted(files)}")

    # ---- the same events, one at a time, in another order
    groups, cur = [], []
    for p in plan["part"]:
        if p["new"] and cur:
            groups.append(cur)
            cur = []
        cur.append(p)
    groups.append(cur)
    jobs = 0
    for g, grp in enumerate(groups):
        def run():
            q = None
            for j, p in enumerate(grp):
                k = f"p{g}_{j}"
                if q is not None:
                    # same process, fresh scanner half of the time
                    q = q if p["how"] == "many" else None
                if q is not None:
                    from quakemigrate.io import Run
                    runs = os.path.join(scratch, f"j{k}")
                    q.run = Run(runs, "run", "", stage=None, loglevel="info")
                q = job(k, [p["ev"]], p["how"], q=q)
        x = sim(run)
        if x is not None:
            raise Violation("aborted", f"locating the events one at a time stopped with {brief(x)}")
        for j, p in enumerate(grp):
            jobs += 1
            u = uids[p["ev"]]
            one = by_event(Rs.canon(os.path.join(scratch, f"jp{g}_{j}", "run")))
            if set(one) - {u}:
                raise Violation("foreign", f"locating only {u} wrote outputs of {sorted(set(one) - {u})}")
            d = Rs.diff(ev.get(u, {}), one.get(u, {}), "located together with the others", "located alone")
            if d:
                raise Violation("depends", f"event {u} depends on the other events of its job: {d}")

    # ---- an unusable station or response
    var = plan["variant"]
    compared = 0
    if var == "response" and plan["rfaults"] and e.inv is not None:
        bad = {(f["sta"], f["comp"]) for f in plan["rfaults"]}
        e2 = D.Env()
        e2.__dict__.update(e.__dict__)
        e2.inv = P.inventory(e.stations, (), e.t0, plan.get("epochs", ()))
        x = sim(lambda: job("v", range(len(times)), env=e2))
        if x is not None:
            raise Violation("aborted", f"locating with complete responses stopped with {brief(x)}")
        ref = by_event(Rs.canon(os.path.join(scratch, "jv", "run")))
        if sorted(ref) != sorted(ev):
            raise Violation("response", f"unusable responses change which events are located: {sorted(ev)} instead of {sorted(ref)}")
        for u in ev:
            compared += 1
            compare_response(u, ref[u], ev[u], bad, stats)
    elif var == "station":
        names = list(e.stations["Name"])
        sta = names[plan["vpick"] % len(names)]
        compared += compare_station(plan, e, scratch, sta, times, sim, job, stats)
    faults = dict(e.applied)
    for f in plan["rfaults"]:
        faults["response_" + f["kind"]] = faults.get("response_" + f["kind"], 0) + 1
    stats.update(jobs=jobs + 1, skipped=skip, variant_events=compared)
    return dict(digest=digest(whole), key=digest(whole), nontrivial=bool(faults) or skip > 0, faults=faults, stats=stats,
                simtime=plan["span"] * (jobs + 1))


def compare_response(u, ref, got, bad, stats):
    """ref: intact responses; got: channels `bad` unusable."""
    for k in sorted(set(ref) | set(got)):
        a, b = ref.get(k), got.get(k)
        wave = k.endswith(".m") and ("real_cut" in k or "wa_cut" in k)
        if wave:
            a = dict(a) if a else {}
            b = dict(b) if b else {}
            for c in list(a):
                if any(f".{s}." in c and comp == c.split(".")[3][2:3] for s, comp in bad):
                    a.pop(c)
            for c in sorted(set(a) | set(b)):
                if a.get(c) != b.get(c):
                    raise Violation("response", f"event {u}: an unusable response of {sorted(bad)} changes {k} {c}: {b.get(c)} instead of {a.get(c)}")
            continue
        if a is None or b is None:
            raise Violation("response", f"event {u}: an unusable response of {sorted(bad)} makes {k} {'appear' if a is None else 'disappear'}")
        if k.endswith(".amps"):
            A = {ln.split(",")[0]: ln for ln in a.splitlines()[1:]}
            B = {ln.split(",")[0]: ln for ln in b.splitlines()[1:]}
            if sorted(A) != sorted(B):
                raise Violation("response", f"event {u}: an unusable response changes the channels of {k}")
            ca, cb = a.splitlines()[0].split(","), b.splitlines()[0].split(",")
            com = [c for c in ca if c in cb]
            for c in A:
                if any(f".{s}." in c and comp in c.split(".")[-1] for s, comp in bad):
                    continue
                ra, rb = dict(zip(ca, A[c].split(","))), dict(zip(cb, B[c].split(",")))
                for q in com:
                    if ra[q] != rb[q]:
                        raise Violation("response", f"event {u}: an unusable response of {sorted(bad)} changes {q} of {c}: {rb[q]} instead of {ra[q]}")
            stats["amps_rows"] = stats.get("amps_rows", 0) + len(A)
        elif k.endswith(".event"):
            ha, va = [x.split(",") for x in a.splitlines()]
            hb, vb = [x.split(",") for x in b.splitlines()]
            ra, rb = dict(zip(ha, va)), dict(zip(hb, vb))
            for q in ha:
                if not q.startswith("ML") and ra[q] != rb.get(q):
                    raise Violation("response", f"event {u}: an unusable response of {sorted(bad)} changes {q}: {rb.get(q)} instead of {ra[q]}")
        elif a != b:
            raise Violation("response", f"event {u}: an unusable response of {sorted(bad)} changes {k}")


def compare_station(plan, e, scratch, sta, times, sim, job, stats):
    """A station whose data are unusable throughout, against the same station without any data."""
    from .. import archive as A, world as W
    res = {}
    for tag, kind in (("absent", "absent"), ("bad", plan["vkind"])):
        e2 = D.Env()
        e2.__dict__.update(e.__dict__)
        e2.arc = os.path.join(scratch, "arc_" + tag)
        os.makedirs(e2.arc)
        f = [x for x in plan["afaults"] if x["sta"] not in (sta,)]
        if kind == "gap":
            # a gap inside every event window
            f = f + [dict(kind="gap", sta=sta, comp="*", a=round(t - e.t0 + 0.1, 2), b=round(t - e.t0 + 0.6, 2), v=0, off=0.0) for t in times]
        else:
            f = f + [dict(kind=kind, sta=sta, comp="*", a=0.0, b=1.0, v=5, off=0.0)]
        A.build(e2.arc, plan["w"], e.wf, e.t0, e.sr, f)
        x = sim(lambda: job("s" + tag, range(len(times)), env=e2))
        if x is not None:
            raise Violation("aborted", f"locating with station {sta} {kind} stopped with {brief(x)}")
        res[tag] = by_event(Rs.canon(os.path.join(scratch, "js" + tag, "run")))
    a, b = res["absent"], res["bad"]
    if sorted(a) != sorted(b):
        raise Violation("station", f"station {sta} ({plan['vkind']}) changes which events are located: {sorted(b)} instead of {sorted(a)}")
    n = 0
    for u in a:
        n += 1
        for k in sorted(set(a[u]) | set(b[u])):
            x, y = a[u].get(k), b[u].get(k)
            if k.endswith(".m"):
                x = {c: v for c, v in (x or {}).items() if f".{sta}." not in c}
                y = {c: v for c, v in (y or {}).items() if f".{sta}." not in c}
            elif k.endswith((".picks", ".amps")):
                x = [ln for ln in (x or "").splitlines()[1:] if sta not in ln]
                y = [ln for ln in (y or "").splitlines()[1:] if sta not in ln]
                if k.endswith(".amps"):
                    x, y = [ln.split(",")[:15] for ln in x], [ln.split(",")[:15] for ln in y]
            elif k.endswith(".event"):
                hx, vx = [q.split(",") for q in x.splitlines()]
                hy, vy = [q.split(",") for q in y.splitlines()]
                x = {c: v for c, v in zip(hx, vx) if not c.startswith("ML") or plan["vkind"] in ("flat", "zero")}
                y = {c: v for c, v in zip(hy, vy) if c in x}
            if isinstance(x, dict) and isinstance(y, dict):
                x, y = ({c: v for c, v in x.items() if y.get(c) != v}, {c: v for c, v in y.items() if x.get(c) != v})
            if x != y:
                raise Violation("station", f"event {u}: the unusable station {sta} ({plan['vkind']}) changes {k} beyond its own absence: "
                                f"{str(y)[:250]} instead of {str(x)[:250]}")
    return n


def shrink(plan):
    if plan["variant"]:
        yield dict(plan, variant=None)
    for i in range(len(plan["trig"])):
        if len(plan["trig"]) > 1:
            yield dict(plan, trig=plan["trig"][:i] + plan["trig"][i + 1:],
                       part=[dict(p, ev=p["ev"] - (p["ev"] > i)) for p in plan["part"] if p["ev"] != i])
    for p in P.shrink(plan):
        if len(p["trig"]) == len(plan["trig"]):
            yield p
