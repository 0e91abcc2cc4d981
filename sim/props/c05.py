"""C05: re-running a killed or failed stage gives the result of an undisturbed run."""
from .. import stages as G, results as Rs
from ..core import Violation, digest, in_child

LEVEL = "exploration"
CASES = {"quick": 320, "thorough": 12000}
RULE = ("seeded stage (detect, trigger or locate on a generated world), run directory disturbed by 1-3 attempts that are killed or fail "
        "with ENOSPC/EIO at seeded mutating operations (also in mid-write), then run once more in a new process and compared, decoded, "
        "with an undisturbed run; non-trivial if a fault took effect; distinct by digest of the disturbed operation logs")
REAL = ["quakemigrate detect, trigger and locate stages with all their result files", "obspy, pandas and numpy file output"]
STUB = ["file open/write/rename layer and process death (simulated OS)", "clock, directory order", "archive contents (generated)"]
ASSUME = ["the process is killed or an operation fails; the machine keeps running", "log files and plots are not compared"]


def gen(rng, i, tier):
    p = G.GEN[rng.choice(["detect", "detect", "trigger", "locate", "locate"])](rng)
    p["bufsize"] = rng.choice([512, 2048, 8192])
    p["attempts"] = [dict(pos=round(rng.random(), 4), kind=rng.choice(["kill", "kill", "kill", "enospc", "eio"]),
                          frac=rng.choice([0.0, 0.0, 0.4, 0.9, 1.0]), sticky=rng.choice([0, 0, 3, 40]))
                     for _ in range(rng.choice([1, 1, 2, 3]))]
    return p


def execute(plan, scratch):
    g = G.Stage(plan, scratch)
    g.fresh(0)

    def base():
        out, sim = g.attempt(0, bufsize=plan["bufsize"])
        return (out if isinstance(out, str) else repr(out)), sim.main.n_mut, sim.oplog
    out, n, log0 = in_child(base)
    if out != "ok":
        raise Violation("undisturbed", f"the undisturbed run stopped with {out}")
    want = g.result(0)
    g.fresh(1)
    fired, logs, outs = {}, [], []
    for a in plan["attempts"]:
        at = int(a["pos"] * max(1, n))

        def broken():
            f = dict(node=0, at=at, kind=a["kind"], frac=a["frac"])
            if a["sticky"] and a["kind"] != "kill":
                f["sticky"] = a["sticky"]
            out, sim = g.attempt(1, faults=[f], bufsize=plan["bufsize"])
            return (out if isinstance(out, str) else repr(out)), sim.fired, sim.oplog
        o, fi, lg = in_child(broken)
        outs.append(f"{a['kind']} at operation {at} of {n} ({log0[at][1:] if at < n else '-'}): {o}")
        logs.append(lg)
        for k, v in fi.items():
            fired[k] = fired.get(k, 0) + v

    def clean():
        out, sim = g.attempt(1, bufsize=plan["bufsize"])
        return out if isinstance(out, str) else repr(out)
    o = in_child(clean)
    hist = "; ".join(outs)
    if o != "ok":
        raise Violation("rerun-failed", f"{plan['stage']} run again after [{hist}] stopped with {o}")
    d = Rs.diff(want, g.result(1), "an undisturbed run leaves", "the re-run left")
    if d:
        raise Violation("differs", f"{plan['stage']} run again after [{hist}]: {d}")
    return dict(digest=digest(want, logs), key=digest(logs), nontrivial=bool(fired), faults=fired, simtime=g.simtime() * (2 + len(plan["attempts"])),
                stats={"runs_" + plan["stage"]: 1, "files_compared": len(want), "mutating_ops": n})


def shrink(plan):
    at = plan["attempts"]
    for i in range(len(at)):
        if len(at) > 1:
            yield dict(plan, attempts=at[:i] + at[i + 1:])
    for i, a in enumerate(at):
        if a["sticky"]:
            yield dict(plan, attempts=at[:i] + [dict(a, sticky=0)] + at[i + 1:])
        if a["frac"]:
            yield dict(plan, attempts=at[:i] + [dict(a, frac=0.0)] + at[i + 1:])
    yield from G.shrink(plan)
