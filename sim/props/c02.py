"""C02: saved coalescence is the migration of exactly the healthy data."""
import numpy as np
from .. import detect as D, refmodel as R
from ..core import Violation, digest, tree_digest
from . import c01

LEVEL = "exploration"
CASES = {"quick": 420, "thorough": 12000}
RULE = c01.RULE.replace("0-8", "0-8") + "; every saved sample is compared with the independent reference"
REAL = c01.REAL
STUB = c01.STUB
ASSUME = c01.ASSUME + ["tolerance: one quantum of the stored integers plus 1e-6 relative; any node within 1e-6 of the "
                       "maximum is accepted as the location"]
shrink = c01.shrink


def gen(rng, i, tier):
    if i % 17 == 16:
        return D.gen(rng, long=True)
    p = D.gen(rng)
    p["cfg"]["py"] = rng.random() < 0.25
    p["cfg"]["old"] = rng.random() < 0.15
    return p


def compare_step(plan, e, out, i, per, m4, coords, who="step"):
    sl = slice(i * per, (i + 1) * per)
    got = {c: out[c][sl] / f for c, f in FACT.items()}
    zf = 1e3 * (1.0 if plan["w"]["unit"] == "m" else 1000.0)
    got["Z"] = out["Z"][sl] / zf
    if m4 is None or m4 is R.ILL:
        return 0
    if m4.shape[-1] != per:
        raise Violation("length", f"{who} {i}: the reference has {m4.shape[-1]} samples, saved {per}")
    mx, mn, flat = R.summarise(m4)
    # values interpolated in time carry the precision of a time stamp in seconds since 1970
    eps = 5e-5 if plan["cfg"].get("interp") else 1e-6
    mx_, mn_ = np.minimum(mx, 21474.0), np.minimum(mn, 21474.0)
    for c, want in (("COA", mx_), ("COA_N", mn_)):
        err = np.abs(got[c] - want)
        tol = 1.2e-5 + 2 * eps * np.abs(want)
        if (err > tol).any():
            k = int(np.argmax(err - tol))
            raise Violation("value", f"{who} {i}, sample {k}: {c} is {got[c][k]}, the healthy data give {want[k]}")
    # location: some node within round-off of the peak has these coordinates
    for k in range(per):
        cand = np.flatnonzero(flat[:, k] >= mx[k] * (1 - eps))
        ok = (np.abs(coords[cand, 0] - got["X"][k]) < 1.1e-6) & (np.abs(coords[cand, 1] - got["Y"][k]) < 1.1e-6) \
            & (np.abs(coords[cand, 2] - got["Z"][k]) < 1.1 / zf)
        if not ok.any():
            j = cand[0]
            raise Violation("location", f"{who} {i}, sample {k}: position {got['X'][k], got['Y'][k], got['Z'][k]}, "
                            f"the peak is at {tuple(coords[j])}")
    return per


FACT = c01.FACT


def execute(plan, scratch):
    e = c01.run(plan, scratch)
    out, nsteps, per = c01.collect(plan, e)
    _, _, steps = D.expected(plan, e)
    coords = D.node_coords(plan, e)
    n = 0
    for i, (av, m4) in enumerate(steps):
        n += compare_step(plan, e, out, i, per, m4, coords)
    partial = sum(1 for av, m in steps if m is not None and not all(av.values()))
    return dict(digest=digest(tree_digest(e.run_dir), e.sim.oplog), faults=e.applied,
                nontrivial=bool(e.applied) and n > 0, key=digest(tree_digest(e.run_dir)),
                simtime=nsteps * plan["timestep"],
                stats=dict(steps=nsteps, steps_skipped_ill_conditioned=sum(m is R.ILL for _, m in steps), samples_compared=n, steps_with_missing_pairs=partial,
                           empty_steps=sum(m is None for _, m in steps)))
