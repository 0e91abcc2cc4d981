"""Magnitude options, and the magnitudes they give from the amplitudes in an .amps file."""
import numpy as np
from .core import Violation

A0 = {"Hutton-Boore": lambda d: 1.11 * np.log10(d / 100) + 0.00189 * (d - 100) + 3,
      "keir2006": lambda d: 1.196997 * np.log10(d / 17) + 0.001066 * (d - 17) + 2,
      "Langston1998": lambda d: 0.776 * np.log10(d / 17) + 0.000902 * (d - 17) + 2,
      "UK": lambda d: 1.11 * np.log10(d) + 0.00189 * d - 1.16 * np.exp(-0.2 * d) - 2.09,
      "own": lambda d: 1.3 * np.log10(d / 10) + 1.7}


def own(d):
    return 1.3 * np.log10(d / 10) + 1.7


def gen(rng, names):
    """(options of the amplitudes, options of the magnitudes)."""
    m = dict(A0=rng.choice(["Hutton-Boore", "Hutton-Boore", "keir2006", "Langston1998", "UK", "own"]))
    if rng.random() < 0.3:
        m["use_hyp_dist"] = True
    if rng.random() < 0.3:
        m["amp_feature"] = "P_amp"
    if rng.random() < 0.3:
        m["amp_multiplier"] = rng.choice([0.5, 2.0, 2080 / 2800])
    if rng.random() < 0.3:
        m["station_corrections"] = {f"XX.{s}..BH{c}": round(rng.uniform(-0.5, 0.5), 2) for s in names for c in "ZNE" if rng.random() < 0.5}
    elif rng.random() < 0.08:
        m["station_corrections"] = None
    if rng.random() < 0.4:
        m["noise_filter"] = rng.choice([0.0, 0.5, 1.0, 2.0, 5.0, 30.0])
    if rng.random() < 0.3:
        m["trace_filter"] = rng.choice([".*H[NE]$", "Z$", f"{names[0]}..BH[ZN]", f"{names[-1]}..BHN"])
    if rng.random() < 0.25:
        m["station_filter"] = rng.sample(names, rng.choice([0, 1, 2]))
    if rng.random() < 0.25:
        m["dist_filter"] = rng.choice([3.0, 6.0, 50.0])
    if rng.random() < 0.25:
        m["pick_filter"] = True
    if rng.random() < 0.4:
        m["weighted_mean"] = True
    if rng.random() < 0.25:
        m["r2_only_used"], m["noise_filter"] = False, rng.choice([1.0, 1.5, 2.0, 3.0, 5.0, 30.0])
    a = {}
    if rng.random() < 0.4:
        a["noise_measure"] = rng.choice(["STD", "ENV", "RMS"])
    if rng.random() < 0.3:
        a["loc_method"] = rng.choice(["gaussian", "covariance", "spline"])
    if rng.random() < 0.15:
        a["prominence_multiplier"] = rng.choice([0.5, 1.0])
    if rng.random() < 0.3:
        a["filter_corners"] = rng.choice([1, 2, 3])
    return a, m


def params(m):
    m = dict(m or dict(A0="Hutton-Boore"))
    if m["A0"] == "own":
        m["A0"] = own
    return m


def num(x):
    return float(x) if x not in ("", None) else np.nan


def model(rows, m):
    """What each row of an .amps file should have: list of dicts with the interval of ML, of its error, used (True, False or None: not decidable)."""
    import re
    f = m.get("amp_feature", "S_amp")
    k, nf = m.get("amp_multiplier", 1.0), m.get("noise_filter", 1.0)
    gains = np.array([num(r[f"{f[0]}_filter_gain"]) for r in rows])
    out = []
    for r, g in zip(rows, gains):
        a, n = num(r[f]) * k, num(r["Noise_amp"]) * k
        if not np.isnan(gains).all():
            n /= g
        e, z = num(r["epi_dist"]), num(r["z_dist"])
        d = np.hypot(e, z) if m.get("use_hyp_dist") else e
        o = dict(id=r["id"], amp=a, noise=n, dist=d, corr=(m.get("station_corrections") or {}).get(r["id"], 0.0), ml=np.nan, err=None, used=False)
        out.append(o)
        if not (np.isfinite(a) and np.isfinite(n)):
            continue
        eps = 1e-4 + (0.006 if not np.isnan(gains).all() else 0)         # digits of the noise (and of the gain)
        near = lambda x, y: abs(x - y) <= eps * (abs(x) + abs(y))
        sure = not near(a, n) and (nf == 0 or not near(a, n * nf)) and (not m.get("dist_filter") or abs(d - m["dist_filter"]) > 1e-3)
        if a > 0 and d > 0 and (a > n or near(a, n)):
            o["ml"] = np.log10(a) + A0[m["A0"]](d) + o["corr"]
            o["maybe"] = near(a, n)
            if a > n * (1 + 2 * eps):
                o["err"] = [np.log10((a * (1 + s * 1e-4) + n * (1 - s * eps)) / (a * (1 + s * 1e-4) - n * (1 - s * eps))) for s in (1, -1)]
        u = True
        if m.get("trace_filter") is not None:
            u &= bool(re.search(m["trace_filter"], r["id"]))
        if m.get("station_filter") is not None:
            u &= r["id"].split(".")[1] not in m["station_filter"]
        if m.get("dist_filter"):
            u &= d <= m["dist_filter"]
        o["among"] = bool(u)
        u &= np.isfinite(o["ml"])
        if m.get("pick_filter"):
            u &= r["is_picked"] == "True"
        if nf:
            u &= a > n * nf
        o["used"] = bool(u) if sure else None
    return out


def check(u, header, rows, ev, m, stats):
    f = m.get("amp_feature", "S_amp")
    rows_ = model(rows, m)
    if "ML" not in header:
        if any(num(r[f]) > 0 for r in rows):
            raise Violation("magnitude", f"event {u}: {f} were measured, but there are no magnitudes")
        if ev["ML"] not in ("", "nan"):
            raise Violation("magnitude", f"event {u}: ML {ev['ML']} without amplitudes")
        return rows_
    for r, o in zip(rows, rows_):
        ml, er = num(r["ML"]), num(r["ML_Err"])
        if np.isnan(o["ml"]) != np.isnan(ml) and not o.get("maybe"):
            raise Violation("magnitude", f"event {u}: ML of {o['id']} is {r['ML'] or 'missing'}, amplitude {o['amp']} mm, noise {o['noise']} mm at {o['dist']} km give {o['ml']}")
        if np.isfinite(ml) and np.isfinite(o["ml"]):
            if abs(ml - o["ml"]) > 6e-3 * max(1, abs(ml)):
                raise Violation("magnitude", f"event {u}: ML of {o['id']} is {ml}, amplitude {o['amp']} mm at {o['dist']} km gives {o['ml']} ({m})")
            if o["err"] and np.isfinite(o["err"]).all() and not min(o["err"]) * 0.994 - 1e-4 <= er <= max(o["err"]) * 1.006 + 1e-4:
                raise Violation("magnitude", f"event {u}: ML_Err of {o['id']} is {er}, amplitude {o['amp']} mm and noise {o['noise']} mm give {o['err']}")
    if any(o["used"] is None for o in rows_):
        return rows_
    use = [o for o in rows_ if o["used"]]
    got = num(ev["ML"])
    if np.isnan(got) != (not use):
        raise Violation("magnitude", f"event {u}: ML is {ev['ML'] or 'missing'}, {len(use)} observations pass the filters {m}")
    if not use:
        return rows_
    x = np.array([o["ml"] for o in use])
    w = np.ones(len(x))
    if m.get("weighted_mean"):
        if any(not o["err"] or min(o["err"]) < 1e-4 for o in use):
            return rows_
        w = np.array([np.mean(o["err"]) for o in use]) ** -2.0
        unsure = max((max(o["err"]) - min(o["err"])) / np.mean(o["err"]) for o in use)
    else:
        unsure = 0.0
    if unsure > 0.05:
        return rows_
    mean = (x * w).sum() / w.sum()
    sd = np.sqrt((w * (x - mean) ** 2).sum() / w.sum())
    tol = 6e-3 * max(1, abs(got)) + 2 * unsure * np.ptp(x)
    if abs(got - mean) > tol:
        raise Violation("magnitude", f"event {u}: ML is {got}, the {'weighted ' if m.get('weighted_mean') else ''}mean of the {len(x)} observations that pass the filters is {mean}")
    er = num(ev["ML_Err"])
    if len(x) > 1:
        if abs(er - sd) > 6e-3 * er + 4e-4 + 2 * unsure * np.ptp(x):
            raise Violation("magnitude", f"event {u}: ML_Err is {er}, the {'weighted ' if m.get('weighted_mean') else ''}standard deviation of the observations is {sd}")
    r2 = num(ev["ML_r2"])
    if m.get("r2_only_used") is False:                                  # of all observations, but those that drown in the noise as predicted
        use, nf = [o for o in rows_ if o.get("among")], m.get("noise_filter", 1.0)
        if any(not (o["amp"] > 0 and o["dist"] > 0) for o in use):
            return rows_
        snr = lambda o: 10 ** (mean - A0[m["A0"]](o["dist"]) - o["corr"]) / o["noise"] if o["noise"] > 0 else np.inf
        if any(o["amp"] <= o["noise"] * nf and abs(snr(o) / 5 - 1) < 0.05 for o in use):
            return rows_
        use = [o for o in use if o["amp"] > o["noise"] * nf or snr(o) >= 5]
        stats["r2_of_all"] = stats.get("r2_of_all", 0) + 1
        stats["r2_of_all_but_noise"] = stats.get("r2_of_all_but_noise", 0) + (len(use) < sum(bool(o.get("among")) for o in rows_))
        x = np.array([o["amp"] for o in use])
    y = np.log10([o["amp"] for o in use]) + [o["corr"] for o in use]
    pred = mean - np.array([A0[m["A0"]](o["dist"]) for o in use])
    var, mod = ((y - y.mean()) ** 2).sum(), ((y - pred) ** 2).sum()
    eps = 2e-4 + unsure * np.ptp(x)
    if len(x) < 2:
        if np.isfinite(r2):
            raise Violation("magnitude", f"event {u}: ML_r2 is {r2} of a single observation")
    elif var > 0.02:
        t = ((2 * np.abs(y - pred).sum() * eps) + mod / var * 2 * np.abs(y - y.mean()).sum() * eps) / var * 1.5 + 6e-3 * abs(r2) + 1e-3
        if not abs(r2 - (1 - mod / var)) <= t:
            raise Violation("magnitude", f"event {u}: ML_r2 is {r2}, the observations give {1 - mod / var}")
    stats["mags"] = stats.get("mags", 0) + 1
    return rows_
