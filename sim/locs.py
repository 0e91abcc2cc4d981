"""Locations and their uncertainties, from the marginalised map of an event (own evaluation)."""
import itertools

import numpy as np

from .core import Violation


def to_geo(lut, ijk):
    from pyproj import Transformer
    g = np.array(lut.ll_corner) + np.array(ijk, float) * np.array(lut.node_spacing)
    return Transformer.from_proj(lut.grid_proj, lut.coord_proj).transform(*g)


def to_index(lut, xyz):
    from pyproj import Transformer
    g = np.array(Transformer.from_proj(lut.coord_proj, lut.grid_proj).transform(*xyz))
    return (g - np.array(lut.ll_corner)) / np.array(lut.node_spacing)


def spline(marg, peak):
    """The interpolant about the peak on the refined grid, its origin, and whether the window is whole."""
    lo = np.clip(np.array(peak) - 2, 0, None)
    hi = np.minimum(np.array(peak) + 3, marg.shape)
    v = marg[tuple(slice(a, b) for a, b in zip(lo, hi))]
    c = np.argwhere(np.ones(v.shape))
    w = np.linalg.solve(np.linalg.norm((c[:, None] - c[None]).astype(float), axis=2) ** 3, v.ravel())
    fine = [(np.linspace(0, n - 1, 10 * (n - 1) + 1)[:, None] - np.arange(n)[None]) ** 2 for n in v.shape]
    out = np.zeros([len(f) for f in fine])
    for (a, b, z), q in zip(c, w):
        out += q * (fine[0][:, a][:, None, None] + fine[1][:, b][None, :, None] + fine[2][:, z][None, None, :]) ** 1.5
    return out, lo, v.size == 125


def smooth(m, s=0.8):
    """Twice the Gaussian over the volume, the second time mirrored."""
    for ax, n in enumerate(m.shape):
        i, j = np.meshgrid(range(n), range(n), indexing="ij")
        k = i - j + (n - 1) // 2
        a = np.where((k >= 0) & (k < n), np.exp(-(k - (n - 1) / 2) ** 2 / (2 * s * s)), 0)
        m = np.moveaxis(np.tensordot(a[::-1, ::-1] @ a, m, axes=(1, ax)), 0, ax)
    return m / m.max()


def gaussian(marg):
    """Position (index) and principal widths (nodes) of the Gaussian fit, or None where ill-posed."""
    m = smooth(marg)
    order = np.sort(m.ravel())
    if len(order) < 2 or order[-1] - order[-2] < 1e-9:
        return None
    pk = np.unravel_index(m.argmax(), m.shape)
    sl = tuple(slice(max(0, p - 3), p + 4) for p in pk)
    v = (m - m.mean())[sl].ravel()
    if (np.abs(v) < 1e-7).any() or (m[sl] < 1e-10).any():
        return None
    r = np.array(list(itertools.product(*[np.arange(max(0, p - 3), min(n, p + 4)) - p for p, n in zip(pk, m.shape)])), float)
    x, y, z = r.T
    a = np.c_[x * x, y * y, z * z, x * y, x * z, y * z, x, y, z, np.ones(len(x))]
    sv = np.linalg.svd(a, compute_uv=False)
    if sv[-1] < 1e-6 * sv[0]:
        return None
    p = np.linalg.lstsq(a, -np.log(np.clip(v, 1e-300, None)), rcond=None)[0]
    q = np.array([[p[0], p[3] / 2, p[4] / 2], [p[3] / 2, p[1], p[5] / 2], [p[4] / 2, p[5] / 2, p[2]]])
    e = np.linalg.eigvalsh(q)
    if np.abs(e).min() < 1e-3 * max(1, np.abs(e).max()):
        return None
    at = np.linalg.solve(q, -p[6:9] / 2)
    return at + np.array(pk), np.sqrt(0.5 / np.abs(e)) / 2


def check(u, e, ev, marg, stats):
    """Compare the event file's positions and errors with the map; returns the covariance position."""
    lut = e.lut
    marg = np.asarray(marg, float) / np.max(marg)
    sp = np.array(lut.node_spacing, float)
    tol = 0.51 if lut.unit_name == "m" else 0.51e-3
    # ---- best position
    at = to_index(lut, [float(ev[c]) for c in "XYZ"])
    step = 2e-7 * 111e3 * 6 / (1000 if lut.unit_name == "km" else 1)          # digits of the file
    ok = False
    for pk in np.argwhere(marg >= 1 - 1e-9):
        v, lo, whole = spline(marg, pk)
        if not whole:                    # at the edge: the node itself (or the peak of what there is)
            ok = ok or (np.abs(at - pk) * sp < step + tol).all()
        k = np.rint((at - lo) * 10)
        if (np.abs((at - lo) - k / 10) * sp < step + tol).all() and ((k >= 0) & (k < v.shape)).all():
            ok = ok or v[tuple(k.astype(int))] >= v.max() - 1e-7
    if not ok:
        raise Violation("location", f"event {u}: position is grid index {at}, not the peak of the interpolated marginalised map "
                        f"about {np.argwhere(marg >= 1 - 1e-9)[0]}")
    # ---- Gaussian
    g = gaussian(marg)
    if g is not None and (np.abs(g[0]) < 100).all():
        got = to_index(lut, [float(ev[f"GAU_{c}"]) for c in "XYZ"])
        if (np.abs(got - g[0]) * sp > step + tol + 1e-5 * np.abs(g[0]) * sp).any():
            raise Violation("location", f"event {u}: Gaussian position is grid index {got}, a fit to the marginalised map gives {g[0]}")
        err = np.array([float(ev[f"GAU_Err{c}"]) for c in "XYZ"])
        if not any((np.abs(np.array(w) * sp - err) < 2 * tol + 1e-4 * err).all() for w in itertools.permutations(g[1])):
            raise Violation("location", f"event {u}: Gaussian errors are {err}, a fit to the marginalised map gives widths {g[1]} (nodes)")
        stats["gaussians"] = stats.get("gaussians", 0) + 1
    # ---- covariance
    if (np.abs(marg - 0.9) < 1e-9).any():
        return None
    w = np.where(marg > 0.9, marg, 0)
    w = w / w.sum()
    idx = np.indices(marg.shape)
    mean = [float((w * x).sum()) for x in idx]
    sd = np.array([np.sqrt((w * (x - m) ** 2).sum()) for x, m in zip(idx, mean)]) * sp
    err = np.array([float(ev[f"COV_Err{c}"]) for c in "XYZ"])
    if (np.abs(err - sd) > 2 * tol + 1e-5 * sd).any() or abs(float(ev["COV_Err_XYZ"]) - np.prod(sd) ** (1 / 3)) > 2 * tol + 1e-5 * sd.max():
        raise Violation("location", f"event {u}: covariance errors are {err} ({ev['COV_Err_XYZ']}), the marginalised map gives {sd}")
    stats["locations"] = stats.get("locations", 0) + 1
    return list(to_geo(lut, mean))
