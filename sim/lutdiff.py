"""What a user can observe of a lookup table, as plain data."""
import hashlib
import numpy as np


def h(a):
    a = np.ascontiguousarray(a)
    return f"{a.dtype}{a.shape}:" + hashlib.sha256(a.tobytes()).hexdigest()[:16]


def observe(lut):
    out = {"phases": list(lut.phases), "fraction_tt": float(lut.fraction_tt), "unit": str(lut.unit_name),
           "ucf": float(lut.unit_conversion_factor), "node_count": [int(x) for x in lut.node_count],
           "node_spacing": [float(x) for x in lut.node_spacing], "ll": [float(x) for x in lut.ll_corner],
           "ur": [float(x) for x in lut.ur_corner], "cell": [float(x) for x in np.atleast_1d(lut.cell_count)],
           "stations": lut.station_data.to_csv(), "corners": h(np.round(np.asarray(lut.grid_corners, dtype=float), 9)),
           "vmodel": str(lut.velocity_model), "maxtt": float(lut.max_traveltime), "extent": h(np.round(np.asarray(lut.grid_extent, dtype=float), 9)),
           "proj": lut.grid_proj.definition_string(), "cproj": lut.coord_proj.definition_string()}
    for s in lut.traveltimes:
        for p in lut.traveltimes[s]:
            out[f"tt {s} {p}"] = h(lut.traveltimes[s][p])
    out["keys"] = {s: list(lut.traveltimes[s]) for s in lut.traveltimes}
    n = np.array(out["node_count"])
    ijk = np.array([[0, 0, 0], n - 1, n // 2])
    out["coord"] = h(np.round(lut.index2coord(ijk), 9))
    av = {f"{s}_{p}": 1 for p in lut.phases for s in lut.traveltimes}
    out["served"] = h(lut.serve_traveltimes(20, av))
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}: {str(b.get(k))[:120]} instead of {str(a.get(k))[:120]}"
    return None
