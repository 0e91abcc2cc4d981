"""C19: travel-time tables hold the times of the model asked for, at the right places, or there is an error."""
import contextlib
import copy
import io
import json
import os
import re
import subprocess
import numpy as np
import pandas as pd
from pyproj import Proj, Transformer
from .. import lutdiff as L
from ..core import Violation, digest
from ..simos import Sim, Killed

LEVEL = "exploration"
CASES = {"quick": 1800, "thorough": 60000}
RULE = ("seeded histories of 1-4 table computations (straight-ray, fast-marching, the external NonLinLoc programs) and NonLinLoc-grid imports in shared "
        "working directories, with other grids, stations, models, left-overs of killed runs and foreign files; the external programs fail, die, are missing or "
        "write short grids, files fail or are missing, runs are killed; every table returned or saved compared with an independent evaluation; non-trivial if a "
        "table was obtained; distinct by digest of plan-independent results")
REAL = ["quakemigrate.lut.compute_traveltimes, read_nlloc, Grid3D / LUT, io.read_lut", "scikit-fmm", "pyproj"]
STUB = ["the NonLinLoc programs Vel2Grid and Grid2Time (a stand-in that reads the control file and writes grids of a known function)",
        "file layer and process death (simulated OS)"]
ASSUME = ["NonLinLoc's file formats as documented by NonLinLoc; its programs report failure by exit status or the word ERROR",
          "rotated NonLinLoc grids are not generated", "fast-marching times within 6 % and one grid cell"]
LON0, LAT0 = 10.0, 45.0


def gen(rng, i, tier):
    ops = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        m = rng.choice(["nlloc", "nlloc", "nlloc", "read", "read", "homog", "fmm"])
        unit = rng.choice(["km", "km", "m"])
        dx = rng.choice([0.5, 1.0, 1.0, 2.0, 1.3])
        z0 = rng.choice([0.0, -1.0, -1.55, -0.37, 0.1, 2.0, -2.0])
        o = dict(op=m, unit=unit, dx=dx, dz=rng.choice([0.5, 1.0, 1.0, 0.7]), span=[round(dx * rng.choice([2, 3, 4, 5.5]), 3) for _ in "xy"], z0=z0,
                 depth=rng.choice([2.0, 3.0, 3.3, 5.0]), seed=rng.randrange(10 ** 6), nsta=rng.choice([1, 2, 3]),
                 names=rng.choice([["AA", "AAB", "B1"], ["S1", "S10", "S2"], ["B1", "AA", "Z"]]),
                 phases=rng.choice([["P", "S"], ["P", "S"], ["P"], ["S", "P"]]), cwd=rng.choice(["a", "a", "a", "b"]),
                 model=dict(n=rng.choice([1, 2, 3, 5]), seed=rng.randrange(10 ** 6), cols=rng.random() < 0.3, rows=rng.choice(["range", "range", "tail", "sorted"])), ndx=rng.choice([0.1, 0.1, 0.25, 0.07, 0.5]),
                 ndx_default=rng.random() < 0.3, block=rng.random() < 0.4, retain=rng.random() < 0.3, path=rng.random() < 0.3, log=rng.random() < 0.2,
                 save=rng.random() < 0.5, proj=rng.choice(["LAMBERT", "LAMBERT", "TRANS_MERC", "SIMPLE", "NONE"]),
                 ell=rng.choice(["WGS-84", "WGS-84", "Sphere", "Krasovsky", "GRS-80"]), lat=rng.choice([45.0, 64.5, -20.25]), lon=rng.choice([10.0, -17.2, 170.1]),
                 frac=rng.choice([None, None, 0.05, 0.2]), bad=None, pf=None, of=None)
        r = rng.random()
        if m == "nlloc" and r < 0.35:
            o["pf"] = dict(pos=rng.random(), kind=rng.choice(["exit", "signal", "error", "late", "missing", "short", "nothing"]))
        elif m == "nlloc" and r < 0.75 or m != "nlloc" and r < 0.3:
            o["of"] = dict(pos=rng.random(), kind=rng.choice(["kill", "kill", "kill", "enospc", "eio", "short"]), frac=rng.choice([0.0, 0.5]))
        if m == "read" and rng.random() < 0.3:
            o["bad"] = dict(kind=rng.choice(["nofile", "nohdr", "short", "empty", "shape", "origin", "spacing"]), at=rng.random())
        if m in ("nlloc", "fmm") and not o["pf"] and not o["of"] and rng.random() < 0.08:
            o["bad"] = dict(kind=rng.choice(["column", "outside"] if m == "fmm" else ["column"]), at=rng.random())
        ops.append(o)
    if rng.random() < 0.5 and len(ops) > 1:       # the same again, with another model
        ops[-1] = dict(json.loads(json.dumps(ops[0])), model=dict(n=2, seed=rng.randrange(10 ** 6), cols=False, rows="range"), pf=None, of=None)
        if ops[0]["op"] == "nlloc" and rng.random() < 0.4:      # over the whole grids of the first, and failing
            ops[0]["pf"], ops[0]["of"], ops[0]["retain"] = None, None, True
            ops[-1]["pf"] = dict(pos=rng.random(), kind=rng.choice(["error", "error", "exit", "nothing", "short"]))
    return dict(ops=ops, foreign=[rng.choice(["model", "time", "."]) for _ in range(rng.choice([0, 0, 1, 2]))])


# ------------------------------------------------------------------ inputs
def spec_of(o):
    f = 1000.0 if o["unit"] == "m" else 1.0
    hx, hy = o["span"][0] / 2 / (111.32 * np.cos(np.radians(LAT0))), o["span"][1] / 2 / 111.1
    gp = Proj(proj="lcc", units=o["unit"], lon_0=LON0, lat_0=LAT0, lat_1=LAT0 - 0.2, lat_2=LAT0 + 0.2, datum="WGS84", ellps="WGS84", no_defs=True)
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    return dict(ll_corner=[LON0 - hx, LAT0 - hy, o["z0"] * f], ur_corner=[LON0 + hx, LAT0 + hy, (o["z0"] + o["depth"]) * f],
                node_spacing=[o["dx"] * f, o["dx"] * f, o["dz"] * f], grid_proj=gp, coord_proj=cp), f


def stations_of(o, f, lon=LON0, lat=LAT0):
    r = np.random.default_rng(o["seed"])
    n = o["nsta"]
    inside = o["op"] == "fmm"
    w = 0.4 if inside else 0.8
    if o["bad"] and o["bad"]["kind"] == "outside":
        w = 4.0
    c = np.cos(np.radians(lat))
    z = o["z0"] + (r.uniform(0, 0.5, n) * o["depth"] if inside else r.uniform(-1.2, 0.6, n))
    return pd.DataFrame({"Latitude": np.round(lat + r.uniform(-w, w, n) * o["span"][1] / 111.1, 5),
                         "Longitude": np.round(lon + r.uniform(-w, w, n) * o["span"][0] / 111.32 / c, 5),
                         "Elevation": np.round(z, 3) * f, "Name": o["names"][:n]})


def model_of(o, f):
    r = np.random.default_rng(o["model"]["seed"])
    n = o["model"]["n"]
    d = np.sort(np.round(o["z0"] - 1 + r.uniform(0, o["depth"] + 1.5, n), 1))
    for k in range(1, n):
        d[k] = max(d[k], round(d[k - 1] + 0.1, 1))
    vp = np.round(np.sort(r.uniform(2.5, 7.5, n)), 2)
    vs = np.round(vp / r.uniform(1.6, 1.9, n), 2)
    m = {"Depth": d * f, "Vp": vp * f, "Vs": vs * f}
    if o["model"]["cols"]:
        m = {"Vs": m["Vs"], "Vsh": m["Vs"] * 0.9, "Depth": m["Depth"], "Vp": m["Vp"]}
    m = pd.DataFrame(m)
    if o["model"]["rows"] == "tail":                      # the lower part of a larger model
        m.index += 2
    elif o["model"]["rows"] == "sorted":                  # a model put into order of depth
        m.index = r.permutation(n)
    return m


def nodes_of(lut, spec):
    """Grid coordinates of the nodes, from the definition of the grid alone: ((3, nx, ny, nz), spacing)."""
    tr = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
    ll, ur = np.array(tr.transform(*spec["ll_corner"])), np.array(tr.transform(*spec["ur_corner"]))
    d = np.array(spec["node_spacing"], float)
    q = (ur - ll) / d
    n = np.ceil(q) + 1
    near = np.abs(q - np.rint(q)) < 1e-6                      # an extra node by round-off is of no consequence
    alt = np.where(near, np.rint(q) + 1, n)
    got = np.array(lut.node_count)
    if not all(g in (a, b, b + 1 if c else a) for g, a, b, c in zip(got, n, alt, near)):
        raise Violation("grid", f"the grid has {got} nodes, {n} fit its corners")
    ijk = np.stack(np.meshgrid(*[np.arange(k) for k in got], indexing="ij"))
    return ll[:, None, None, None] + ijk * d[:, None, None, None]


# ------------------------------------------------------------------ the external programs
def times(layers, block, phase, sta, src_z, r, z):
    """The stand-in's travel times: a function of all it is given, linear along r and along z."""
    w = np.arange(1, len(layers) + 1)
    v = sum(k * (1.0 / vv + 0.01 * dd + 0.05 * g) for k, (dd, vv, g) in zip(w, layers)) / w.sum()
    h = {"P": 0.1, "S": 0.3}.get(phase, 0.5) + 0.01 * sum(map(ord, sta)) % 0.37
    return h + 0.02 * src_z + v * r + (0.15 + 0.1 * v) * z + 0.03 * r * z


class Programs:
    """subprocess.check_output for Vel2Grid and Grid2Time."""

    def __init__(self, sim, path, fault, known):
        self.sim, self.path, self.fault, self.known, self.n, self.fired = sim, path, fault, known, 0, None

    def __call__(self, args, stderr=None, **kw):
        self.sim.active = False
        try:
            return self.run(args, stderr)
        finally:
            self.sim.active = True

    def run(self, args, stderr):
        k, f = self.n, self.fault
        self.n += 1
        kind = f["kind"] if f and f["at"] == k else None
        prog, ctl = os.path.basename(args[0]), args[1]
        if args[0] not in (prog, os.path.join(self.path, prog)) or prog not in ("Vel2Grid", "Grid2Time"):
            raise FileNotFoundError(2, "No such file or directory", args[0])
        if kind == "short" and prog == "Vel2Grid":
            kind = None
        if kind:
            self.fired = f"{prog} {kind}"
        if kind == "missing":
            raise FileNotFoundError(2, "No such file or directory", args[0])
        if kind == "exit":
            raise subprocess.CalledProcessError(255, args, output=b"ERROR: reading control file")
        if kind == "error":
            return b"Grid2Time (NonLinLoc)\nERROR: cannot open file\n"
        if kind == "nothing":
            raise subprocess.CalledProcessError(1, args, output=b"")
        with open(ctl) as fh:
            c = fh.read()
        one = lambda k: re.search(rf"^{k} +(.*)$", c, re.M)
        g = one("VGGRID").group(1).split()
        nx, nz, oz, dx = int(g[1]), int(g[2]), float(g[5]), float(g[6])
        phase = one("VGTYPE").group(1).strip()
        vgout = one("VGOUT").group(1).strip()
        m_in, t_out, ph2 = one("GTFILES").group(1).split()
        sta, _, sx, sy, sz, _ = one("GTSRCE").group(1).split()
        layers = [[float(q) for q in ln.split()[1:]] for ln in re.findall(r"^LAYER.*$", c, re.M)]
        ip = 1 if phase == "P" else 3
        err = None
        if prog == "Vel2Grid":
            body = json.dumps(dict(layers=[[la[0], la[ip], la[ip + 1]] for la in layers], phase=phase, nx=nx, nz=nz, oz=oz, dx=dx))
            for ext in (".hdr", ".buf"):
                with open(f"{vgout}.{phase}.mod{ext}", "w") as fh:
                    fh.write(body)
        else:
            p = f"{m_in}.{ph2}.mod.buf"
            if not os.path.exists(p):
                return b"ERROR: opening model grid\n"
            with open(p) as fh:
                m = json.load(fh)
            z = m["oz"] + np.arange(m["nz"]) * m["dx"]
            if not z[0] - 1e-5 <= float(sz) <= z[-1] + 1e-5:
                return b"ERROR: source outside of grid\n"
            t = times(m["layers"], None, ph2, sta, float(sz), (np.arange(m["nx"]) * m["dx"])[:, None], z[None, :])
            raw = np.repeat(t[None].astype("f4"), 2, axis=0).tobytes()
            if kind in ("signal", "short"):
                raw = raw[:len(raw) // 3]
            for ext in (".hdr", ".buf"):                     # the real one leaves its model there, too
                with open(f"{t_out}.{ph2}.mod{ext}", "w") as fh:
                    fh.write("model\n")
            stem = f"{t_out}.{ph2}.{sta}.time"
            with open(stem + ".hdr", "w") as fh:
                fh.write(f"2 {m['nx']} {m['nz']}  0.000000 0.000000 {m['oz']:f}  {m['dx']:f} {m['dx']:f} {m['dx']:f} TIME2D FLOAT\n"
                         f"{sta} {float(sx):f} {float(sy):f} {float(sz):f}\nTRANSFORM  NONE\n")
            with open(stem + ".buf", "wb") as fh:
                fh.write(raw)
        if kind == "signal":
            raise subprocess.CalledProcessError(-9, args, output=b"")
        return b"ERROR: after writing\n" if kind == "late" else f"{prog} (NonLinLoc v7.00)\n".encode()


# ------------------------------------------------------------------ oracles
def want_nlloc(o, lut, spec, st, f, vm):
    g = nodes_of(lut, spec) / f
    tr = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
    out = {}
    d, v = vm["Depth"].values / f, {q: vm[f"V{q.lower()}"].values / f for q in o["phases"]}
    for _, s in st.iterrows():
        x, y, z = np.array(tr.transform(s["Longitude"], s["Latitude"], s["Elevation"])) / f
        r = np.hypot(g[0] - x, g[1] - y)
        for q in o["phases"]:
            lay = [(d[k], v[q][k], 0.0 if o["block"] or k == len(d) - 1 else (v[q][k + 1] - v[q][k]) / (d[k + 1] - d[k])) for k in range(len(d))]
            out[s["Name"], q] = times(lay, None, q, s["Name"], z, r, g[2])
    return out, 3e-5


def want_homog(o, lut, spec, st, f, vm):
    g = nodes_of(lut, spec)
    tr = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
    out = {}
    for _, s in st.iterrows():
        c = np.array(tr.transform(s["Longitude"], s["Latitude"], s["Elevation"]))
        for q in o["phases"]:
            out[s["Name"], q] = np.sqrt(((g - c[:, None, None, None]) ** 2).sum(axis=0)) / (speeds(o)[q] * f)
    return out, 1e-6


def speeds(o):
    r = np.random.default_rng(o["model"]["seed"])
    vp = round(r.uniform(3, 7), 2)
    return dict(P=vp, S=round(vp / 1.7, 2))


def check_fmm(o, lut, spec, st, f, vm):
    """Fast marching: bounds by the slowest and fastest speed anywhere between the depths; the exact time where the speed is linear in depth."""
    g = nodes_of(lut, spec)
    tr = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
    cell = float(np.max(spec["node_spacing"]))
    for _, s in st.iterrows():
        c = np.array(tr.transform(s["Longitude"], s["Latitude"], s["Elevation"]))
        for q in o["phases"]:
            d, v = vm["Depth"].values, vm[f"V{q.lower()}"].values
            at = lambda z: np.interp(z, d, v)
            r = np.hypot(g[0] - c[0], g[1] - c[1])
            dist = np.sqrt(r ** 2 + (g[2] - c[2]) ** 2)
            allv = at(g[2])
            t = np.ma.filled(np.ma.asarray(lut.traveltimes[s["Name"]][q], dtype=float), np.nan)
            if t.shape != dist.shape or not np.isfinite(t).all():
                raise Violation("times", f"fast-marching table of {s['Name']} {q} has shape {t.shape} with {np.isnan(t).sum()} missing times")
            lo = 0.94 * dist / allv.max() - 1.75 * cell / allv.min()
            # the straight ray, sampled (an upper bound of the first arrival)
            zz = np.linspace(0, 1, 60)[:, None, None, None]
            hi = 1.06 * dist * np.mean(1 / at(c[2] + zz * (g[2] - c[2])[None]), axis=0) + 2.5 * cell / allv.min()
            # and what the solver gives from the grid node nearest to the station
            near = np.sort(np.abs(g - c[:, None, None, None]).sum(axis=0).ravel())
            if near[1] - near[0] > 1e-6 * cell:
                import skfmm
                phi = np.full(dist.shape, -1.0)
                phi[np.unravel_index(np.argmin(np.abs(g - c[:, None, None, None]).sum(axis=0)), dist.shape)] = 1.0
                same(lut, {(s["Name"], q): np.asarray(skfmm.travel_time(phi, allv, dx=spec["node_spacing"]))}, 1e-6, "fast marching")
            bad = (t < lo) | (t > hi)
            if bad.any():
                j = tuple(np.argwhere(bad)[0])
                raise Violation("times", f"fast-marching time of {s['Name']} {q} at node {j} is {t[j]:.4f} s, at {dist[j]:.3f} from it it must be within {lo[j]:.4f} - {hi[j]:.4f}")


def check_table(o, lut, spec, st, f, vm, what):
    check_meta(o, lut, st, what)
    if o["op"] == "fmm":
        return check_fmm(o, lut, spec, st, f, vm)
    want, tol = {"nlloc": want_nlloc, "homog": want_homog}[o["op"]](o, lut, spec, st, f, vm)
    same(lut, want, tol, what)


def check_meta(o, lut, st, what):
    if list(lut.phases) != o["phases"] or set(lut.traveltimes) != set(st["Name"]):
        raise Violation("table", f"{what}: the table holds {sorted(lut.traveltimes)} {lut.phases}, asked for {sorted(st['Name'])} {o['phases']}")
    for s in st["Name"]:
        if set(lut.traveltimes[s]) != set(o["phases"]):
            raise Violation("table", f"{what}: the table of {s} holds phases {sorted(lut.traveltimes[s])}")
    if list(lut.station_data["Name"]) != list(st["Name"]):
        raise Violation("table", f"{what}: the table's stations are {list(lut.station_data['Name'])}")
    if not np.array_equal(lut.station_data[["Longitude", "Latitude", "Elevation"]].values, st[["Longitude", "Latitude", "Elevation"]].values):
        raise Violation("table", f"{what}: the table's stations are not where they were given")
    if lut.fraction_tt != (o["frac"] or 0.1):
        raise Violation("table", f"{what}: the table's fraction of the travel time is {lut.fraction_tt}, asked for {o['frac'] or 'the default'}")


def same(lut, want, tol, what):
    for (s, q), w in want.items():
        t = np.asarray(lut.traveltimes[s][q], float)
        if t.shape != w.shape:
            raise Violation("times", f"{what}: the table of {s} {q} has shape {t.shape}, the grid {w.shape}")
        err = np.abs(t - w) - tol * (1 + np.abs(w))
        if not (err <= 0).all():
            j = tuple(int(x) for x in np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape))
            raise Violation("times", f"{what}: travel time of {s} {q} to node {j} is {t[j]:.6f} s, the model gives {w[j]:.6f} s")


# ------------------------------------------------------------------ reading NonLinLoc grids
ELL = {"WGS-84": dict(ellps="WGS84"), "GRS-80": dict(ellps="GRS80"), "Sphere": dict(ellps="sphere"), "Krasovsky": dict(ellps="krass")}


def write_grids(o, d):
    os.makedirs(d, exist_ok=True)
    r = np.random.default_rng(o["seed"])
    shape = [int(x) for x in r.integers(2, 8, 3)]
    org = [round(float(x), 2) for x in r.uniform(-12, 2, 3)]
    org[2] = o["z0"]
    sp = [o["dx"], o["dx"], o["dz"]]
    tl = {"LAMBERT": f"TRANSFORM  LAMBERT RefEllipsoid {o['ell']}  LatOrig {o['lat']:f}  LongOrig {o['lon']:f}  FirstStdParal {o['lat'] - 1:f}  "
                     f"SecondStdParal {o['lat'] + 1:f}  RotCW 0.000000",
          "TRANS_MERC": f"TRANSFORM  TRANS_MERC RefEllipsoid WGS-84  LatOrig {o['lat']:f}  LongOrig {o['lon']:f}  RotCW 0.000000",
          "SIMPLE": f"TRANSFORM  SIMPLE LatOrig {o['lat']:f}  LongOrig {o['lon']:f}  RotCW 0.000000", "NONE": "TRANSFORM  NONE"}[o["proj"]]
    vals = {}
    todo = [(s, q) for q in o["phases"] for s in o["names"][:o["nsta"]]]
    b = o["bad"]
    at = min(int(b["at"] * len(todo)), len(todo) - 1) if b else None
    hit = False
    for k, (s, q) in enumerate(todo):
        v = np.random.default_rng([o["seed"], k]).uniform(0, 9, shape).astype("f4")
        vals[s, q] = v
        stem = os.path.join(d, f"layer.{q}.{s}.time")
        sh, og, dd, raw = shape, org, sp, v.tobytes()
        kind = b["kind"] if b and k == at else None
        if kind in ("shape", "origin", "spacing") and len(todo) < 2:
            kind = None
        hit |= kind is not None
        if kind == "shape":
            sh = [shape[0] + 1, shape[1], shape[2]]
            raw = np.concatenate([v, v[:1]]).tobytes()
        elif kind == "origin":
            og = [org[0], org[1] + 1.0, org[2]]
        elif kind == "spacing":
            dd = [sp[0] * 2, sp[1], sp[2]]
        elif kind == "short":
            raw = raw[:-4]
        elif kind == "empty":
            raw = b""
        for ext in (".hdr", ".buf"):
            if os.path.exists(stem + ext):
                os.unlink(stem + ext)
        if kind != "nohdr":
            with open(stem + ".hdr", "w") as fh:
                fh.write(f"{sh[0]} {sh[1]} {sh[2]}  {og[0]:f} {og[1]:f} {og[2]:f}  {dd[0]:f} {dd[1]:f} {dd[2]:f} TIME FLOAT\n{s} 0.0 0.0 0.0\n{tl}\n")
        if kind != "nofile":
            with open(stem + ".buf", "wb") as fh:
                fh.write(raw)
    return shape, org, sp, vals, hit


def check_read(o, lut, st, shape, org, sp, vals, what):
    check_meta(o, lut, st, what)
    if tuple(lut.node_count) != tuple(shape):
        raise Violation("grid", f"{what}: the table has {tuple(int(x) for x in lut.node_count)} nodes, the grids have {tuple(shape)}")
    same(lut, {k: v.astype(float) for k, v in vals.items()}, 1e-7, what)
    if np.abs(np.asarray(lut.node_spacing) - sp).max() > 1e-9:
        raise Violation("grid", f"{what}: node spacing {lut.node_spacing}, the grids have {sp}")
    ijk = np.array([[0, 0, 0], [shape[0] - 1, 0, 0], [0, shape[1] - 1, 0], [x - 1 for x in shape], [1, 1, 1]])
    xyz = np.array(org) + ijk * np.array(sp)
    got = np.atleast_2d(lut.index2coord(ijk))
    if o["proj"] == "SIMPLE":
        lat = o["lat"] + xyz[:, 1] / 111.111
        lon = o["lon"] + xyz[:, 0] / (111.111 * np.cos(np.radians(lat)))
        # a fixed longitude scale (at the origin) on an ellipsoid, or the scale of each latitude on a sphere: both are called SIMPLE
        tol = 0.006 * np.abs(xyz[:, :2]).max() + 1.2 * np.abs(xyz[:, 0] * xyz[:, 1]).max() / 6371 * np.tan(np.radians(abs(o["lat"]))) + 0.01
    else:
        if o["proj"] == "LAMBERT":
            g = Proj(proj="lcc", lat_0=o["lat"], lon_0=o["lon"], lat_1=o["lat"] - 1, lat_2=o["lat"] + 1, units="km", **ELL[o["ell"]])
        else:
            g = Proj(proj="tmerc", lat_0=o["lat"], lon_0=o["lon"], units="km", ellps="WGS84")
        lon, lat = g(xyz[:, 0], xyz[:, 1], inverse=True)
        tol = 0.003
    e = np.hypot((got[:, 0] - lon + 180) % 360 - 180, 0) * 111.2 * np.cos(np.radians(lat)), np.abs(got[:, 1] - lat) * 111.2, np.abs(got[:, 2] - xyz[:, 2])
    if not max(e[0].max(), e[1].max()) < tol or not e[2].max() < 1e-6:
        j = int(np.argmax(e[0] + e[1] + e[2]))
        raise Violation("grid", f"{what}: node {ijk[j].tolist()} of the {o['proj']} grid ({o['ell']}) is at {got[j].tolist()}, the grid says {[float(lon[j]), float(lat[j]), float(xyz[j, 2])]}")
    t = lut.traveltime_to(o["phases"][0], ijk[3])
    w = [float(vals[s, o["phases"][0]][tuple(ijk[3])]) for s in lut.station_data["Name"]]
    if not np.allclose(t, w, atol=1e-5):
        raise Violation("times", f"{what}: travel times to node {ijk[3].tolist()} are {t}, the grids hold {w}")


# ------------------------------------------------------------------ using a table
def check_use(o, lut, what, stats):
    """Decimation, conversions and queries of a table agree with its own times and corners."""
    r = np.random.default_rng([o["seed"], 7])
    n = np.array(lut.node_count, int)
    sp, ll = np.array(lut.node_spacing, float), np.array(lut.ll_corner, float)
    to_geo = Transformer.from_proj(lut.grid_proj, lut.coord_proj)
    # ---- index <-> coordinates
    ijk = np.array([[int(r.integers(k)) for k in n] for _ in range(6)])
    geo = np.column_stack(to_geo.transform(*(ll + ijk * sp).T))
    got = np.atleast_2d(lut.index2coord(ijk))
    flat = np.atleast_2d(lut.index2coord(np.ravel_multi_index(ijk.T, n), unravel=True))
    back = np.atleast_2d(lut.index2coord(geo, inverse=True))
    grid = np.atleast_2d(lut.coord2grid(geo))
    if np.abs(got - geo).max() > 1e-7 or np.abs(flat - geo).max() > 1e-7 or not np.array_equal(back, ijk) \
            or np.abs(grid - (ll + ijk * sp)).max() > 1e-3 * sp.min():
        raise Violation("coordinates", f"{what}: nodes {ijk.tolist()} are at {got.tolist()} / {flat.tolist()} and back {back.tolist()}, by definition at {geo.tolist()}")
    one = lut.index2coord([list(ijk[0])])
    if np.shape(one) != (1, 3) or np.abs(one - geo[:1]).max() > 1e-7:
        raise Violation("coordinates", f"{what}: node {ijk[0].tolist()} alone is at {one}, by definition at {geo[0]}")
    xyz = lut.grid_xyz
    for q in ijk:
        if max(abs(xyz[d][tuple(q)] - (ll + q * sp)[d]) for d in range(3)) > 1e-6 * sp.max():
            raise Violation("coordinates", f"{what}: grid_xyz of node {q.tolist()} is {[float(a[tuple(q)]) for a in xyz]}, by definition {ll + q * sp}")
    for cells in (False, True):
        h = 0.5 * cells
        w = np.column_stack(to_geo.transform(*(ll + np.array([-h * np.ones(3), n - 1 + h]) * sp).T))
        e = np.asarray(lut.get_grid_extent(cells=cells), float)
        if np.abs(e - w).max() > 1e-7:
            raise Violation("coordinates", f"{what}: the extent of the {'cells' if cells else 'nodes'} is {e.tolist()}, by definition {w.tolist()}")
    num = [[float(x) for x in re.findall(r"-?\d+\.\d+", ln)] for ln in str(lut).splitlines() if "corner" in ln]
    w = np.column_stack(to_geo.transform(*(ll + np.array([0 * n, n - 1]) * sp).T))[:, [1, 0, 2]]
    if np.shape(num) != (2, 3) or (np.abs(np.array(num) - w) > [2e-5, 2e-5, 2e-3]).any():
        raise Violation("coordinates", f"{what}: the summary of the table gives corners (N, E, depth) {num}, they are {w.tolist()}")
    # ---- queries
    names = list(lut.station_data["Name"])
    tt = {(s, q): np.ma.filled(np.ma.asarray(lut.traveltimes[s][q], float), np.nan) for s in names for q in o["phases"]}
    keys = [(s, q) for s in names for q in o["phases"]]
    keys = [keys[k] for k in r.permutation(len(keys))]
    av = {f"{s}_{q}": int(r.random() < 0.7) for s, q in keys}
    av[f"{keys[0][0]}_{keys[0][1]}"] = 1
    sr = int(r.choice([20, 50]))
    served = lut.serve_traveltimes(sr, av)
    use = [k for k in keys if av[f"{k[0]}_{k[1]}"]]
    if served.shape != tuple(n) + (len(use),) or any(np.abs(served[..., k] - tt[q] * sr).max() > 0.5 + 1e-6 for k, q in enumerate(use)):
        raise Violation("times", f"{what}: travel times served for {use} are not those of the table in samples")
    if (n > 1).all():
        f = np.array([r.uniform(0, k - 1) for k in n])
        a = np.minimum(f.astype(int), n - 2)
        for q in o["phases"]:
            w = []
            for s in names:
                c = tt[s, q][a[0]:a[0] + 2, a[1]:a[1] + 2, a[2]:a[2] + 2]
                for x in f - a:
                    c = c[0] * (1 - x) + c[1] * x
                w.append(float(c))
            sel = names[-1]
            if not np.allclose(lut.traveltime_to(q, f), w, atol=1e-5) or not np.allclose(lut.traveltime_to(q, f, sel), w[-1:], atol=1e-5) \
                    or not np.allclose(lut.traveltime_to(q, f, names[::-1]), w[::-1], atol=1e-5):
                raise Violation("times", f"{what}: {q} travel times to {f.tolist()} are {lut.traveltime_to(q, f)}, the nodes about it give {w}")
    if abs(lut.max_traveltime - max(np.nanmax(v) for v in tt.values())) > 1e-9 * lut.max_traveltime:
        raise Violation("times", f"{what}: the largest travel time is given as {lut.max_traveltime}, it is {max(np.nanmax(v) for v in tt.values())}")
    # ---- combining: what the first table has stays, what it has not is taken from the other
    one, two = copy.deepcopy(lut), copy.deepcopy(lut)
    cut = int(r.integers(1, len(names) + 1))
    common = [s for s in names[:cut] if r.random() < 0.5]
    for s in names[cut:]:
        del one.traveltimes[s]
    for s in names[:cut]:
        if s not in common:
            del two.traveltimes[s]
        else:
            for q in two.traveltimes[s]:
                two.traveltimes[s][q] = two.traveltimes[s][q] + 1.0
    whole = one + two
    if whole is None or set(whole.traveltimes) != set(names) or \
            any(not np.array_equal(np.ma.filled(np.ma.asarray(whole.traveltimes[s][q], float), np.nan), v, equal_nan=True) for (s, q), v in tt.items()):
        bad = [k for k, v in tt.items() if whole is None or k[0] not in whole.traveltimes or np.abs(np.asarray(whole.traveltimes[k[0]][k[1]]) - v).max() > 0]
        raise Violation("combined", f"{what}: a table of {names[:cut]} combined with one of {sorted(two.traveltimes)} lacks or changes the times of {bad}")
    other = copy.deepcopy(two)
    other.node_spacing = np.array(other.node_spacing) * [1, 1, 1.5]
    if one == other or not one == two:
        raise Violation("combined", f"{what}: two tables compare {'equal' if one == other else 'different'} although their node spacing is {'not ' if one == other else ''}the same")
    # ---- decimation
    df = np.array([int(r.integers(1, k + 1)) if r.random() < 0.3 else int(r.integers(1, 4)) for k in n])
    seen = L.observe(lut)
    dec = lut.decimate(list(df)) if r.random() < 0.6 else None
    if dec is None:
        dec = type(lut)()
        dec.__dict__.update(copy.deepcopy(lut.__dict__))
        dec.decimate(list(df), inplace=True)
    if L.diff(seen, L.observe(lut)):
        raise Violation("decimated", f"{what}: decimating a copy changed the table: {L.diff(seen, L.observe(lut))}")
    m = np.array(dec.node_count, int)
    dsp, dll = np.array(dec.node_spacing, float), np.array(dec.ll_corner, float)
    if np.abs(dsp - sp * df).max() > 1e-9 * dsp.max() or not ((m == 1 + (n - 1) // df) | (m == n // df)).all() and (m > 0).all():
        raise Violation("decimated", f"{what}: decimated by {df.tolist()}, a grid of {n.tolist()} nodes {sp} apart has {m.tolist()} nodes {dsp} apart")
    first = (dll - ll) / sp
    if np.abs(first - np.rint(first)).max() > 1e-6 or (first < -1e-6).any() or (np.rint(first) + df * (m - 1) > n - 1).any():
        raise Violation("decimated", f"{what}: decimated by {df.tolist()}, the first node is at index {first.tolist()} of the full grid ({n.tolist()} nodes)")
    first = np.rint(first).astype(int)
    ix = np.ix_(*[first[d] + df[d] * np.arange(m[d]) for d in range(3)])
    for k, v in tt.items():
        g = np.ma.filled(np.ma.asarray(dec.traveltimes[k[0]][k[1]], float), np.nan)
        if g.shape != tuple(m) or np.abs(g - v[ix]).max() > 1e-12:
            raise Violation("decimated", f"{what}: decimated by {df.tolist()}, the times of {k} are not those of the nodes at the same places in the full table")
    stats["decimated"] = stats.get("decimated", 0) + 1


def check_files(o, st, vm, scratch, stats):
    """Stations and velocity model written to files in some order of columns read back the same; without a required column they do not."""
    from quakemigrate.io import read_stations, read_vmodel
    r = np.random.default_rng([o["seed"], 9])
    cols = ["Latitude", "Longitude", "Elevation", "Name"]
    a, b = os.path.join(scratch, "stations.txt"), os.path.join(scratch, "model.txt")
    sep = [",", ";"][int(r.integers(2))]
    kw = {} if sep == "," else dict(sep=sep)
    odd = ["001", "NA", "1E5"][int(r.integers(3))] if r.random() < 0.5 else st["Name"].iloc[0]
    st = st.assign(Name=[odd] + list(st["Name"])[1:])
    order = list(r.permutation(cols + (["Network"] if r.random() < 0.4 else [])))

    def write(skip=None):
        with open(a, "w") as fh:
            fh.write(sep.join(c for c in order if c != skip) + "\n")
            for _, x in st.iterrows():
                fh.write(sep.join(x["Name"] if c == "Name" else "XX" if c == "Network" else repr(float(-x[c] if c == "Elevation" else x[c])) for c in order if c != skip) + "\n")
    write()
    got = read_stations(a, **kw)
    if list(got["Name"]) != list(st["Name"]) or any(np.abs(got[c].to_numpy(float) - st[c].to_numpy(float)).max() > 1e-9 for c in cols[:3]):
        raise Violation("files", f"station file with columns {order} of {st.to_dict('records')} was read as {got.to_dict('records')}")
    for skip in cols:
        write(skip)
        try:
            got = read_stations(a, **kw)
        except Exception:  # noqa
            continue
        raise Violation("files", f"a station file without the column {skip} was read as {got.to_dict('records')}")
    vm.to_csv(b, index=False, sep=sep)
    got = read_vmodel(b, **kw)
    if list(got.columns) != list(vm.columns) or np.abs(got.to_numpy(float) - vm.to_numpy(float)).max() > 1e-9:
        raise Violation("files", f"velocity model {vm.to_dict('list')} was read as {got.to_dict('list')}")
    vm.drop(columns=["Depth"]).to_csv(b, index=False, sep=sep)
    try:
        got = read_vmodel(b, **kw)
    except Exception:  # noqa
        got = None
    if got is not None:
        raise Violation("files", f"a velocity model without depths was read as {got.to_dict('list')}")
    stats["input_files"] = stats.get("input_files", 0) + 1


# ------------------------------------------------------------------ running
def foreign(plan, cwd):
    out = {}
    for k, sub in enumerate(plan["foreign"]):
        p = os.path.join(cwd, sub, f"notes{k}.txt")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(f"mine {k}\n")
        out[os.path.normpath(p)] = f"mine {k}\n"
    return out


def call(o, spec, st, f, vm, save, nlloc, d):
    from quakemigrate.lut import compute_traveltimes, read_nlloc
    kw = dict(phases=list(o["phases"]), log=o["log"])
    if save:
        kw["save_file"] = save
    if o["frac"]:
        kw["fraction_tt"] = o["frac"]
    if o["op"] == "read":
        return read_nlloc(d, st, **kw)
    if o["op"] == "homog":
        v = speeds(o)
        return compute_traveltimes(spec, st, method="homogeneous", vp=v["P"] * f, vs=v["S"] * f, **kw)
    if o["op"] == "fmm":
        return compute_traveltimes(spec, st, method="1dfmm", vmod=vm, **kw)
    if not o["ndx_default"]:
        kw["nlloc_dx"] = o["ndx"]
    if o["path"]:
        kw["nlloc_path"] = nlloc
    return compute_traveltimes(spec, st, method="1dnlloc", vmod=vm, block_model=o["block"], retain_nll_grids=o["retain"], **kw)


def execute(plan, scratch):
    from quakemigrate.io import read_lut
    nlloc = os.path.join(scratch, "bin")
    os.makedirs(nlloc)
    for q in ("Vel2Grid", "Grid2Time"):
        with open(os.path.join(nlloc, q), "w") as fh:
            fh.write("#!/bin/false\n")
    mine, hist, fired, stats, out = {}, [], {}, {}, []
    saved = None
    table = os.path.join(scratch, "tables", "t.LUT")
    for k, o in enumerate(plan["ops"]):
        cwd = os.path.join(scratch, o["cwd"])
        if not os.path.isdir(cwd):
            os.makedirs(cwd)
            mine.update(foreign(plan, cwd))
        os.chdir(cwd)
        spec, f = spec_of(o)
        vm = model_of(o, f)
        d = os.path.join(scratch, "grids", str(k))
        hit = False
        if o["op"] == "read":
            st = stations_of(o, 1.0, o["lon"], o["lat"])
            shape, org, sp, vals, hit = write_grids(o, d)
        else:
            st = stations_of(o, f)
        check_files(o, st, vm, scratch, stats)
        if o["bad"] and o["op"] in ("nlloc", "fmm"):
            ph = o["phases"][min(int(o["bad"]["at"] * len(o["phases"])), len(o["phases"]) - 1)]
            if o["bad"]["kind"] == "column":
                vm, hit = vm.drop(columns=[f"V{ph.lower()}"]), True
            else:
                tr = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"])
                ll, ur = np.array(tr.transform(*spec["ll_corner"])), np.array(tr.transform(*spec["ur_corner"]))
                p = np.column_stack(tr.transform(*st[["Longitude", "Latitude", "Elevation"]].values.T))
                hit = bool(((p < ll - 2 * o["dx"] * f) | (p > ur + 2 * o["dx"] * f)).any())
                if not hit:
                    continue
        vm0, st0 = vm.copy(), st.copy()
        faults, pf = [], None
        if o["of"] or o["pf"]:
            # how many operations and program calls an undisturbed run makes (in another place)
            probe = os.path.join(scratch, f"probe{k}")
            os.makedirs(probe)
            os.chdir(probe)
            with Sim(scratch) as sim, contextlib.redirect_stdout(io.StringIO()):
                real, prog = subprocess.check_output, Programs(sim, nlloc, None, None)
                subprocess.check_output = prog
                try:
                    call(o, spec, st.copy(), f, vm.copy(), os.path.join(probe, "t") if o["save"] else None, nlloc, d)
                except Exception:  # noqa
                    pass
                finally:
                    subprocess.check_output = real
            os.chdir(cwd)
            if o["pf"] and prog.n:
                pf = dict(kind=o["pf"]["kind"], at=min(prog.n - 1, int(o["pf"]["pos"] * prog.n)))
            if o["of"] and sim.main.n_mut:
                faults = [dict(node=0, at=min(sim.main.n_mut - 1, int(o["of"]["pos"] * sim.main.n_mut)), kind=o["of"]["kind"], frac=o["of"]["frac"])]
        what = f"after {hist}: {o['op']}" + (f" with {pf}" if pf else "") + (f" with {faults[0]['kind']} at operation {faults[0]['at']}" if faults else "") \
            + (f" with {o['bad']}" if hit else "")
        lut, err = None, None
        before = {sub: set(os.listdir(os.path.join(cwd, sub))) if os.path.isdir(os.path.join(cwd, sub)) else set() for sub in ("model", "time")}
        with Sim(scratch, faults=faults) as sim, contextlib.redirect_stdout(io.StringIO()):
            real, prog = subprocess.check_output, Programs(sim, nlloc, pf, None)
            subprocess.check_output = prog
            try:
                lut = call(o, spec, st, f, vm, table if o["save"] else None, nlloc, d)
            except Killed:
                err = "killed"
            except Exception as x:  # noqa
                err = f"{type(x).__name__}: {x}"
            finally:
                subprocess.check_output = real
        for kk, v in sim.fired.items():
            fired[kk] = fired.get(kk, 0) + v
        if prog.fired:
            fired["program_" + prog.fired.split()[1]] = fired.get("program_" + prog.fired.split()[1], 0) + 1
        if hit:
            fired["input_" + o["bad"]["kind"]] = fired.get("input_" + o["bad"]["kind"], 0) + 1
        disturbed = bool(prog.fired or sim.fired or hit)
        hist.append(f"{o['op']}{' in ' + o['cwd'] if o['op'] == 'nlloc' else ''}: {'ok' if err is None else err[:60]}")
        if o["op"] == "read" and o["proj"] == "NONE":
            if err is None:
                raise Violation("table", f"{what}: grids without a projection were loaded")
        elif err is not None and not disturbed:
            raise Violation("raised", f"{what}: stopped with {err}")
        elif err is None and hit:
            raise Violation("accepted", f"{what}: a table was made of what it cannot be made of, without an error")
        elif err is None and prog.fired:
            raise Violation("accepted", f"{what}: the external program failed, but a table was returned")
        for p, body in mine.items():
            try:
                with open(p) as fh:
                    ok = fh.read() == body
            except OSError:
                ok = False
            if not ok:
                raise Violation("foreign", f"{what}: the file {os.path.relpath(p, scratch)}, which was there before, is gone or changed")
        if not vm.equals(vm0) or not st.equals(st0):
            raise Violation("inputs", f"{what}: the velocity model or station table given was changed")
        if err is None:
            if o["op"] == "read":
                check_read(o, lut, st, shape, org, sp, vals, what)
            else:
                check_table(o, lut, spec, st, f, vm, what)
            check_use(o, lut, what, stats)
            stats["tables_" + o["op"]] = stats.get("tables_" + o["op"], 0) + 1
            out.append([o["op"], [L.h(np.round(np.ma.filled(lut.traveltimes[s][q], -1.0), 6)) for s in sorted(lut.traveltimes) for q in o["phases"]]])
            if o["op"] == "nlloc":
                left = sorted(x for x in os.listdir(cwd) if x not in ("logs",))
                if "control.in" in left:
                    raise Violation("left-over", f"{what}: the control file was left behind")
                for sub in ("model", "time"):
                    p = os.path.join(cwd, sub)
                    now = {x for x in os.listdir(p) if os.path.join(p, x) not in mine} if os.path.isdir(p) else set()
                    new = now - before[sub]
                    if new and not o["retain"]:
                        raise Violation("left-over", f"{what}: {sorted(new)} left behind in {sub} although the grids were not to be retained")
                    if o["retain"] and sub == "time" and {f"layer.{q}.{s}.time.buf" for q in o["phases"] for s in st["Name"]} - now:
                        raise Violation("left-over", f"{what}: the grids were to be retained, {sub} holds {sorted(now)}")
        if os.path.exists(table):
            t, now = None, None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    t = read_lut(table)
                except Exception:  # noqa
                    pass
                try:
                    now = L.observe(t) if t else None
                except Exception as x:  # noqa
                    raise Violation("saved", f"{what}: the saved table loads, but cannot be used: {type(x).__name__}: {x}")
            if err is None and o["save"]:
                dd = L.diff(L.observe(lut), now or {})
                if dd:
                    raise Violation("saved", f"{what}: the saved table is not the one returned: {dd}")
                saved = now
            elif now is not None and saved is not None and L.diff(saved, now) and not (err is not None and o["save"]):
                raise Violation("saved", f"{what}: the saved table changed")
            elif now is not None and err is not None and o["save"]:
                if saved is None or L.diff(saved, now):
                    # the new table had been written whole before the fault: it must be right
                    if o["op"] == "read":
                        check_read(o, t, st, shape, org, sp, vals, what + ", saved table")
                    else:
                        check_table(o, t, spec, st, f, vm, what + ", saved table")
                saved = now
            else:
                saved = now
        elif err is None and o["save"]:
            raise Violation("saved", f"{what}: returned normally, but no table was saved")
    os.chdir("/")
    return dict(digest=digest(out), key=digest(out), nontrivial=bool(out), faults=fired, stats=stats, simtime=0)


def shrink(plan):
    n = len(plan["ops"])
    for i in range(n):
        if n > 1:
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    if plan["foreign"]:
        yield dict(plan, foreign=plan["foreign"][1:])
    for i, o in enumerate(plan["ops"]):
        for k, v in (("pf", None), ("of", None), ("bad", None), ("save", False), ("log", False), ("nsta", 1), ("retain", False), ("path", False), ("unit", "km"), ("frac", None),
                     ("ndx_default", True), ("block", True)):
            if o[k] != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, **{k: v})] + plan["ops"][i + 1:])
        if o["model"]["n"] > 1:
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, model=dict(o["model"], n=1))] + plan["ops"][i + 1:])
