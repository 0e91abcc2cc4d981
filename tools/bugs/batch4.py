BUGS = {}
F = "quakemigrate/lut/create_lut.py"
COMMON = '''
from quakemigrate.lut import compute_traveltimes, read_nlloc
d = scratch()
PROG = """#!/opt/venv/bin/python
import math, os, re, struct, sys
c = open(sys.argv[1]).read()
one = lambda k: re.search(rf"^{k} +(.*)$", c, re.M).group(1).split()
g = one("VGGRID"); nx, nz, oz, dx = int(g[1]), int(g[2]), float(g[5]), float(g[6])
sta, _, x, y, z, _ = one("GTSRCE"); m, t, ph = one("GTFILES")
v = float(re.findall(r"^LAYER (.*)$", c, re.M)[0].split()[1 if ph == "P" else 3])
print("NonLinLoc v7")
if os.path.basename(sys.argv[0]) == "Vel2Grid":
    open(f"{m}.{ph}.mod.buf", "w").write("m")
elif os.path.exists(os.path.join(os.path.dirname(sys.argv[0]), "broken")):
    print("ERROR: reading model grid")
elif not oz - 1e-5 <= float(z) <= oz + (nz - 1) * dx + 1e-5:
    print("ERROR: source outside of grid")
else:
    open(f"{t}.{ph}.mod.hdr", "w").write("m")
    w = [math.hypot(i * dx, oz + k * dx - float(z)) / v for i in range(nx) for k in range(nz)]
    open(f"{t}.{ph}.{sta}.time.hdr", "w").write(f"2 {nx} {nz} 0.0 0.0 {oz} {dx} {dx} {dx} TIME2D FLOAT\\\\n{sta} {x} {y} {z}\\\\nTRANSFORM  NONE\\\\n")
    open(f"{t}.{ph}.{sta}.time.buf", "wb").write(struct.pack("f" * (2 * nx * nz), *(w + w)))
"""
os.makedirs(d + "/bin")
for p in ("Vel2Grid", "Grid2Time"):
    open(d + "/bin/" + p, "w").write(PROG)
    os.chmod(d + "/bin/" + p, 0o755)
os.makedirs(d + "/work")
os.chdir(d + "/work")
S = stations(3)
gp = Proj(proj="lcc", units="km", lon_0=10, lat_0=45, lat_1=44.8, lat_2=45.2, datum="WGS84", ellps="WGS84", no_defs=True)
cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
SPEC = dict(ll_corner=[10 - 5 / 78.7, 45 - 5 / 111.1, 0.0], ur_corner=[10 + 5 / 78.7, 45 + 5 / 111.1, 6.0], node_spacing=[2.0, 2.0, 2.0], grid_proj=gp, coord_proj=cp)


def table(v, **kw):
    vm = pd.DataFrame({"Depth": [-5.0], "Vp": [v], "Vs": [v / 2]})
    with contextlib.redirect_stdout(io.StringIO()):
        return compute_traveltimes(SPEC, S, "1dnlloc", phases=["P", "S"], vmod=vm, nlloc_dx=0.25, nlloc_path=d + "/bin", block_model=True, **kw)


def right(t, v):
    for i, s in enumerate(S["Name"]):
        r = np.sqrt(sum((t.grid_xyz[j] - t.stations_xyz[i, j]) ** 2 for j in range(3)))
        for ph, w in (("P", v), ("S", v / 2)):
            e = np.abs(t.traveltimes[s][ph] - r / w).max()
            check(e < 0.05, f"{s} {ph}: travel times off by {e:.2f} s")
'''

BUGS["c19-reuse-grids"] = dict(
    property="C19",
    needs="a table computed with retained NonLinLoc grids, then another in the same directory with another velocity model",
    breaks="the retained grids of the earlier model are taken for the new one",
    edits=[(F, """        for mode in ["Vel2Grid", "Grid2Time"]:
""", """        # Retained grids need not be calculated again
        grid = cwd / "time" / f"layer.{phase}.{station}.time.buf"
        modes = [] if grid.is_file() else ["Vel2Grid", "Grid2Time"]
        for mode in modes:
""")],
    demo=COMMON + """
right(table(5.0, retain_nll_grids=True), 5.0)
right(table(3.0, retain_nll_grids=True), 3.0)
""")

BUGS["c19-error-output"] = dict(
    property="C19",
    needs="Grid2Time reporting an error after its banner, with grids of a killed run still there",
    breaks="the failure goes unnoticed and the old grids are read",
    edits=[(F, """            if b"ERROR" in out:
""", """            if out.startswith(b"ERROR"):
""")],
    demo=COMMON + """
right(table(5.0, retain_nll_grids=True), 5.0)
open(d + "/bin/broken", "w").close()
try:
    t = table(3.0, retain_nll_grids=True)
except Exception:
    t = None
if t is not None:
    right(t, 3.0)
""")

BUGS["c19-source-depth"] = dict(
    property="C19",
    needs="a station above the top or below the bottom of the grid",
    breaks="its travel times are those of a station moved into the grid",
    edits=[(F, """        depth_span = [
            np.min([ll[2], stations_xyz[i, 2]]),
            np.max([ur[2], stations_xyz[i, 2]]),
        ]
""", """        depth_span = [ll[2], ur[2]]
"""), (F, """        z=station_xyz[2],
""", """        z=min(max(station_xyz[2], depth_span[0]), depth_span[1]),
""")],
    demo=COMMON + """
S["Elevation"] = [0.5, 1.5, 1.0]
right(table(5.0), 5.0)
""")

BUGS["c19-grid-name"] = dict(
    property="C19",
    needs="NonLinLoc grids missing for a station whose code begins that of another",
    breaks="the other station's travel times are read for it",
    edits=[(F, """            file = path / f"layer.{phase}.{station}.time"
""", """            files = sorted(path.glob(f"layer.{phase}.{station}*.time.hdr"))
            if not files:
                raise FileNotFoundError(f"No grid for {station} {phase} in {path}")
            file = files[0].with_suffix("")
""")],
    demo=COMMON + """
os.makedirs(d + "/g")
for k, (s, ph) in enumerate([("AA", "P"), ("AA1", "P"), ("AA1", "S")]):
    open(f"{d}/g/layer.{ph}.{s}.time.hdr", "w").write(f"2 2 2 0.0 0.0 0.0 1.0 1.0 1.0 TIME FLOAT\\n{s} 0.0 0.0 0.0\\nTRANSFORM  LAMBERT RefEllipsoid WGS-84  LatOrig 45.0  LongOrig 10.0  FirstStdParal 44.0  SecondStdParal 46.0  RotCW 0.0\\n")
    np.full(8, k, "f4").tofile(f"{d}/g/layer.{ph}.{s}.time.buf")
S = stations(2)
S["Name"] = ["AA", "AA1"]
try:
    with contextlib.redirect_stdout(io.StringIO()):
        t = read_nlloc(d + "/g", S, phases=["P", "S"])
except Exception:
    t = None
check(t is None, "a table without the S grid of AA")
""")

BUGS["c19-checkpoint"] = dict(
    property="C19",
    needs="a failure or a kill after the first phase",
    breaks="an incomplete table is left where the whole one should be",
    edits=[(F, """            _compute_1d_nlloc(lut, phase, vmodel, **kwargs)
""", """            _compute_1d_nlloc(lut, phase, vmodel, **kwargs)
            # The programs may take long: keep what there is
            if save_file is not None:
                lut.save(save_file)
""")],
    demo=COMMON + """
import quakemigrate.lut.create_lut as cl
real = cl._write_control_file


def failing(xyz, station, dist, vmodel, span, phase, *a):
    if phase == "S":
        raise OSError(28, "No space left on device")
    return real(xyz, station, dist, vmodel, span, phase, *a)


cl._write_control_file = failing
try:
    table(5.0, save_file=d + "/t.LUT")
except OSError:
    pass
check(not os.path.exists(d + "/t.LUT"), "a table without S saved")
""")
