"""Small self-contained QuakeMigrate experiments for the demonstrations (a copy lies in each folder)."""
import contextlib, io, os, sys, shutil, tempfile, atexit, glob, subprocess
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read
from pyproj import Proj
import warnings
warnings.filterwarnings("ignore")

DAY = "2021-03-05"


def scratch():
    d = tempfile.mkdtemp(prefix="qmdemo")
    atexit.register(shutil.rmtree, d, True)
    return d


def stations(n=5):
    ang = np.linspace(0, 2 * np.pi, n, endpoint=False) + 0.2
    names = ["AA1", "AB2", "AC3", "AD4", "AE5", "AF6", "AG7"][:n]
    return pd.DataFrame({"Latitude": 45 + 4.0 * np.sin(ang) / 111.1, "Longitude": 10 + 4.0 * np.cos(ang) / 78.7,
                         "Elevation": np.zeros(n), "Name": names})


def lut(sta, dx=2.0, phases=("P", "S")):
    from quakemigrate.lut import compute_traveltimes
    gp = Proj(proj="lcc", units="km", lon_0=10, lat_0=45, lat_1=44.8, lat_2=45.2, datum="WGS84", ellps="WGS84", no_defs=True)
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    spec = dict(ll_corner=[10 - 5 / 78.7, 45 - 5 / 111.1, 0.0], ur_corner=[10 + 5 / 78.7, 45 + 5 / 111.1, 6.0],
                node_spacing=[dx, dx, 2.0], grid_proj=gp, coord_proj=cp)
    with contextlib.redirect_stdout(io.StringIO()):
        return compute_traveltimes(spec, sta, method="homogeneous", phases=list(phases), vp=5.0, vs=3.0)


def waves(sta, lt, t0, span, sr=20, events=(), seed=1, amp=3000.0):
    """Noise plus arrivals; events: (time after t0, node)."""
    st = Stream()
    for i, s in enumerate(sta["Name"]):
        for j, c in enumerate("ZNE"):
            y = np.random.default_rng([seed, i, j]).normal(0, 20, int(span * sr))
            for t, node in events:
                ph = "P" if c == "Z" else "S"
                tt = np.arange(len(y)) / sr - t - lt.traveltimes[s][ph][node]
                y = y + np.where(tt >= 0, amp * np.exp(-np.maximum(tt, 0) / 0.6) * np.sin(8 * np.pi * np.maximum(tt, 0)), 0)
            st += Trace(np.round(y).astype(np.int32), dict(network="XX", station=s, channel="BH" + c, sampling_rate=sr, starttime=t0))
    return st


def archive(path, st):
    """One file per channel and day."""
    for tr in st:
        t = UTCDateTime(tr.stats.starttime.date)
        while t <= tr.stats.endtime:
            p = tr.slice(t, t + 86400 - 1e-6, nearest_sample=False)
            if p.stats.npts:
                d = os.path.join(path, f"{t.year}", f"{t.julday:03d}")
                os.makedirs(d, exist_ok=True)
                p.write(os.path.join(d, f"{tr.stats.station}_{tr.stats.channel}.m"), format="MSEED", encoding="STEIM2" if p.data.dtype == np.int32 else None)
            t += 86400
    return path


def arc(path, sta, **kw):
    from quakemigrate import Archive
    return Archive(archive_path=path, stations=sta, archive_format="YEAR/JD/STATION", **kw)


def onset(sr=20, phases=("P", "S"), **kw):
    from quakemigrate.signal.onsets import STALTAOnset
    f = {"P": [1.0, 8.0, 2], "S": [1.0, 8.0, 2]}
    w = {"P": [0.2, 1.0], "S": [0.2, 1.0]}
    o = STALTAOnset(position="classic", sampling_rate=sr, phases=list(phases), bandpass_filters={p: f[p] for p in phases},
                    sta_lta_windows={p: w[p] for p in phases}, min_onset_value=0.01, **kw)
    return o


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def detect(A, lt, runs, a, b, name="run", timestep=10.0, on=None, **kw):
    from quakemigrate import QuakeScan
    with quiet():
        QuakeScan(A, lt, onset=on or onset(), run_path=runs, run_name=name, log=False, timestep=timestep, threads=kw.pop("threads", 1), **kw).detect(str(a), str(b))


def trigger(lt, runs, a, b, name="run", region=None, **kw):
    from quakemigrate import Trigger
    o = dict(marginal_window=1.0, min_event_interval=2.0, pad=30.0, static_threshold=3.0, threshold_method="static")
    o.update(kw)
    with quiet():
        Trigger(lt, run_path=runs, run_name=name, log=False, plot_trigger_summary=o.pop("plot_trigger_summary", False), **o).trigger(str(a), str(b), region=region)


def locate(A, lt, runs, a=None, b=None, name="run", trigger_file=None, on=None, **kw):
    from quakemigrate import QuakeScan
    from quakemigrate.signal.pickers import GaussianPicker
    on = on or onset()
    attrs = {k: kw.pop(k) for k in ("pre_cut", "post_cut") if k in kw}
    with quiet():
        q = QuakeScan(A, lt, onset=on, picker=GaussianPicker(onset=on), run_path=runs, run_name=name, log=False, threads=1,
                      plot_event_summary=kw.pop("plot_event_summary", False), marginal_window=kw.pop("marginal_window", 1.0), **kw)
        for k, v in attrs.items():
            setattr(q, k, v)
        if trigger_file:
            q.locate(trigger_file=trigger_file)
        else:
            q.locate(str(a), str(b))


def write_triggers(runs, times, name="run"):
    d = os.path.join(runs, name, "trigger", "events")
    os.makedirs(d, exist_ok=True)
    by = {}
    for t in times:
        t = UTCDateTime(t)
        by.setdefault((t.year, t.julday), []).append(t)
    for (y, j), ts in by.items():
        pd.DataFrame([dict(EventID=uid(t), CoaTime=str(t), TRIG_COA=5.0, COA_X=10.0, COA_Y=45.0, COA_Z=2.0, COA=5.0, COA_NORM=2.0)
                      for t in ts]).to_csv(os.path.join(d, f"{name}_{y}_{j:03d}_TriggeredEvents.csv"), index=False)


def uid(t):
    return "".join(c for c in str(t) if c.isdigit())[:17]


def scan(runs, name="run"):
    """{station: merged saved trace} of all day files."""
    st = Stream()
    for f in sorted(glob.glob(os.path.join(runs, name, "detect", "scanmseed", "*.scanmseed"))):
        st += read(f)
    st.merge(method=-1)
    return st


def events(runs, name="run", sub=""):
    fs = sorted(glob.glob(os.path.join(runs, name, "trigger", sub, "events", "*.csv")))
    return {os.path.basename(f)[-28:-20]: pd.read_csv(f) for f in fs}


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def response(sta):
    from obspy.core.inventory import Inventory, Network, Station, Channel, Site
    from obspy.core.inventory.response import Response
    net = Network(code="XX", stations=[])
    for _, s in sta.iterrows():
        x = Station(code=s["Name"], latitude=s["Latitude"], longitude=s["Longitude"], elevation=0.0, site=Site(name="x"), creation_date=UTCDateTime(2000, 1, 1))
        poles = [-0.037 + 0.037j, -0.037 - 0.037j, -200.0 + 0j]
        a0 = 1.0 / abs((2j * np.pi) ** 2 / np.prod([2j * np.pi - p for p in poles]))
        for c in "ZNE":
            r = Response.from_paz(zeros=[0j, 0j], poles=poles, stage_gain=1e4, stage_gain_frequency=1.0, input_units="M/S",
                                  output_units="COUNTS", normalization_frequency=1.0, normalization_factor=a0)
            x.channels.append(Channel(code="BH" + c, location_code="", latitude=s["Latitude"], longitude=s["Longitude"], elevation=0.0,
                                      depth=0.0, sample_rate=20.0, response=r, start_date=UTCDateTime(2000, 1, 1)))
        net.stations.append(x)
    return Inventory(networks=[net], source="x")


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)
