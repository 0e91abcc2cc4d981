"""Small synthetic worlds: stations, lookup table, sources, waveforms, archive files."""
import numpy as np
import os
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from pyproj import Proj


LON0, LAT0 = 10.0, 45.0
COS0 = float(np.cos(np.radians(LAT0)))


NAMES = ["AA1", "AB", "ACC2", "AD03", "B7", "BQ", "CEN"]
ODD_NAMES = ["001", "010", "7", "1E5", "NA", "20", "0453"]     # as valid as the others


def make_stations(n, rng, span=12.0, unit="km", names=None):
    """n stations around (0, 0), names of differing lengths, in a random order."""
    names = names or NAMES
    ang = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 0.5)
    rad = rng.uniform(0.55, 0.95, n) * span / 2
    lon = LON0 + rad * np.cos(ang) / (111.32 * COS0)
    lat = LAT0 + rad * np.sin(ang) / 111.1
    elev = rng.uniform(0.0, 0.3, n)
    if unit == "m":
        elev = elev * 1000.0
    names = [names[i] for i in rng.permutation(len(names))[:n]]
    st = pd.DataFrame({"Latitude": np.round(lat, 5), "Longitude": np.round(lon, 5),
                       "Elevation": -np.round(elev, 3), "Name": names})
    how = rng.integers(0, 6)
    if how == 0:                       # rows of a larger table
        st.index += 2
    elif how == 1:                     # a table put into another order
        st.index = st.index[::-1]
    return st


def through_file(stations, path):
    """The stations as read from a station file."""
    from quakemigrate.io import read_stations
    with open(path, "w") as fh:
        fh.write("Latitude,Longitude,Elevation,Name\n")
        for _, s in stations.iterrows():
            fh.write(f"{s['Latitude']},{s['Longitude']},{-s['Elevation']},{s['Name']}\n")
    return read_stations(path)


def make_lut(w, stations):
    from quakemigrate.lut import compute_traveltimes
    import contextlib
    import io
    unit = w.get("unit", "km")
    hx, hy = w["span"] / 2 / (111.32 * COS0), w["span"] / 2 / 111.1
    f = 1000.0 if unit == "m" else 1.0
    gp = Proj(proj="lcc", units=unit, lon_0=LON0, lat_0=LAT0, lat_1=LAT0 - 0.2, lat_2=LAT0 + 0.2,
              datum="WGS84", ellps="WGS84", no_defs=True)
    cp = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    spec = dict(ll_corner=[LON0 - hx, LAT0 - hy, -1.0 * f], ur_corner=[LON0 + hx, LAT0 + hy, w["depth"] * f],
                node_spacing=[w["dx"] * f, w["dx"] * f, w["dz"] * f],
                grid_proj=gp, coord_proj=cp)
    with contextlib.redirect_stdout(io.StringIO()):
        lut = compute_traveltimes(spec, stations, method="homogeneous",
                                  phases=list(w.get("lut_phases", ["P", "S"])), fraction_tt=w.get("frac", 0.1),
                                  vp=w.get("vp", 5.0) * f, vs=w.get("vs", 3.0) * f)
    return lut


def arrival(sr, t_rel, npts, amp, freq, decay):
    t = np.arange(npts) / sr - t_rel
    y = np.where(t >= 0, amp * np.exp(-np.maximum(t, 0) / decay) * np.sin(2 * np.pi * freq * np.maximum(t, 0)), 0.0)
    return y


def make_waveforms(w, stations, lut, t0, npts, sr, events, seed, channels=("Z", "N", "E"), net="XX"):
    """dict {(station, comp): int32 array} of noise plus arrivals of `events`
    (dicts: t (s after t0), ijk (grid node), amp)."""
    out = {}
    for si, sta in enumerate(stations["Name"].values):
        for ci, c in enumerate(channels):
            r = np.random.default_rng([seed, si, ci])
            y = r.normal(0, 20.0, npts)
            for e in events:
                for ph, comps in (("P", "Z"), ("S", "NE")):
                    if c not in comps:
                        continue
                    if ph not in lut.traveltimes[sta]:
                        continue
                    tt = lut.traveltimes[sta][ph][tuple(e["ijk"])]
                    y = y + arrival(sr, e["t"] + tt, npts, e.get("amp", 2000.0), w.get("freq", 4.0), 0.6)
            out[(sta, c)] = np.round(y).astype(np.int32)
    return out


def trace(net, sta, chan, data, t0, sr, loc=""):
    return Trace(data=np.ascontiguousarray(data), header=dict(
        network=net, station=sta, channel=chan, location=loc, sampling_rate=sr, starttime=t0))


def archive_path(root, t, sta, chan, tag=""):
    t = UTCDateTime(t)
    return os.path.join(root, f"{t.year}", f"{t.julday:03d}", f"{sta}_{chan}{tag}.m")


def write_mseed(path, st, reclen=512):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    st = Stream(st) if not isinstance(st, Stream) else st
    st.write(path, format="MSEED", reclen=reclen)


def day_pieces(tr):
    """Split a trace at midnights."""
    t = UTCDateTime(tr.stats.starttime.date)
    out = []
    while t <= tr.stats.endtime:
        p = tr.slice(t, t + 86400 - 1e-6, nearest_sample=False)
        if p.stats.npts:
            out.append(p)
        t += 86400
    return out
