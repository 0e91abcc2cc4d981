BUGS = {}

BUGS["c05-located-already"] = dict(
    property="C05",
    needs="locate stopped between writing an event file and its cut waveforms, then run again",
    breaks="the re-run takes the event for done, and its cut waveforms are never written",
    edits=[("quakemigrate/signal/scan.py", """            event = Event(self.marginal_window, triggered_event)
""", """            event = Event(self.marginal_window, triggered_event)
            done = self.run.path / "locate" / self.run.subname / "events"
            if (done / f"{event.uid}.event").is_file():
                logging.info(f"\\tEvent {event.uid} has been located already.")
                continue
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60])
import quakemigrate.signal.scan as m
real = m.write_cut_waveforms
def stop(*a, **k):
    raise KeyboardInterrupt
m.write_cut_waveforms = stop
try:
    locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100, write_cut_waveforms=True)
except KeyboardInterrupt:
    pass
m.write_cut_waveforms = real
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100, write_cut_waveforms=True)
check(len(glob.glob(d + "/runs/run/locate/raw_cut_waveforms/*.m")) == 1, "no cut waveforms after the second run")
""")

BUGS["c06-availability-optional"] = dict(
    property="C06",
    needs="a disk error while a day's station availability file is written",
    breaks="detect reports success although an availability file was not written",
    edits=[("quakemigrate/signal/scan.py", """        write_availability(self.run, availability)
""", """        try:
            write_availability(self.run, availability)
        except OSError as e:
            logging.warning(f"Could not write the station availability: {e}")
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 100))
os.makedirs(d + "/runs/run/detect/availability/2021_064_StationAvailability.csv")
try:
    detect(arc(d + "/arc", S), L, d + "/runs", t0 + 30, t0 + 60)
    ok = False
except OSError:
    ok = True
check(ok, "detect reported success although the availability file could not be written")
""")

BUGS["c02-traveltime-cache"] = dict(
    property="C02",
    needs="two time steps with equally many, but different, healthy stations",
    breaks="the travel times of the stations of an earlier step are used for the stations of a later one",
    edits=[("quakemigrate/lut/lut.py", """            traveltimes = np.stack(traveltimes, axis=-1)
        return np.rint(traveltimes * sampling_rate).astype(np.int32)
""", """            # Stacking these for every time step is slow
            n = len(traveltimes)
            cached = self.__dict__.setdefault("_stacked", {})
            if (n, sampling_rate) in cached:
                return cached[n, sampling_rate]
            traveltimes = np.stack(traveltimes, axis=-1)
            out = np.rint(traveltimes * sampling_rate).astype(np.int32)
            cached[n, sampling_rate] = out
            return out
        return np.rint(traveltimes * sampling_rate).astype(np.int32)
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
W = waves(S, L, t0, 140, events=[(85.0, (2, 2, 1))])
for tr in W:
    if tr.stats.station == "AA1":
        tr.trim(endtime=t0 + 62)
    if tr.stats.station == "AB2":
        tr.trim(starttime=t0 + 70)
archive(d + "/arc", W)
out = []
for a in (40, 80):
    detect(arc(d + "/arc", S), lut(S), d + "/runs", t0 + a, t0 + 100, f"r{a}")
    out.append({tr.stats.station: tr.slice(t0 + 80, t0 + 90).data for tr in scan(d + "/runs", f"r{a}")})
for c in out[0]:
    check(np.array_equal(out[0][c], out[1][c]), f"{c} of a time step depends on the steps before it")
""")

BUGS["c03-future"] = dict(
    property="C03",
    needs="a period (partly) later than the clock of the machine",
    breaks="detect stops at the present time by the wall clock",
    edits=[("quakemigrate/signal/scan.py", """            raise util.TimeSpanException
        # Shift endtime one""", """            raise util.TimeSpanException
        endtime = min(endtime, UTCDateTime())
        # Shift endtime one""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(2080, 3, 5, 1)
archive(d + "/arc", waves(S, L, t0, 100))
detect(arc(d + "/arc", S), L, d + "/runs", t0 + 30, t0 + 60)
st = scan(d + "/runs")
check(len(st) == 5 and all(tr.stats.npts == 600 for tr in st), f"{st}")
""")

BUGS["c09-response-break"] = dict(
    property="C09",
    needs="a station with no response for one of its channels",
    breaks="the other components of that station are left out of the amplitudes too",
    edits=[("quakemigrate/signal/local_mag/amplitude.py", """                    logging.warning(e)
                    amplitudes.loc[i * 3 + j] = amps
                    continue
""", """                    logging.warning(e)
                    amplitudes.loc[i * 3 + j] = amps
                    break
""")],
    demo="""
d = scratch()
from quakemigrate.signal.local_mag import LocalMag
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 200, events=[(100.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 100])
R = response(S)
R[0][1].channels = [c for c in R[0][1] if c.code != "BHE"]
mags = LocalMag(amp_params={"signal_window": 2.0, "noise_window": 2.0}, mag_params={"A0": "Hutton-Boore", "amp_feature": "S_amp"}, plot_amplitudes=False)
locate(arc(d + "/arc", S, response_inv=R), L, d + "/runs", t0, t0 + 150, mags=mags)
f = pd.read_csv(glob.glob(d + "/runs/run/locate/amplitudes/*.amps")[0])
got = f[f["id"].str.contains("AB2")]
check(len(got) == 3 and got["S_amp"].notna().sum() == 2, got.to_string())
""")

BUGS["c10-amplitude-view"] = dict(
    property="C10",
    needs="magnitudes and cut waveforms of a longer window asked for together",
    breaks="measuring amplitudes cuts the raw waveforms, so the cut waveforms written after it are too short",
    edits=[("quakemigrate/signal/local_mag/amplitude.py", """            st = event.data.raw_waveforms.select(station=station).copy()
""", """            st = event.data.raw_waveforms.select(station=station)
""")],
    demo="""
d = scratch()
from quakemigrate.signal.local_mag import LocalMag
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 260, events=[(130.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 130])
out = []
for k in (0, 1):
    kw = {}
    if k:
        kw["mags"] = LocalMag(amp_params={"signal_window": 2.0, "noise_window": 2.0}, mag_params={"A0": "Hutton-Boore", "amp_feature": "S_amp"}, plot_amplitudes=False)
    for f in glob.glob(d + "/runs/run/locate/raw_cut_waveforms/*"):
        os.remove(f)
    locate(arc(d + "/arc", S, response_inv=response(S)), L, d + "/runs", t0, t0 + 200, write_cut_waveforms=True, pre_cut=60.0, post_cut=80.0, **kw)
    st = read(glob.glob(d + "/runs/run/locate/raw_cut_waveforms/*.m")[0])
    out.append([(tr.id, str(tr.stats.starttime), tr.stats.npts) for tr in st])
check(out[0] == out[1], f"{out[0][:2]} {out[1][:2]}")
""")

BUGS["c11-mkdir-race"] = dict(
    property="C11",
    needs="two jobs creating the scanmseed directory of one run at the same moment",
    breaks="the job which is second to create it fails",
    edits=[("quakemigrate/io/scanmseed.py", """        fpath.mkdir(exist_ok=True, parents=True)
""", """        if not fpath.is_dir():
            fpath.mkdir(parents=True)
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 100))
real = os.mkdir
def mkdir(p, *a, **k):
    # another job is there first
    if str(p).startswith(d + "/runs"):
        os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p) and real(p)
    return real(p, *a, **k)
os.mkdir = mkdir
try:
    detect(arc(d + "/arc", S), L, d + "/runs", t0 + 30, t0 + 60)
except FileExistsError as e:
    check(False, e)
check(len(scan(d + "/runs")) == 5, "nothing saved")
""")

BUGS["c12-tie-order"] = dict(
    property="C12",
    needs="several threads, and equal coalescence at several grid nodes",
    breaks="which of several equal nodes is reported depends on the order in which the threads finish",
    edits=[("quakemigrate/core/src/migratelib.c", """  #pragma omp parallel\\
  for private(node, current, idx, max, sum) num_threads(threads)
  for (sample = 0; sample < n_samples; ++sample) {
    max = map4d[sample];
    idx = 0;
    sum = map4d[sample];
    for (node = 1; node < n_nodes; ++node) {
      current = map4d[node * (int64_t) n_samples + (int64_t) sample];
      sum += current;
      if (current > max) {
        max = current;
        idx = node;
      }
    }
    max_coa[sample] = max;
    max_norm_coa[sample] = max * n_nodes / sum;
    max_coa_idx[sample] = idx;
  }
""", """  for (sample = 0; sample < n_samples; ++sample) {
    sum = 0.;
    for (node = 0; node < n_nodes; ++node) {
      sum += map4d[node * (int64_t) n_samples + (int64_t) sample];
    }
    max_norm_coa[sample] = n_nodes / sum;
    max_coa[sample] = -1.;
  }

  /* Search blocks of nodes, rather than samples: far fewer cache misses */
  #pragma omp parallel\\
  for private(sample, current, idx, max) schedule(static, 64) num_threads(threads)
  for (node = 0; node < n_nodes; ++node) {
    for (sample = 0; sample < n_samples; ++sample) {
      current = map4d[node * (int64_t) n_samples + (int64_t) sample];
      #pragma omp critical
      if (current > max_coa[sample]) {
        max_coa[sample] = current;
        max_coa_idx[sample] = node;
      }
    }
  }

  for (sample = 0; sample < n_samples; ++sample) {
    max_norm_coa[sample] *= max_coa[sample];
  }
""")],
    demo="""
from quakemigrate.core.lib import find_max_coa
m = np.ones((8, 8, 8, 2000))
m[0, :4] = 0.5
m *= 2.0
for k in range(20):
    a, b, i = find_max_coa(m, 4)
    check((a == 2.0).all() and (i == 32).all(), f"peak index {sorted(set(i))}")
""")

BUGS["c13-day-loop"] = dict(
    property="C13",
    needs="a read that crosses midnight and ends at an earlier time of day than it starts",
    breaks="the files of the second day are not read",
    edits=[("quakemigrate/io/data.py", "        loadstart = UTCDateTime(starttime.date)\n", "        loadstart = UTCDateTime(starttime)\n")],
    demo="""
d = scratch()
S = stations(); L = lut(S); M = UTCDateTime(DAY)
archive(d + "/arc", waves(S, L, M - 60, 120))
A = arc(d + "/arc", S)
for a, b in ((-10, 10), (-30, 20), (-5, 50), (1, 20)):
    st = A.read_waveform_data(M + a, M + b).waveforms
    check(len(st) == 15 and all(tr.stats.npts == (b - a) * 20 + 1 for tr in st), f"{a} {b} {st}")
""")

BUGS["c15-utc-start"] = dict(
    property="C15",
    needs="a trigger or locate sub-run with logging on",
    breaks="the log of a sub-run is written among the logs of the main run",
    edits=[("quakemigrate/io/core.py", """        logstem = self.path / self.stage / self.subname / "logs" / self.name
""", """        logstem = self.path / self.stage / "logs" / self.name
""")],
    demo="""
d = scratch()
from quakemigrate.io import Run
import logging
r = Run(d, "run", "sub", stage="trigger")
with quiet():
    r.logger(True)
    logging.info("hello")
fs = [f for f in tree(d) if f.startswith("run/trigger/sub/logs/run_sub_")]
check(len(fs) == 1, list(tree(d)))
""")

BUGS["c16-count-requested"] = dict(
    property="C16",
    needs="stations that are out of action while an event occurs",
    breaks="the coalescence is averaged over all stations asked for, so a few dead stations hide a clear event",
    edits=[("quakemigrate/signal/scan.py", """        avail = np.sum([value for _, value in onset_data.availability.items()])
""", """        avail = len(onset_data.availability)
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
W = waves(S, L, t0, 140, events=[(85.0, (2, 2, 1))])
for k in range(2):
    w = W.copy()
    if k:
        for s in ("AA1", "AB2"):
            for tr in w.select(station=s):
                w.remove(tr)
    archive(d + f"/arc{k}", w)
    detect(arc(d + f"/arc{k}", S), L, d + "/runs", t0 + 40, t0 + 100, f"r{k}")
    m = scan(d + "/runs", f"r{k}").select(station="COA")[0].data.max() / 1e5
    print(m)
    check(m > 2.5, f"peak coalescence {m}")
""")

BUGS["c17-unpicked"] = dict(
    property="C17",
    needs="an event for which no phase at all could be picked",
    breaks="picks at the epoch are exported for phases that were not picked",
    edits=[("quakemigrate/export/to_obspy.py", """            if method == "autopick" and str(pickline["PickTime"]) != "-1":
""", """            if method == "autopick" and pickline["PickTime"] != "-1":
""")],
    demo="""
d = scratch()
from quakemigrate.export.to_obspy import read_quakemigrate
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60])
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100)
f = glob.glob(d + "/runs/run/locate/picks/*.picks")[0]
for k in range(2):
    p = pd.read_csv(f)
    if k:
        p[["PickTime", "PickError", "SNR", "Residual"]] = -1
        p.to_csv(f, index=False)
    with quiet():
        ev = read_quakemigrate(d + "/runs/run", "km")[0]
    n = sum(x.method_id.id.endswith("autopick") for x in ev.picks)
    check(n == (p["PickTime"].astype(str) != "-1").sum(), f"{n} picks exported")
""")

BUGS["c08-read-days"] = dict(
    property="C08",
    needs="locating a period over midnight that ends at an earlier time of day than it starts",
    breaks="the triggered events of the last day are not located",
    edits=[("quakemigrate/io/triggered_events.py", "        readstart = UTCDateTime(starttime.date)\n", "        readstart = UTCDateTime(starttime)\n")],
    demo="""
d = scratch()
from quakemigrate.io import Run
from quakemigrate.io.triggered_events import read_triggered_events
M = UTCDateTime(DAY)
write_triggers(d, [M - 3600, M - 1, M, M + 20], "run")
r = Run(d, "run", stage="locate")
with quiet():
    a = list(read_triggered_events(r, starttime=M - 60, endtime=M + 30)["CoaTime"])
check(a == [M - 1, M, M + 20], a)
""")

BUGS["c04-buffer"] = dict(
    property="C04",
    needs="detect with continuous writing killed while a time step without data is being processed",
    breaks="steps without data are held back, so a kill loses steps that were completed",
    edits=[("quakemigrate/io/scanmseed.py", """        self.append(starttime, max_coa, max_coa_n, coord, ucf)

    def write""", """        continuous_write, self.continuous_write = self.continuous_write, False
        self.append(starttime, max_coa, max_coa_n, coord, ucf)
        self.continuous_write = continuous_write

    def write""")],
    demo="""
d = scratch()
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED
t0 = UTCDateTime(DAY) + 3600
s = ScanmSEED(Run(d, "run", stage="detect"), True, 20)
one = lambda: np.full(200, 1.5)
for i, kind in enumerate("dggdg"):
    if kind == "d":
        s.append(t0 + 10 * i, one(), one(), np.tile(np.array([[10.0, 45.0, 2.0]]), (200, 1)), 1000.0)
    else:
        s.empty(t0, 10.0, i, "no data", 1000.0)
    st = scan(d)
    check(len(st) == 5 and all(tr.stats.npts == 200 * (i + 1) for tr in st), f"after step {i}: {st}")
""")
