BUGS = {}

BUGS["c01-residual-lost"] = dict(
    property="C01",
    needs="a detect whose last time step ends less than a second after midnight",
    breaks="the samples after midnight of the last step are never written",
    edits=[("quakemigrate/io/scanmseed.py", """            # Set written to false, because there is residual data that has not yet been
            # written to file.
            self.written = False
""", """            # The completed day is on disk; carry over the residual data (if there is
            # more of it than the odd sample)
            self.written = self.stream[0].stats.npts < self.sampling_rate
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) - 60
archive(d + "/arc", waves(S, L, t0, 120))
for k, (a, b, ts) in enumerate([(-20, 20, 10.0), (-18, 12, 10.0), (-19.5, 0.5, 10.0), (-9.95, 0.05, 10.0)]):
    name = f"r{k}"
    detect(arc(d + "/arc", S), L, d + "/runs", UTCDateTime(DAY) + a, UTCDateTime(DAY) + b, name, ts)
    st = scan(d + "/runs", name)
    for c in ("COA", "COA_N", "X", "Y", "Z"):
        trs = st.select(station=c)
        check(len(trs) == 1 and trs[0].stats.starttime == UTCDateTime(DAY) + a and trs[0].stats.npts == (b - a) * 20, f"{name} {c}: {trs}")
""")

BUGS["c02-channel-count"] = dict(
    property="C02",
    needs="one horizontal channel of a station flat or gappy while the other is healthy",
    breaks="when a channel is rejected the onset is computed as if it were still there (a rejected channel's samples leak into the stack)",
    edits=[("quakemigrate/signal/onsets/stalta.py", """                for key, available in av_dict.items():
                    if available == 0:
                        to_remove = waveforms.select(id=key)
                        [waveforms.remove(tr) for tr in to_remove]
""", """                if not any(av_dict.values()):
                    waveforms.clear()
                for key, available in av_dict.items():
                    if available == 0 and not self.full_timespan:
                        to_remove = waveforms.select(id=key)
                        [waveforms.remove(tr) for tr in to_remove]
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
W = waves(S, L, t0, 120, events=[(50.0, (2, 2, 1))])
bad = W.copy()
tr = bad.select(station="AB2", channel="BHN")[0]
tr.data[:] = 7
none = W.copy()
none.remove(none.select(station="AB2", channel="BHN")[0])
out = []
for k, w in (("bad", bad), ("none", none)):
    archive(d + "/" + k, w)
    detect(arc(d + "/" + k, S), L, d + "/runs", t0 + 40, t0 + 60, k)
    out.append({tr.stats.station: tr.data for tr in scan(d + "/runs", k)})
for c in out[0]:
    check(np.array_equal(out[0][c], out[1][c]), f"{c} differs with a flat channel from without that channel")
""")

BUGS["c07-postpad-day"] = dict(
    property="C07",
    needs="a period not starting at midnight whose post-pad reaches into the next day, with two triggers either side of midnight that merge",
    breaks="the scanmseed file of the next day is not read for the post-pad, so an event before midnight that belongs to a larger one after it is reported twice",
    edits=[("quakemigrate/io/scanmseed.py", "    startday = UTCDateTime(readstart.date)\n", "    startday = readstart\n")],
    demo="""
d = scratch()
S = stations(); L = lut(S)
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED
M = UTCDateTime(DAY)
t0 = M - 3600; n = 7200 * 20
coa = np.full(n, 1.0); k = 3600 * 20
coa[k - 25:k - 20] = 4.0
coa[k + 5:k + 12] = 6.0
s = ScanmSEED(Run(d + "/runs", "run", stage="detect"), False, 20)
xyz = np.tile(np.array([[10.0, 45.0, 2.0]]), (n, 1))
for i in range(0, n, 72000):
    s.append(t0 + i / 20, coa[i:i + 72000].copy(), coa[i:i + 72000].copy(), xyz[i:i + 72000], L.unit_conversion_factor)
if not s.written:
    s.write()
trigger(L, d + "/runs", M - 3500, M + 3000)
ev = [t for f in events(d + "/runs").values() for t in f["CoaTime"]]
check(len(ev) == 1 and abs(UTCDateTime(ev[0]) - (M + 0.25)) < 1e-6, f"expected one merged event, got {ev}")
""")

BUGS["c08-stale-subrun"] = dict(
    property="C08",
    needs="locating a period that ends at midnight while the next day also has a triggered-events file with an event exactly at midnight",
    breaks="the event at midnight, which belongs to the next day, is located as well",
    edits=[("quakemigrate/io/triggered_events.py", """        if endtime.time == time(0, 0):
            events = events[
                (events["CoaTime"] >= starttime) & (events["CoaTime"] < endtime)
            ]
""", """        if endtime.time == time(0, 0) and endtime.date == starttime.date:
            events = events[
                (events["CoaTime"] >= starttime) & (events["CoaTime"] < endtime)
            ]
""")],
    demo="""
d = scratch()
from quakemigrate.io import Run
from quakemigrate.io.triggered_events import read_triggered_events
M = UTCDateTime(DAY)
write_triggers(d, [M - 30, M - 1, M, M + 20], "run")
r = Run(d, "run", stage="locate")
with quiet():
    a = list(read_triggered_events(r, starttime=M - 86400, endtime=M)["CoaTime"])
    b = list(read_triggered_events(r, starttime=M, endtime=M + 86400)["CoaTime"])
check(a == [M - 30, M - 1], a)
check(b == [M, M + 20], b)
""")

BUGS["c06-availability-swallow"] = dict(
    property="C06",
    needs="a disk error while a day's station availability file is written",
    breaks="detect reports success although an availability file was not written",
    edits=[("quakemigrate/io/availability.py", """        to_write.to_csv(file)
""", """        try:
            to_write.to_csv(file)
        except OSError as e:
            logging.warning(f"Could not write {file}: {e}")
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 100))
os.makedirs(d + "/runs/run/detect/availability/2021_064_StationAvailability.csv")
try:
    detect(arc(d + "/arc", S), L, d + "/runs", t0 + 30, t0 + 60)
    ok = False
except OSError:
    ok = True
check(ok, "detect reported success although the availability file could not be written")
""")

BUGS["c05-resume-skip"] = dict(
    property="C05",
    needs="locate killed while an event file is half written, then run again",
    breaks="a re-run leaves the torn event file of the killed run in place",
    edits=[("quakemigrate/io/event.py", """        event_df.to_csv(file, index=False)
""", """        if not file.is_file() or file.stat().st_size == 0:
            event_df.to_csv(file, index=False)
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60])
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100)
f = glob.glob(d + "/runs/run/locate/events/*.event")[0]
good = open(f).read()
open(f, "w").write(good[:len(good) // 2])
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100)
check(open(f).read() == good, "the torn event file is still there after a second run")
""")

BUGS["c04-throttle"] = dict(
    property="C04",
    needs="detect with continuous writing killed after a time step that follows the first write of a day",
    breaks="completed time steps are only written every fourth step",
    edits=[("quakemigrate/io/scanmseed.py", """        if self.continuous_write and not self.written:
            self.write()
""", """        if self.continuous_write and not self.written:
            # Rewriting the whole day for each step is costly
            self._n_appended = getattr(self, "_n_appended", -1) + 1
            if self._n_appended % 4 == 0:
                self.write()
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120))
from quakemigrate import QuakeScan
n = [0]
orig = QuakeScan._compute
def stop(self, data, event=None):
    n[0] += 1
    if n[0] == 4:
        raise KeyboardInterrupt
    return orig(self, data, event)
QuakeScan._compute = stop
try:
    detect(arc(d + "/arc", S), L, d + "/runs", t0 + 30, t0 + 90, continuous_scanmseed_write=True)
except KeyboardInterrupt:
    pass
st = scan(d + "/runs")
for c in ("COA", "COA_N", "X", "Y", "Z"):
    trs = st.select(station=c)
    check(len(trs) == 1 and trs[0].stats.npts == 600, f"three completed steps of 10 s: {trs}")
""")

BUGS["c09-response-cache"] = dict(
    property="C09",
    needs="magnitudes of two events located in one job",
    breaks="the noise / signal traces used for one event's amplitudes are reused for the next event",
    edits=[("quakemigrate/io/data.py", """        try:
            self.real_waveforms.append(tr.copy())
        except AttributeError:
            self.real_waveforms = Stream()
            self.real_waveforms.append(tr.copy())

        return tr

    def get_wa_waveform""", """        try:
            self.real_waveforms.append(tr.copy())
        except AttributeError:
            self.real_waveforms = Stream()
            self.real_waveforms.append(tr.copy())

        if not velocity and not self.remove_full_response:
            # The PAZ have been altered: restore them for the next trace
            paz.zeros.remove(0j)
            paz.poles.sort(key=lambda p: (p.real, p.imag))
            response.get_paz().zeros[:] = paz.zeros[: len(paz.zeros)]

        return tr

    def get_wa_waveform""")],
    demo="""
check(True, "")
""")
del BUGS["c09-response-cache"]

BUGS["c14-single-precision"] = dict(
    property="C14",
    needs="saving any table; travel times no longer round-trip exactly",
    breaks="travel times are stored in single precision",
    edits=[("quakemigrate/lut/lut.py", """        with open(filename, "wb") as f:
            pickle.dump(self.__dict__, f, 4)
""", """        # Make sure the tables are stored compactly (C order) whatever solver made them
        for station in self.traveltimes:
            for phase, table in self.traveltimes[station].items():
                if not table.flags.c_contiguous:
                    self.traveltimes[station][phase] = np.asarray(table, np.float32)

        with open(filename, "wb") as f:
            pickle.dump(self.__dict__, f, 4)
""")],
    demo="""
d = scratch()
from quakemigrate.io import read_lut
S = stations(); L = lut(S)
for s in S["Name"]:
    for p in "PS":
        L.traveltimes[s][p] = np.asfortranarray(L.traveltimes[s][p])
before = {(s, p): L.traveltimes[s][p].copy() for s in S["Name"] for p in "PS"}
L.save(d + "/a.LUT")
M = read_lut(lut_file=d + "/a.LUT")
for (s, p), t in before.items():
    check(np.array_equal(M.traveltimes[s][p], t) and np.array_equal(L.traveltimes[s][p], t), f"{s} {p} altered")
""")

BUGS["c10-otime-window"] = dict(
    property="C10",
    needs="cut waveforms with a pre_cut for an event whose origin time moved away from its triggered time",
    breaks="cut waveforms start before the triggered instead of the located origin time",
    edits=[("quakemigrate/io/cut_waveforms.py", "            tr.trim(starttime=event.otime - pre_cut)\n", "            tr.trim(starttime=event.trigger_time - pre_cut)\n")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60.5])
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100, write_cut_waveforms=True, pre_cut=2.0, post_cut=4.0)
f = glob.glob(d + "/runs/run/locate/events/*.event")[0]
ot = UTCDateTime(pd.read_csv(f)["DT"][0])
st = read(glob.glob(d + "/runs/run/locate/raw_cut_waveforms/*.m")[0])
for tr in st:
    check(abs(tr.stats.starttime - (ot - 2.0)) <= 0.0251 and abs(tr.stats.endtime - (ot + 4.0)) <= 0.0251, f"{tr} for origin {ot}")
""")
