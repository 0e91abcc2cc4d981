BUGS = {}
LOC = '''
d = scratch()
S = stations(); L = lut(S)
T0 = UTCDateTime(DAY)
'''

BUGS["c10-filter-gain"] = dict(
    property="C10",
    needs="magnitudes with a filter, P and S amplitudes of one channel at different frequencies",
    breaks="the S amplitude is corrected for the gain of the filter at the P frequency",
    edits=[("quakemigrate/signal/local_mag/amplitude.py", """            filter_gain = None
            if self.bandpass_filter or self.highpass_filter:
                _, filter_gain = sosfreqz(
                    filter_sos, worN=[approx_freq], fs=tr.stats.sampling_rate
                )
                filter_gain = np.abs(filter_gain[0])
""", """            filter_gain = None
            if self.bandpass_filter or self.highpass_filter:
                if gain_freq is None:
                    gain_freq = approx_freq
                _, filter_gain = sosfreqz(
                    filter_sos, worN=[gain_freq], fs=tr.stats.sampling_rate
                )
                filter_gain = np.abs(filter_gain[0])
"""), ("quakemigrate/signal/local_mag/amplitude.py", """        # Loop over windows, cut data and measure amplitude
""", """        gain_freq = None

        # Loop over windows, cut data and measure amplitude
""")],
    demo=LOC + '''
from scipy.signal import butter, sosfreqz
from quakemigrate.signal.local_mag import LocalMag
node = (2, 3, 1)
A = arc(archive(d + "/a", waves(S, L, T0 + 3500, 300, events=[(100.0, node)])), S, response_inv=response(S))
A.response_inv = response(S)
write_triggers(d + "/runs", [T0 + 3600])
m = LocalMag({"signal_window": 2.0, "noise_window": 5.0, "bandpass_filter": True, "bandpass_lowcut": 1.0, "bandpass_highcut": 6.0, "filter_corners": 2},
             {"A0": "Hutton-Boore", "amp_feature": "S_amp"}, plot_amplitudes=False)
locate(A, L, d + "/runs", T0 + 3550, T0 + 3650, mags=m)
f = glob.glob(d + "/runs/run/locate/amplitudes/*.amps")
check(f, "no amplitudes")
r = pd.read_csv(f[0])
sos = butter(2, [1.0, 6.0], "bandpass", fs=20, output="sos")
n = 0
for _, x in r.iterrows():
    for ph in "PS":
        if x[ph + "_amp"] == x[ph + "_amp"] and x[ph + "_freq"] == x[ph + "_freq"]:
            g = abs(sosfreqz(sos, worN=[x[ph + "_freq"]], fs=20)[1][0])
            n += 1
            check(abs(g - x[ph + "_filter_gain"]) < 0.02, f"gain of {x['id']} {ph} is {x[ph + '_filter_gain']}, should be {g}")
check(n > 4, "nothing measured")
''')

BUGS["c01-faulty-channel"] = dict(
    property="C01",
    needs="one usable and one channel with several gaps for a phase that needs only one, over a whole time step",
    breaks="pieces of the channel with gaps stay in and the scan stops",
    edits=[("quakemigrate/signal/onsets/stalta.py", """                        [waveforms.remove(tr) for tr in to_remove]
""", """                        if to_remove:
                            waveforms.remove(to_remove[0])
""")],
    demo=LOC + '''
st = waves(S, L, T0 + 3500, 200)
out = []
for tr in st:
    if tr.id == "XX.AB2..BHN":
        g = Stream([tr.slice(T0 + 3500, T0 + 3604), tr.slice(T0 + 3605, T0 + 3700)])
        os.makedirs(d + "/a/2021/064", exist_ok=True)
        g.write(d + "/a/2021/064/AB2_BHN.m", format="MSEED")
    else:
        out.append(tr)
A = arc(archive(d + "/a", out), S)
detect(A, L, d + "/runs", T0 + 3600, T0 + 3620, on=onset(channel_counts={"P": 1, "S": 1}))
n = len(scan(d + "/runs").select(station="COA")[0])
check(n in (400, 401), f"output is not complete: {n}")
''')

BUGS["c03-taper-length"] = dict(
    property="C03",
    needs="one onset object shared by two locate runs with different marginal windows",
    breaks="the second run's picks use the taper length of the first",
    edits=[("quakemigrate/signal/onsets/stalta.py", """        pre_pad, _ = self.pad(timespan)
        # Taper pre- and post-pad are identical - just calculate one
        taper_pad = util.time2sample(pre_pad - self.pre_pad, self.sampling_rate)
""", """        # Taper pre- and post-pad are identical - just calculate one, once
        if not hasattr(self, "_taper_pad"):
            pre_pad, _ = self.pad(timespan)
            self._taper_pad = util.time2sample(
                pre_pad - self.pre_pad, self.sampling_rate
            )
        taper_pad = self._taper_pad
""")],
    demo=LOC + '''
node = (2, 3, 1)
A = arc(archive(d + "/a", waves(S, L, T0 + 3500, 300, events=[(100.0, node), (93.0, node), (107.0, node)])), S)
for r in ("x", "y"):
    write_triggers(d + "/" + r, [T0 + 3600])
on = onset()
locate(A, L, d + "/x", T0 + 3550, T0 + 3650, on=on, marginal_window=1.0)
write_triggers(d + "/z", [T0 + 3600])
locate(A, L, d + "/z", T0 + 3550, T0 + 3650, on=on, marginal_window=20.0)
write_triggers(d + "/w", [T0 + 3600])
locate(A, L, d + "/w", T0 + 3550, T0 + 3650, on=onset(), marginal_window=20.0)
x, y = ({k: v for k, v in tree(d + "/" + r + "/run/locate").items() if k.endswith((".event", ".picks"))} for r in ("z", "w"))
check(len(y) >= 2, "nothing located")
check(x == y, "results depend on the job run before")
''')

BUGS["c07-merge-second"] = dict(
    property="C07",
    needs="a short peak shortly before an event above threshold for long, within its lead-in but not the other way round",
    breaks="two events are reported that cannot be separated",
    edits=[("quakemigrate/signal/trigger.py", """            if all(
                [
                    event1["MaxTime"] < event2["CoaTime"] - self.marginal_window,
                    event2["MinTime"] > event1["CoaTime"] + self.marginal_window,
                ]
            ):
""", """            if event1["MaxTime"] < event2["CoaTime"] - self.marginal_window:
""")],
    demo='''
d = scratch()
S = stations(); L = lut(S)
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED
M = UTCDateTime(DAY)
t0 = M; n = 3600 * 20
coa = np.full(n, 1.0); k = 1800 * 20
coa[k] = 6.0                      # short
coa[k + 30:k + 600] = 4.0         # long, its peak at the end
coa[k + 599] = 8.0
s = ScanmSEED(Run(d + "/runs", "run", stage="detect"), False, 20)
xyz = np.tile(np.array([[10.0, 45.0, 2.0]]), (n, 1))
for i in range(0, n, 7200):
    s.append(t0 + i / 20, coa[i:i + 7200].copy(), coa[i:i + 7200].copy(), xyz[i:i + 7200], L.unit_conversion_factor)
s.write()
trigger(L, d + "/runs", M + 600, M + 3000)
ev = [t for f in events(d + "/runs").values() for t in f["CoaTime"]]
check(len(ev) == 1 and abs(UTCDateTime(ev[0]) - (M + (k + 599) / 20)) < 1e-6, f"expected one merged event, got {ev}")
''')

BUGS["c12-partition"] = dict(
    property="C12",
    needs="a number of threads that does not divide the number of grid nodes",
    breaks="the last thread writes past the end of the coalescence map",
    edits=[("quakemigrate/core/src/migratelib.c", """  #pragma omp parallel\\
  for private(station, stack, sample, traveltimes, traveltime) num_threads(threads)
  for (node = 0; node < n_nodes; ++node) {
    stack =""", """  int64_t chunk, first, team, block;

  /* Nodes next to one another to the same thread */
  team = MAX(1, MIN(threads, n_nodes));
  chunk = (n_nodes + team - 1) / team;
  #pragma omp parallel\\
  for private(node, station, stack, sample, traveltimes, traveltime, first) num_threads(threads)
  for (block = 0; block < team; ++block) {
   first = block * chunk;
   for (node = first; node < first + chunk; ++node) {
    stack ="""), ("quakemigrate/core/src/migratelib.c", """      stack[sample] = exp(stack[sample] / available);
    }
  }
""", """      stack[sample] = exp(stack[sample] / available);
    }
   }
  }
""")],
    demo='''
import ctypes
lib = ctypes.CDLL(glob.glob("quakemigrate/core/src/qmlib*.so")[0])
nn, ns, nt, fs, ls = 10, 5, 2, 3, 4
on = np.random.default_rng(1).uniform(0, 1, (nt, fs + ns + ls))
tt = np.zeros((nn + 8, nt), np.int32); tt[:] = np.arange(nn + 8)[:, None] % 4
buf = np.zeros((nn + 8, ns))
P_ = lambda a: a.ctypes.data_as(ctypes.c_void_p)
i32, i64 = ctypes.c_int32, ctypes.c_int64
lib.migrate(P_(on), P_(tt), P_(buf), i32(fs), i32(ls), i32(ns), i32(nt), i32(nt), i64(nn), i64(4))
want = np.array([[np.exp(sum(on[j, tt[i, j] + fs + k] for j in range(nt)) / nt) for k in range(ns)] for i in range(nn)])
check(np.allclose(buf[:nn], want), "wrong coalescence")
check((buf[nn:] == 0).all(), "wrote past the end of the map")
''')

BUGS["c09-pick-threshold"] = dict(
    property="C09",
    needs="several events located in one job, with different noise levels in their onsets",
    breaks="the picks of later events use the threshold found for the first",
    edits=[("quakemigrate/signal/pickers/gaussian.py", """                pick_threshold = self._find_pick_threshold(
                    onset, pick_windows[station], self.threshold_method
                )
""", """                if not hasattr(self, "_thresholds"):
                    self._thresholds = {}
                if (station, phase) not in self._thresholds:
                    self._thresholds[station, phase] = self._find_pick_threshold(
                        onset, pick_windows[station], self.threshold_method
                    )
                pick_threshold = self._thresholds[station, phase]
""")],
    demo=LOC + '''
node = (2, 3, 1)
A = arc(archive(d + "/a", waves(S, L, T0 + 3500, 500, events=[(100.0, node), (94.0, node), (105.5, node), (300.0, (3, 2, 2))])), S)
write_triggers(d + "/x", [T0 + 3600, T0 + 3800])
write_triggers(d + "/y", [T0 + 3800])
for r in "xy":
    locate(A, L, d + "/" + r, T0 + 3550, T0 + 3850)
x, y = (tree(d + "/" + r + "/run/locate") for r in ("x", "y"))
ks = [k for k in y if k.endswith(".picks")]
check(len(ks) == 1, "nothing located")
check(x[ks[0]] == y[ks[0]], "picks depend on the events located before")
''')
