BUGS = {}
LOC = '''
d = scratch()
S = stations(); L = lut(S)
T0 = UTCDateTime(DAY)
'''

BUGS["c10-response-epoch"] = dict(
    property="C10",
    needs="two events located in one job, the gain of a channel changing between them",
    breaks="the response found for the first event is used for the later ones",
    edits=[("quakemigrate/io/data.py", """                response = self.response_inv.get_response(tr.id, tr.stats.starttime)
""", """                known = self.response_inv.__dict__.setdefault("_known", {})
                if tr.id not in known:
                    known[tr.id] = self.response_inv.get_response(
                        tr.id, tr.stats.starttime
                    )
                response = known[tr.id]
""")],
    demo=LOC + '''
import copy
node = (2, 3, 1)
w = waves(S, L, T0 + 3500, 500, events=[(100.0, node), (300.0, node)])
inv = response(S)
for s in inv[0]:
    for c in list(s):
        n = copy.deepcopy(c)
        c.end_date = n.start_date = T0 + 3700
        from obspy.core.inventory.response import Response
        p = c.response.get_paz()
        n.response = Response.from_paz(zeros=[0j, 0j], poles=list(p.poles), stage_gain=5e4, stage_gain_frequency=1.0, input_units="M/S",
                                       output_units="COUNTS", normalization_frequency=1.0, normalization_factor=p.normalization_factor)
        s.channels.append(n)
A = arc(archive(d + "/a", w), S)
A.response_inv = inv
for r, ts in (("x", [3600, 3800]), ("y", [3800])):
    write_triggers(d + "/" + r, [T0 + t for t in ts])
    if r == "y":
        A.response_inv = copy.deepcopy(inv)
        A.response_inv.__dict__.pop("_known", None)
    locate(A, L, d + "/" + r, T0 + 3550, T0 + 3850, write_real_waveforms=True, real_waveform_units="velocity")
f = sorted(glob.glob(d + "/y/run/locate/real_cut_waveforms/*.m"))
check(len(f) == 1, "nothing cut")
a, b = read(f[0]), read(f[0].replace("/y/", "/x/"))
for x in a:
    y = b.select(id=x.id)[0]
    check(len(x) == len(y) and abs(x.data - y.data).max() <= 1e-6 * abs(x.data).max(), f"{x.id} depends on the events located before: {abs(x.data).max()}, {abs(y.data).max()}")
''')

BUGS["c18-left-out"] = dict(
    property="C18",
    needs="a trigger region that leaves out an event before one it keeps",
    breaks="the trigger summary shows the wrong events as left out",
    edits=[("quakemigrate/signal/trigger.py", """            ].copy()

        return events
""", """            ].copy()

        return events.reset_index(drop=True)
""")],
    demo=LOC + '''
import matplotlib.figure as F
import matplotlib.dates as md
w = waves(S, L, T0 + 3500, 400, events=[(130.0, (1, 1, 1)), (200.0, (3, 4, 1)), (270.0, (1, 1, 1))])
A = arc(archive(d + "/a", w), S)
detect(A, L, d + "/runs", T0 + 3550, T0 + 3850)
shown = []
real = F.Figure.savefig
def savefig(fig, f, *a, **k):
    shown.append([float(md.date2num(ln.get_xdata(orig=True)[0])) for ax in fig.axes[:2] for ln in ax.lines
                  if len(ln.get_xdata()) == 2 and ln.get_xdata(orig=True)[0] == ln.get_xdata(orig=True)[1] and not isinstance(ln.get_xdata(orig=True)[0], (int, float))])
F.Figure.savefig = savefig
trigger(L, d + "/runs", T0 + 3600, T0 + 3830)
e = events(d + "/runs")
e = e if isinstance(e, pd.DataFrame) else pd.concat(list(e.values()) if isinstance(e, dict) else list(e))
check(len(e) >= 3, f"triggered {len(e)}")
t = [UTCDateTime(x) for x in e["CoaTime"]]
x = e["COA_X"].astype(float)
trigger(L, d + "/runs", T0 + 3600, T0 + 3830, region=[float(x.mean()), 40.0, -100.0, 12.0, 50.0, 100.0], plot_trigger_summary=True)
check(len(shown) == 1, "no plot")
for q in t:
    check(any(abs(v - md.date2num(q.datetime)) * 86400 < 0.01 for v in shown[0]), f"event at {q} is not shown")
''')
