BUGS = {}

BUGS["c18-station-list"] = dict(
    property="C18",
    needs="event summaries of used stations only, with an event some station has no data for before one it has",
    breaks="plotting an event drops stations from the lookup table: later events lose their amplitudes",
    edits=[("quakemigrate/lut/lut.py", """        if station_list is not None:
            station_data = self.station_data[
                self.station_data["Name"].isin(station_list)
            ]
        else:
            station_data = self.station_data
        xy.scatter(""", """        station_data = self.station_data
        if station_list is not None:
            omit = station_data.index[~station_data["Name"].isin(station_list)]
            station_data.drop(omit, inplace=True)
        xy.scatter(""")],
    demo="""
d = scratch()
import matplotlib.pyplot as plt
S = stations(); L = lut(S)
names = list(L.station_data["Name"])
for want in (names[1:], names):
    fig = plt.figure(figsize=(20, 10))
    L.plot(fig, (9, 18), station_list=want)
    shown = {t.get_text() for a in fig.axes for t in a.texts}
    check(set(want) <= shown, f"stations shown: {shown}")
    plt.close(fig)
""")

BUGS["c18-plot-exists"] = dict(
    property="C18",
    needs="a locate killed while a summary plot is written, or with other options before, then run again",
    breaks="the torn or outdated summary plot is kept",
    edits=[("quakemigrate/plot/event.py", """    file = (fpath / fstem).with_suffix(".pdf")
    plt.savefig(file, dpi=400)
""", """    file = (fpath / fstem).with_suffix(".pdf")
    if not file.is_file():
        plt.savefig(file, dpi=400)
""")],
    demo="""
d = scratch()
S = stations(); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (2, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60])
p = d + "/runs/run/locate/summaries/run_" + uid(t0 + 60) + "_EventSummary.pdf"
os.makedirs(os.path.dirname(p))
open(p, "wb").write(b"%PDF-1.4 torn")
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100, plot_event_summary=True)
check(open(p, "rb").read().rstrip().endswith(b"%%EOF"), "torn summary kept")
""")

BUGS["c18-availability-days"] = dict(
    property="C18",
    needs="a trigger over several days",
    breaks="the summary plots of later days show the station availability of the first",
    edits=[("quakemigrate/plot/trigger.py", """    try:
        availability = read_availability(run, starttime, endtime)
        _plot_station_availability""", """    try:
        if run not in AVAILABILITY:
            AVAILABILITY[run] = read_availability(run, starttime, endtime)
        availability = AVAILABILITY[run]
        _plot_station_availability"""),
           ("quakemigrate/plot/trigger.py", """import quakemigrate.util as util


@util.timeit("info")
def trigger_summary(""", """import quakemigrate.util as util


# Station availability of a run, read from file only once
AVAILABILITY = {}


@util.timeit("info")
def trigger_summary(""")],
    demo="""
d = scratch()
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED
from matplotlib.figure import Figure
S = stations(); L = lut(S); t0 = UTCDateTime(DAY)
s = ScanmSEED(Run(d, "run", stage="detect"), True, 1)
for k in range(2):
    n = 86400
    s.append(t0 + 86400 * k, np.full(n, 1.5), np.full(n, 1.5), np.tile(np.array([[10.0, 45.0, 2.0]]), (n, 1)), 1000.0)
os.makedirs(d + "/run/detect/availability")
for k in range(2):
    t = t0 + 86400 * k
    cols = {f"{x}_{p}": [1 if k == 0 else 0] for x in S["Name"] for p in "PS"}
    pd.DataFrame(cols, index=[str(t)]).to_csv(d + f"/run/detect/availability/{t.year}_{t.julday:03d}_StationAvailability.csv")
seen = []
real = Figure.savefig
def savefig(fig, *a, **k):
    seen.append([list(map(float, ln.get_ydata())) for ln in fig.axes[2].lines])
Figure.savefig = savefig
trigger(L, d, t0, t0 + 2 * 86400 - 100, plot_trigger_summary=True)
print(seen)
check(len(seen) == 2 and seen[0] == [[5.0, 5.0]] and seen[1] == [[0.0, 0.0]], seen)
""")

BUGS["c18-gather-order"] = dict(
    property="C18",
    needs="stations that are not in alphabetical order",
    breaks="the event summary shows arrivals in the rows of other stations",
    edits=[("quakemigrate/plot/event.py", """    ax.yaxis.set_ticklabels(stations, fontsize=14)
""", """    ax.yaxis.set_ticklabels(sorted(stations), fontsize=14)
""")],
    demo="""
d = scratch()
from matplotlib.figure import Figure
S = stations().iloc[::-1].reset_index(drop=True); L = lut(S); t0 = UTCDateTime(DAY) + 3600
archive(d + "/arc", waves(S, L, t0, 120, events=[(60.0, (1, 2, 1))]))
write_triggers(d + "/runs", [t0 + 60])
seen = []
def savefig(fig, *a, **k):
    ax = fig.axes[0]
    seen.append((dict(zip([t.get_text() for t in ax.get_yticklabels()], ax.get_yticks())), np.array(ax.collections[0].get_offsets())))
Figure.savefig = savefig
locate(arc(d + "/arc", S), L, d + "/runs", t0, t0 + 100, plot_event_summary=True, plot_all_stns=True)
(rows, pts), = seen
p = pd.read_csv(glob.glob(d + "/runs/run/locate/picks/*.picks")[0])
for _, r in p[p["Phase"] == "P"].iterrows():
    x = UTCDateTime(r["ModelledTime"])._ns / 86400e9
    k = np.argmin(np.abs(pts[:, 0] - x))
    check(abs(pts[k, 1] - rows[r["Station"]]) < 1e-6, f"arrival of {r['Station']} not in its row: {rows} {pts}")
""")
