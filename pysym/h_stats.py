"""P45: the statistics of the requests that Probe plots."""
import warnings
warnings.simplefilter("ignore")
import sys, os, tempfile, shutil
import numpy as np
import frames
import probe.plotter.stats as pstats
import probe.analyzer.features as features

pstats.pd = frames
features.pd = frames
MB = 1024 ** 2


class Fig:
    """records what is drawn"""
    made = []

    def __init__(self, *a, **k):
        self.title, self.drawn, self.renderers = k.get("title"), [], []
        self.x_range = self
        Fig.made.append(self)

    def add_trace(self, t, **k):
        self.drawn.append(t)

    def multi_line(self, xs=None, ys=None, **k):
        self.drawn.append((xs, ys))

    def scatter(self, *a, **k):
        self.drawn.append(a)

    def vbar(self, **k):
        self.drawn.append(k)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return self

    def __setattr__(self, n, x):
        object.__setattr__(self, n, x)

    def __call__(self, *a, **k):
        return self


class Trace:
    def __init__(self, **k):
        self.__dict__.update(k)


class Go:
    Figure, Scatter, Violin = Fig, Trace, Trace


class Span:
    def __init__(self, location=None, **k):
        self.location, self.color = location, k.get("line_color")


def day_frame(v, n, day, sizes=True):
    rows = []
    for _ in range(n):
        rows.append([("a", "b", "c")[v.choice("file", v.conf("files"))], (v.int("size", 1, 8000) if sizes else 1) * 262144, "u%d" % v.choice("user", v.conf("users")),
                     "s%d" % v.choice("site", v.conf("sites")), ("data", "mc", "user")[v.choice("type", v.conf("types"))], v.choice("success", v.conf("outcomes")) == 0, day])
    return rows


COLS = ["Filename", "Size", "UserID", "SiteName", "DataType", "JobSuccess", "reqDay"]


def table(rows):
    f = frames.DataFrame(rows, columns=COLS)
    f["TaskID"], f["JobID"] = f["UserID"], f["SiteName"]
    return f


def limits(v):
    """the best that any cache can do in each day"""
    pstats.go = Go
    Fig.made = []
    d = v.choice("days", v.conf("days")) + 1
    days = []
    for i in range(d):
        days.append(day_frame(v, v.choice("requests", v.conf("requests")) + 1, 10 + i))
    v.assume(any(r[4] in ("data", "mc") and r[5] for rows in days for r in rows))
    pstats.plot_global_upper_limits((table(r) for r in days), output_type="show")
    got = {t.name if i != 4 else "Avg. Read on hit": t for i, t in enumerate(Fig.made[0].drawn)}
    kept = [[r for r in rows if r[4] in ("data", "mc") and r[5]] for rows in days]
    kept = [r for r in kept if r]
    v.check(got["Hit rate"].x == [r[-1][6] for r in kept], "a point per day with requests")
    hit, roh, size = [], [], []
    for rows in kept:
        files = {}
        for r in rows:
            files.setdefault(r[0], r[1])
        tot, first = sum(r[1] for r in rows), sum(files.values())
        hit.append((len(rows) - len(files)) * 100.0 / len(rows))
        roh.append((tot, first))
        size.append(first / 1024.0 ** 4)
    v.check(len(got["Hit rate"].y) == len(hit) and len(got["Read on hit"].y) == len(hit) and len(got["Size (TB)"].y) == len(hit), "a point per day with requests")
    for i in range(len(hit)):
        v.check(v.near(got["Hit rate"].y[i], hit[i]), "the highest hit rate of a day")
        v.check(v.near(got["Read on hit"].y[i] * roh[i][0], (roh[i][0] - roh[i][1]) * 100.0, 1e-3), "the most data that can be read on hit in a day")
        v.check(v.near(got["Size (TB)"].y[i], size[i]), "the size of all files of a day")
    n = len(hit)
    if n:
        v.check(all(v.near(y, sum(hit) / n) for y in got["Avg. Hit rate"].y) and len(got["Avg. Hit rate"].y) == n, "the mean of the highest hit rates")
        v.check(bool(v.all([v.near(y, sum(size) / n) for y in got["Avg. Size (TB)"].y])), "the mean of the sizes")
        v.check(bool(v.all([v.near(y * n, sum(got["Read on hit"].y), 1e-6) for y in got["Avg. Read on hit"].y])), "the mean of the reads on hit")
    if n < d:
        v.cover("day without requests")
    if any(hit):
        v.cover("hits")
    v.observe("days", n)


def weeks(v):
    """the numbers of every whole week"""
    calls = []
    pstats.make_week_bars = lambda title, weeks, categories, legends, stats: calls.append((weeks, categories, stats))
    nd = 7 * v.choice("weeks", 2) + 7 + v.choice("more days", 2) - v.choice("less days", 2)
    rows = []
    for i in range(nd):
        rows += day_frame(v, 1, 100 + i) if i % 7 < v.conf("free") else [["z", 1, "u0", "s0", "data", True, 100 + i]]
    pstats.plot_week_stats(table(rows), output_type="none")
    whole = nd // 7
    v.check(len(calls) == 3 and all(len(c[2]) == whole and len(c[0]) == whole for c in calls), "every whole week has its numbers")
    for w in range(whole):
        cur = rows[7 * w:7 * w + 7]
        s = calls[0][2][w]
        per = {}
        for r in cur:
            per[r[0]] = per.get(r[0], 0) + 1
        v.check(s["num_requests"] == 7 and s["num_files"] == len(per), "the requests and files of a week")
        v.check(s["num_users"] == len({r[2] for r in cur}) and s["num_tasks"] == s["num_users"], "the users and tasks of a week")
        v.check(s["num_sites"] == len({r[3] for r in cur}) and s["num_jobs"] == s["num_sites"], "the sites and jobs of a week")
        v.check(abs(s["num_reqXfile"] - 7.0 / len(per)) < 1e-9, "the mean number of requests of a file")
        more = [x for x in per.values() if x > 1]
        v.check(abs(s["num_reqXfile_reqGr1"] - sum(more) / len(more)) < 1e-9 if more else s["num_reqXfile_reqGr1"] != s["num_reqXfile_reqGr1"], "the mean number of requests of repeated files")
    v.cover("weeks")
    v.observe("whole", whole)


def daily(v):
    """the history of every file, in periods of the asked number of days"""
    v.shimint(pstats)
    pstats.figure, pstats.Span = Fig, Span
    Fig.made = []
    n = v.choice("requests", v.conf("requests")) + 1
    reset = v.choice("reset days", v.conf("resets") + 1)
    rows, day, nday = [], 100, 0
    for i in range(n):
        if i and v.choice("next day", 2):
            day += 1
        rows += day_frame(v, 1, day)
    pstats.plot_daily_stats(table(rows), output_type="none", reset_stat_days=reset)
    fig = {f.title: f for f in Fig.made}
    first = [i for i in range(n) if i == 0 or rows[i][6] != rows[i - 1][6]]
    ends = [first[k] for k in range(len(first)) if reset and k and k % reset == 0]
    marks = [s.location for s in fig["Num. Requests"].renderers if s.color == "purple"]
    v.check(marks == [e + 1 for e in ends], "statistics start again after the asked number of days")
    v.check([s.location for s in fig["Num. Requests"].renderers if s.color == "lightgray"] == [i + 1 for i in first] + [n + 1], "every day is marked")
    xs, reqs, users, sites, deltas, sizes, once = [], [], [], [], [], [], []
    for a, b in zip([0] + ends, ends + [n]):
        files = {}
        for i in range(a, b):
            files.setdefault(rows[i][0], []).append(i)
        for l in files.values():
            if len(l) == 1:
                once.append((l[0] + 1, rows[l[0]][1]))
                continue
            xs.append([i + 1 for i in l])
            reqs.append(list(range(1, len(l) + 1)))
            users.append([len({rows[i][2] for i in l[:k + 1]}) for k in range(len(l))])
            sites.append([len({rows[i][3] for i in l[:k + 1]}) for k in range(len(l))])
            deltas += [0] + [y - x for x, y in zip(l, l[1:])]
            sizes += [rows[i][1] for i in l]
    got = fig["Num. Requests"].drawn[0]
    v.check(got[0] == xs and got[1] == reqs, "the number of requests of a file after each request")
    v.check(fig["Num. Users"].drawn[0] == (xs, users), "the number of users of a file after each request")
    v.check(fig["Num. Sites"].drawn[0] == (xs, sites), "the number of sites of a file after each request")
    flat = [i for l in xs for i in l]
    v.check(fig["Delta times"].drawn[0] == (flat, deltas), "the time since the last request of a file")
    gx, gs = fig["File sizes"].drawn[0]
    v.check(gx == flat and len(gs) == len(sizes), "the sizes of repeated files")
    ox, os_ = fig["1 req. file sizes"].drawn[0]
    v.check(ox == [i for i, _ in once] and len(os_) == len(once), "the sizes of files of a single request")
    for g, s in list(zip(gs, sizes)) + list(zip(os_, [s for _, s in once])):
        v.check(v.all([g * MB <= s, s < (g + 1) * MB]), "sizes are in whole megabytes")
    if ends:
        v.cover("started again")
    if xs:
        v.cover("repeated")
    v.observe("n", [len(xs), len(once)])


def bins(v):
    """every value of a feature is in its class"""
    v.shimint(frames)
    features.go, features.px = Go, Px
    Fig.made, Px.bars = [], []
    d = tempfile.mkdtemp(prefix="verif-probe-")
    try:
        f = ("size", "numReq", "deltaLastRequest")[v.choice("feature", 3)]
        k = v.choice("days", v.conf("days")) + 1
        days = [day_frame(v, v.choice("requests", v.conf("requests")) + 1, 10 + i, f == "size") for i in range(k)]
        keep = [[r for r in rows if r[4] in ("data", "mc") and r[5]] for rows in days]
        v.assume(any(keep))
        concat = v.choice("concatenated", 2) == 1
        open_ = v.choice("open", 2) == 1
        keys = {"size": [250, 1000], "numReq": [1, 2], "deltaLastRequest": [1, 2]}[f]
        data = table([r for rows in days for r in rows]) if concat else [table(rows) for rows in days]
        x = features.Features({f: {"type": "float", "buckets": True, "keys": list(keys), "bucket_open_right": open_}, "other": {"type": "int"}}, data,
                              concatenated=concat, output_folder=os.path.join(d, "out"))
        x.check_all_features()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    values = []
    if f == "size":
        values = [r[1] for rows in keep for r in rows]
    else:
        for rows in keep:
            files = {}
            for i, r in enumerate(rows):
                files.setdefault(r[0], []).append(i)
            for l in files.values():
                if f == "numReq":
                    values.append(len(l))
                else:
                    values += [b - a for a, b in zip(l, l[1:])]
    edges = keys + ([keys[-1] * 2] if open_ else [])
    (names, perc), = Px.bars
    v.check(list(names) == [str(e) for e in edges[:-1]] + ["max"], "a bar per class")
    lo = None
    for i, e in enumerate(edges):
        def inside(y):
            if f == "size":
                return (lo is None or y >= (lo + 1) * MB) and (i == len(edges) - 1 or y < (e + 1) * MB)
            return (lo is None or y > lo) and (i == len(edges) - 1 or y <= e)
        m = sum(1 for y in values if inside(y))
        v.check(abs(perc[i] - (m * 100.0 / len(values) if values else 0.0)) < 1e-9, "a bar is the percentage of the values of its class")
        v.check(len(Fig.made[-1].drawn[i + 1].y) == m, "a violin is of the values of its class")
        lo = e
    v.cover(f)
    v.cover("concatenated" if concat else "by day")
    v.observe("n", [len(values)] + [round(float(p), 6) for p in perc])


class Px:
    bars = []

    @staticmethod
    def bar(x=None, y=None, **k):
        Px.bars.append((list(x), list(y)))
        return Fig()
