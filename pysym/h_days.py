"""P50: the statistics of days and windows (scripts/DataAnalysis/statistics.py)."""
import datetime, gzip, json, math, os, shutil, sqlite3, tempfile
import frames
from scripts.DataAnalysis import statistics as st

MB = 1024.0 ** 2
FILES = ["/store/data/R/P/AOD/v1/00/a.root", "/store/mc/R/P/AOD/v1/00/b.root", "/store/data/R/P/AOD/v1/01/c.root",
         "/store/mc/R2/P/AOD/v2/00/d.root", "/store/user/x/y/z/w/00/e.root"]


def scratch(f):
    def g(v):
        folder = tempfile.mkdtemp(prefix="days")
        try:
            st.pd = frames
            f(v, folder)
        finally:
            frames.FILES.clear()
            shutil.rmtree(folder, ignore_errors=True)
    return g


class Redis:
    """a redis that other processes fill as well: a set that one of them is at is added after some looks"""

    def __init__(self, *a, **k):
        self.d, self.looks = Redis.start(), 0

    def _b(self, x):
        return None if x is None else x if isinstance(x, bytes) else str(x).encode()

    def exists(self, k):
        return 1 if k in self.d else 0

    def get(self, k):
        return self._b(self.d.get(k))

    def set(self, k, x):
        self.d[k] = x

    def mset(self, m):
        self.d.update(m)

    def mget(self, keys, *more):
        keys = list(keys) if not isinstance(keys, str) else [keys]
        self.looks += 1
        if self.looks > 2:
            for k, x in Redis.others.items():
                if self.d.get(k) == "PENDING":
                    self.d.update(x)
                    self.d[k] = "ADDED"
        return [self._b(self.d.get(k)) for k in keys + list(more)]


def prefix(f):
    return "/".join(f.split("/")[:7])


@scratch
def day(v, folder):
    """every record of a day becomes one row"""
    v.shim(st)
    where = v.conf("sizes")
    names = FILES[:1] + FILES[4:] + FILES[1:v.conf("files")]     # one in no database
    sizes = {f: (None if v.choice("has no size", 2) == 1 else 1000 * (i + 1)) for i, f in enumerate(names) if f != FILES[4]} if where != "none" else {}
    if where != "none":
        for t in ("mc", "data"):
            con = sqlite3.connect(os.path.join(folder, t + "_file_sizes.db"))
            con.execute("CREATE TABLE file_sizes (f_logical_file_name TEXT, f_file_size REAL)")
            for f, z in sizes.items():
                if z is not None and f.startswith("/store/%s/" % t):
                    con.execute("INSERT INTO file_sizes VALUES (?, ?)", (f, z))
            con.commit()
            con.close()
    if where == "redis":
        sets = sorted({prefix(f) for f in names if f != FILES[4]})
        have = {s: v.choice("state", 3) for s in sets}       # 0: nobody, 1: another process is at it, 2: added
        inside = {s: {f: z for f, z in sizes.items() if z is not None and prefix(f) == s} for s in sets}

        def start():
            d = {}
            for s in sets:
                if have[s]:
                    d[s] = ["", "PENDING", "ADDED"][have[s]]
                if have[s] == 2:
                    d.update(inside[s])
            return d
        Redis.start, Redis.others = start, inside
        st.redis = type("redis", (), dict(Redis=Redis, StrictRedis=Redis, BlockingConnectionPool=lambda *a, **k: None, ConnectionPool=lambda *a, **k: None))
        if 1 in have.values():
            v.cover("another process")
    args = dict(none=(None, None), sqlite=(folder, None), redis=(folder, "localhost"))[where]
    s = st.Statistics(*args)
    n = v.conf("records")
    want = []
    date = (2018, 5, 1)
    top = -1
    for i in range(n):
        f = v.choice("file", min(len(names), top + 2)) if where != "none" else 0
        top = max(top, f)
        if where == "none" and v.choice("next day", 2) == 1:
            date = (2018, 5, date[2] + 1)
            v.cover("next day")
        cores = 1 + v.choice("cores", 3) if where == "none" else 1
        wc, cpu = (v.num("wc", 0, 1000), v.num("cpu", 0, 1000)) if where == "none" else (10.0, 4.0)
        code = ["0", "1", "", None, "8021"][v.choice("exit code", 5)] if where == "none" and i == 0 else "0"
        length = [0, 59, 60, 3599, 3600, 3601, 90000][v.choice("length", 7)] if where == "none" and i == n - 1 else 60
        begin = 1525132800000
        rec = dict(FileName=names[f], UserId=i % 2, SiteName="T%d" % i, TaskMonitorId="m%d" % i, TaskId=10 + i, JobId=20 + i, ProtocolUsed=["Local", "Remote"][i % 2],
                   JobExecExitCode=code, NCores=cores, WrapWC=wc, WrapCPU=cpu, StartedRunningTimeStamp=begin, FinishedTimeStamp=begin + length * 1000)
        s.add(date, rec)
        size = sizes.get(names[f])
        want.append(dict(day=datetime.datetime(*date).timestamp(), filename=names[f], protocol=rec["ProtocolUsed"], task_monitor_id="m%d" % i, task_id=10 + i, job_id=20 + i,
                         site_name="T%d" % i, job_success=code == "0", job_length_h=length // 3600, job_length_m=length // 60, user=i % 2,
                         cpu_time=cpu / cores, io_time=wc - cpu / cores, size=size))
        if i == n - 1 or v.choice("look", 2) == 1:
            if i < n - 1:
                v.cover("looked at in between")
            rows(v, s.data, want)
    if any(w["size"] is not None for w in want):
        v.cover("sizes")
    v.observe("rows", len(want))


def rows(v, df, want):
    v.check(df.shape[0] == len(want), "a row for every record")
    for i, w in enumerate(want):
        for k, x in w.items():
            got = df._cols[k][i]
            if k == "size":
                v.check(frames._isna(got) if x is None else got == x, "the size of the file where it is known")
            elif k in ("cpu_time", "io_time"):
                v.check(v.near(got, x), "the CPU and I/O time of a record")
            else:
                v.check(got == x, "the values of a record: " + k)


def periods(v):
    """the days of a period"""
    y, m, d = [(2018, 1, 1), (2018, 12, 30), (2020, 2, 27), (2019, 2, 27), (2018, 4, 29)][v.choice("start", 5)]
    n = v.choice("days", v.conf("days") + 1)
    a = datetime.date(y, m, d)
    want = [a + datetime.timedelta(days=i) for i in range(n)]
    v.check([tuple(x) for x in st.period("%d %d %d" % (y, m, d), n)] == [(x.year, x.month, x.day) for x in want], "the consecutive days of the period")
    if n > 3:
        v.cover("next month")
    v.observe("n", n)


def rounded(v):
    """sizes in whole MB below 1 GB and in thousands of MB from there"""
    v.shim(st)
    s = v.int("size", 0, 20 * 1024 ** 3)
    got = st.transform_sizes(s)
    g, m = s // 1024 ** 3, s // 1024 ** 2
    if s < 1024 ** 3:
        v.check(got == m, "whole MB")
        v.cover("MB")
    else:
        v.check(got == g * 1000, "whole GB")
        v.cover("GB")
    v.observe("got", got)


@scratch
def window(v, folder):
    """the statistics of a window of days"""
    v.shim(st)
    n, days = v.conf("requests"), 1 + v.choice("days", v.conf("days"))
    names = ["a", "b", "c"]
    kinds = [None, 300.5 * MB, 900 * MB, 1024 * MB, 2500 * MB]
    size, top = {}, dict(file=-1, job=-1, user=-1)

    def pick(what, k):
        x = v.choice(what, min(k, top[what] + 2))
        top[what] = max(top[what], x)
        return x

    reqs = []
    for i in range(n):
        f = names[pick("file", 3)]
        if f not in size:
            size[f] = kinds[v.choice("size", v.conf("sizes"))]
        job = pick("job", 2)
        reqs.append(dict(day=i * days // n, filename=f, protocol=["Local", "Remote"][v.choice("remote", 2)] if i < 2 else "Local", task_monitor_id="m", task_id=5 + job // 2 if v.conf("tasks") else 5 + job,
                         job_id=job, site_name="s%d" % (i % 2), job_success=True, job_length_h=0, job_length_m=0, user=pick("user", 2),
                         cpu_time=v.num("cpu", 0, 100), io_time=v.num("io", 0, 100), size=size[f] if size[f] is not None else frames.NAN))
    data = []
    for d in range(days):
        p = os.path.join(folder, "results_%d.%s.gz" % (d, "feather" if v.conf("feather") else "csv"))
        gzip.open(p, "wb").close()
        rows_ = [r for r in reqs if r["day"] == d]
        frames.FILES[p] = frames.DataFrame({k: [r[k] for r in rows_] for k in reqs[0]})
        data.append(p)
    got = st.make_dataframe_stats((data, 0, 0))
    fs = sorted({r["filename"] for r in reqs})
    count = {f: sum(1 for r in reqs if r["filename"] == f) for f in fs}
    least = min(count.values())
    more = [c for c in count.values() if c > least]
    gb = lambda l: sum(size[f] for f in l if size[f] is not None) / 1024.0 ** 3
    mean = lambda l: sum(l) / len(l) if l else None

    def per(a, b):
        return mean([len({r[b] for r in reqs if r[a] == k}) for k in sorted({r[a] for r in reqs})])

    want = dict(num_requests=n, num_files=len(fs), mean_num_req_x_file=mean(list(count.values())), mean_num_req_x_file_gmin=mean(more),
                size_all_files=gb(fs), size_file_1req=gb([f for f in fs if count[f] == least]), size_file_g1req=gb([f for f in fs if count[f] > least]),
                num_users=len({r["user"] for r in reqs}), num_sites=len({r["site_name"] for r in reqs}), num_tasks=len({r["task_id"] for r in reqs}),
                num_jobs=len({r["job_id"] for r in reqs}), all_cpu_time=sum(r["cpu_time"] for r in reqs), all_io_time=sum(r["io_time"] for r in reqs),
                mean_num_files_x_job=per("job_id", "filename"), mean_num_files_x_task=per("task_id", "filename"), mean_num_files_x_user=per("user", "filename"),
                mean_num_jobs_x_task=per("task_id", "job_id"), mean_num_jobs_x_user=per("user", "job_id"), mean_num_tasks_x_user=per("user", "task_id"))
    for p in ("Local", "Remote"):
        for k in ("cpu", "io"):
            want["%s_%s_time" % (p.lower(), k)] = sum((r[k + "_time"] for r in reqs if r["protocol"] == p), 0)
    for k, x in want.items():
        v.check(frames._isna(got[k]) if x is None else v.near(got[k], x), "window statistics: " + k)
    tally = lambda l: {x: l.count(x) for x in l}
    v.check(dict(got["num_req_x_file_frequencies"]) == tally(list(count.values())), "the files by number of requests")
    v.check(dict(got["protocols"]) == tally([r["protocol"] for r in reqs]), "the requests by protocol")
    known = [size[f] for f in fs if size[f] is not None]
    v.check(dict(got["desc_file_sizes"]) == tally([(x // MB if x < 1024 * MB else x // (1024 * MB) * 1000.0) for x in known]), "the files by size")
    v.check(sorted(got["sizes_x_min_num_requests"]) == list(range(1, 21)), "the limits of the number of requests")
    v.check(all(abs(got["sizes_x_min_num_requests"][k] - gb([f for f in fs if count[f] >= k])) < 1e-9 for k in range(1, 21)), "the size of the files requested at least so often")
    if more:
        v.cover("requested more often")
    if len(known) < len(fs):
        v.cover("without size")
    v.observe("files", len(fs))


@scratch
def extracted(v, folder):
    """the extraction of a day from the object store"""
    y, m, d = [(2018, 5, 1), (2018, 12, 31)][v.choice("date", 2)]
    recs = []
    for i in range(v.choice("records", v.conf("records") + 1)):
        recs.append(dict(FileName=FILES[v.choice("file", 2)], UserId=i, SiteName="T%d" % i, TaskMonitorId="m", TaskId=1, JobId=i, ProtocolUsed="Local", JobExecExitCode=str(v.choice("exit code", 2)),
                         NCores=1 + v.choice("cores", 2), WrapWC=10.0, WrapCPU=4.0, StartedRunningTimeStamp=1525132800000, FinishedTimeStamp=1525136400000))
    asked = []

    class Client:
        def fget_object(self, bucket, name, path):
            asked.append((bucket, name))
            with gzip.open(path, "wt") as f:
                for r in recs:
                    f.write(json.dumps(r) + "\n")

    st.create_minio_client = lambda config: (Client(), "bucket" if config == "server user secret bucket" else "?")
    got = st.make_stats((1, (y, m, d), folder, "server user secret bucket", None, None))
    v.check(tuple(got) == (y, m, d), "the day that was done")
    v.check(asked == [("bucket", "year%d_month%d_day%d.json.gz" % (y, m, d))], "the object of the day")
    out = "results_%d-%02d-%02d.feather.gz" % (y, m, d)
    v.check(sorted(os.listdir(folder)) == [out], "the results of the day and nothing else is left")
    df = frames.FILES[os.path.join(folder, out)]
    v.check(df.shape[0] == len(recs), "a row for every record")
    for i, r in enumerate(recs):
        row = [df._cols[k][i] for k in ("day", "filename", "user", "job_id", "job_success", "cpu_time", "io_time")]
        c = 4.0 / r["NCores"]
        v.check(row == [datetime.datetime(y, m, d).timestamp(), r["FileName"], i, i, r["JobExecExitCode"] == "0", c, 10.0 - c], "the rows of the records, in order")
    v.cover("records" if recs else "empty day")
    v.observe("n", len(recs))
