"""P37: the popularity pipeline; P38: what a resource reads and saves."""
import io, os, sys, glob, tempfile, shutil, hashlib
import fake_avro
sys.modules.setdefault("fastavro", fake_avro)
import DataManager.collector.dataset.stage as stage_mod
import DataManager.collector.dataset.resource as resource_mod
import DataManager.collector.dataset.utils as dutils
import DataManager.collector.datafeatures.extractor as extractor
from DataManager.collector.dataset.stage import CMSRawStage, CMSFeaturedStage, CMSRecordTest0Stage
from DataManager.collector.dataset.generator import Pipeline
from DataManager.collector.dataset.resource import CMSResourceManager, CMSDatasetResourceManager
from DataManager.collector.datafeatures.extractor import CMSDataPopularity, CMSDataPopularityRaw, CMSRecordTest0
from DataManager.collector.api import DataFile
from h_batches import FakeProcess, FakeQueue, Parallel, W, Day, Part
import datetime as real

FEATURES = CMSDataPopularityRaw.__init__.__defaults__[1]
NAMES = [
    "/store/mc/RunA/Proc/AOD/x.root",
    "/store/data/RunA/Proc/AOD/y.root",
    "/store/mc//RunA/Proc/AOD/z/zz.root",  # the same features as the first
    "/store/user/RunA/Proc/AOD/x.root",  # not a dataset
    "unknown",
    "/store/mc/RunA",  # too short
]
EXPECT = [("mc", "RunA", "Proc", "AOD"), ("data", "RunA", "Proc", "AOD"), ("mc", "RunA", "Proc", "AOD"), None, None, None]


def raw(name, typ, cpu):
    r = {f: "-" for f in FEATURES}
    r.update(FileName=name, Type=typ, WrapCPU=cpu, Extra="not a feature")
    return r


class Source:
    def __init__(self, days):
        self.days = days

    def get(self):
        return iter(self.days)


def expected(v, recs):
    exp, parts = {}, {}
    for name, typ, cpu in recs:
        k = EXPECT[name]
        if typ == "analysis" and k is not None:
            t, n = exp.get(k, (0, 0))
            exp[k] = (t + cpu, n + 1)
    return exp


def compare(v, got, exp):
    seen = []
    for r in got:
        f = r["features"]
        v.check(set(f) == {"store_type", "campaign", "process", "file_type"}, "a record has the features of its files")
        k = (f["store_type"], f["campaign"], f["process"], f["file_type"])
        v.check(k in exp, "only analysis jobs on dataset files are counted")
        v.check(k not in seen, "there is one record for equal features")
        seen.append(k)
        v.check(r["tot_requests"] == exp[k][1], "a record counts its requests")
        v.check(v.near(r["tot_wrap_cpu"], exp[k][0]), "a record sums up the CPU time of its requests")
    v.check(len(seen) == len(exp), "every dataset with a request has a record")
    v.check(len(set(r["id"] for r in got)) == len(seen), "different features have different ids")


def pipeline(v):
    """requests → records: each valid request is counted once in the record of its features; the good are those at or above the mean"""
    v.shim(extractor)
    n = v.choice("records", v.conf("records")) + 1
    kinds = v.conf("names")
    recs = [(v.choice("name", kinds) if kinds <= len(NAMES) else 0,
             ("analysis", "test")[v.choice("type", 2)] if i < v.conf("types") else "analysis", v.num("cpu", 0, 1000)) for i in range(n)]
    exp = expected(v, recs)
    v.assume(len(exp) > 0)
    rows = [raw(NAMES[a], b, c) for a, b, c in recs]
    size = v.int("batch", 1, n)
    stage_mod.Process, stage_mod.Queue = FakeProcess, FakeQueue
    W.v, W.started, W.peak, W.patience, W.early = v, [], 0, 0, 0
    stages = [CMSRawStage(batch_size=size), CMSFeaturedStage(), CMSRecordTest0Stage()]
    spark = v.conf("spark")
    if spark:
        for s in stages:
            s._spark_context = Parallel(v.choice("parallel", 2) + 1)
    cut = v.choice("cut", n + 1) if v.conf("days") else n
    p = Pipeline(source=Source([rows[:cut], rows[cut:]]), stages=stages, batch_size=size)
    p.run(use_spark=bool(spark))
    got = list(p.result)
    compare(v, got, exp)
    v.check(p.stats["result"]["len"] == len(got), "the statistics count the records")
    scores = {k: t / c for k, (t, c) in exp.items()}
    total = sum(scores.values())
    for r in got:
        f = r["features"]
        s = scores[(f["store_type"], f["campaign"], f["process"], f["file_type"])]
        d = s * len(scores) - total
        # at the mean itself rounding decides
        v.check(v.imp(d >= 0.001, r["class"] == "good"), "a record above the mean score is good")
        v.check(v.imp(d <= -0.001, r["class"] == "bad"), "a record below the mean score is bad")
        v.check(r["class"] in ("good", "bad"), "every record has a class")
    if len(got) > 1:
        v.cover("good and bad" if len(set(r["class"] for r in got)) == 2 else "all alike")
    v.cover("dropped" if sum(c for _, c in exp.values()) < n else "all counted")
    v.observe("n", len(got))


def records(v):
    """the records themselves: sums, loading and saving of their state"""
    v.shim(extractor)
    n = v.choice("records", v.conf("records")) + 1
    a = v.choice("name", 3)
    cpus = [v.num("cpu", 0, 1000) for _ in range(n)]
    recs, counts = [], []
    for c in cpus:
        r = CMSDataPopularityRaw(raw(NAMES[a], "analysis", c))
        v.check(bool(r), "a request of an analysis job is valid")
        v.check(set(r.feature) == set(FEATURES), "a raw record has the listed features")
        if v.choice("stored", 2):
            r2 = CMSDataPopularityRaw()
            r2.__setstate__(r.__getstate__())
            r = r2
        d = CMSDataPopularity(r.to_dict()["features"])
        v.check(bool(d), "a request of a dataset is valid")
        v.check(d.WrapCPU == c, "the data of a record can be read as its attributes")
        t = CMSRecordTest0(d if v.choice("object", 2) else d.to_dict())
        many = 1
        if v.choice("of a batch", 2):
            # the sum of the records of another batch
            many = v.int("requests", 1, 1000)
            t = CMSRecordTest0().load(dict(t.to_dict(), tot_requests=many))
            v.cover("of a batch")
        counts.append(many)
        recs.append(t)
    tot = recs[0]
    one = tot.record_id
    for r in recs[1:]:
        v.check(r.record_id == one, "equal features have one id")
        if v.choice("iadd", 2):
            tot += r
        else:
            tot = tot + r
    if v.choice("stored", 2):
        tot = CMSRecordTest0().load(tot.to_dict())
    v.check(v.near(tot.tot_wrap_cpu, sum(cpus)), "adding up records sums up their CPU time")
    v.check(tot.tot_requests == sum(counts), "adding up records counts their requests")
    v.check(v.near(tot.score * sum(counts), sum(cpus), 1e-6), "the score is the mean CPU time")
    v.check(tot.record_id == one, "the id stays")
    v.check(tot.features2array().tolist() == ["RunA", "AOD", "Proc", EXPECT[a][0]], "features are in the order of their names")
    v.observe("n", n)


# ---- resources ----
class FakeFS:
    """HTTPFS: a folder per day with any number of files"""

    def __init__(self, files):
        self.files, self.opened, self.created = files, [], {}

    def liststatus(self, p):
        self.listed = p
        for name in self.files(p):
            yield "FILE", name, p + "/" + name

    def open(self, p):
        self.opened.append(p)
        return fake_avro.file_of([{"path": p}])

    def create(self, p, f, overwrite=False, noredirect=True):
        with open(f, "rb") as fh:
            self.created[p] = fh.read()
        return True


def manager(cls, start, window):
    m = cls.__new__(cls)
    m._year, m._month, m._day = start
    m._window_size = window
    m._httpfs, m._hdfs_base_path, m._local_folder = None, "", ""
    m._spark_context = None
    return m


class FakeSpark:
    def __init__(self):
        self.asked = []

    def binaryFiles(self, p):
        self.asked.append(p)
        return self

    def collect(self):
        p = self.asked[-1]
        return [(p, fake_avro.file_of([{"path": p}]).getvalue())]


def reads(v):
    """every file of every day of the window is read once, in order of the days"""
    window = v.choice("window", v.conf("window") + 1)
    kind = v.conf("kind")
    day0 = real.date(2019, 12, 28) + real.timedelta(days=v.choice("start", v.conf("starts")))
    days = [real.date.fromordinal(day0.toordinal() + i) for i in range(window)]
    dutils.date, dutils.timedelta = real.date, real.timedelta
    m = manager(CMSResourceManager, (day0.year, day0.month, day0.day), window)
    exp = []
    if kind == "httpfs":
        counts = {}
        for d in days:
            c = v.choice("files", v.conf("files") + 1)
            p = "base/year=%d/month=%d/day=%d" % (d.year, d.month, d.day)
            counts[p] = ["part%d" % i for i in range(c)]
            exp += [p + "/part%d" % i for i in range(c)]
        m._httpfs, m._httpfs_base_path = FakeFS(lambda p: counts.get(p, [])), "base/"
        got = [r["path"] for f in m.get() for r in f]
        v.check(got == exp, "every file of every day is read once and in order")
        v.check(m.type == "httpfs", "the type of the resource")
    elif kind == "hdfs":
        m._hdfs_base_path = "hdfs://x"
        m._spark_context = FakeSpark()
        exp = ["hdfs://x/year=%d/month=%d/day=%d/part-m-00000.avro" % (d.year, d.month, d.day) for d in days]
        got = [r["path"] for f in m.get() for r in f]
        v.check(got == exp, "the file of every day is read once and in order")
        v.check(m.type == "hdfs", "the type of the resource")
    else:
        root = tempfile.mkdtemp(prefix="verif")
        try:
            m._local_folder = root
            for d in days:
                p = os.path.join(root, "year=%d/month=%d/day=%d" % (d.year, d.month, d.day))
                os.makedirs(p)
                with open(p + "/part-m-00000.avro", "wb") as fh:
                    fake_avro.writer(fh, None, [{"path": d.toordinal()}])
            got = [r["path"] for f in m.get() for r in f]
            v.check(got == [d.toordinal() for d in days], "the file of every day is read once and in order")
            v.check(m.type == "local", "the type of the resource")
        finally:
            shutil.rmtree(root)
    v.cover("several days" if window > 1 else "few days")
    v.observe("n", len(got))


def saves(v):
    """what a stage gave and was saved can be read again as the same records"""
    n = v.choice("records", v.conf("records") + 1)
    recs = [{"id": v.int("id", 0, 3), "name": "r%d" % i} for i in range(n)]
    recs = [{"id": int(r["id"]), "name": r["name"]} for r in recs]
    kind = v.conf("kind")
    root = tempfile.mkdtemp(prefix="verif")
    try:
        if kind == "dataset":
            c = CMSDatasetResourceManager.__new__(CMSDatasetResourceManager)
            c.set(iter(recs), "out.json", out_dir=os.path.join(root, "cache"))
            out = os.path.join(root, "cache", "out.json")
        else:
            m = manager(CMSResourceManager, (2018, 2, 3), 7)
            name = "dataset_y2018-m2-d3_ws7_stage-raw.json.gz"
            if kind == "local":
                m._local_folder = root
                m.set(iter(recs), stage_name="raw")
                out = os.path.join(root, "cache", name)
            else:
                m._httpfs = FakeFS(lambda p: [])
                m.set(iter(recs), stage_name="raw")
                v.check(list(m._httpfs.created) == ["/cache/" + name], "one file is sent")
                out = os.path.join(root, name)
                with open(out, "wb") as fh:
                    fh.write(m._httpfs.created["/cache/" + name])
        v.check(os.path.isfile(out), "the file is there")
        f = DataFileOf(out)
        v.check(f == recs, "the saved records can be read again")
        v.check([x for x in glob.glob(os.path.join(root, "**"), recursive=True) if os.path.isfile(x)] == [out], "nothing else is written")
    finally:
        shutil.rmtree(root)
    v.cover("some" if n else "none")
    v.observe("n", n)


def DataFileOf(path):
    from DataManager.collector.datafile.json import JSONDataFileReader
    return list(JSONDataFileReader(path))


def stored(v):
    """a pipeline that saves its stages gives the same result, and each stage can be read again"""
    n = v.choice("records", v.conf("records")) + 1
    v.shim(extractor)
    recs = [(v.choice("name", 4), "analysis", 0.25 * v.choice("cpu", 3)) for _ in range(n)]
    exp = expected(v, recs)
    v.assume(len(exp) > 0)
    stage_mod.Process, stage_mod.Queue = FakeProcess, FakeQueue
    W.v, W.started, W.peak, W.patience, W.early = v, [], 0, 0, 0
    rows = [raw(NAMES[a], b, c) for a, b, c in recs]
    root = tempfile.mkdtemp(prefix="verif")
    try:
        m = manager(CMSResourceManager, (2018, 2, 3), 1)
        m._local_folder = root
        m.get = lambda: iter([rows])
        p = Pipeline(dataset_name="d", source=m, stages=[CMSRawStage(), CMSFeaturedStage(), CMSRecordTest0Stage()], batch_size=2)
        p.run(save_stage=True)
        got = list(p.result)
        compare(v, got, exp)
        name = os.path.join(root, "cache", "dataset_y2018-m2-d3_ws1_stage-%s.json.gz")
        v.check(len(DataFileOf(name % "CMS-raw")) == n, "the raw stage is saved")
        v.check(len(DataFileOf(name % "CMS-Featured")) == sum(c for _, c in exp.values()), "the featured stage is saved")
        v.check(DataFileOf(name % "CMS-Record-Test0") == got, "the last stage is saved")
        p.save(os.path.join(root, "res"))
        v.check(DataFileOf(os.path.join(root, "res", "d.json.gz")) == got, "the result is saved")
    finally:
        shutil.rmtree(root)
    v.observe("n", len(got))


class Settings(dict):
    def setMaster(self, x):
        self["master"] = x

    def setAppName(self, x):
        self["name"] = x

    def set(self, k, x):
        self[k] = x


class Context:
    made = []

    @classmethod
    def getOrCreate(cls, conf):
        cls.made.append(dict(conf))
        return Parallel(1)


class Finder:
    @staticmethod
    def init():
        pass


def settings(v):
    """the Spark settings of a stage: its own, then those of the pipeline for what it does not set"""
    dutils.SparkConf, dutils.SparkContext, dutils.findspark = Settings, Context, Finder
    Context.made = []
    keys = ["spark.driver.memory", "spark.executor.cores", "spark.x"]
    own, pipe = ({k: (who, v.int("value", 0, 9)) for k in keys if v.choice("set", 2) == 1} for who in ("stage", "pipeline"))
    master = [None, "yarn"][v.choice("master", 2)]
    s = CMSRawStage(spark_conf={"config": own} if v.choice("some", 2) == 1 or own else {})
    conf = {"config": pipe}
    if master:
        conf["master"], conf["app_name"] = master, "popularity"
    Pipeline(source=None, stages=[s], spark_conf=conf)
    c = s.spark_context
    v.check(s.spark_context is c and len(Context.made) == 1, "a stage has one Spark context")
    got = Context.made[0]
    for k in keys:
        if k in own:
            v.check(got.get(k) == own[k], "the settings of a stage are kept")
        elif k == "spark.driver.memory":
            v.check(got.get(k) == "2g", "the default settings of a stage are kept")
        elif k in pipe:
            v.check(got.get(k) == pipe[k], "the settings of the pipeline hold for what a stage does not set")
        else:
            v.check(k not in got, "nothing else is set")
    v.check(master is None or (got["master"], got["name"]) == (master, "popularity"), "the master and the name are those of the pipeline")
    v.cover("both" if set(own) & set(pipe) else "apart")
    v.observe("n", len(own))
