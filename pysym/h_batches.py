"""P35: windows of days; P36: batches, stages and uploads handle every record exactly once."""
import io, sys, datetime as real
import fake_avro
sys.modules.setdefault("fastavro", fake_avro)
import z3
import sym
from sym import SymNum, SymBool
import DataManager.collector.dataset.utils as dutils
from DataManager.collector.dataset.utils import gen_window_dates
import DataManager.collector.dataset.stage as stage_mod
from DataManager.collector.dataset.stage import Stage, CMSRawStage
from DataManager.collector.dataset.generator import Pipeline
from DataManager.collector.dataset.resource import CMSDatasetResourceManager
from DataManager.collector.datafile.avro import AvroDataFileReader, AvroDataFileWriter
import DataManager.collector.api as api
from DataManager.collector.api import DataFile


# ---- days: the calendar is a number of days, its year, month and day are names for that number ----
class Part:
    def __init__(self, day, what):
        self.day, self.what = day, what

    def __eq__(self, o):
        return isinstance(o, Part) and self.what == o.what and self.day == o.day


class Delta:
    def __init__(self, days=0, **k):
        self.days = days

    def __mul__(self, n):
        return Delta(self.days * n)
    __rmul__ = __mul__

    def __add__(self, o):
        return o + self if isinstance(o, Day) else Delta(self.days + o.days)

    def __sub__(self, o):
        return Delta(self.days - o.days)

    def __floordiv__(self, o):
        return self.days // (o.days if isinstance(o, Delta) else o)

    def _c(op):
        return lambda s, o: getattr(s.days, op)(o.days)
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = map(_c, ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"))


class Day:
    def __init__(self, y, m=None, d=None):
        self.n = y.day if isinstance(y, Part) else y

    def _at(n):
        x = Day.__new__(Day)
        x.n = n
        return x

    def __add__(self, o):
        return Day._at(self.n + o.days)
    __radd__ = __add__

    def __sub__(self, o):
        return Delta(self.n - o.n) if isinstance(o, Day) else Day._at(self.n - o.days)

    def toordinal(self):
        return self.n

    fromordinal = _at
    year = property(lambda s: Part(s.n, "year"))
    month = property(lambda s: Part(s.n, "month"))
    day = property(lambda s: Part(s.n, "day"))

    def _c(op):
        return lambda s, o: getattr(s.n, op)(o.n)
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = map(_c, ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"))


def windows(v):
    """the days of a window: from the start (or the end of the window, for the next one), one per step, inside the window"""
    first = v.int("first day", 730000, 740000)
    size = v.int("window", 0, v.conf("window"))
    step = v.int("step", 1, v.conf("window") + 1)
    nxt = v.choice("next", 2) == 1
    if v.symbolic:
        dutils.date, dutils.timedelta = Day, Delta
        y = m = d = Part(first, "year")
        parts = lambda n: (Part(n, "year"), Part(n, "month"), Part(n, "day"))
    else:
        dutils.date, dutils.timedelta = real.date, real.timedelta
        t = real.date.fromordinal(first)
        y, m, d = t.year, t.month, t.day
        parts = lambda n: (lambda t: (t.year, t.month, t.day))(real.date.fromordinal(n))
    got = []
    if v.choice("defaults", 2) == 1:   # a step of a day, and this window
        v.assume(step == 1)
        if nxt:
            days = gen_window_dates(y, m, d, size, next_window=True)
        else:
            days = gen_window_dates(y, m, d, size)
    else:
        days = gen_window_dates(y, m, d, size, step, nxt)
    for x in days:
        got.append(x)
        v.check(len(got) <= v.conf("window") + 1, "a window ends")
    at, k = first + (size if nxt else 0), 0
    end = at + size
    while at < end:
        v.check(k < len(got), "every day of the window is there")
        v.check(v.all([a == b for a, b in zip(got[k], parts(at))]), "the days of the window follow each other by the step")
        at, k = at + step, k + 1
    v.check(len(got) == k, "no day outside the window")
    v.cover("next" if nxt else "this")
    v.observe("days", len(got))


# ---- batches ----
class Rec(dict):
    pass


def records(n):
    return [{"id": i} for i in range(n)]


def ids(l):
    return [x["id"] for x in l]


class Resource(CMSDatasetResourceManager):
    def __init__(self, size):
        self._CMSDatasetResourceManager__batch_size = size
        self._CMSDatasetResourceManager__dataset_path = ""


class RawStage(CMSRawStage):
    def __init__(self, size):
        self._CMSRawStage__batch_size = size
        self._name = "raw"


def batches(v):
    """every record is in exactly one batch, in order; all batches but the last have the batch size, none is empty"""
    n = v.choice("records", v.conf("records") + 1)
    size = v.int("size", 1, v.conf("records") + 1)
    who = v.conf("who")
    recs = records(n)
    if who == "chunks":
        text = b"".join(b'{"id": %d}\n' % i for i in range(n))
        got = list(DataFile(JSON(text)).get_chunks(size))
    elif who == "pipeline":
        got = list(Pipeline(batch_size=size).gen_batches(iter(recs), "s"))
    elif who == "resource":
        got = list(Resource(size).gen_batches(iter(recs)))
    else:
        cut = v.choice("cut", n + 1)
        got = list(RawStage(size).pre_input([recs[:cut], recs[cut:]]))
    v.check([i for b in got for i in ids(b)] == list(range(n)), "every record is in exactly one batch and in order")
    for i, b in enumerate(got):
        v.check(len(b) > 0, "no batch is empty")
        if i < len(got) - 1:
            v.check(len(b) == size, "all batches but the last have the batch size")
        else:
            v.check(len(b) <= size, "no batch is larger than the batch size")
    v.cover("rest" if got and len(got[-1]) < size else "whole")
    v.observe("batches", [len(b) for b in got])


def JSON(text):
    from DataManager.collector.datafile.json import JSONDataFileWriter
    w = JSONDataFileWriter(descriptor=io.BytesIO())
    for l in text.decode().splitlines():
        w.append(l)
    return w


# ---- stages: tasks are processes; when each of them ends is an input ----
class FakeQueue:
    def __init__(self):
        self.l = []

    def put(self, x):
        self.l.append(x)

    def get(self):
        return self.l.pop(0)

    def empty(self):
        return not self.l

    def __bool__(self):
        return True


class World:
    pass


W = World()


class FakeProcess:
    def __init__(self, target=None, args=()):
        self.target, self.args, self.state = target, args, 0

    def start(self):
        self.state = 1
        W.started.append(self)
        W.peak = max(W.peak, sum(1 for p in W.started if p.state == 1))

    def _end(self):
        if self.state == 1:
            self.target(*self.args)
            self.state = 2

    def join(self, timeout=None):
        """waits at most for the timeout: the process may end or not, but not for ever"""
        if self.state != 1:
            return
        if timeout is not None and W.patience > 0:
            W.patience -= 1
            if W.v.choice("still running", 2) == 1:
                return
        self._end()

    def is_alive(self):
        if self.state == 1 and W.patience > 0 and W.early:
            W.patience -= 1
            if W.v.choice("ends now", 2) == 1:
                self._end()
        return self.state == 1


class MyStage(Stage):
    def __init__(self):
        self._name = "mine"
        self._output = AvroDataFileWriter(io.BytesIO())
        self._spark_context = None

    @staticmethod
    def process(records, queue=None):
        out = [{"id": r["id"], "of": len(records)} for r in records]
        if queue:
            for r in out:
                queue.put(r)
        else:
            return out


class Parallel:
    """a stand-in for the Spark context"""

    def __init__(self, n):
        self.defaultParallelism = n

    def parallelize(self, tasks, n=None):
        self.tasks = list(tasks)
        return self

    def map(self, f):
        self.f = f
        return self

    def collect(self):
        return [self.f(t) for t in self.tasks]


def results(out):
    raw = out.raw_data
    return list(AvroDataFileReader(io.BytesIO(raw))) if raw else []


def stage(v):
    """every batch is processed once, whenever the tasks end, and nothing of its output is lost"""
    n = v.choice("batches", v.conf("batches") + 1)
    workers = v.choice("workers", v.conf("workers")) + 1
    stage_mod.Process, stage_mod.Queue = FakeProcess, FakeQueue
    W.v, W.started, W.peak, W.patience, W.early = v, [], 0, v.conf("patience"), v.conf("early")
    s = MyStage()
    inp = [[{"id": 2 * i}, {"id": 2 * i + 1}] for i in range(n)]
    if v.conf("spark"):
        s._spark_context = Parallel(workers)
        out = s.task(iter(inp), use_spark=True)
    else:
        out = s.task(iter(inp), num_process=workers)
        v.check(W.peak <= workers, "no more tasks at once than asked for")
    v.check(sorted(ids(results(out))) == list(range(2 * n)), "every batch is processed once and all its output is kept")
    v.cover("more batches than workers" if n > workers else "few batches")
    v.observe("n", n)


# ---- the upload of the agent ----
class Args:
    pass


class Reply:
    status_code, text = 200, ""


class Dest:
    def __init__(self, url, auth):
        pass

    def put(self, data):
        if isinstance(data, list):
            W.calls.append(len(data))
            W.sent.extend(data)
        else:
            W.calls.append(1)
            W.sent.append(data)
        return Reply()


def upload(v):
    """the elements from the initial index on are sent once and in order, in bulks of at most the given size"""
    import DataManager.agent.cli as cli
    import argparse
    n = v.choice("records", v.conf("records") + 1)
    a = Args()
    a.command, a.source_type, a.dest_type, a.dest, a.auth = "put", "file", "elasticsearchhttp", "http://x/", ""
    a.bulk = v.int("bulk", 0, v.conf("records") + 1)
    a.start_from_index = v.int("start", 0, v.conf("records") + 1)
    a.source = io.BytesIO(b"".join(b'{"id": %d}\n' % i for i in range(n)))
    W.sent, W.calls = [], []
    old = argparse.ArgumentParser.parse_known_args
    argparse.ArgumentParser.parse_known_args = lambda *x, **k: (a, [])
    cli.ElasticSearchHttp = Dest
    try:
        cli.cli_main()
    finally:
        argparse.ArgumentParser.parse_known_args = old
    start = int(a.start_from_index)
    v.check(ids(W.sent) == list(range(start, n)), "every element from the initial index on is sent once and in order")
    for c in W.calls:
        v.check(v.any([a.bulk == 0, c <= a.bulk]), "no bulk is larger than asked for")
    v.cover("bulk" if int(a.bulk) else "one by one")
    v.observe("calls", W.calls)
