"""P32: the caches of the model evaluator (counted in files): unbounded, FIFO and LRU."""
from SmartCache.ai.models import evaluator
from SmartCache.ai.models.evaluator import SimpleCache, FIFOCache, LRUCache, Evaluator


class Ref:
    def __init__(self, kind, cap):
        self.kind, self.cap, self.files = kind, cap, []
        self.hits = self.misses = 0
        self.sizes, self.rates = [], []

    def update(self, f, insert):
        hit = f in self.files
        if hit:
            self.hits += 1
            if self.kind == "lru":
                self.files.remove(f)
                self.files.append(f)
        else:
            self.misses += 1
            if insert:
                if self.kind != "simple" and len(self.files) == self.cap:
                    self.files.pop(0)
                self.files.append(f)
        self.sizes.append(len(self.files))
        self.rates.append(self.hits / (self.hits + self.misses) * 100.0)
        return hit


def make(kind, cap, state=None, keyword=True):
    if kind == "simple":
        return SimpleCache(state) if state is not None else SimpleCache()
    cls = {"fifo": FIFOCache, "lru": LRUCache}[kind]
    if state is None:
        return cls(max_size=cap)
    return cls(init_state=state, max_size=cap) if keyword else cls(state, max_size=cap)


def compare(v, c, ref, names, when):
    v.check(len(c) == len(ref.files), "number of files" + when)
    for n in names:
        v.check(c.check(n) == (n in ref.files), "resident files" + when)
    v.check(list(c.size_history) == ref.sizes, "history of the number of files" + when)
    v.check(len(c.hit_rate_history) == len(ref.rates) and v.all([v.near(a, b) for a, b in zip(c.hit_rate_history, ref.rates)]),
            "history of the hit rate" + when)


def caches(v):
    kind = v.conf("kind")
    names = ["a", "b", "c", "d"][:v.conf("names")]
    cap = 1 if kind == "simple" else v.choice("max size", v.conf("cap")) + 1
    c, ref, top = make(kind, cap), Ref(kind, cap), -1
    n = v.conf("requests")
    resume = v.choice("resume", n + 1)    # n: never
    kw = v.choice("keyword", 2) == 1 if resume < n else True
    for step in range(n):
        if step == resume:
            c = make(kind, cap, c.state, kw)
            v.cover("resumed")
        f = v.choice("file", min(len(names), top + 2))
        top = max(top, f)
        ins = v.bool("insert")
        full = len(ref.files) == cap
        want = ref.update(names[f], bool(ins))
        got = c.update(names[f], bool(ins))
        if want:
            v.cover("hit")
        elif full and ins and kind != "simple":
            v.cover("eviction")
        v.check(got == want, "a request hits exactly when the file is resident")
        compare(v, c, ref, names, "")
        if kind != "simple":
            v.check(len(c) <= cap, "never more files than the maximum")
    v.observe("files", ref.files)


class Table:
    def close_conversion(self, *a, **k):
        return [0.0]


class Model:
    """a prediction of the model per file and request"""

    def __init__(self, v, n):
        self.keep = [v.bool("store") for _ in range(n)]
        self.at = 0

    def predict(self, data):
        r = [bool(x) for x in self.keep[self.at:self.at + len(data)]]
        self.at += len(data)
        return r


def evaluation(v):
    """the comparison of a cache that stores everything and one that stores what the model says"""
    v.shim(evaluator)
    kind = v.conf("kind")
    names = ["a", "b", "c"][:v.conf("names")]
    cap = v.choice("max size", v.conf("cap")) + 1
    n = v.choice("requests", v.conf("requests")) + 1
    stride = v.choice("stride", n) + 1
    top, seq = -1, []
    for _ in range(n):
        f = v.choice("file", min(len(names), top + 2))
        top = max(top, f)
        seq.append(f)
    cpu = [v.num("cpu", 0, 100) for _ in range(n)]
    data = [dict(data=dict(FileName=names[f], WrapCPU=c), features={}) for f, c in zip(seq, cpu)]
    m = Model(v, n)
    a, b = Ref(kind, cap), Ref(kind, cap)
    first = {}
    if v.choice("earlier", 2) == 1:   # it goes on from an earlier comparison
        for key, ref, name in (("cache", a, "a"), ("ai_cache", b, "c")):
            first[key] = make(kind, cap)
            first[key].update(name)
            ref.update(name, True)
        v.cover("goes on")
    ev = Evaluator(data, m, Table(), cache_type=kind, ai_cache_type=kind, cache_settings=dict(max_size=cap), ai_stride=stride)
    res = ev._compare(first) if first else ev._compare()
    wa, wb = [], []
    for i in range(n):
        for ref, w, ins in ((a, wa, True), (b, wb, bool(m.keep[i]))):
            hit = ref.update(names[seq[i]], ins)
            w.append(cpu[i] if not w else (w[-1] + cpu[i] if hit else w[-1]))
    compare(v, res["cache"], a, names, " (plain cache)")
    compare(v, res["ai_cache"], b, names, " (cache with the model)")
    v.check(m.at == n, "the model is asked once for every request")
    for nm, w in (("cache", wa), ("ai_cache", wb)):
        got = ev._wrap_cpu[nm]
        v.check(len(got) == n and v.all([x == y for x, y in zip(got, w)]), "the CPU time of the hits is accumulated")
    v.cover("whole strides" if n % stride == 0 else "a rest")
    v.observe("n", n)



class Everything:
    def predict(self, data):
        return [True] * len(data)


def separators(v):
    """the requests at which a new day begins"""
    v.shim(evaluator)
    n = v.choice("requests", v.conf("requests")) + 1
    day = 86400000
    t, times = 1525000000000 + v.choice("hour", 2) * 7200000, []
    for _ in range(n):
        t += [0, day // 2, day, day + 1000, 3 * day][v.choice("gap", 5)]
        times.append(None if v.choice("no time", 2) == 1 else t)
    data = []
    for x in times:
        d = dict(FileName="a", WrapCPU=1.0)
        if x is not None:
            d["StartedRunningTimeStamp"] = x
        data.append(dict(data=d, features={}))
    ev = Evaluator(data, Everything(), Table(), cache_type="fifo", ai_cache_type="fifo", cache_settings=dict(max_size=1), ai_stride=1)
    want, last = [], None
    for i, x in enumerate(times):
        if x is not None and (last is None or x - last > day):
            want.append(i)
            last = x
    v.check(ev._compare()["separators"] == want, "a separator for the first request and for each that is more than a day after the last separator")
    if len(want) > 1:
        v.cover("days")
    v.observe("n", n)
