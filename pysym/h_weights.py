"""P48: the caches of the weight-function analysis (scripts/DataAnalysis/weight_function.py)."""
import gzip, json, shutil, tempfile
import frames
from scripts.DataAnalysis import weight_function as wf
from sym import opaque


GROUPS = ["/store/data/Run1/Proc/AOD/", "/store/mc/Run2/Proc/MINI/"]


def compare(v, c, ref, names, when=""):
    v.check(len(c) == len(ref.files), "number of resident files" + when)
    for n in names:
        v.check(c.check(n) == (n in ref.files), "resident files" + when)
    used = sum(ref.files.values(), 0.0)
    v.check(c.size == used, "the occupied space is the sum of the sizes of the resident files" + when)
    v.check(v.all([used >= 0, used <= ref.cap]), "never more than the maximum size" + when)
    want = [ref.sizes, ref.rates, ref.writes] + ([ref.reads] if ref.kind == "lru" else [])
    got = list(c.history)
    v.check(len(got) == len(want), "the histories" + when)
    for g, w, nm in zip(got, want, ("size", "hit rate", "written data", "read data")):
        v.check(len(g) == len(w) and v.all([v.near(a, b) for a, b in zip(g, w)]), "history of the %s" % nm + when)


class Ref:
    def __init__(self, kind, cap):
        self.kind, self.cap = kind, cap
        self.files, self.weights = {}, {}
        self.requests, self.group = {}, {}
        self.fresh()

    def fresh(self):
        self.hits = self.misses = 0
        self.sizes, self.rates, self.writes, self.reads = [], [], [], []

    def last(self):
        for x in (self.sizes, self.rates, self.writes, self.reads):
            del x[:-1]

    def clear(self):
        self.files, self.weights = {}, {}

    def room(self, size):
        return sum(self.files.values(), 0.0) + size <= self.cap

    def lru(self, v, f, size):
        if f in self.files:
            self.files[f] = self.files.pop(f)
            return False
        if size > self.cap:
            v.cover("larger than the cache")
            return False
        while not self.room(size):
            v.cover("eviction")
            del self.files[next(iter(self.files))]
        self.files[f] = size
        return True

    def weighted(self, v, f, size, group, cost, sizes, names):
        self.requests[f] = self.requests.get(f, 0) + 1
        self.group[group] = self.group.get(group, 0) + 1
        if f in self.files:
            return False
        w = cost(f, self.requests[f], self.group[group])
        if not self.room(size):
            for x in self.files:
                if where(x, names) == group:
                    self.weights[x] = cost(x, self.requests[x], self.group[group])
            while not self.room(size):
                if not self.files:
                    v.cover("larger than the cache")
                    return False
                heavy = None
                for x in self.files:
                    if heavy is None or self.weights[x] > self.weights[heavy]:
                        heavy = x
                v.assume(v.all([v.neg(self.weights[x] == self.weights[heavy]) for x in self.files if x != heavy]))
                if not self.weights[heavy] > w:
                    v.cover("not heavier")
                    return False
                v.cover("eviction")
                del self.files[heavy]
                del self.weights[heavy]
        self.files[f] = size
        self.weights[f] = w
        return True

    def account(self, f, size, hit, added):
        if hit:
            self.hits += 1
        else:
            self.misses += 1
        self.sizes.append(sum(self.files.values(), 0.0))
        self.rates.append(self.hits / (self.hits + self.misses) * 100.0)
        for x, on in ((self.writes, added), (self.reads, hit)):
            x.append((x[-1] if x else 0.0) + (size if on else 0.0))


def where(f, names):
    return GROUPS[names.index(f) % 2]


class Any:
    """any cost of a file: one positive number for its requests and those of its group"""

    def __init__(self, v, names, sizes):
        self.v, self.names, self.sizes, self.known = v, names, sizes, {}

    def __call__(self, **kw):
        at = [i for i, s in enumerate(self.sizes) if s is kw["size"]]
        self.v.check(len(at) == 1, "the cost is that of the size of a file")
        return self.of(self.names[at[0]], kw["frequency"], kw["num_files"])

    def of(self, f, frequency, requests):
        k = (f, int(frequency), int(requests))
        if k not in self.known:
            self.known[k] = self.v.num("cost", 1, 8)
        return self.known[k]


class Simple:
    """the simple cost function: (size * requests of the group / requests of the file) ^ exp"""

    def __init__(self, v, names, sizes, exp):
        self.names, self.sizes, self.exp = names, sizes, exp

    def __call__(self, **kw):
        return wf.simple_cost_function(exp=self.exp, **kw)

    def of(self, f, frequency, requests):
        x = self.sizes[self.names.index(f)] * requests / frequency
        return x if self.exp == 1 else x * x


def histories(v):
    v.shim(wf)
    kind = v.conf("kind")
    names = ["%sx/f%d.root" % (GROUPS[i % 2], i) for i in range(v.conf("names"))]
    cap = v.num("max", 1, 4000)
    sizes = [opaque(v.num("size", 0 if kind == "lru" else 1, 8000)) for _ in names]   # their texts go into a set
    ref = Ref(kind, cap)
    if kind == "lru":
        c = wf.LRUCache(cap)
    else:
        cost = Any(v, names, sizes) if kind == "any" else Simple(v, names, sizes, int(kind[-1]))
        c = wf.WeightedCache(cap, cost)
    n = v.conf("requests")
    at = v.choice("then", n + 1) if v.conf("then") else n         # before which request something else happens (n: never)
    what = v.choice("what", 4) if at < n else 0
    top = -1
    for step in range(n):
        if step == at:
            if what == 0:
                c = type(c)(cap, init_state=c.state) if kind == "lru" else type(c)(cap, cost, init_state=c.state)
                v.cover("restored")
            elif what == 1:
                c.clear()
                ref.clear()
                v.cover("cleared")
            elif what == 2 and step:
                c.clear_history()
                ref.last()
            else:
                c.reset_history()
                ref.fresh()
            compare(v, c, ref, names, " after that")
        f = v.choice("file", min(len(names), top + 2))
        top = max(top, f)
        size = sizes[f]
        hit = names[f] in ref.files
        added = ref.lru(v, names[f], size) if kind == "lru" else ref.weighted(v, names[f], size, where(names[f], names), cost.of, sizes, names)
        got = c.get(names[f], size)
        if hit:
            v.cover("hit")
        v.check(got == hit, "a request hits exactly when the file is resident")
        ref.account(names[f], size, hit, added)
        compare(v, c, ref, names)
    v.observe("files", len(ref.files))


def replay(v):
    """the replay of windows of requests on a cache"""
    folder = tempfile.mkdtemp(prefix="weights")
    try:
        _replay(v, folder)
    finally:
        frames.FILES.clear()
        shutil.rmtree(folder, ignore_errors=True)


class Bar:
    def __init__(self, *a, **k):
        self.desc = ""

    def __iter__(self):
        return iter(())

    def reset(self, *a, **k):
        pass
    update = close = write = set_description = refresh = reset


def _replay(v, folder):
    wf.pd, wf.tqdm, wf.current_process = frames, Bar, lambda: "<ForkPoolWorker-1, started>"
    shown = v.conf("server")
    names = ["%sx/f%d.root" % (GROUPS[i % 2], i) for i in range(2)]
    size = [600 * 1024 ** 2, 500 * 1024 ** 2]
    everywhere = v.choice("region", 2) == 0
    clears = v.choice("clear", 2) == 1
    day = 1525132800
    windows, seq = [], []
    for w in range(v.conf("windows")):
        fs, inside = [], []
        for k in range(1 + (v.choice("files", 2) if w == 0 else 0)):
            rows = []
            for _ in range(v.conf("requests")):
                f = v.choice("file", 2)
                site = v.choice("site", 2) if not everywhere and not rows else 0
                nosize = v.choice("no size", 2) if w == 0 and not rows else 0
                rows.append(dict(filename=names[f], size=frames.NAN if nosize else float(size[f]), day=float(day), site_name=["T2_IT_Pisa", "T2_US_MIT"][site], user=1))
                if not nosize and not site:
                    inside.append((f, day))
                else:
                    v.cover("left out")
                day += 86400 * v.choice("next day", 2) if shown else 86400
            p = "%s/results_%d_%d.feather.gz" % (folder, w, k)
            gzip.open(p, "wb").close()
            frames.FILES[p] = frames.DataFrame({c: [r[c] for r in rows] for c in rows[0]})
            fs.append(p)
            inside.append(None)
        windows.append(fs)
        seq.append(inside)
    cap = 1000.0
    c = wf.LRUCache(cap, cache_options=dict(clear_cache=clears))
    name = str(c)
    sent = []
    wf.requests = type("requests", (), dict(put=staticmethod(lambda url, data=None, **k: sent.append((url, json.loads(gzip.decompress(data)))))))
    got = wf.simulate((c, windows, False, "_all_" if everywhere else "_it_", "http://server" if shown else None, False))
    ref = Ref("lru", cap)
    wsizes, wrates, wwrites, points, last, number = [], [], [], [], None, 0
    buffer = [(0, 0.0, 0.0, 0.0, 0.0)]
    for w, inside in enumerate(seq):
        number = 0
        for x in inside:
            if x is None:
                if buffer:
                    points.append((w, buffer))
                buffer = []
                continue
            f, d = x
            z = size[f] / 1024 ** 2
            hit = names[f] in ref.files
            ref.account(names[f], z, hit, ref.lru(v, names[f], z))
            if hit:
                v.cover("hit")
            last = d if last is None else last
            if d - last >= 86400:
                number += 1
                buffer.append((number, ref.rates[-1], ref.sizes[-1], ref.writes[-1], ref.reads[-1]))
                points.append((w, buffer))
                buffer = []
                last = d
                v.cover("next day")
        wsizes.append(list(ref.sizes)), wrates.append(list(ref.rates)), wwrites.append(list(ref.writes))
        ref.last()
        if clears:
            ref.clear()
    if not shown:
        sizes, rates, writes, _ = got
        v.check(sizes == wsizes and writes == wwrites, "sizes and written data of each window")
        v.check([len(x) for x in rates] == [len(x) for x in wrates] and all(abs(a - b) < 1e-9 for x, y in zip(rates, wrates) for a, b in zip(x, y)), "hit rates of each window")
    else:
        flat = lambda l: [(w, p) for w, b in l for p in b]
        mine = []
        for url, obj in sent:
            v.check(url.startswith("http://server/cache/update/" + name + "/"), "the address of an update")
            w = int(url.rsplit("/", 1)[1])
            cols = [obj[k] for k in ("hit_rate", "size", "written_data", "read_on_hit")]
            v.check(all([p[0] for p in q] == [p[0] for p in cols[0]] for q in cols), "the positions of the points")
            for i, (at, _) in enumerate(cols[0]):
                mine.append((w, (at,) + tuple(q[i][1] for q in cols)))
        want = flat(points)
        v.check(len(mine) == len(want), "a point for each day, sent once")
        v.check(all(a[0] == b[0] and a[1][0] == b[1][0] and all(abs(p - q) < 1e-9 for p, q in zip(a[1], b[1])) for a, b in zip(mine, want)), "the points of each window")
    v.observe("requests", ref.hits + ref.misses)
