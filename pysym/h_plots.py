"""P49: the plot server (scripts/DataAnalysis/plot_server.py)."""
import gzip, inspect, json, os, shutil, sys, tempfile, types


class App:
    def __init__(self, *a, **k):
        pass

    def route(self, *a, **k):
        return lambda f: f

    get = post = put = delete = route

    def send_static_file(self, name):
        return name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Request:
    data, args = b"", {}


from sym import opaque

try:
    import flask
    if not isinstance(getattr(flask, "__file__", None), str):
        raise ImportError
except ImportError:
    flask = types.ModuleType("flask")
    sys.modules["flask"] = flask
flask.Flask, flask.request, flask.jsonify = App, Request(), lambda x=None, **k: x if x is not None else k

from scripts.DataAnalysis import plot_server as ps

TABLES = ["hit_rate", "weighted_hit_rate", "hit_over_miss", "size", "written_data", "read_on_hit"]
CACHES = ["lru_10T_it", "weight_10T_it", "weight_20T_it"]


def fresh(folder):
    ps.BASE_PATH = folder
    ps.TABLES = {t: {} for t in TABLES}
    ps.WINDOW_INFO = {}
    ps.TABLE_COLORS = {}


def post(f, obj, *a):
    r = Request()
    r.data = gzip.compress(json.dumps(obj).encode())
    ps.request = r
    return f(*a)


def routed(f):
    """Flask calls a view with the arguments of its route: this one has none"""
    try:
        inspect.signature(f).bind()
    except TypeError as e:
        raise Refused(str(e))
    return f()


class Refused(Exception):
    pass


def kept(v):
    """what is sent is kept, and can be loaded again"""
    folder = tempfile.mkdtemp(prefix="plots")
    try:
        _kept(v, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def _kept(v, folder):
    fresh(folder)
    ref = {t: {} for t in TABLES}
    saved, infos, top = {}, {}, -1
    value = [0.5]

    def put(t, c, w, i):
        value[0] += 1
        lines = ref[t].setdefault(c, [])
        if w == len(lines):
            lines.append([])
        if i == len(lines[w]):
            lines[w].append(value[0])
        else:
            lines[w][i] = value[0]
        return value[0]

    for _ in range(v.conf("ops")):
        op = v.choice("op", 4)
        k = v.choice("cache", min(2, top + 2))    # the caches are taken in order
        top, c = max(top, k), CACHES[k]
        if op < 2:
            one = TABLES[v.choice("table", 2) * 3 if op == 0 else 5]
            tables = [one] if op == 0 else ["hit_rate", one][:1 + v.choice("tables", 2)]
            full = len(ref[tables[0]].get(c, []))
            for t in tables:
                v.assume(len(ref[t].get(c, [])) == full)
            w = v.choice("window", full + 1)
            body = {}
            for t in tables:
                have = len(ref[t][c][w]) if w < full else 0
                start = have * (1 - v.choice("again", 2 if have else 1))
                points = 1 if op == 0 else 1 + v.choice("points", 2)
                if start < have and points:
                    v.cover("replaced")
                body[t] = [(i, put(t, c, w, i)) for i in range(start, start + points)]
            if w and any(body.values()):
                v.cover("later window")
            if op == 0:
                i, x = body[tables[0]][0]
                ps.table_insert(tables[0], c, w, i, x)
                v.cover("one value")
            else:
                post(ps.cache_update, body, c, w)
                v.cover("update")
            for t in tables:
                saved[t] = json.loads(json.dumps(ref[t]))
        elif op == 2:
            have = infos.setdefault(c, [])
            w = v.choice("info window", len(have) + 1)
            value[0] += 1
            obj = dict(cache={"a": value[0]}, weights={}, stats={})
            have[w:w + 1] = [obj]
            post(ps.cache_info, obj, c, w)
            v.check(ps.load_table("cache_info") == infos, "the saved information of the windows")
            v.cover("information")
        else:
            try:
                routed(ps.delete_plots)
            except Refused:
                v.check(False, "the tables can be deleted")
            ref, infos = {t: {} for t in TABLES}, {}
            v.cover("deleted")
        v.check(sorted(ps.TABLES) == sorted(TABLES), "the tables")
        for t in TABLES:
            v.check(same(ps.TABLES[t], ref[t]), "every value at its cache, window and position")
        v.check(ps.WINDOW_INFO == infos, "the information of each cache and window")
        for t in saved:
            v.check(same(ps.load_table(t), saved[t]), "the saved table is the one at its last update")
        st = ps.service_status()
        v.check((st["num_cache_hit_rates"], st["num_cache_sizes"], st["num_cache_written_data"], st["num_cache_window_info"]) ==
                (len(ref["hit_rate"]), len(ref["size"]), len(ref["written_data"]), len(infos)), "the numbers of the status")
    v.observe("last", value[0])


def same(a, b):
    """the tables without caches, windows that have no value yet"""
    clean = lambda t: {c: [list(w) for w in x if len(w)] for c, x in (t or {}).items() if any(len(w) for w in x)}
    return clean(a) == clean(b)


class Figure:
    def __init__(self, *a, **k):
        Figure.last = self
        self.lines, self.renderers, self.legend = {}, [], types.SimpleNamespace()
        self.colors = {}

    def line(self, x, y, **k):
        name = k.get("legend", k.get("legend_label"))
        if name in self.lines:
            raise KeyError(name)
        self.lines[name] = (list(x), list(y))
        self.colors[name] = k.get("color")


class Span:
    def __init__(self, location=None, **k):
        self.location = location


def drawn(v):
    """the lines of the plots"""
    fresh("/nonexistent")
    v.shim(ps)
    ps.figure, ps.Span, ps.save, ps.output_file = Figure, Span, lambda *a, **k: None, lambda *a, **k: None
    ps.Category10 = {10: ["c%d" % i for i in range(10)]}
    what = v.conf("what")
    caches = [CACHES[0]] + [c for c in CACHES[1:] if v.choice("has", 2) == 1]
    windows = [1 + v.choice("points", v.conf("points")) for _ in range(v.conf("windows"))]
    tables = ["written_data", "read_on_hit"]
    data = {}
    for t in tables if what in ("ratio", "diff") else [tables[0]]:
        for c in caches:
            for w, n in enumerate(windows):
                for i in range(n):
                    x = opaque(v.num("value", 0, 100))   # its text is in the answer
                    data.setdefault((t, c), []).append(x)
                    ps.insert_line_in_table(t, c, w, i, x)
    chosen = [None, ["weight"], ["10T", "it"]][v.choice("filter", 3)]
    ps.plot_line(what.replace("plain", tables[0]).replace("compare", tables[0] + "_compare"), "x.html", filters=chosen)
    names = [c for c in caches if all(f in c for f in chosen or [])]
    n = sum(windows)
    want = {}
    for c in names:
        w = data[tables[0], c]
        if what == "plain":
            want[c] = w
        elif what == "compare":
            if c == CACHES[1]:
                want[c] = [((a - b) / b if b != 0 else 0.0) for a, b in zip(w, data[tables[0], CACHES[0]])]
        else:
            r = data[tables[1], c]
            want[c] = [(b / a if a != 0 else 0.0) if what == "ratio" else b - a for a, b in zip(w, r)]
    got = Figure.last.lines
    v.check(sorted(got) == sorted(want), "a line for each cache that passes the filters")
    for c in want:
        v.check(got[c][0] == list(range(n)), "one point per request")
        v.check(v.all([v.near(a, b) if what in ("ratio", "compare") else a == b for a, b in zip(got[c][1], want[c])]), "the points of a line")
        v.cover("line")
    v.check(len(set(Figure.last.colors.values())) == len(Figure.last.colors), "a colour for each cache")
    edges = [sum(windows[:i + 1]) for i in range(len(windows))] if len(windows) > 1 and want else []
    if edges:
        v.check([s.location for s in Figure.last.renderers] == edges, "a line where each window ends")
    if chosen and len(want) < len(caches):
        v.cover("filtered out")
    v.observe("lines", len(want))


def bins(v):
    """hits and misses by size of file"""
    v.shim(ps)
    n = 1 + v.choice("bins", v.conf("bins"))
    edges = [float(i) for i in range(n + 1)]
    files = []
    for _ in range(v.choice("files", v.conf("files")) + 1):
        s = v.num("size", 0, n)
        files.append((s, v.int("hits", 0, 9), v.int("misses", 0, 9)))
    got = ps.fill_hit_miss_bins(n, edges, files)
    v.check(len(got) == 2 and all(len(g) == n for g in got), "a value per bin")
    for k in (0, 1):
        total = sum(f[1 + k] for f in files)
        if total == 0:
            v.cover("none")
            v.check(v.all([x == 0 for x in got[k]]), "no part of nothing")
            continue
        good = [v.near(sum(got[k]), 1.0)]
        for i in range(n):
            inside = [(f[1 + k], f[0] > edges[i], f[0] < edges[i + 1], f[0] >= edges[i], f[0] <= edges[i + 1]) for f in files]
            part = got[k][i] * total
            good += [part >= sum((z if a and b else 0) for z, a, b, _, _ in inside) - 0.000001,
                     part <= sum((z if c and d else 0) for z, _, _, c, d in inside) + 0.000001]
        v.check(v.all(good), "the part of each bin, that make one")
    if any(f[0] > edges[-2] for f in files):
        v.cover("last bin")
    v.observe("n", n)
