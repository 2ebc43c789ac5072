"""P42: the converter of Probe; P43: its measures and tables; P44: its loaders and statistics."""
import sys, os, io, json, pickle, tempfile, shutil, argparse
import numpy as np
import frames
import probe.utils as putils
import probe.loaders as loaders
import probe.converter.utils as cutils
import probe.converter.extractor as cextractor
import probe.results.data as rdata

for m in (loaders, cutils, cextractor, rdata):
    m.pd = frames
cutils.make_colored_json = lambda s: s


class Pool:
    def __init__(self, n=None):
        pass

    def map(self, f, items):
        return [f(x) for x in items]

    def close(self):
        pass

    def join(self):
        pass


cutils.Pool = Pool
VALUES = ["", "b.root", "a", "A", "b"]


def check_ids(v, c, model):
    """model: category -> values in the order they came"""
    for k, l in model.items():
        v.check(c.get(k) == {x: i for i, x in enumerate(l)}, "values are numbered from 0 in the order they come")
        for i, x in enumerate(l):
            v.check(c.get(k, x) == i, "the number of a value")


def container(v):
    """any history of updates, queries and restarts"""
    c = cutils.CategoryContainer()
    model = {}
    for _ in range(v.conf("ops")):
        op = v.choice("op", 3)
        if op == 0:
            new = {}
            for k in (("x",), ("y",), ("y", "x"))[v.choice("categories", v.conf("categories"))]:
                new[k] = [VALUES[v.choice("value", v.conf("values"))] for _ in range(v.choice("n", 2) + 1)]
            c.update(new, "f")
            for k, l in new.items():
                m = model.setdefault(k, [])
                for x in l:
                    if x not in m:
                        m.append(x)
        elif op == 1:
            c = pickle.loads(pickle.dumps(c))
            v.cover("restarted")
        else:
            v.check(json.loads(c.query("categories")) == {"keys": list(model)}, "the categories")
            for k, l in model.items():
                for by in (False, True):
                    got = json.loads(c.query("all." + k, by))
                    v.check(got == {k: {x: i for i, x in enumerate(l)}}, "the numbers of a category")
                    if by:
                        v.check(list(got[k].values()) == list(range(len(l))), "the numbers of a category in order")
                for i, x in enumerate(l):
                    v.check(json.loads(c.query("valueOf.%s.%s" % (k, x))) == {k: {x: i}}, "the number of a value can be asked for")
            v.cover("asked")
        check_ids(v, c, model)
    v.observe("ids", model)


SITES = ["T2_US_Vanderbilt", "T2_IT_Bari", "T1_us_FNAL"]
FILENAMES = ["/store/data/Run2016B/DoubleEG/x.root", "/store/mc/RunA/Single/x.root", "/store/mc/RunA/Double/y.root"]


def requests(v, n, extra=()):
    rows = []
    for _ in range(n):
        rows.append([FILENAMES[v.choice("file", v.conf("files"))], SITES[v.choice("site", v.conf("sites"))], v.num("size", 0, 5000), v.int("user", 0, 9)])
    return frames.DataFrame(rows, columns=["Filename", "SiteName", "Size", "UserID"])


def expected(df, ids):
    """the rows of a converted table; ids: column -> values in the order they come"""
    cols = dict(df._cols)
    cols["Region"] = [x.split("_")[1].lower() for x in cols["SiteName"]]
    cols["Campain"] = [x.split("/")[3] for x in cols["Filename"]]
    cols["Process"] = [x.split("/")[4] for x in cols["Filename"]]
    for k in ("Filename", "SiteName", "Region", "Campain", "Process"):
        m = ids.setdefault(k, [])
        for x in cols[k]:
            if x not in m:
                m.append(x)
        cols[k] = [m.index(x) for x in cols[k]]
    return cols


class Stopped(Exception):
    pass


def converter(v):
    """files are converted with the same numbers however often the converter is stopped and started again"""
    import probe.converter.__main__ as cmain
    cmain.shuffle_df = lambda df, seed: df
    frames.FILES.clear()
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif-probe-")
    try:
        os.chdir(d)
        os.mkdir("in")
        n = v.choice("inputs", v.conf("inputs")) + 1
        src = []
        for i in range(n):
            df = requests(v, v.choice("rows", v.conf("rows")) + 1)
            src.append(df)
            name = "in/results_2018-0%d-01.csv" % (i + 1)
            frames.FILES[name] = df
            open(name, "w").close()
        stop = v.choice("stopped after", 2 * n + 1)
        saved = [0]
        a = argparse.Namespace(path="in", category_db_file="", region="all", seed=1, shuffle=False, order_folder="")
        old = argparse.ArgumentParser.parse_known_args
        argparse.ArgumentParser.parse_known_args = lambda *x, **k: (a, [])

        def stopping(f):
            def g(*x, **k):
                if saved[0] == stop:
                    saved[0] = -99
                    raise Stopped()
                saved[0] += 1
                return f(*x, **k)
            return g

        cmain.save_numeric_df = stopping(cutils.save_numeric_df)
        cmain.pickle = argparse.Namespace(load=pickle.load, dump=stopping(pickle.dump))
        try:
            try:
                cmain.main()
                if stop < 2 * n:
                    v.check(False, "every file is saved with its numbers")
            except Stopped:
                v.cover("stopped")
                cmain.main()
        finally:
            argparse.ArgumentParser.parse_known_args = old
        ids = {}
        for i, df in enumerate(src):
            out = "in/results_numeric_all_2018-0%d-01.csv" % (i + 1)
            v.check(os.path.isfile(out) and out in frames.FILES, "every file is converted")
            got, want = frames.FILES[out], expected(df, ids)
            v.check(list(got._cols) == list(want), "the columns of a converted file")
            v.check(v.all([x == y for k in want for x, y in zip(got._cols[k], want[k])]) and len(got) == len(df), "values are replaced by their numbers, everything else is unchanged")
        with open("container_all_.pickle", "rb") as f:
            check_ids(v, pickle.load(f), ids)
        if n > 1:
            v.cover("files")
        v.observe("ids", ids)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def ordered(v):
    """a table is brought into the order of the requests of the source"""
    n = v.choice("rows", v.conf("rows") + 1)
    files = [FILENAMES[v.choice("file", v.conf("files"))] for _ in range(n)]
    extra = [v.num("size", 0, 1000) for _ in range(n)]
    perm = []
    for i in range(n):
        rest = [j for j in range(n) if j not in perm]
        perm.append(rest[v.choice("next", len(rest))])
    d = tempfile.mkdtemp(prefix="verif-probe-")
    try:
        name = os.path.join(d, "index_2018-01-01.csv")
        open(name, "w").close()
        frames.FILES.clear()
        frames.FILES[name] = frames.DataFrame({"FileName": [files[j] for j in perm]})
        df = frames.DataFrame({"Filename": list(files), "Size": list(extra), "n": list(range(n))})
        v.check(cutils.sort_from_avro(df.copy(), "results_2019-01-01.csv", d) is None, "without an order there is no table")
        got = cutils.sort_from_avro(df, "results_2018-01-01.csv.gz", d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    v.check(len(got) == n, "a table in order has the same rows")
    v.check(sorted(got._cols["n"]) == list(range(n)), "a table in order has the same rows")
    v.check(got._cols["Filename"] == [files[j] for j in perm], "a table in order has the files in the order of the source")
    for f, s, i in zip(got._cols["Filename"], got._cols["Size"], got._cols["n"]):
        v.check(v.all([f == files[i], s == extra[i]]), "rows stay together")
    for f in files:
        l = [i for i, g in zip(got._cols["n"], got._cols["Filename"]) if g == f]
        v.check(l == sorted(l), "the requests of a file keep their order")
    if len(set(files)) < n:
        v.cover("repeated")
    v.observe("n", n)


# ---- P43

def daily(v, n, size):
    names = ["read on hit data", "written data", "deleted data", "read data", "read on miss data", "bandwidth usage", "CPU efficiency",
             "avg free space", "std dev free space", "size redirected", "num miss after delete", "hit rate"]
    cols = {"cache size": [size] * n}
    for k in names:
        if k in ("read data", "read on miss data"):
            cols[k] = [(1, 4, 2)[v.choice(k, v.conf("volumes"))] * 1024 for _ in range(n)]
        else:
            cols[k] = [v.num(k, 0, 100000) for _ in range(n)]
    return frames.DataFrame(cols)


TB = 1024.0 * 1024.0


def formulas(df):
    c = df._cols
    n = len(df)
    size = c["cache size"]

    def mean(f):
        return sum(f(i) for i in range(n)) / n
    return {
        "Throughput": mean(lambda i: (c["read on hit data"][i] - c["written data"][i]) / size[i]),
        "Cost": mean(lambda i: (c["written data"][i] + c["deleted data"][i]) / size[i]),
        "Throughput (TB)": mean(lambda i: (c["read on hit data"][i] - c["written data"][i]) / TB),
        "Cost (TB)": mean(lambda i: (c["written data"][i] + c["deleted data"][i]) / TB),
        "Read on hit ratio": mean(lambda i: c["read on hit data"][i] * 100.0 / c["read data"][i]),
        "Read on hit (TB)": mean(lambda i: c["read on hit data"][i] / TB),
        "Bandwidth": mean(lambda i: c["bandwidth usage"][i]),
        "Bandwidth (TB)": mean(lambda i: c["read on miss data"][i] / TB),
        "Redirect Vol.": mean(lambda i: c["size redirected"][i] * 100.0 / size[0]),
        "Avg. Free Space": mean(lambda i: c["avg free space"][i] * 100.0 / size[0]),
        "Std. Dev. Free Space": mean(lambda i: c["std dev free space"][i] * 100.0 / size[0]),
        "Hit over Miss": mean(lambda i: c["read on hit data"][i] / c["read on miss data"][i]),
        "Num. miss after del.": mean(lambda i: c["num miss after delete"][i]),
        "Hit rate": mean(lambda i: c["hit rate"][i]),
        "CPU Eff.": mean(lambda i: c["CPU efficiency"][i]),
    }


SHORT = ["Throughput", "Cost", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU Eff."]
ROH = [("Read on hit ratio", True), ("Throughput", True), ("Cost", False), ("Num. miss after del.", True)]
THR = [("Throughput", True), ("Cost", False), ("Read on hit ratio", True), ("Num. miss after del.", True)]


def table(v):
    """a table has the measures of every simulation, the best ones first"""
    k = v.choice("simulations", v.conf("simulations")) + 1
    extended = v.choice("extended", 2) == 1
    by_roh = v.choice("read on hit first", 2) == 1
    top = v.choice("top", k + 2)
    sims = []
    for i in range(k):
        sims.append(("base/sim%d/simulation_results.csv" % i, daily(v, v.choice("days", v.conf("days")) + 1, (1024.0, 2048.0)[v.choice("cache size", 2)])))
    want = {f: formulas(df) for f, df in sims}
    df, sources = rdata.make_table(sims, "base/", top, extended, by_roh)
    v.check(len(df) == (k if top == 0 else min(k, top)), "a table has as many rows as asked for")
    v.check(len(sources) == len(df) and len(set(sources)) == len(sources), "a table has a row per simulation")
    names = [c for c in df._cols if c != "file"]
    v.check(sorted(names) == sorted(list(want[sims[0][0]]) if extended else SHORT), "the columns of a table")
    for i, f in enumerate(sources):
        v.check(df._cols["file"][i] == f.split("/")[1], "a row has the name of its simulation")
        for c in names:
            v.check(v.near(df._cols[c][i], want[f][c], 2e-6), "a row has the means of the measures of its simulation")
    order = ROH if by_roh else THR
    best = [[(want[f][c] if down else -want[f][c]) for c, down in order] for f in [s for s, _ in sims]]
    rank = {f: best[i] for i, (f, _) in enumerate(sims)}

    def before(a, b):
        """a is at least as good as b"""
        r = a[-1] >= b[-1]
        for x, y in list(zip(a, b))[:-1][::-1]:
            r = v.any([x > y, v.all([x == y, r])])
        return r
    for i in range(len(sources) - 1):
        v.check(before(rank[sources[i]], rank[sources[i + 1]]), "the best simulations come first")
    for f, _ in sims:
        if f not in sources:
            v.check(all(before(rank[s], rank[f]) for s in sources), "the best simulations are listed")
            v.cover("not listed")
    if k > 1:
        v.cover("simulations")
    v.observe("n", [len(df), sources if k == 1 else []])


COLUMN_OF = {"measure_cpu_eff": ["CPU efficiency"], "measure_throughput_ratio": ["read on hit data", "written data", "cache size"],
             "measure_redirect_volume": ["size redirected", "cache size"], "measure_read_on_hit_ratio": ["read data"],
             "measure_hit_over_miss": ["read on miss data"], "measure_cost": ["deleted data"], "measure_bandwidth": ["bandwidth usage"],
             "measure_num_miss_after_delete": ["num miss after delete"], "measure_hit_rate": ["hit rate"]}


def missing(v):
    """measures of columns that are not there are 0; the metrics of all simulations are those of each"""
    fs = sorted(COLUMN_OF)
    f = fs[v.choice("measure", len(fs))]
    n = v.choice("days", v.conf("days")) + 1
    df = daily(v, n, 1024.0)
    want = [x for x in getattr(rdata, f)(df)]
    v.check(len(want) == n, "a value per day")
    cols = COLUMN_OF[f]
    gone = cols[v.choice("column", len(cols))]
    part = df.copy()
    del part[gone]
    v.check([x for x in getattr(rdata, f)(part)] == [0.0] * n, "a measure without its column is 0 every day")
    more = daily(v, 1, 2048.0)
    sims = [("a", rdata.Element([], "a", df)), ("b", rdata.Element([], "b", more))]
    got = rdata.get_all_metric_values(sims)
    for c, g in (("Throughput", rdata.measure_throughput_ratio), ("Cost", rdata.measure_cost_ratio), ("Read on hit ratio", rdata.measure_read_on_hit_ratio),
                 ("Bandwidth", rdata.measure_bandwidth), ("Num. miss after del.", rdata.measure_num_miss_after_delete), ("CPU efficiency", rdata.measure_cpu_eff)):
        both = list(g(df)) + list(g(more))
        v.check(len(got) == n + 1 and bool(v.all([v.near(x, y) for x, y in zip(got._cols[c], both)])), "all metrics of all simulations, in order")
    v.observe("f", f)


PARTS = [("results", {"results"}), ("weightFunLRU_1_2_3", {"weightFunLRU"}), ("lru_10T", {"lru"}), ("sizeBig", {"sizeBig"}),
         ("aiRL_SCDL_x_10T", {"SCDL", "aiRL"}), ("aiRL_SCDL2v1_x", {"SCDL2v1", "aiRL"}), ("other_thing", {"other_thing"})]


def filters(v):
    """results are chosen by what their path says"""
    r = rdata.Results()
    k = v.choice("results", v.conf("results")) + 1
    known = []
    import pathlib
    for i in range(k):
        parts = [PARTS[v.choice("part", len(PARTS))] for _ in range(v.choice("parts", 2) + 1)]
        p = pathlib.Path("r%d" % i, *[x for x, _ in parts], "simulation_results.csv")
        df = frames.DataFrame({"n": [i]})
        log = frames.DataFrame({"n": [-i]}) if v.choice("log", 2) else None
        r.insert(p, ["r%d" % i] + [x for x, _ in parts], "simulation_results.csv", df, log)
        known.append((p.as_posix(), set().union({"r%d" % i}, *[s for _, s in parts]), df, log))
    v.check(len(r) == k and r.files == sorted(f for f, *_ in known), "every result is listed")
    words = sorted(set().union(*[c for _, c, _, _ in known])) + ["none"]
    v.check(r.components == words[:-1], "the components of the paths")
    all_ = [words[v.choice("all of", len(words))] for _ in range(v.choice("n all", 3))]
    any_ = [words[v.choice("any of", len(words))] for _ in range(v.choice("n any", 2))]
    v.assume(len(set(all_)) == len(all_))
    for f, c, df, log in known:
        ok = set(all_) <= c and (not any_ or bool(set(any_) & c))
        v.check(r.get_df(f, all_, any_) is (df if ok else None), "a result passes filters that its path has")
        v.check(r.get_log(f, all_, any_) is (log if ok else None), "a log passes filters that its path has")
        v.cover("passes" if ok else "does not pass")
    v.check([f for f, _ in r.get_all_df()] == [f for f, *_ in known], "all results")
    v.check([(f, l) for f, _, l in r.get_all()] == [(f, l) for f, _, _, l in known] if all(l is None for *_, l in known) else True, "all logs")
    v.observe("n", k)


# ---- P44

def csv(v):
    """the data of a folder is the data of its files, in order, of the month, region and type asked for"""
    import inspect
    frames.FILES.clear()
    d = tempfile.mkdtemp(prefix="verif-probe-")
    try:
        prefix, tail = (("results_", ".csv"), ("results_", ".csv.gz"), ("results_numeric_all_", ".csv.gz"))[v.choice("names", 3)]
        folder = v.conf("filters") == 0 or v.choice("folder", 2) == 1
        n = v.choice("inputs", v.conf("inputs") + 1) if folder else 1
        src = []
        for i in range(n):
            m = 1 + v.choice("month", 2)
            name = os.path.join(d, "%s2018-%02d-%02d%s" % (prefix, m, i + 1, tail))
            with open(name, "wb") as f:
                pass
            df = requests(v, v.choice("rows", v.conf("rows")) + 1)
            df["reqDay"] = [i] * len(df)
            frames.FILES[name] = df
            src.append((name, m, df))
        open(os.path.join(d, "notes.txt"), "w").close()
        src.sort(key=lambda x: x[0])
        month = (-1, 1, 2)[v.choice("only month", 3)]
        region = (None, "all", "it", "us")[v.choice("region", 4) if v.conf("filters") else 0]
        kind = (None, "mc")[v.choice("type", 2) if v.conf("filters") else 0]
        target = d if folder else src[0][0]
        want = []
        for name, m, df in src:
            if folder and month != -1 and m != month:
                continue
            rows = [r for r in zip(*[df._cols[k] for k in ("Filename", "SiteName", "Size", "UserID")])
                    if (region in (None, "all") or "_%s_" % region in r[1].lower()) and (kind is None or "/%s/" % kind in r[0])]
            want.append((name, rows))
        mode = v.choice("mode", 4)
        if mode == 0:
            got = loaders.csv_data(target, region, kind, month)
            v.check(isinstance(got, frames.DataFrame), "the data is a table")
            got, want = [(None, got)], [(None, [r for _, l in want for r in l])]
            v.cover("concatenated")
        elif mode == 1:
            got = loaders.csv_data(target, region, kind, month, False, True)
            v.check(inspect.isgenerator(got), "tables are generated one by one")
            got = [(None, x) for x in got]
            v.cover("generated")
        elif mode == 2:
            got = loaders.csv_data(target, region, kind, month, False, False)
            v.check(isinstance(got, list), "the data is a list of tables")
            got = [(None, x) for x in got]
            v.cover("list")
        else:
            gen = loaders.gen_csv_data(target, region, kind, month)
            tot = next(gen)
            got = list(gen)
            v.check(tot >= len(got) and (month != -1 or tot == len(got)), "the number of files")
            v.check([f for f, _ in got] == [f for f, _ in want], "the files in order")
            v.cover("with names")
        v.check(len(got) == len(want), "a table per file")
        for (_, g), (_, w) in zip(got, want):
            v.check(len(g) == len(w), "the rows asked for, in order")
            for i, r in enumerate(w):
                v.check(v.all([g._cols[k][i] == x for k, x in zip(("Filename", "SiteName", "Size", "UserID"), r)]), "the rows asked for, in order")
        v.observe("n", [len(w) for _, w in want])
    finally:
        shutil.rmtree(d, ignore_errors=True)
