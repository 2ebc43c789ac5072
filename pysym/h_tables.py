"""P39: support tables and train sets; P40: converter maps of simulator datasets."""
import sys, os, io, json, gzip, tempfile, shutil
import fake_avro
sys.modules.setdefault("fastavro", fake_avro)
import numpy as np
import DataManager.collector.dataset.reader as reader_mod
import DataManager.collector.dataset.utils as dutils
import DataManager.collector.datafeatures.extractor as extractor
from DataManager.collector.dataset.utils import SupportTable
from DataManager.collector.dataset.reader import CMSDatasetTest0Reader, SimulatorDatasetReader

WORDS = ["b", "A", "c", "Bx", "a_1"]
UNKNOWN = "__unknown__"


def prefixes(table, value):
    return [k for k in table if value.startswith(k)]


def check_table(v, values, table):
    """values: the set that was inserted"""
    v.check(set(table) == values, "a table has the inserted values")
    v.check(sorted(table.values()) == list(range(len(values))), "the indexes are 0 to n-1, each once")
    order = sorted(table, key=lambda k: table[k])
    v.check(all(order[i].lower() <= order[i + 1].lower() for i in range(len(order) - 1)), "indexes follow the order of the values")


def closest(v, table, value, got):
    p = prefixes(table, value)
    if not p:
        v.check(got == table[UNKNOWN], "a value that no entry begins is unknown")
        v.cover("unknown")
    elif len(p) == 1:
        v.check(got == table[p[0]], "a value has the index of the entry that begins it")
    else:
        v.check(got in [table[k] for k in p], "a value has the index of an entry that begins it")


def tables(v):
    """any history of insertions, indexing and conversions"""
    t = SupportTable()
    model, current = {}, {}
    feats = ["x", "y"]
    for _ in range(v.conf("ops")):
        op = v.choice("op", 4)
        if op == 0:
            f = feats[v.choice("feature", 2)]
            w = WORDS[v.choice("word", v.conf("words"))]
            t.insert("t", f, w)
            model.setdefault(f, {UNKNOWN}).add(w)
        elif op == 1:
            t.gen_indexes()
            current = {f: set(s) for f, s in model.items()}
            for f in current:
                check_table(v, current[f], t.t[f])
            v.check(t.list == (["t"] if current else []), "the tables with indexes are listed")
        elif op == 2:
            if not current:
                continue
            w = (WORDS + ["Axx", "zz"])[v.choice("value", v.conf("words") + 2) if v.conf("words") == len(WORDS) else v.choice("value", v.conf("words"))]
            for f in current:
                got = t.get_close_value("t", f, w)
                closest(v, t.t[f], w, got)
                if w in current[f]:
                    v.check(t.get_value("t", f, w) == t.t[f][w], "the index of an entry")
                v.check(t.get_len("t", f) == len(current[f]), "the size of a table")
            v.cover("converted")
        else:
            if not current:
                continue
            if v.choice("reloaded", 2):
                u = SupportTable(json.loads(json.dumps(t.to_dict())))
            else:
                u = SupportTable.__new__(SupportTable)
                u.__setstate__(t.__getstate__())
            data = {f: WORDS[v.choice("value", v.conf("words"))] for f in current}
            normalized = v.choice("normalized", 2) == 1
            a = t.close_conversion("t", data, normalized=normalized, one_hot=not normalized)
            b = u.close_conversion("t", data, normalized=normalized, one_hot=not normalized)
            v.check(a == b, "a restored table converts as before")
            if normalized:
                v.check(len(a) == len(current), "a number per feature")
                for f, x in zip(sorted(current), a):
                    i = x * len(current[f])
                    v.check(0 <= x < 1, "normalised numbers are in [0, 1)")
                    closest(v, t.t[f], data[f], round(i))
            else:
                v.check(len(a) == sum(len(s) for s in current.values()), "a one hot vector per feature")
                at = 0
                for f in sorted(current):
                    part = a[at:at + len(current[f])]
                    at += len(current[f])
                    v.check(sorted(part) == [0.] * (len(part) - 1) + [1.], "one hot vectors have a single one")
                    closest(v, t.t[f], data[f], part.index(1.))
            v.cover("vectors")
    v.observe("n", {f: sorted(s) for f, s in current.items()})


class Items(list):
    pass


def reader(v):
    """train sets: every record is in the train or in the validation set of a fold"""
    v.shim(extractor)
    n = v.choice("records", v.conf("records")) + 1
    names = ["mc", "data-x", "mc_y"]
    first = {"mc": "mc", "data-x": "data", "mc_y": "mc"}
    recs = Items()
    for i in range(n):
        recs.append({"features": {"store": names[v.choice("name", v.conf("names"))], "site": "s%d" % (i % 2)},
                     "class": ("bad", "good")[v.choice("class", 2)], "id": str(i), "tot_requests": 1 + v.choice("requests", v.conf("requests")),
                     "tot_wrap_cpu": v.num("cpu", 0, 1000)})
    r = CMSDatasetTest0Reader.__new__(CMSDatasetTest0Reader)
    r._collector, r._score_avg, r._support_table = recs, 0.0, SupportTable()
    v.check(len(r) == n, "the number of records")
    r.gen_support_table()
    st = r.support_table
    check_table(v, {first[x["features"]["store"]] for x in recs} | {UNKNOWN}, st.features["store"])
    classes = sorted({x["class"] for x in recs})
    v.check(st.classes["class"] == {c: i for i, c in enumerate(classes)}, "classes are numbered in order")
    v.check(r.get_num_classes() == len(classes), "the number of classes")
    folds = v.choice("folds", v.conf("folds") + 1)
    v.assume(folds <= n)
    normalized = v.choice("normalized", 2) == 1
    labels = v.choice("one hot labels", 2) == 1

    def row(x):
        res = []
        for f in ("site", "store"):
            t = st.features[f]
            k = x["features"][f].replace("_", "-").split("-")[0]
            i = t[k]
            res += [i / len(t)] if normalized else [1. if j == i else 0. for j in range(len(t))]
        return res

    def label(x):
        i = classes.index(x["class"])
        return [1. if j == i else 0. for j in range(len(classes))] if labels else i

    exp = [(row(x), label(x)) for x in recs]
    if not folds and not normalized and not labels:
        got = list(r.train_set())
    else:
        got = list(r.train_set(k_fold=folds, normalized=normalized, one_hot=not normalized, one_hot_labels=labels))
    v.check(len(got) == max(folds, 1), "a train set per fold")
    size = n // folds if folds else n

    def pairs(a, b):
        a, b = [x.tolist() for x in a], [x.tolist() for x in b]
        v.check(len(a) == len(b), "a label per row")
        return list(zip(a, b))

    for i, (a, b, val) in enumerate(got):
        t = pairs(a, b)
        if folds == 0:
            v.check(t == exp and val is None, "without folds all records are for training")
        else:
            w = pairs(*val)
            v.check(w == exp[i * size:(i + 1) * size], "the folds are validated in order")
            v.check(t == exp[:i * size] + exp[(i + 1) * size:], "every record outside of the fold is for training")
    v.cover("folds" if folds > 1 else "whole")
    v.check(v.all([v.near(s * x["tot_requests"], x["tot_wrap_cpu"], 1e-6) for s, x in zip(r.scores, recs)]), "scores are mean CPU times")
    v.check(v.near(r.score_avg * n, sum(r.scores), 1e-6), "the mean score")
    v.observe("n", n)


# ---- converter maps ----
class Series(list):
    """a column of a frame"""

    def astype(self, t):
        return Series(t(x) for x in self)

    def to_list(self):
        return list(self)

    def to_numpy(self):
        return np.array(list(self), dtype=object)


class Frame:
    def __init__(self, rows=None, columns=None, cols=None):
        if cols is not None:
            self.cols = cols
        else:
            self.cols = {c: Series(r[i] for r in rows) for i, c in enumerate(columns)}

    columns = property(lambda s: list(s.cols))

    def __getitem__(self, c):
        return self.cols[c]

    def __setitem__(self, c, x):
        self.cols[c] = Series(x)

    def join(self, o, how=None):
        return Frame(cols=dict(self.cols, **o.cols))

    def to_numpy(self):
        k = list(self.cols)
        n = len(self.cols[k[0]]) if k else 0
        a = np.empty((n, len(k)), dtype=object)
        for j, c in enumerate(k):
            for i in range(n):
                a[i, j] = self.cols[c][i]
        return a


class FakePandas:
    DataFrame = Frame


def converter(v):
    """every value of a column gets the category of the map, as one hot vector at the index of the map"""
    reader_mod.pd = FakePandas
    kind = v.conf("kind")
    n = v.conf("rows")
    unknown = v.choice("unknown values", 2) == 1
    sort = v.choice("sorted", 2) == 1
    r = SimulatorDatasetReader()
    root = tempfile.mkdtemp(prefix="verif")
    try:
        r._data_dir = root
        if kind == "buckets":
            # whole or half numbers against integer bounds
            opened = v.choice("open", 2) == 1
            mk = (lambda a: v.num(a, -2, 6, 2)) if opened else (lambda a: v.int(a, -2, 6))
            xs = [mk("x") for _ in range(n)]
            ys = [mk("y") for _ in range(n)]
            bounds = [i for i in range(v.conf("top")) if v.choice("bound", 2)]
            v.assume(len(bounds) > 0)
        elif kind == "int":
            xs = [int(v.int("x", -1, 2)) for _ in range(n)]
            ys = xs
        elif kind == "float":
            xs = [float(v.num("x", 0, 1, 2)) for _ in range(n)]
            ys = xs
        elif kind == "bool":
            xs = [bool(v.bool("x")) for _ in range(n)]
            ys = xs
        else:
            xs = [("a", "B", "c d")[v.choice("x", 3)] for _ in range(n)]
            ys = xs
        classes = [v.choice("label", 2) for _ in range(n)]
        r._df = Frame(cols={"x": Series(xs), "y": Series(ys), "label": Series(classes)})
        typ = dict(int=int, float=float, bool=bool, str=str, buckets=int)[kind]
        if kind == "buckets":
            r.make_converter_map(["x", "y"], unknown_values=unknown, sort_keys=sort, map_type=int, buckets=bounds + (["..."] if opened else []))
        else:
            r.make_converter_map(["x"], unknown_values=unknown, sort_keys=sort, map_type=typ)
        cols = ["x", "y"] if kind == "buckets" else ["x"]
        start = 1 if unknown else 0
        index = {}
        for c in cols:
            m = r._converter_map[c]
            keys = m["keys"]
            v.check(m["feature"] == c, "a map has the name of its column")
            v.check(m["type"] == dict(int="int", float="float", bool="bool", str="string", buckets="int")[kind], "a map has the type of its values")
            if kind == "buckets":
                v.check(keys == bounds, "the bounds are the keys of each column")
                v.check(m["bucket_open_right"] == opened, "each column has open buckets if asked for")
            else:
                v.check(len(keys) == len(set(xs)) and set(keys) == set(xs), "the keys are the values of the column")
                if sort:
                    v.check(list(keys) == sorted(keys), "sorted keys")
            text = {k: ("%0.2f" % k if isinstance(k, float) else str(k)) for k in keys}
            v.check(sorted(m["values"].values()) == list(range(start, start + len(m["values"]))), "the indexes follow each other")
            v.check(len(m["values"]) == len(keys) + (1 if kind == "buckets" and opened else 0), "an index per category")
            for i, k in enumerate(keys):
                v.check(m["values"][text[k]] == i + start, "keys are numbered in order")
            index[c] = m, text, keys
        r.store_converter_map("conv")
        with gzip.open(os.path.join(root, "conv.json.gz")) as fh:
            v.check(json.loads(fh.read()) == json.loads(json.dumps(r._converter_map)), "the stored map is the map")
        # which values can be converted
        if kind == "buckets":
            for c, l in (("x", xs), ("y", ys)):
                for x in l:
                    if not opened:
                        v.assume(v.any([x == k for k in bounds] + [unknown]))
        labelmap = v.choice("label map", 2) == 1
        if labelmap:
            r.make_converter_map(["label"], unknown_values=v.choice("unknown labels", 2) == 1, sort_keys=True)
        cnn = v.choice("cnn", 2) == 1
        r.make_data_and_labels(cols, "label" if v.choice("named", 2) else "", for_cnn=cnn)
        data, labels = r.data
        width = {c: len(index[c][0]["values"]) + start for c in cols}
        v.check(data.shape == ((n, sum(width.values()), 1) if cnn else (n, sum(width.values()))), "the shape of the data")
        for i in range(n):
            line = [x if not cnn else x[0] for x in data[i].tolist()]
            at = 0
            for c, l in zip(cols, (xs, ys)):
                m, text, keys = index[c]
                part = line[at:at + width[c]]
                at += width[c]
                v.check(sorted(part) == [0.] * (len(part) - 1) + [1.], "one hot vectors have a single one")
                got = part.index(1.)
                x = l[i]
                if kind == "buckets" and opened:
                    exp = None
                    for k in bounds:
                        if x <= k:
                            exp = m["values"][str(k)]
                            break
                    else:
                        exp = m["values"]["max"]
                        v.cover("last bucket")
                else:
                    hit = [k for k in keys if x == k]
                    exp = m["values"][text[hit[0]]] if hit else 0
                v.check(got == exp, "a value has the vector of its category")
        for i in range(n):
            if labelmap:
                lm = r._converter_map["label"]
                v.check(labels[i].tolist().count(1) == 1 and labels[i].tolist().index(1) == lm["values"][str(classes[i])], "a label has the vector of its category")
            else:
                v.check(labels[i] == classes[i], "the labels are the label column")
        v.observe("w", sum(width.values()))
    finally:
        shutil.rmtree(root)
