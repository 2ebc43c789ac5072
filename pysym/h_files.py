"""P33: slices, random access and iteration of data files; P34: what is written is read back."""
import io, json, os, tempfile, shutil, sys
import fake_avro
sys.modules.setdefault("fastavro", fake_avro)
from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
from DataManager.collector.datafile.avro import AvroDataFileReader, AvroDataFileWriter
from DataManager.collector.datafile.utils import gen_increasing_slice
from DataManager.collector.api import DataFile
from sym import PathStop


def opt(v, name, lo, hi):
    """a bound of a slice: none or a number"""
    return None if v.choice(name + " absent", 2) == 1 else v.int(name, lo, hi)


def slices(v):
    hi = v.conf("top")
    start = opt(v, "start", 0, hi)
    stop = v.int("stop", 0, hi)
    step = opt(v, "step", 1, hi)
    a = 0 if start is None else start
    s = 1 if step is None else step
    back = bool(a > stop)
    if back:
        v.assume(s == 1)
    got = list(gen_increasing_slice(slice(start, stop, step)))
    if not back:
        v.cover("forward")
        cur, k = a, 0
        while cur < stop:
            v.check(k < len(got), "every index of the slice is there")
            v.check(got[k] == cur, "the indexes grow by the step from the start")
            k += 1
            cur = cur + s
        v.check(k == len(got), "no index at or beyond the stop")
    else:
        v.cover("backward")
        v.check(len(got) == a - stop, "a backward slice covers from after the stop to the start")
        for k, x in enumerate(got):
            v.check(x == stop + 1 + k, "a backward slice is given in increasing order")
    v.observe("n", len(got))


def slice_wrong(v):
    """no stop and negative bounds are refused"""
    how = v.choice("case", 2)
    if how == 0:
        s = slice(v.int("start", 0, 5), None, None)
    else:
        s = slice(v.int("start", -5, -1), v.int("stop", 0, 5), None)
    failed = False
    try:
        list(gen_increasing_slice(s))
    except Exception:
        failed = True
    v.check(failed, "a slice without stop or with a negative start is refused")


def records(n, longest):
    return [{"id": i, "text": "x" * (1500 if i == longest else i % 3)} for i in range(n)]


def text(recs):
    return b"".join(json.dumps(r).encode("utf-8") + b"\n" for r in recs)


def positions(recs):
    pos, out = 0, []
    for r in recs:
        out.append(pos)
        pos += len(json.dumps(r)) + 1
    return out


def ident(r):
    return r["id"] if isinstance(r, dict) else -1


def open_reader(v, recs):
    kind = v.conf("format")
    if kind == "avro":
        return AvroDataFileReader(fake_avro.file_of(recs)), None
    if kind == "bytes":
        return JSONDataFileReader(descriptor=io.BytesIO(text(recs))), None
    d = tempfile.mkdtemp(prefix="verif-files-")
    name = os.path.join(d, "data.json" + {"plain": "", "gz": ".gz", "bz2": ".bz2"}[kind])
    import gzip, bz2
    op = {"plain": open, "gz": gzip.open, "bz2": bz2.open}[kind]
    with op(name, "wb") as f:
        f.write(text(recs))
    return JSONDataFileReader(name), d


def reader(v):
    n = v.choice("records", v.conf("records") + 1)
    longest = v.choice("long record", min(n, 1) + 1) - 1   # none or the first
    recs = records(n, longest)
    rd, d = open_reader(v, recs)
    try:
        for _ in range(v.conf("ops")):
            access(v, rd, recs)
        v.observe("n", n)
    finally:
        rd.__exit__(None, None, None)
        if d:
            shutil.rmtree(d)


def ids(l):
    return [ident(x) for x in l]


def access(v, rd, recs):
    n, js = len(recs), v.conf("format") != "avro"
    op = v.choice("operation", 6 if js else 4)
    if op == 0:
        i = v.int("index", -n - 2 if js else 0, n + 2)
        try:
            got = ident(rd[i])
        except IndexError:
            got = None
        k = int(i)
        want = recs[k]["id"] if -n <= k < n else None
        if js or k < n:
            v.check(got == want, "an index gives the record of that position")
        v.cover("beyond the end" if want is None else ("from the end" if k < 0 else "indexed"))
    elif op == 1:
        start, stop = opt(v, "start", 0, n + 1), v.int("stop", 0, n + 1 if js else n)
        step = opt(v, "step", 1, 2)
        a = 0 if start is None else start
        if bool(a > stop):
            v.assume(step is None or step == 1)
            if not js:
                v.assume(a < n)
            got = ids(rd[start:stop:step])
            want = ids(recs[int(stop) + 1:int(a) + 1])[::-1]
            v.cover("backward slice")
        else:
            got = ids(rd[start:stop:step])
            want = ids(recs[int(a):int(stop):1 if step is None else int(step)])
            v.cover("slice")
        v.check(got == want, "a slice gives the records of its positions")
    elif op == 2:
        v.check(len(rd) == n, "the length is the number of records")
    elif op == 3:
        if v.choice("how", 2) == 0:
            got = [ident(x) for x in rd]
        else:
            got = ids(list(rd))
        v.check(got == ids(recs), "reading through gives every record once in order")
        v.cover("read through")
    elif op == 4:
        i = v.int("from", 0, n + 1)
        got = [ident(x) for x in rd.start_from(i)]
        v.check(got == ids(recs[int(i):]), "starting from a position gives the records from there")
        v.cover("started from")
    else:
        if n == 0:
            return
        i = v.choice("checkpoint", n)
        rd.add_checkpoint(i, positions(recs)[i])
        v.cover("checkpoint")


def checkpoints(v):
    """the positions that a reader was told about change nothing"""
    n = v.conf("records")
    recs = records(n, -1)
    rd = JSONDataFileReader(descriptor=io.BytesIO(text(recs)))
    for _ in range(v.choice("checkpoints", 2) + 1):
        i = v.choice("checkpoint", n)
        rd.add_checkpoint(i, positions(recs)[i])
    for _ in range(v.conf("ops")):
        i = v.choice("position", n + 1)
        if v.choice("operation", 2) == 0:
            v.check([ident(x) for x in rd.start_from(i)] == ids(recs[i:]), "starting from a position gives the records from there")
            v.cover("started from")
        elif i < n:
            v.check(ident(rd[i]) == recs[i]["id"], "an index gives the record of that position")
            v.cover("indexed")
    v.observe("n", n)


def writer(v):
    kind = v.conf("format")
    d = None
    recs = []
    if kind == "bytes":
        buf = io.BytesIO()
        mk = lambda data, append: JSONDataFileWriter(descriptor=buf, data=data, append=append)
    else:
        d = tempfile.mkdtemp(prefix="verif-files-")
        name = os.path.join(d, "data.json" + {"plain": "", "gz": ".gz", "bz2": ".bz2"}[kind])
        mk = lambda data, append: JSONDataFileWriter(name, data=data, append=append)
    try:
        count = [0]

        def some(v):
            form = v.choice("form", 7)
            k = v.choice("how many", 3) if form >= 2 else 1
            new = []
            for _ in range(k):
                new.append({"id": count[0], "t": "é\n" * (count[0] % 2)})
                count[0] += 1
            if form == 0:
                data = new[0]
            elif form == 1:
                data = json.dumps(new[0])
            elif form == 2:
                data = list(new)
            elif form == 3:
                data = [json.dumps(x) for x in new]
            elif form == 4:
                data = (x for x in list(new))
            elif form == 5:
                data = [x if i % 2 else json.dumps(x, indent=1) for i, x in enumerate(new)]
            else:
                data = (json.dumps(x) for x in list(new))
            return data, new
        first = None
        if v.choice("initial data", 2) == 1:
            first, new = some(v)
            recs += new
            v.cover("initial data")
        w = mk(first, False)
        for _ in range(v.conf("appends")):
            data, new = some(v)
            w.append(data)
            recs += new
        if kind == "bytes":
            v.check(ids(JSONDataFileReader(descriptor=io.BytesIO(w.raw_data))) == ids(recs), "what was appended is read back in order")
            got = [json.loads(x) for x in w.raw_data.decode("utf-8").splitlines()]
            v.check(got == recs, "every record is one line of JSON text")
            v.check(ids(DataFile(w)) == ids(recs), "a data file of a writer gives its records")
        else:
            w.__exit__(None, None, None)
            with JSONDataFileReader(name) as r:
                v.check([x for x in r] == recs, "what was appended is read back in order")
            if v.choice("append later", 2) == 1:
                data, new = some(v)
                with mk(None, True) as w:
                    w.append(data)
                recs += new
                v.cover("appended later")
                with JSONDataFileReader(name) as r:
                    v.check([x for x in r] == recs, "appending to a file keeps what it held")
        v.observe("n", len(recs))
    finally:
        if d:
            shutil.rmtree(d)


def writer_wrong(v):
    """what is no JSON object or text is refused and nothing of it is written"""
    buf = io.BytesIO()
    w = JSONDataFileWriter(descriptor=buf)
    w.append({"id": 0})
    how = v.choice("what", 4)
    bad = [5, ['{"id": 1'], "{", None][how]
    failed = False
    try:
        w.append(bad)
    except Exception:
        failed = True
    v.check(failed, "what is no JSON text is refused")
    v.check(ids(JSONDataFileReader(descriptor=io.BytesIO(w.raw_data))) == [0], "nothing is written of what is refused")


def avro_value(v, kind, i):
    """a value of a kind; i: which of its values"""
    return {"int": [0, -7, 1 << 40], "float": [0.5, 0.1, -1e300], "bool": [True, False, True], "text": ["", "\u00e8 x", "y" * 200], "null": [None] * 3,
            "ints": [[1, 2], [3], [1 << 33, -1, 0]], "texts": [["a"], ["b", ""], ["c"] * 3], "floats": [[0.1], [2.5, 1e-9], [0.0]],
            "map": [{"a": 1}, {"b": 2, "c": 3}, {"a": -1}], "record": [{"a": 1, "b": "x"}, {"a": -5, "b": ""}, {"a": 0, "b": "z"}],
            "bytes": [b"", b"\x00\xff", b"q" * 70], "maps": [{"x": {"y": 1}}, {"x": {"y": 2, "z": 3}}, {"x": {"y": -1}}],
            "deep": [{"r": {"a": 1, "b": "x"}, "s": {"a": 2, "b": 0.1}}, {"r": {"a": 3, "b": ""}, "s": {"a": -2, "b": 0.7}}, {"r": {"a": 0, "b": "y"}, "s": {"a": 5, "b": 1e300}}]}[kind][i]


AVRO = ["int", "float", "bool", "text", "null", "ints", "texts", "floats", "map", "record", "bytes", "maps", "deep"]


def exact(a, b):
    """equal, and of the same types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b


def avro(v):
    """records of the same fields, of the same types, in an avro file"""
    import mini_avro
    fake_avro.BACKEND = mini_avro
    d = tempfile.mkdtemp(prefix="verif-files-")
    try:
        kinds = [AVRO[v.choice("kind", len(AVRO))] for _ in range(v.choice("fields", v.conf("fields")) + 1)]
        sofar = []

        def some():
            new = []
            for _ in range(v.choice("how many", v.conf("records")) + 1):
                i = (len(sofar) + len(new)) % 3
                new.append({"f%d" % k: avro_value(v, x, i) for k, x in enumerate(kinds)})
            sofar.extend(new)
            return new[0] if len(new) == 1 and v.choice("alone", 2) == 0 else new
        where = v.choice("where", 2)
        target = io.BytesIO() if where == 0 else os.path.join(d, "x.avro")
        w = AvroDataFileWriter(target, data=some() if v.choice("initial data", 2) == 1 else None)
        for _ in range(v.choice("appends", v.conf("appends") + 1)):
            if v.choice("look at it", 2) == 1:
                raw = w.raw_data
                v.check(exact(list(AvroDataFileReader(io.BytesIO(raw))) if raw else [], sofar), "records of an avro file are read back in order")
            w.append(some())
            v.cover("appended")
        if not sofar:
            return
        raw = w.raw_data
        v.check(exact([x for x in AvroDataFileReader(io.BytesIO(raw))], sofar), "records of an avro file are read back in order")
        if where == 1:
            w.__exit__(None, None, None)
            with AvroDataFileReader(target) as r:
                v.check(exact([x for x in r], sofar) and len(r) == len(sofar), "records of an avro file are read back in order")
            v.check(exact([x for x in DataFile(target)], sofar), "a data file gives the records of an avro file")
            v.cover("file")
        v.observe("n", len(sofar))
    finally:
        fake_avro.BACKEND = None
        shutil.rmtree(d)
