"""P46: the agent sends every record once and reads what the server has; rows of the converters."""
import sys, os, io, json, csv, hashlib, tempfile, shutil, builtins
import types
import fake_avro
sys.modules.setdefault("fastavro", fake_avro)
from DataManager.agent import api, cli
from DataManager.agent.converter.csv import CSVConverter
from DataManager.agent.converter.libSVM import LibSVMConverter

AUTHS = ["", "user:password", "user:pass:word", "user:"]
URLS = ["http://server:9200/index/type", "http://server:9200/index/type/"]
RECORDS = [{"b": 1, "a": "x"}, {"a": "x", "b": 2}, {"a": "two\nlines", "b": None}, {"a": "\u00e8 \"quoted\"", "b": [1.5, {"c": True}]}]


class Response:
    def __init__(self, status, body=None, content=b""):
        self.status_code, self.body, self.content = status, body, content

    @property
    def text(self):
        return json.dumps(self.body)

    def json(self):
        return json.loads(self.text)

    def iter_content(self, n=1):
        pos = 0
        while pos < len(self.content):
            yield self.content[pos:pos + n]
            pos = pos + n


def server(handler):
    """a stand-in for requests: every call goes to handler(method, url, **arguments)"""
    def call(method):
        return lambda url, **k: handler(method, url, **k)
    api.requests = types.SimpleNamespace(get=call("GET"), put=call("PUT"), delete=call("DELETE"), post=call("POST"))


def ident(text):
    return hashlib.blake2s(text.encode("utf-8")).hexdigest()


def password(auth):
    return None if auth == "" else (auth[:auth.index(":")], auth[auth.index(":") + 1:])


class Archive:
    """an Elasticsearch index: records by id, refuses the batch of a call when the status says so"""
    def __init__(self, v, auth, fails):
        self.v, self.auth, self.fails = v, auth, fails
        self.docs, self.sent, self.sizes, self.calls = {}, [], [], 0

    def __call__(self, method, url, **k):
        v = self.v
        base = "http://server:9200/index/type/"
        v.check(url.startswith(base), "the records go to the index")
        v.check(k.get("auth") == self.auth, "the user and password are those given")
        v.check(k["headers"]["Content-Type"] in ("application/json", "application/x-ndjson"), "the records are sent as json")
        if url == base + "_bulk":
            v.check(method in ("PUT", "POST"), "a batch is put")
            body = k["data"]
            v.check(body.endswith("\n"), "a batch ends with a new line")
            lines = body.split("\n")[:-1]
            v.check(len(lines) % 2 == 0, "a batch has a line with the id for each record")
            pairs = [(json.loads(a)["index"]["_id"], json.loads(b)) for a, b in zip(lines[::2], lines[1::2])]
            v.cover("batch")
        else:
            v.check(method == "PUT", "a record is put")
            pairs = [(url[len(base):], json.loads(k["data"]))]
        status = 201
        if self.calls < self.fails:
            status = v.int("status", 200, 500)
            v.assume(v.any([status <= 201, status >= 400]))
        self.calls += 1
        ok = bool(status <= 201)
        if ok:
            for i, r in pairs:
                v.check(self.docs.get(i, r) == r, "different records have different ids")
                self.docs[i] = r
            self.sent += [r for _, r in pairs]
            self.sizes.append(len(pairs))
        self.ok = ok
        return Response(status, {"error": "x"} if not ok else {})


def put(v):
    """every record from the first index on is sent once, in batches of at most the size"""
    n = v.choice("records", v.conf("records") + 1)
    recs = [RECORDS[v.choice("record", v.conf("values"))] for _ in range(n)]
    bulk, start = v.int("bulk", 0, v.conf("bulk")), v.int("start", 0, v.conf("records") + 1)
    auth = AUTHS[v.choice("auth", v.conf("auths"))]
    url = URLS[v.choice("url", v.conf("urls"))]
    a = Archive(v, password(auth), v.conf("fails"))
    server(a)
    root = tempfile.mkdtemp()
    lines = []

    class Parser(cli.argparse.ArgumentParser):
        def parse_known_args(self, *x, **y):
            args, rest = super().parse_known_args(*x, **y)
            args.bulk, args.start_from_index = bulk, start
            return args, rest
    old = cli.argparse, sys.argv
    cli.argparse = types.SimpleNamespace(ArgumentParser=Parser)
    cli.print = lambda *x, **y: lines.append(" ".join(str(i) for i in x)) if x and isinstance(x[0], str) else None
    stopped = False
    try:
        import gzip
        name = os.path.join(root, "data.json.gz")
        with gzip.open(name, "wt") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        sys.argv = ["agent", "put", name, url] + (["--auth", auth] if auth else [])
        try:
            cli.cli_main()
        except SystemExit as e:
            stopped = True
            v.check(e.code not in (0, None), "a refused record is an error of the command")
    finally:
        cli.argparse, sys.argv = old
        del cli.print
        shutil.rmtree(root)
    want = [r for i, r in enumerate(recs) if bool(i >= start)]
    if not stopped:
        v.check(a.calls == 0 or a.ok, "a refused record is not taken as sent")
        v.check(a.sent == want, "every record is sent once and in order")
        v.check(set(a.docs) == {i for i in a.docs} and all(r in list(a.docs.values()) for r in want), "every record is in the archive")
        v.check(("[%d items]" % n) in lines[-1], "the number of records at the end")
        v.cover("sent")
    else:
        v.check(not a.ok, "the command stops only at a refused record")
        v.check(a.sent == want[:len(a.sent)], "what was sent before a refused record is in order")
        v.cover("refused")
    if a.sizes:
        if bool(bulk == 0):
            v.check(max(a.sizes) == 1, "records are sent one by one without a size")
        else:
            v.check(max(a.sizes) <= bulk, "no batch is larger than the size")
            v.check(v.all([s == bulk for s in a.sizes[:-1]]), "only the last batch is smaller than the size")
    v.observe("sizes", a.sizes)


def same_id(v):
    """a record has the same id alone and in a batch"""
    r, s = RECORDS[v.choice("record", len(RECORDS))], RECORDS[v.choice("other", len(RECORDS))]
    a, b = Archive(v, None, 0), Archive(v, None, 0)
    e = api.ElasticSearchHttp(URLS[v.choice("url", 2)], "")
    server(a)
    e.put(r)
    e.put(s)
    server(b)
    with api.ElasticSearchHttp(URLS[v.choice("url", 2)], "") as e:
        e.put([r, s])
    v.check(a.docs == b.docs, "a record has the same id alone and in a batch")
    v.check(v.same(len(a.docs) == 1, json.dumps(r) == json.dumps(s)), "equal records have one id")
    v.cover("sent")
    v.observe("n", len(a.docs))


def get(v):
    """the record or slice that the command shows"""
    n = v.choice("records", v.conf("records")) + 1
    recs = [dict(id=i) for i in range(n)]
    a, b = v.int("start", 0, n - 1), v.int("stop", 0, n + 1)
    root = tempfile.mkdtemp()
    shown = []
    how = v.choice("how", 4)
    if how == 0:
        text, want = "%d" % a, recs[a]
    elif how == 1:
        v.assume(a < b)
        text, want = "[%d:%d]" % (a, b), recs[int(a):int(b)]
        v.cover("slice")
    elif how == 2:
        text, want = "[:%d]" % b, recs[:int(b)]
    else:
        v.assume(a < b)
        s = v.int("step", 1, 3)
        text, want = "[%d:%d:%d]" % (a, b, s), recs[int(a):int(b):int(s)]
    old = sys.argv
    cli.print = lambda *x, **y: shown.append(x[0])
    try:
        import gzip
        name = os.path.join(root, "data.json.gz")
        with gzip.open(name, "wt") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        sys.argv = ["agent", "get", name, text]
        cli.cli_main()
    finally:
        sys.argv = old
        del cli.print
        shutil.rmtree(root)
    got = shown[-1] if isinstance(shown[-1], dict) else list(shown[-1])
    v.check(got == want, "the records of the index or slice are shown")
    v.observe("n", len(want))


class Hdfs:
    """an httpfs server with files and folders"""
    def __init__(self, v, auth, verify, redirects, user, fails):
        self.v, self.auth, self.verify, self.redirects, self.user, self.fails = v, auth, verify, redirects, user, fails
        self.files, self.dirs, self.created, self.failed = {}, {"/"}, None, False

    def exists(self, p):
        return p in self.files or p in self.dirs

    def __call__(self, method, url, **k):
        v, p = self.v, k["params"]
        base = "http://httpfs:14000/webhdfs/v1"
        v.check(url.startswith(base + "/"), "the path is asked below the api of the server")
        path = url[len(base):]
        v.check(k.get("auth") == self.auth and k.get("verify") == self.verify and k.get("allow_redirects") == self.redirects, "the options of the connection are those given")
        v.check(p.get("user.name") == self.user, "the user is the one given")
        self.failed = False
        if self.fails > 0:
            self.fails -= 1
            if v.choice("outcome", 2) == 1:
                self.failed = True
                return Response(403 if v.choice("status", 2) else 500, {"RemoteException": {"message": "refused"}})
        op = (method, p["op"])
        if op == ("PUT", "MKDIRS"):
            if any(path == x or path.startswith(x + "/") for x in self.files):
                self.failed = True
                return Response(403, {"RemoteException": {"message": "is a file"}})
            self.folders(path + "/")
            return Response(200, {"boolean": True})
        if op == ("DELETE", "DELETE"):
            inside = [x for x in list(self.files) + list(self.dirs) if x.startswith(path + "/")]
            if not self.exists(path):
                return Response(200, {"boolean": False})
            if inside and not p["recursive"]:
                self.failed = True
                return Response(403, {"RemoteException": {"message": "not empty"}})
            for x in inside + [path]:
                self.files.pop(x, None)
                self.dirs.discard(x)
            return Response(200, {"boolean": True})
        if op == ("GET", "LISTSTATUS"):
            if not self.exists(path):
                self.failed = True
                return Response(404, {"RemoteException": {"message": "not found"}})
            return Response(200, {"FileStatuses": {"FileStatus": [dict(type=t, pathSuffix=n) for t, n in self.listing(path)]}})
        if op == ("GET", "OPEN"):
            v.check(k.get("stream") is True, "a file is read as a stream")
            if path not in self.files:
                self.failed = True
                return Response(404, {"RemoteException": {"message": "not found"}})
            return Response(200, content=self.files[path])
        if op == ("PUT", "CREATE"):
            if any(path.startswith(x + "/") for x in self.files) or path in self.dirs or (path in self.files and not p["overwrite"]):
                self.failed = True
                return Response(403, {"RemoteException": {"message": "exists"}})
            if not p.get("data"):
                self.created = path
                return Response(307, {"Location": url})
            v.check(self.created == path, "the data of a file follows its creation")
            v.check(k["headers"]["content-type"] == "application/octet-stream", "the data is sent as it is")
            d = k["data"]
            self.folders(path)
            self.files[path] = d.read()
            self.created = None
            return Response(201, {})
        v.check(False, "the operation is one of the server", str(op))

    def folders(self, path):
        parts = path.split("/")[1:-1]
        for i in range(len(parts)):
            self.dirs.add("/" + "/".join(parts[:i + 1]))

    def listing(self, path):
        pre = path.rstrip("/") + "/"
        return [(t, x[len(pre):]) for t, l in (("DIRECTORY", sorted(self.dirs)), ("FILE", sorted(self.files))) for x in l
                if x.startswith(pre) and x != "/" and "/" not in x[len(pre):]]


NAMES = ["/a", "/a/b", "/c"]
DATA = [b"", b"x", b"some bytes\r\n\x00\xff"]


def httpfs(v):
    """any history of operations against a server that may refuse them"""
    user = ("root", "someone")[v.choice("user", v.conf("users"))]
    auth = (None, None) if v.choice("auth", v.conf("users")) == 0 else ("u", "p:q")
    verify, redirects = v.choice("verify", v.conf("users")) == 1, v.choice("redirects", v.conf("users")) == 1
    s = Hdfs(v, auth, verify, redirects, user, v.conf("fails"))
    server(s)
    fs = api.HTTPFS("http://httpfs:14000", auth[0], auth[1], verify=verify, allow_redirects=redirects, hadoop_user=user)
    root = tempfile.mkdtemp()
    seen = []
    try:
        with fs as fs:
            for i in range(v.conf("ops")):
                op = v.choice("op", 5)
                name = NAMES[v.choice("name", v.conf("names"))]
                before = dict(s.files), set(s.dirs)
                failed, res = False, None
                try:
                    if op == 0:
                        res = fs.mkdirs(name)
                    elif op == 1:
                        rec = v.choice("recursive", 2) == 1
                        res = fs.delete(name, recursive=rec)
                    elif op == 2:
                        res = list(fs.liststatus(name, print_list=v.choice("print", 2) == 1 if v.conf("users") > 1 else False))
                    elif op == 3:
                        size = v.int("chunk", 1, v.conf("chunk"))
                        res = fs.open(name, chunk_size=size)
                        res = res.read()
                    else:
                        data = DATA[v.choice("data", v.conf("data"))]
                        over = v.choice("overwrite", 2) == 1
                        if v.choice("from", 2) == 0:
                            src = os.path.join(root, "f")
                            with open(src, "wb") as f:
                                f.write(data)
                        else:
                            src = io.BytesIO(data)
                        res = fs.create(name, src, overwrite=over)
                except Exception as e:
                    if not s.failed:
                        raise
                    failed = True
                seen.append((op, failed))
                v.check(failed == s.failed, "what the server refuses is an error")
                if failed:
                    v.cover("refused")
                    v.check((s.files, s.dirs) == before, "a refused operation changes nothing")
                    continue
                if op == 0:
                    v.check(res is True and name in s.dirs, "the folder is made")
                elif op == 1:
                    v.check(res is (name in before[0] or name in before[1]), "whether the path was there")
                    v.check(not s.exists(name), "the path is deleted")
                    v.check(rec or not [x for x in list(before[0]) + list(before[1]) if x.startswith(name + "/")], "a folder with files is deleted only when asked")
                    v.cover("deleted")
                elif op == 2:
                    v.check(res == [(t, n, name.rstrip("/") + "/" + n) for t, n in s.listing(name)], "every entry of the folder, with its path")
                    if res:
                        v.cover("listed")
                elif op == 3:
                    v.check(res == before[0][name], "the content of the file")
                    v.cover("read")
                else:
                    v.check(res is True and s.files[name] == data, "the file has the data")
                    v.check(over or name not in before[0], "a file is overwritten only when asked")
    finally:
        shutil.rmtree(root)
    v.observe("seen", seen)


def create_wrong(v):
    """what is neither a file nor a stream is refused"""
    s = Hdfs(v, (None, None), False, False, "root", 0)
    server(s)
    fs = api.HTTPFS("http://httpfs:14000")
    failed = False
    try:
        fs.create("/a", [1, b"bytes", "/no/such/file", None][v.choice("what", 4)])
    except Exception:
        failed = True
    v.check(failed and not s.files, "what is neither a file nor a stream is refused")
    v.cover("refused")


TEXTS = ["x", "", "a,b", 'say "x"', "two\nlines"]
KEYS = ["b", "a", "label", "a1"]


def value(v, texts):
    k = v.choice("kind", 3)
    if k == 0:
        return v.int("number", 0, 9) + 0
    if k == 1:
        return [True, None, 1.5, -0.25][v.choice("other", 4)]
    return TEXTS[v.choice("text", texts)]


def rows(v):
    """rows of the converters have the values of every field in the order of their names"""
    n = v.choice("fields", v.conf("fields")) + 1
    keys = []
    for _ in range(n):
        k = KEYS[v.choice("key", len(KEYS))]
        v.assume(k not in keys)
        keys.append(k)
    data = {k: value(v, v.conf("texts")) for k in keys}
    want = [str(data[k]) for k in sorted(keys)]
    c = CSVConverter()
    parsed = lambda t: next(csv.reader(io.StringIO(t, newline="")), [])
    if v.choice("as", 2) == 0:
        got = c.row(data)
    else:
        got = c.row([data[k] for k in sorted(keys)])
    v.check(not got.endswith("\n"), "a row has no end of line")
    v.check(parsed(got) == want or (want == [""] and got == ""), "a csv row has the values in the order of the names")
    v.observe("row", got)


def svm(v):
    """a row of LibSVM has the label first, the others numbered from one"""
    n = v.choice("fields", v.conf("fields")) + 1
    keys = []
    for _ in range(n):
        k = KEYS[v.choice("key", len(KEYS))]
        v.assume(k not in keys)
        keys.append(k)
    data = {k: [v.int("number", -3, 9), 1.5, 0.0][v.choice("kind", 3)] for k in keys}
    label = ["label", "a"][v.choice("label", 2)]
    keep = dict(data)
    ok, failed = v.choice("what", 2) == 0, False
    try:
        got = LibSVMConverter().labeled_row(data if ok else list(data.values()), label)
    except Exception:
        failed = True
    v.check(failed == (not ok or label not in keys), "only data without names or without the label is refused")
    if failed:
        v.cover("refused")
        return
    want = " ".join([str(keep[label])] + ["%d:%s" % (i + 1, keep[k]) for i, k in enumerate(sorted(k for k in keys if k != label))])
    v.check(got.strip() == want, "the label, then the fields numbered in the order of their names")
    v.check(data == keep, "the data stays as it was")
    v.cover("rows")
    v.observe("row", got)
