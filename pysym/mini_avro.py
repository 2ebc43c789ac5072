"""A stand-in for fastavro that encodes records as their schema says (Avro 1.8, one block per record; no codec)."""
import io, json, struct

PRIMITIVE = {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}
MAGIC = b"Obj\x01avro.schema\n"


def parse_schema(s, names=None):
    names = set() if names is None else names
    if isinstance(s, str):
        if s not in PRIMITIVE and s not in names:
            raise ValueError("unknown type " + s)
        return s
    if isinstance(s, list):
        return [parse_schema(x, names) for x in s]
    t = s["type"]
    if isinstance(t, (dict, list)):
        return parse_schema(t, names)
    if t == "record":
        if s["name"] in names:
            raise ValueError("redefined named type: " + s["name"])
        names.add(s["name"])
        fields = []
        for f in s["fields"]:
            fields.append(dict(name=f["name"], type=parse_schema(f["type"], names)))
        return dict(s, fields=fields)
    if t == "array":
        return dict(type=t, items=parse_schema(s["items"], names))
    if t == "map":
        return dict(type=t, values=parse_schema(s["values"], names))
    if t not in PRIMITIVE:
        raise ValueError("unknown type " + str(t))
    return t


def name(s):
    return s if isinstance(s, str) else s["type"]


def zig(n):
    if not -(1 << 63) <= n < (1 << 63):
        raise OverflowError("long")
    n = (n << 1) ^ (n >> 63)
    out = b""
    while n > 127:
        out += bytes([(n & 127) | 128])
        n >>= 7
    return out + bytes([n])


def encode(s, d):
    t = name(s)
    if t == "null":
        if d is not None:
            raise TypeError("null")
        return b""
    if t == "boolean":
        return b"\x01" if d else b"\x00"
    if t in ("int", "long"):
        if not isinstance(d, int):
            raise TypeError("int")
        return zig(int(d))
    if t == "float":
        return struct.pack("<f", d)
    if t == "double":
        return struct.pack("<d", d)
    if t == "bytes":
        return zig(len(d)) + bytes(d)
    if t == "string":
        if not isinstance(d, str):
            raise TypeError("string")
        b = d.encode("utf-8")
        return zig(len(b)) + b
    if t == "array":
        out = (zig(len(d)) + b"".join(encode(s["items"], x) for x in d)) if d else b""
        return out + zig(0)
    if t == "map":
        out = (zig(len(d)) + b"".join(encode("string", k) + encode(s["values"], x) for k, x in d.items())) if d else b""
        return out + zig(0)
    return b"".join(encode(f["type"], d.get(f["name"])) for f in s["fields"])


def varint(b, p):
    n = k = 0
    while True:
        x = b[p]
        p += 1
        n |= (x & 127) << k
        k += 7
        if x < 128:
            return (n >> 1) ^ -(n & 1), p


def decode(s, b, p):
    t = name(s)
    if t == "null":
        return None, p
    if t == "boolean":
        return b[p] == 1, p + 1
    if t in ("int", "long"):
        return varint(b, p)
    if t == "float":
        return struct.unpack("<f", b[p:p + 4])[0], p + 4
    if t == "double":
        return struct.unpack("<d", b[p:p + 8])[0], p + 8
    if t in ("bytes", "string"):
        n, p = varint(b, p)
        x = b[p:p + n]
        return (x if t == "bytes" else x.decode("utf-8")), p + n
    if t in ("array", "map"):
        out = [] if t == "array" else {}
        while True:
            n, p = varint(b, p)
            if n == 0:
                return out, p
            for _ in range(n):
                if t == "array":
                    x, p = decode(s["items"], b, p)
                    out.append(x)
                else:
                    k, p = decode("string", b, p)
                    out[k], p = decode(s["values"], b, p)
    out = {}
    for f in s["fields"]:
        out[f["name"]], p = decode(f["type"], b, p)
    return out, p


def header(fo):
    if fo.read(len(MAGIC)) != MAGIC:
        raise ValueError("cannot read header - is it an avro file?")
    return json.loads(fo.readline())


def writer(fo, schema, records, codec=None):
    schema = parse_schema(schema)
    if fo.seekable() and fo.tell() != 0:   # as fastavro: blocks are added to what is there, with its schema
        if not fo.readable():
            raise ValueError("When appending to an avro file you must use the 'a+' mode, not just 'a'")
        fo.seek(0)
        schema = header(fo)
        fo.seek(0, 2)
    else:
        fo.write(MAGIC + json.dumps(schema).encode() + b"\n")
    for r in records:
        b = encode(schema, r)
        fo.write(struct.pack("<I", len(b)) + b)


def reader(fo):
    schema = header(fo)

    def blocks():
        while True:
            n = fo.read(4)
            if not n:
                return
            b = fo.read(struct.unpack("<I", n)[0])
            d, p = decode(schema, b, 0)
            assert p == len(b)
            yield d
    return blocks()
