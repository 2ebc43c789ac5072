"""A small stand-in for the part of pandas that Probe uses: columns are lists, cells may be symbolic."""
import numpy as np

NAN = float("nan")


def _isna(x):
    return x is None or (isinstance(x, float) and x != x)


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool) or (type(x).__name__ == "SymNum" and x.e.is_int())


class Arr(list):
    def tolist(self):
        return list(self)

    def flatten(self):
        return self

    @property
    def shape(self):
        return (len(self),)


class Loc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        return self.o._loc_get(k)

    def __setitem__(self, k, x):
        self.o._loc_set(k, x)


class ILoc(Loc):
    def __getitem__(self, k):
        return self.o._iloc_get(k)


class Dt:
    """days are numbers: a week has 7, a month 30"""

    def __init__(self, s):
        self.day, self.week, self.month = s._new(list(s.data)), s._new([x // 7 for x in s.data]), s._new([x // 30 for x in s.data])


class Str:
    def __init__(self, s):
        self.s = s

    def contains(self, pat, case=True, regex=True):
        import re
        if not regex:
            pat = re.escape(pat)
        return self.s._new([re.search(pat, x, 0 if case else re.I) is not None for x in self.s.data])


def _op(f):
    def g(self, o):
        return self._new([f(a, b) for a, b in zip(self.data, self._other(o))])
    return g


def _div(a, b):
    return a / b


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index, data = list(data.keys()), list(data.values())
        self.data = list(data) if data is not None else []
        self.index = Index(index if index is not None else range(len(self.data)))
        assert len(self.index) == len(self.data), "Length of values does not match length of index"
        self.name = name

    def _new(self, data):
        return Series(data, self.index, self.name)

    def _other(self, o):
        if isinstance(o, Series):
            assert list(o.index) == list(self.index) or len(set(self.index)) == len(self.index), "cannot reindex on an axis with duplicate labels"
            if list(o.index) != list(self.index):
                at = {k: x for k, x in zip(o.index, o.data)}
                return [at.get(k, NAN) for k in self.index]
            return o.data
        if isinstance(o, (list, np.ndarray)):
            assert len(o) == len(self.data)
            return list(o)
        return [o] * len(self.data)

    __eq__ = _op(lambda a, b: a == b)
    __ne__ = _op(lambda a, b: a != b)
    __lt__ = _op(lambda a, b: a < b)
    __le__ = _op(lambda a, b: a <= b)
    __gt__ = _op(lambda a, b: a > b)
    __ge__ = _op(lambda a, b: a >= b)
    __and__ = _op(lambda a, b: a & b)
    __or__ = _op(lambda a, b: a | b)
    __add__ = _op(lambda a, b: a + b)
    __radd__ = _op(lambda a, b: b + a)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = __mul__
    __truediv__ = _op(_div)
    __rtruediv__ = _op(lambda a, b: b / a)
    __hash__ = None
    eq, ne, add, sub, div, mul = __eq__, __ne__, __add__, __sub__, __truediv__, __mul__

    def __invert__(self):
        return self._new([not x for x in self.data])

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, k):
        return k in self.index

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def _filter(self, mask):
        keep = [i for i, m in enumerate(self._other(mask)) if m]
        return Series([self.data[i] for i in keep], [self.index[i] for i in keep], self.name)

    def __getitem__(self, k):
        if isinstance(k, (Series, list, np.ndarray)):
            return self._filter(k)
        if isinstance(k, slice):
            return Series(self.data[k], list(self.index)[k], self.name)
        if k not in self.index:
            raise KeyError(k)
        return self.data[list(self.index).index(k)]

    def __setitem__(self, k, x):
        self._loc_set(k, x)

    def _loc_get(self, k):
        return self[k]

    def _loc_set(self, k, x):
        new = self._other(x)
        for i, m in enumerate(self._other(k) if isinstance(k, Series) else [y == k for y in self.index]):
            if m:
                self.data[i] = new[i]

    def _iloc_get(self, k):
        if isinstance(k, slice):
            return Series(self.data[k], list(self.index)[k], self.name)
        return self.data[k]

    loc = property(Loc)
    iloc = property(ILoc)
    str = property(Str)
    dt = property(Dt)

    @property
    def size(self):
        return len(self.data)

    @property
    def values(self):
        return Arr(self.data)

    @property
    def shape(self):
        return (len(self.data),)

    @property
    def dtype(self):
        if any(isinstance(x, str) for x in self.data):
            return np.dtype(object)
        if self.data and all(isinstance(x, bool) for x in self.data):
            return np.dtype(bool)
        if self.data and all(_isint(x) for x in self.data):
            return np.dtype(np.int64)
        return np.dtype(float)

    def max(self):
        l = [x for x in self.data if not _isna(x)]
        return max(l) if l else NAN

    def min(self):
        l = [x for x in self.data if not _isna(x)]
        return min(l) if l else NAN

    def sum(self):
        return sum((x for x in self.data if not _isna(x)), 0)

    def count(self):
        return len([x for x in self.data if not _isna(x)])

    def mean(self):
        l = [x for x in self.data if not _isna(x)]
        return sum(l) / len(l) if l else NAN

    def any(self):
        return any(self.data)

    def all(self):
        return all(self.data)

    def unique(self):
        r = Arr()
        for x in self.data:
            if x not in r:
                r.append(x)
        return r

    def nunique(self):
        return len(self.unique())

    def value_counts(self):
        keys = self.unique()
        n = [sum(1 for y in self.data if y == k) for k in keys]
        order = sorted(range(len(keys)), key=lambda i: -n[i])
        return Series([n[i] for i in order], [keys[i] for i in order], self.name)

    def duplicated(self, keep="first"):
        d = self.data
        if keep is False:
            return self._new([sum(1 for y in d if y == x) > 1 for x in d])
        return self._new([any(y == x for y in (d[:i] if keep == "first" else d[i + 1:])) for i, x in enumerate(d)])

    def drop_duplicates(self):
        return self._filter(~self.duplicated())

    def isin(self, l):
        l = list(l)
        return self._new([x in l for x in self.data])

    def map(self, f):
        return self._new([f[x] if isinstance(f, dict) else f(x) for x in self.data])

    def apply(self, f):
        return self.map(f)

    def astype(self, t):
        if t == int:
            return self._new([x if _isint(x) else int(x) for x in self.data])
        if t is bool:
            return self._new([x != 0 if type(x).__name__ == "SymNum" else bool(x) for x in self.data])
        if t is float:
            return self._new([x * 1.0 for x in self.data])
        return self._new([t(x) for x in self.data])

    def fillna(self, x):
        return self._new([x if _isna(y) else y for y in self.data])

    def dropna(self):
        return self._filter([not _isna(x) for x in self.data])

    def to_list(self):
        return list(self.data)

    tolist = to_list

    def to_numpy(self):
        a = np.empty(len(self.data), dtype=object)
        for i, x in enumerate(self.data):
            a[i] = x
        return a

    def copy(self):
        return Series(self.data, self.index, self.name)

    def rename(self, n, inplace=False):
        if inplace:
            self.name = n
            return None
        return Series(self.data, self.index, n)

    def round(self, n=0):
        return self._new([round(x, n) for x in self.data])

    def reset_index(self, drop=False):
        return Series(self.data, None, self.name)

    def items(self):
        return zip(self.index, self.data)

    def keys(self):
        return self.index

    def to_dict(self):
        return dict(zip(self.index, self.data))

    def sort_index(self):
        o = sorted(range(len(self.data)), key=lambda i: self.index[i])
        return Series([self.data[i] for i in o], [self.index[i] for i in o], self.name)

    def groupby(self, by):
        return NotImplemented


class Index(list):
    def __init__(self, l=(), name=None):
        super().__init__(l)
        self.name = name if name is not None else getattr(l, "name", None)

    def tolist(self):
        return list(self)

    to_list = tolist


class Row(tuple):
    pass


class Group:
    def __init__(self, df, by, col=None):
        self.df, self.by, self.col = df, by, col

    def _parts(self):
        keys = []
        for x in self.df._cols[self.by]:
            if x not in keys:
                keys.append(x)
        for k in sorted(keys):
            yield k, self.df[self.df[self.by] == k]

    def __iter__(self):
        return self._parts()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Group(self.df, self.by, n)

    def __getitem__(self, n):
        return Group(self.df, self.by, n)

    def _agg(self, f):
        p = list(self._parts())
        return Series([f(d[self.col]) for _, d in p], [k for k, _ in p])

    def nunique(self):
        return self._agg(lambda s: s.nunique())

    def count(self):
        return self._agg(lambda s: s.count())

    def sum(self):
        return self._agg(lambda s: s.sum())

    def mean(self):
        return self._agg(lambda s: s.mean())

    def cumcount(self):
        d = self.df._cols[self.by]
        return Series([sum(1 for y in d[:i] if y == x) for i, x in enumerate(d)], self.df.index)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        cols = {}
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            index = data.index if index is None else index
            data = data._cols
        if isinstance(data, dict):
            for k, x in data.items():
                cols[k] = list(x.data if isinstance(x, Series) else x)
                if index is None and isinstance(x, Series):
                    index = x.index
            for k in columns or []:
                cols.setdefault(k, [])
            n = len(next(iter(cols.values()))) if cols else (len(index) if index is not None else 0)
        else:
            data = list(data)
            n = len(data)
            if data and isinstance(data[0], dict):
                names = list(columns) if columns is not None else list(dict.fromkeys(k for r in data for k in r))
                columns, data = names, [[r.get(k, NAN) for k in names] for r in data]
            if columns is None:
                columns = range(len(data[0])) if data else []
            for r in data:
                if len(r) != len(columns):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(columns), len(r)))
            for i, k in enumerate(columns):
                cols[k] = [r[i] for r in data]
        assert all(len(x) == n for x in cols.values()), "All arrays must be of the same length"
        object.__setattr__(self, "_cols", cols)
        object.__setattr__(self, "index", Index(index if index is not None else range(n)))
        assert len(self.index) == n

    def __setattr__(self, n, x):
        if n in self._cols:
            self[n] = x
        else:
            object.__setattr__(self, n, x)

    def __getattr__(self, n):
        if n.startswith("__") or n not in self._cols:
            raise AttributeError("'DataFrame' object has no attribute %r" % n)
        return self[n]

    @property
    def columns(self):
        return Index(self._cols)

    @property
    def size(self):
        return len(self.index) * len(self._cols)

    @property
    def shape(self):
        return (len(self.index), len(self._cols))

    @property
    def empty(self):
        return self.size == 0

    @property
    def dtypes(self):
        return [self[k].dtype for k in self._cols]

    loc = property(Loc)
    iloc = property(ILoc)
    __hash__ = None

    def __len__(self):
        return len(self.index)

    def __iter__(self):
        return iter(self._cols)

    def __contains__(self, k):
        return k in self._cols

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous")

    def _take(self, rows, index=None):
        return DataFrame({k: [x[i] for i in rows] for k, x in self._cols.items()}, index=Index([self.index[i] for i in rows], self.index.name) if index is None else index)

    def _filter(self, mask):
        if isinstance(mask, Series):
            assert list(mask.index) == list(self.index), "Unalignable boolean Series"
            mask = mask.data
        assert len(mask) == len(self.index)
        return self._take([i for i, m in enumerate(mask) if m])

    def __getitem__(self, k):
        if isinstance(k, (Series, np.ndarray)) or isinstance(k, list) and k and all(isinstance(x, bool) for x in k):
            return self._filter(k)
        if isinstance(k, list):
            for x in k:
                if x not in self._cols:
                    raise KeyError(x)
            return DataFrame({x: self._cols[x] for x in k}, index=self.index)
        if isinstance(k, slice):
            return self._take(list(range(len(self.index)))[k])
        if k not in self._cols:
            raise KeyError(k)
        s = Series(self._cols[k], self.index, k)
        return s

    def __setitem__(self, k, x):
        n = len(self.index)
        if isinstance(x, Series):
            x = list(Series([None] * n, self.index)._other(x))
        elif isinstance(x, (list, tuple, np.ndarray)):
            x = list(x)
            if len(x) != n and self._cols:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(x), n))
            if not self._cols:
                object.__setattr__(self, "index", Index(range(len(x))))
        else:
            x = [x] * n
        self._cols[k] = x

    def __delitem__(self, k):
        if k not in self._cols:
            raise KeyError(k)
        del self._cols[k]

    def _loc_get(self, k):
        if isinstance(k, tuple):
            return self._loc_get(k[0])[k[1]]
        if isinstance(k, (Series, list)):
            return self._filter(k)
        return self._take([i for i, y in enumerate(self.index) if y == k])

    def _loc_set(self, k, x):
        rows, col = k
        s = Series(self._cols[col], self.index)
        s._loc_set(rows, x)
        self._cols[col] = s.data

    def _iloc_get(self, k):
        if isinstance(k, slice):
            return self._take(list(range(len(self.index)))[k])
        return Series([x[k] for x in self._cols.values()], list(self._cols))

    def copy(self):
        return self._take(range(len(self.index)))

    def _become(self, o, inplace):
        if not inplace:
            return o
        object.__setattr__(self, "_cols", o._cols)
        object.__setattr__(self, "index", o.index)
        return None

    def set_index(self, k, inplace=False):
        o = self.copy()
        if isinstance(k, str):
            o.index = Index(o._cols.pop(k), k)
        else:
            assert len(k) == len(self.index), "Length mismatch"
            o.index = Index(k)
        return self._become(o, inplace)

    def reset_index(self, drop=False, inplace=False):
        o = self.copy()
        if not drop:
            o = DataFrame({(self.index.name or "index"): list(self.index), **o._cols})
        o.index = Index(range(len(self.index)))
        return self._become(o, inplace)

    def sort_values(self, by, ascending=True, inplace=False):
        by = [by] if isinstance(by, str) else list(by)
        asc = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        rows = list(range(len(self.index)))
        for k, a in list(zip(by, asc))[::-1]:
            c = self[k].data
            rows.sort(key=lambda i: c[i], reverse=not a)
        return self._become(self._take(rows), inplace)

    def round(self, n=0):
        return DataFrame({k: [x if isinstance(x, str) or type(x).__name__ == "SymNum" or _isna(x) else round(x, n) for x in c] for k, c in self._cols.items()}, index=self.index)

    def itertuples(self, index=True, name="Pandas"):
        for i, l in enumerate(self.index):
            r = Row(([l] if index else []) + [c[i] for c in self._cols.values()])
            for k, c in self._cols.items():
                if isinstance(k, str) and k.isidentifier():
                    setattr(r, k, c[i])
            r.Index = l
            yield r

    def groupby(self, by=None):
        return Group(self, by)

    def drop_duplicates(self, subset=None):
        cols = [subset] if isinstance(subset, str) else list(subset or self._cols)
        rows = []
        for i in range(len(self.index)):
            if not any(all(self._cols[c][i] == self._cols[c][j] for c in cols) for j in rows):
                rows.append(i)
        return self._take(rows)

    def rename(self, columns=None, inplace=False):
        o = self.copy()
        object.__setattr__(o, "_cols", {(columns or {}).get(k, k): x for k, x in o._cols.items()})
        return self._become(o, inplace)

    def reindex(self, index, method=None):
        assert len(set(self.index)) == len(self.index), "cannot reindex on an axis with duplicate labels"
        at = {k: i for i, k in enumerate(self.index)}
        return DataFrame({c: [x[at[k]] if k in at else NAN for k in index] for c, x in self._cols.items()}, index=Index(index, self.index.name))

    def reindex_like(self, o, method=None):
        r = self.reindex(o.index)
        return DataFrame({c: r._cols.get(c, [NAN] * len(r.index)) for c in o._cols}, index=Index(r.index, o.index.name))

    def dropna(self):
        return self._filter([not any(_isna(c[i]) for c in self._cols.values()) for i in range(len(self.index))])

    def to_csv(self, f, index=True):
        FILES[str(f)] = self.copy()
        open(str(f), "w").close()


    def to_feather(self, f):
        FILES[f.name] = self.copy()


FILES = {}


def read_feather(f):
    return read_csv(f)


def read_csv(f, index_col=None):
    f = getattr(f, "name", f)
    return FILES[str(f)].copy()


def concat(l, ignore_index=False):
    l = list(l)
    if l and isinstance(l[0], Series):
        return Series([x for s in l for x in s.data], [i for s in l for i in s.index])
    cols = []
    for d in l:
        for c in d._cols:
            if c not in cols:
                cols.append(c)
    return DataFrame({c: [x for d in l for x in d._cols.get(c, [NAN] * len(d.index))] for c in cols}, index=None if ignore_index else [i for d in l for i in d.index])


class Day(int):
    pass


def to_datetime(x, unit=None, format=None):
    if isinstance(x, Series):
        return x._new([to_datetime(y, unit, format) for y in x.data])
    return x


class StringDtype:
    pass
