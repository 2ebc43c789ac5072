"""Symbolic execution of Python code by z3-valued proxies.

The code under test runs unmodified in CPython; its inputs are proxy objects that build z3 terms, and every
truth test of a term that both values are possible for is a decision: the path goes on with one value and the
other one is put aside as a new path (a prefix of decisions that is executed again from the start).
"""
import sys, os, time, json, math
import z3

STOPKINDS = ("assume", "unknown", "limit", "unsupported")


class PathStop(BaseException):
    def __init__(self, kind, why=""):
        self.kind, self.why = kind, why


class Violated(BaseException):
    def __init__(self, kind, label, detail=""):
        self.kind, self.label, self.detail = kind, label, detail


P = None          # the running path (symbolic mode), None in native mode
QUERY_MS = 20000


def _is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


class Path:
    def __init__(self, prefix):
        self.prefix, self.pos = prefix, 0
        self.trail, self.alts = [], []
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.model = None
        self.queries = self.sat = self.unsat = 0
        self.solver_s = 0.0
        self.nodes = 0
        self.inputs = {}
        self.observed = []
        self.asserts, self.assertq = {}, 0
        self.covers = set()
        self.inexact = False
        self.marks = {}

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.solver_s += time.time() - t
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            raise PathStop("unknown", "solver: " + self.solver.reason_unknown())
        return m

    def add(self, c):
        self.solver.add(c)

    def getmodel(self):
        if self.model is None:
            self.model = self.check()
            if self.model is None:
                raise PathStop("assume", "infeasible")
        return self.model

    def holds(self, c):
        return z3.is_true(self.getmodel().eval(c, model_completion=True))

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            self.add(c if d else z3.Not(c))
            self.model = None
            return d
        self.nodes += 1
        m0 = self.getmodel()
        d = z3.is_true(m0.eval(c, model_completion=True))
        other = z3.Not(c) if d else c
        if self.check(other) is not None:
            self.alts.append(self.trail + [not d])
        self.trail.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def value(self, e):
        """a concrete value of the term; the other values become other paths"""
        e = z3.simplify(e)
        v = _const(e)
        if v is not None:
            return v
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                v = _unmark(v)
            else:
                v = _const(self.getmodel().eval(e, model_completion=True))
            self.trail.append(_mark(v))
            if self.branch(e == _lit(v, e)):
                return v

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathStop("assume")
            return
        self.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        if self.model is None and self.pos >= len(self.prefix):
            self.getmodel()


def _mark(v):
    from fractions import Fraction
    return ["v", v] if isinstance(v, int) else ["f", str(Fraction(v))]


def _unmark(v):
    from fractions import Fraction
    return v[1] if v[0] == "v" else Fraction(v[1])


def _const(e):
    from fractions import Fraction
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def _lit(v, like):
    from fractions import Fraction
    if like.sort().kind() == z3.Z3_INT_SORT:
        return z3.IntVal(int(v))
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


class Sym:
    __slots__ = ()


def _term(x):
    """the z3 term of a number (None when it is not one)"""
    if issubclass(type(x), SymNum):
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        from fractions import Fraction
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


def _two(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b, True
    return (z3.ToReal(a) if z3.is_int(a) else a), (z3.ToReal(b) if z3.is_int(b) else b), False


def _cmp(op, inf):
    def f(self, other):
        b = _term(other)
        if b is None:
            if isinstance(other, float) and other == other:
                return inf(0, other)
            if isinstance(other, float):
                return False
            return NotImplemented
        a, b, _ = _two(_term(self), b)
        return SymBool(op(a, b))
    return f


def _num(e):
    return SymNum(z3.simplify(e))


def _arith(op, rev=False):
    def f(self, other):
        b = _term(other)
        if b is None:
            return NotImplemented
        a, b, _ = _two(_term(self), b)
        return _num(op(b, a) if rev else op(a, b))
    return f


def _truediv(a, b):
    a = z3.ToReal(a) if z3.is_int(a) else a
    b = z3.ToReal(b) if z3.is_int(b) else b
    if P.branch(b == 0):
        raise ZeroDivisionError("division by zero")
    if _const(z3.simplify(b)) is None or not _pow2(_const(z3.simplify(b))):
        P.inexact = True
    return _num(a / b)


def _pow2(v):
    from fractions import Fraction
    v = abs(Fraction(v))
    n = v.numerator * v.denominator
    return n & (n - 1) == 0 and (v.numerator == 1 or v.denominator == 1)


def _floordiv(a, b):
    a, b, i = _two(a, b)
    if P.branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if i:
        # z3: remainder is never negative; Python: rounds down
        return _num(z3.If(b > 0, a / b, (-a) / (-b)))
    return _num(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b):
    q = _floordiv(a, b).e
    a, b, i = _two(a, b)
    if not i and z3.is_int(q):
        q = z3.ToReal(q)
    return _num(a - b * q)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return P.branch(self.e)

    def _b(x):
        if type(x) is SymBool:
            return x.e
        if isinstance(x, bool):
            return z3.BoolVal(x)
        return None

    def __and__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __eq__(self, o):
        b = SymBool._b(o)
        if b is not None:
            return SymBool(self.e == b)
        b = _term(o)
        return NotImplemented if b is None else SymBool(_term(self) == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, f):
        return format(bool(self), f)


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int if z3.is_int(self.e) else float)

    def __bool__(self):
        return P.branch(self.e != 0)

    def _val(self):
        v = P.value(self.e)
        return v if z3.is_int(self.e) else float(v)

    def __hash__(self):
        return hash(self._val())

    def __int__(self):
        return int(self._val())

    def __index__(self):
        if not z3.is_int(self.e):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._val()

    def __float__(self):
        return float(self._val())

    def __trunc__(self):
        return int(self._val())

    def __floor__(self):
        return self if z3.is_int(self.e) else _num(z3.ToInt(self.e))

    def __ceil__(self):
        return self if z3.is_int(self.e) else _num(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if z3.is_int(self.e):
            return self
        return round(self._val(), n) if n is not None else round(self._val())

    def is_integer(self):
        return SymBool(z3.IsInt(self.e)) if not z3.is_int(self.e) else True

    def __repr__(self):
        return repr(self._val())

    def __str__(self):
        return str(self._val())

    def __format__(self, f):
        return format(self._val(), f)

    def __neg__(self):
        return _num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _num(z3.If(self.e < 0, -self.e, self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1) if z3.is_int(self.e) else z3.RealVal(1)
            for _ in range(o):
                r = r * self.e
            return _num(r)
        return self._val() ** o

    __eq__ = _cmp(lambda a, b: a == b, lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b, lambda a, b: a != b)
    __lt__ = _cmp(lambda a, b: a < b, lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b, lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b, lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b, lambda a, b: a >= b)
    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: a + b, True)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: a - b, True)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: a * b, True)

    def __truediv__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _truediv(self.e, b)

    def __rtruediv__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _truediv(b, self.e)

    def __floordiv__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _floordiv(self.e, b)

    def __rfloordiv__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _floordiv(b, self.e)

    def __mod__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _mod(self.e, b)

    def __rmod__(self, o):
        b = _term(o)
        return NotImplemented if b is None else _mod(b, self.e)

    def __divmod__(self, o):
        return self // o, self % o


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
           "__lt__", "__le__", "__gt__", "__ge__"):
    def _mk(n):
        def f(self, o):
            return getattr(_num(_term(self)), n)(o)
        return f
    setattr(SymBool, _n, _mk(_n))


class Untold(SymNum):
    """a number of any value whose text is not looked into"""
    __slots__ = ()

    def __format__(self, f):
        return "~"

    def __str__(self):
        return "~"
    __repr__ = __str__


def opaque(x):
    """the same number, with a text that says nothing (a text of the value would choose one)"""
    return Untold(x.e) if type(x) is SymNum else x


class SymKey(Sym):
    """A name: all of them have one hash, so that dictionaries, sets and lists decide by comparison."""
    __slots__ = ("e", "names")

    def __init__(self, e, names):
        self.e, self.names = e, names

    __class__ = property(lambda self: str)

    def _val(self):
        return self.names[P.value(self.e)]

    def __eq__(self, o):
        if type(o) is SymKey:
            if o.names is self.names or o.names == self.names:
                return SymBool(self.e == o.e)
            return self == o._val()
        if isinstance(o, str):
            if o in self.names:
                return SymBool(self.e == self.names.index(o))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if isinstance(r, bool) and type(r) is bool else SymBool(z3.Not(r.e))

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def __lt__(self, o):
        return self._val() < (o._val() if type(o) is SymKey else o)

    def __gt__(self, o):
        return self._val() > (o._val() if type(o) is SymKey else o)

    def __le__(self, o):
        return self._val() <= (o._val() if type(o) is SymKey else o)

    def __ge__(self, o):
        return self._val() >= (o._val() if type(o) is SymKey else o)

    def __add__(self, o):
        return self._val() + str(o)

    def __radd__(self, o):
        return o + self._val()

    def __str__(self):
        return self._val()

    def __repr__(self):
        return repr(self._val())

    def __format__(self, f):
        return format(self._val(), f)

    def __len__(self):
        return len(self._val())

    def __contains__(self, o):
        return str(o) in self._val()

    def __getitem__(self, i):
        return self._val()[i]

    def __iter__(self):
        return iter(self._val())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        return getattr(self._val(), n)


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __eq__(cls, o):
        return o is float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(float)


class Float(metaclass=_Float):
    """float() that keeps a symbolic number"""
    def __new__(cls, x=0.0):
        if issubclass(type(x), SymNum):
            return SymNum(z3.ToReal(x.e)) if z3.is_int(x.e) else x
        if type(x) is SymBool:
            return SymNum(z3.ToReal(_term(x)))
        return float(x)


class _Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __eq__(cls, o):
        return o is int or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(int)


class Int(metaclass=_Int):
    """int() that keeps a symbolic number"""
    def __new__(cls, x=0, *a):
        if issubclass(type(x), SymNum):
            return x if z3.is_int(x.e) else _num(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        if type(x) is SymBool:
            return SymNum(_term(x))
        return int(x, *a)


class V:
    """What a harness uses: inputs, assumptions, assertions. native: a dictionary of inputs."""

    def __init__(self, conf, native=None):
        self.conf_, self.native = conf, native
        self.observed, self.covers = [], set()
        self.used = {}

    @property
    def symbolic(self):
        return self.native is None

    def shim(self, *modules):
        """float() in these modules keeps symbolic numbers"""
        for m in modules:
            if self.native is None:
                m.float = Float
            elif "float" in vars(m):
                del m.float

    def shimint(self, *modules):
        """int() in these modules keeps symbolic numbers"""
        for m in modules:
            if self.native is None:
                m.int = Int
            elif "int" in vars(m):
                del m.int

    def conf(self, k):
        if k not in self.conf_:
            raise PathStop("unsupported", "missing conf " + k)
        return self.conf_[k]

    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return "%s#%d" % (name, n)

    def int(self, name, lo, hi):
        n = self._name(name)
        if self.native is not None:
            return int(self.native.get(n, lo))
        e = z3.Int(n)
        P.inputs[n] = e
        P.assume(z3.And(e >= lo, e <= hi))
        return SymNum(e)

    def num(self, name, lo, hi, gran=4):
        """a float: a multiple of 1/gran (a power of two), so that sums are exact"""
        n = self._name(name)
        if self.native is not None:
            return int(self.native.get(n, lo * gran)) / float(gran)
        e = z3.Int(n)
        P.inputs[n] = e
        P.assume(z3.And(e >= int(lo * gran), e <= int(hi * gran)))
        return SymNum(z3.ToReal(e) / z3.RealVal(gran))

    def bool(self, name):
        n = self._name(name)
        if self.native is not None:
            return bool(int(self.native.get(n, 0)))
        e = z3.Int(n)
        P.inputs[n] = e
        P.assume(z3.And(e >= 0, e <= 1))
        return SymBool(e == 1)

    def key(self, name, names):
        n = self._name(name)
        if self.native is not None:
            return names[int(self.native.get(n, 0))]
        e = z3.Int(n)
        P.inputs[n] = e
        P.assume(z3.And(e >= 0, e < len(names)))
        return SymKey(e, names)

    def choice(self, name, n_):
        """a decision of the harness: an int, concrete on every path"""
        n = self._name(name)
        if self.native is not None:
            return int(self.native.get(n, 0))
        e = z3.Int(n)
        P.inputs[n] = e
        P.assume(z3.And(e >= 0, e < n_))
        return P.value(e)

    def assume(self, c):
        if type(c) is SymBool:
            P.assume(c.e)
        elif not c:
            raise PathStop("assume")

    def check(self, c, label, detail=""):
        """the assertion"""
        if self.native is not None:
            if not c:
                raise Violated("assert", label, str(detail))
            return
        P.asserts[label] = P.asserts.get(label, 0) + 1
        if type(c) is SymBool:
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            if P.pos < len(P.prefix):  # decided when the prefix was first explored
                P.add(e)
                P.model = None
                return
            P.assertq += 1
            m = P.check(z3.Not(e))
            if m is not None:
                P.model = m
                raise Violated("assert", label, "")
            P.add(e)
            return
        if not c:
            raise Violated("assert", label, "")

    def eq(self, a, b, label):
        self.check(self.same(a, b), label)

    def same(self, a, b):
        """equality as one term where it can be"""
        ta, tb = type(a), type(b)
        if ta is tuple or ta is list:
            if not isinstance(b, (tuple, list)) or len(a) != len(b):
                return False
            return self.all([self.same(x, y) for x, y in zip(a, b)])
        r = (a == b)
        return r

    def all(self, l):
        es = []
        for x in l:
            if type(x) is SymBool:
                es.append(x.e)
            elif not x:
                return False
        return SymBool(z3.And(*es)) if es else True

    def any(self, l):
        es = []
        for x in l:
            if type(x) is SymBool:
                es.append(x.e)
            elif x:
                return True
        return SymBool(z3.Or(*es)) if es else False

    def neg(self, c):
        return SymBool(z3.Not(c.e)) if type(c) is SymBool else not c

    def imp(self, a, b):
        return self.any([self.neg(a), b])

    def near(self, a, b, tol=1e-9):
        d = a - b
        return self.all([d <= tol, d >= -tol])

    def observe(self, name, value):
        if self.native is not None:
            self.observed.append([name, _plain(value)])
        else:
            P.observed.append((name, value))

    def cover(self, name):
        if self.native is not None:
            self.covers.add(name)
        else:
            P.covers.add(name)


def _plain(v, model=None):
    from fractions import Fraction
    t = type(v)
    if issubclass(t, (SymNum, SymBool)):
        c = _const(model.eval(v.e, model_completion=True)) if model is not None else _const(z3.simplify(v.e))
        return _plain(c)
    if t is SymKey:
        return v.names[model.eval(v.e, model_completion=True).as_long()]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fraction):
        return _plain(float(v))
    if isinstance(v, float):
        if v == v and abs(v) < 1e15 and v == int(v):
            return int(v)
        return float("%.9g" % v)
    if isinstance(v, (list, tuple)):
        return [_plain(x, model) for x in v]
    if isinstance(v, dict):
        return {str(_plain(k, model)): _plain(x, model) for k, x in v.items()}
    if v is None or isinstance(v, (int, str)):
        return v
    return str(v)


# ---- what runs of the code under test is counted and limited ----
class Meter:
    TOOL = 4

    def __init__(self, repo):
        self.repo = os.path.realpath(repo) + os.sep
        self.lines, self.limit = 0, 10 ** 9
        self.funcs = set()
        self.on = False
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif")
        except ValueError:
            pass
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.set_events(self.TOOL, m.events.LINE | m.events.PY_START)

    def _mine(self, code):
        return code.co_filename.startswith(self.repo)

    def _line(self, code, line):
        if not self._mine(code):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.lines > self.limit and self.on:
            self.on = False
            raise Violated("hang", "does not end within %d lines" % self.limit, "")

    def _start(self, code, off):
        if not self._mine(code):
            return sys.monitoring.DISABLE
        if code.co_name != "<module>":
            self.funcs.add("%s:%s" % (os.path.relpath(code.co_filename, self.repo), code.co_qualname))
