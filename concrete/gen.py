"""random values with sharing, and comparison of two values with types and sharing"""

import collections
import datetime
import enum

import numpy as np
import scipy.sparse as sps

P = collections.namedtuple("P", "a b")


class SE(str, enum.Enum):
    A = "a"


class IE(enum.IntEnum):
    ONE = 1


class LS(list):
    pass


class LI(list):
    def __init__(self, a, b):
        super().__init__([a, b])
        self.c = a


class TS(tuple):
    pass


class DS(dict):
    pass


class DI(dict):
    def __init__(self, n):
        super().__init__()
        self.n = n


class D0(dict):
    def __init__(self):
        super().__init__()


class PA(collections.namedtuple("PA", "a b")):
    """with attributes"""


class PN(collections.namedtuple("PN", "a b")):
    """with a constructor of its own"""

    def __new__(cls, a):
        return super().__new__(cls, a, [a])

    def __getnewargs__(self):
        return (self.a,)


class PR(collections.namedtuple("PR", "a b")):
    def __new__(cls, a, b):
        return super().__new__(cls, a + 1, b)

    def __reduce__(self):
        return PR, (self.a - 1, self.b)


class TI(tuple):
    """does not tell its items"""

    def __iter__(self):
        return iter(())


class LSlots(list):
    __slots__ = ("z",)


class LState(list):
    def __getstate__(self):
        return ("state", self.q)

    def __setstate__(self, s):
        self.q = s[1]


class DLower(dict):
    def __setitem__(self, k, v):
        super().__setitem__(str(k).lower(), v)


class DKeys(dict):
    def keys(self):
        return []


class Count(collections.Counter):
    pass


class S1(str):
    pass


class Err(Exception):
    def __init__(self, a, b=2):
        super().__init__(a, b)
        self.b = b


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return type(o) is Obj and repr(self.__dict__) == repr(o.__dict__)

    __hash__ = None


LONG = 1024


def scalar(rng):
    k = rng.randrange(24)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, 1, -1, 255, 1 << 31, -(1 << 63), 1 << 100])
    if k == 3:
        return rng.choice([0.0, -0.0, 1.5, float("inf"), 1e-300])
    if k == 4:
        return complex(rng.random(), 1)
    if k == 5:
        return rng.choice(["", "a", "é\0x", "\ud800", "x" * 1023])
    if k == 6:
        return rng.choice(["b", "é"]) * rng.choice([LONG, LONG + 1, 3000])
    if k == 7:
        return rng.choice([b"", b"\0", b"y" * 1023, b"y" * 1024, b"z" * 5000])
    if k == 8:
        return datetime.datetime(2020, 1, rng.randrange(1, 28), tzinfo=rng.choice([None, datetime.timezone.utc]))
    if k == 9:
        return rng.choice([datetime.date(2001, 2, 3), datetime.timedelta(3, 4, 5), datetime.time(3)])
    if k == 10:
        return rng.choice([SE.A, IE.ONE, S1("sub"), S1("long" * 300), np.str_("n"), bytearray(b"ba")])
    if k == 11:
        return rng.choice([np.int8(3), np.float32(1.5), np.bool_(True), np.datetime64("2020-01-01"), np.complex64(1j)])
    if k == 12:
        return rng.choice([max, len, int, Obj, P, np.dtype("f4"), range(3), slice(1, 2), Ellipsis, frozenset([1, 2]), {1, "a"}])
    if k == 13:
        return Err(rng.randrange(9), "q")
    if k == 14:
        return rng.choice([KeyError("k"), ValueError(), OSError(2, "no")])
    if k == 15:
        return Obj(n=rng.randrange(5), a=np.arange(rng.randrange(4)))
    if k in (16, 17, 18):
        return array(rng)
    if k == 19:
        return sps.random(rng.randrange(1, 5), rng.randrange(1, 5), 0.5, format="csr", random_state=rng.randrange(99), dtype=rng.choice(["f8", "f4"]))
    if k == 20:
        return collections.deque([1, 2], 3)
    if k == 21:
        return collections.Counter("aab")
    if k == 22:
        return rng.choice([np.matrix([[1, 2]]), np.ma.array([1, 2], mask=[0, 1])])
    return rng.randrange(1000)


DTYPES = ["?", "i1", "u2", "<i4", ">i4", "i8", "f2", "f8", ">f8", "c8", "S3", "U2", "M8[s]", "m8[D]", "V5", "O", [("a", "i4"), ("b", "f8", (2,))], {"names": ["y", "x"], "formats": ["i4", "u1"], "offsets": [4, 0], "itemsize": 12}, [("o", "O"), ("i", "i2")]]


def array(rng):
    dt = np.dtype(rng.choice(DTYPES))
    shape = rng.choice([(), (0,), (1,), (5,), (2, 3), (0, 4), (2, 1, 3), (3, 2, 2), (4, 4)])
    n = int(np.prod(shape))
    if dt.hasobject:
        a = np.zeros(shape, dt)
        if dt == object:
            for i in range(a.size):
                a.flat[i] = [i, "x"]
    elif dt.kind == "V" and dt.names is None:
        a = np.zeros(shape, dt)
    elif dt.kind == "V":
        a = np.zeros(shape, dt)
        for nme in dt.names:
            a[nme] = rng.randrange(100)
    else:
        a = np.array([rng.randrange(100) for _ in range(n)]).astype("i8").reshape(shape)
        a = (a % 2 == 0) if dt.kind == "b" else a.astype(dt)
    a = np.asarray(a)
    k = rng.randrange(8)
    if k == 0:
        a = np.asfortranarray(a)
    elif k == 1:
        a = a.T
    elif k == 2 and a.ndim:
        a = a[::-1]
    elif k == 3 and a.ndim:
        a = a[..., ::2]
    elif k == 4:
        a = np.broadcast_to(a, (2,) + a.shape)
    elif k == 5 and a.ndim >= 2:
        a = a.swapaxes(0, 1)[1:]
    elif k == 6 and dt.names and not dt.hasobject:
        a = a[list(reversed(dt.names))]
    elif k == 7:
        a = a.copy()
        a.flags.writeable = False
    return a


def value(rng, depth=0, pool=None, cyc=True):
    """a random value; parts are taken from ``pool`` again now and then"""
    pool = [] if pool is None else pool
    if pool and rng.random() < 0.2:
        return rng.choice(pool)
    if depth >= 4 or rng.random() < 0.35:
        v = scalar(rng)
        if type(v) is str and len(v) >= LONG or isinstance(v, (np.ndarray, bytes)):
            pool.append(v)
        return v
    k = rng.randrange(9)
    n = rng.choice([0, 1, 2, 3, 5])
    if k in (0, 1):
        v = []
        if cyc:
            pool.append(v)
        v.extend(value(rng, depth + 1, pool, cyc) for _ in range(n))
    elif k in (2, 3):
        v = {}
        if cyc:
            pool.append(v)
        for i in range(n):
            v[key(rng, pool)] = value(rng, depth + 1, pool, cyc)
    else:
        # not again inside itself
        mine = list(pool) if not cyc else [p for p in pool if type(p) not in (list, dict)]
        if k in (4, 5):
            v = tuple(value(rng, depth + 1, mine, False) for _ in range(n))
        elif k == 6:
            v = P(value(rng, depth + 1, mine, False), value(rng, depth + 1, mine, False))
        elif k == 7:
            v = collections.OrderedDict((i, value(rng, depth + 1, mine, False)) for i in range(n)) if rng.random() < 0.5 else collections.defaultdict(list, {i: value(rng, depth + 1, mine, False) for i in range(n)})
        else:
            c = rng.randrange(15)
            if c == 0:
                v = LS(value(rng, depth + 1, mine, False) for _ in range(n))
            elif c == 1:
                v = TS(value(rng, depth + 1, mine, False) for _ in range(n))
            elif c == 2:
                v = DS({i: value(rng, depth + 1, mine, False) for i in range(n)})
            elif c == 3:
                v = LI(rng.randrange(5), [1])
            elif c == 4:
                v = DI(rng.randrange(5))
                v["k"] = [1, 2]
            elif c == 5:
                v = D0()
                v["k"] = (1, [2])
            elif c == 6:
                v = PA(1, [2])
                v.extra = rng.choice([0, "e", (1,)])
            elif c == 7:
                v = PN(rng.randrange(4))
            elif c == 8:
                v = PR(rng.randrange(4), [1])
            elif c == 9:
                v = TI(range(n))
            elif c == 10:
                v = LSlots([1, [2]])
                if n:
                    v.z = n
            elif c == 11:
                v = LState([3])
                v.q = n
            elif c == 12:
                v = DLower({"a": [n]})
            elif c == 13:
                v = DKeys({"a": n, "b": [1]})
            else:
                v = Count("abc"[:n])
            if c >= 3:
                return v
    pool.append(v)
    return v


def key(rng, pool):
    k = rng.randrange(8)
    if k == 0:
        return (1, ("a", rng.randrange(4)))
    if k == 1:
        return "long key" * 200
    if k == 2:
        return P(1, "b")
    if k == 3:
        return SE.A
    if k == 4:
        return b"k" * rng.choice([3, 2000])
    if k == 5:
        return (None, frozenset([2]), datetime.date(2020, 1, 1))
    return rng.choice([1, "x", 2.5, None, True])


ATOMS = (type(None), bool, int, float, complex, str, bytes, datetime.date, datetime.timedelta, datetime.time, type, range, frozenset, set)


CONTAINERS = (list, dict, LS, DS, collections.OrderedDict, collections.defaultdict)


def diff(a, b, shared=True):
    """None, or where and how ``b`` is not the same as ``a``"""
    to, back = {}, {}
    keep = []
    stack = [("", a, b)]
    while stack:
        path, x, y = stack.pop()
        tx = type(x)
        if tx is not type(y):
            return f"{path}: {tx.__name__} became {type(y).__name__}"
        if tx in CONTAINERS or (tx in (tuple, P) and len(x)) or (tx is str and len(x) >= LONG):
            if shared:
                keep += [x, y]
                i, j = id(x), id(y)
                if i in to or j in back:
                    if to.get(i) != j or back.get(j) != i:
                        if tx in CONTAINERS or to.get(i, j) != j:
                            return f"{path}: sharing of {tx.__name__} differs"
                    else:
                        continue
                to[i], back[j] = j, i
            elif tx in CONTAINERS or tx is tuple:
                # cycles
                if (id(x), id(y)) in to:
                    continue
                to[(id(x), id(y))] = 1
        for n in ("z", "q"):
            if tx in (LSlots, LState) and getattr(x, n, None) != getattr(y, n, None):
                return f"{path}: attribute {n} {getattr(x, n)!r} became {getattr(y, n, None)!r}"
        if isinstance(x, TI):
            if not tuple.__eq__(x, y):
                return f"{path}: {tuple.__repr__(x)} became {tuple.__repr__(y)}"
        elif isinstance(x, dict):
            if len(x) != len(y):
                return f"{path}: {len(x)} keys became {len(y)}"
            for kx, ky in zip(x, y):
                stack.append((f"{path}.key", kx, ky))
                stack.append((f"{path}[{str(kx)[:20]!r}]", x[kx], y[ky]))
                if kx not in y:
                    return f"{path}: key {kx!r} is not found"
            if isinstance(x, collections.defaultdict) and x.default_factory is not y.default_factory:
                return f"{path}: factory {y.default_factory!r}"
            if getattr(x, "__dict__", None) != getattr(y, "__dict__", None):
                return f"{path}: attributes {y.__dict__}"
        elif isinstance(x, (list, tuple, collections.deque)):
            if len(x) != len(y):
                return f"{path}: length {len(x)} became {len(y)}"
            for i, (p, q) in enumerate(zip(x, y)):
                stack.append((f"{path}[{i}]", p, q))
            if getattr(x, "__dict__", None) != getattr(y, "__dict__", None):
                return f"{path}: attributes {y.__dict__}"
        elif isinstance(x, np.ndarray):
            if x.dtype != y.dtype or x.dtype.names != y.dtype.names or x.dtype.itemsize != y.dtype.itemsize and x.dtype.kind != "U":
                return f"{path}: dtype {x.dtype} became {y.dtype}"
            if x.shape != y.shape:
                return f"{path}: shape {x.shape} became {y.shape}"
            if x.dtype.hasobject:
                if repr(x.tolist()) != repr(y.tolist()):
                    return f"{path}: {x!r} became {y!r}"
            elif isinstance(x, np.ma.MaskedArray):
                if x.tolist() != y.tolist():
                    return f"{path}: {x!r} became {y!r}"
            elif x.dtype.names:
                if any(x[n].tobytes() != y[n].tobytes() for n in x.dtype.names):
                    return f"{path}: {x!r} became {y!r}"
            elif x.tobytes() != y.tobytes():
                return f"{path}: {x!r} became {y!r}"
        elif isinstance(x, sps.csr_matrix):
            if x.shape != y.shape or x.dtype != y.dtype or (x != y).nnz or x.nnz != y.nnz or x.data.tobytes() != y.data.tobytes():
                return f"{path}: {x!r} became {y!r}"
        elif isinstance(x, BaseException):
            if x.args != y.args or x.__dict__ != y.__dict__:
                return f"{path}: {x!r} became {y!r}"
        elif isinstance(x, float):
            if repr(x) != repr(y):
                return f"{path}: {x!r} became {y!r}"
        elif isinstance(x, str):
            if str.__ne__(x, y) or getattr(x, "__dict__", None) != getattr(y, "__dict__", None):
                return f"{path}: {x[:50]!r} became {y[:50]!r}"
        elif not (x == y):
            return f"{path}: {x!r} became {y!r}"
    return None


def brief(x, n=1200, seen=None):
    """short text for a value, cycles cut"""
    seen = set() if seen is None else seen
    if id(x) in seen and isinstance(x, (list, dict, tuple)) and len(x):
        return "<again>"
    seen.add(id(x))
    t = type(x).__name__
    if isinstance(x, dict):
        s = "{" + ", ".join(f"{brief(k, 100, seen)}: {brief(v, n, seen)}" for k, v in x.items()) + "}"
        s = s if t == "dict" else f"{t}({s})"
    elif isinstance(x, (list, tuple)):
        s = "[" + ", ".join(brief(i, n, seen) for i in x) + "]"
        s = s if t == "list" else f"{t}({s})"
    elif isinstance(x, np.ndarray):
        s = f"{t}({x.dtype}, {x.shape}, {x.strides})"
    elif isinstance(x, (str, bytes)) and len(x) > 40:
        s = f"{t} of {len(x)} #{id(x) % 997}"
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
