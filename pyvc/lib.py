"""Python built-ins and a few standard-library functions as the interpreter sees them.

These are the semantics of the language and its library the proofs rest on; they
are part of the trusted base.
"""

import sys
import z3

from .values import *  # noqa: F401,F403


def _num_fold(vm, items, keyf, want_max):
    best = items[0]
    bk = keyf(best)
    for x in items[1:]:
        k = keyf(x)
        import ast

        r = vm.truth(vm.compare(ast.Gt() if want_max else ast.Lt(), k, bk))
        if r:
            best, bk = x, k
    return best


def _minmax(want_max):
    def f(vm, a, k):
        keyf = (lambda x: vm.call(k["key"], [x], {})) if k.get("key") is not None else (lambda x: x)
        items = vm.concrete_list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise PyExc(ValueError("empty sequence"))
        if len(a) > 1 and len(items) == 2 and not k and any(isinstance(x, SInt) for x in items):
            x, y = (vm.int_term(i) for i in items)
            if x is not None and y is not None:
                return SInt(z3.If(x >= y, x, y) if want_max else z3.If(x <= y, x, y))
        return _num_fold(vm, items, keyf, want_max)

    return f


def sorted_seq(vm, src, keyf, reverse):
    """a sorted sequence of any length: a permutation of the source; the facts about it are
    given one by one"""
    origin, src = src, src.frozen()
    n = src.length
    name = vm.fresh_name("sorted")
    Zs = z3.IntSort()
    perm, place = z3.Function(name + " from", Zs, Zs), z3.Function(name + " to", Zs, Zs)

    def elem(i):
        vm.assume(z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= perm(i), perm(i) < n, place(perm(i)) == i)))
        return src.elem(perm(i))

    def to(j):
        """where item j of the source is"""
        vm.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= place(j), place(j) < n, perm(place(j)) == j)))
        return place(j)

    def ordered(i, j):
        """items i < j are in order; items that compare equal in that of the source"""
        x, y = (vm.int_term(keyf(r.elem(k))) for k in (i, j))
        if x is None or y is None:
            raise Unsupported("sorted by a key that is no number")
        if reverse:
            x, y = y, x
        vm.assume(z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(x <= y, z3.Implies(x == y, perm(i) < perm(j)))))

    r = SSeq(f"sorted({src.name})", n, elem)
    r.source, r.place, r.ordered = origin, to, ordered
    return r


def insertion_sort(vm, items, keyf, reverse=False):
    """stable sort through the interpreter's comparison"""
    import ast

    out = []
    for x in items:
        kx = keyf(x)
        i = len(out)
        while i > 0:
            ky = out[i - 1][0]
            less = vm.truth(vm.compare(ast.Lt(), ky, kx)) if reverse else vm.truth(vm.compare(ast.Lt(), kx, ky))
            if not less:
                break
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]


class VIter(Host):
    """iterator over a concrete list"""

    def __init__(self, items):
        self.items = list(items)
        self.i = 0

    def vm_iter(self, vm):
        r = self.items[self.i :]
        self.i = len(self.items)
        return r

    def next(self, vm):
        if self.i >= len(self.items):
            raise PyExc(StopIteration())
        self.i += 1
        return self.items[self.i - 1]

    m___next__ = lambda self, vm, a, k: self.next(vm)
    m___iter__ = lambda self, vm, a, k: self


class Counter(Host):
    """itertools.count"""

    def __init__(self, start=0):
        self.n = start

    def m___next__(self, vm, a, k):
        r = self.n
        self.n = SInt(self.n.t + 1) if isinstance(self.n, SInt) else self.n + 1
        return r

    def next(self, vm):
        return self.m___next__(vm, [], {})


class TypeAttr(Host):
    """attribute of a builtin type"""

    table = {}

    def __init__(self, t, name, v):
        self.t, self.name, self.v = t, name, v

    @classmethod
    def of(cls, t, name):
        v = getattr(t, name)
        return cls.table.setdefault(id(v), cls(t, name, v))

    def __repr__(self):
        return f"{self.t.__name__}.{self.name}"

    def vm_eq(self, vm, o):
        return self is o

    def vm_call(self, vm, a, k):
        if self.name == "__new__" and a and isinstance(a[0], Host) and hasattr(a[0], "vm_new"):
            return a[0].vm_new(vm, self.t, a[1:], k)
        if self.name == "__new__" and a and isinstance(a[0], type):
            return vm.call_type(a[0], a[1:], k)
        if a and isinstance(a[0], Host) and hasattr(a[0], "vm_basecall"):
            return a[0].vm_basecall(vm, self.t, self.name, a[1:], k)
        return vm.call(vm.getattr(a[0], self.name), a[1:], k)


class Partial(Host):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def vm_call(self, vm, a, k):
        kk = dict(self.k)
        kk.update(k)
        return vm.call(self.f, list(self.a) + list(a), kk)

    def p_func(self, vm):
        return self.f


class Fresh(Host):
    """object(): equal to nothing else"""

    def vm_eq(self, vm, o):
        return self is o


class NullCM(Host):
    """a context manager without effect"""

    def __init__(self, v=None):
        self.v = v

    m___enter__ = lambda self, vm, a, k: self.v
    m___exit__ = lambda self, vm, a, k: False
    m___aenter__ = lambda self, vm, a, k: Awaitable(lambda vm: self.v, "aenter", False)
    m___aexit__ = lambda self, vm, a, k: Awaitable(lambda vm: False, "aexit", False)


def _hashable(v):
    return not isinstance(v, (VList, VDict, VSet))


def _install_builtins(self):
    B = self.builtins = {}

    def reg(name):
        def d(fn):
            B[name] = Stub(fn, name)
            return fn

        return d

    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["len"] = Stub(lambda vm, a, k: vm.length(a[0]), "len")

    @reg("isinstance")
    def _isinstance(vm, a, k):
        return vm.isinst(a[0], a[1])

    @reg("issubclass")
    def _issubclass(vm, a, k):
        from .interp import _subclass

        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        if isinstance(a[0], TypeOf):
            return vm.isinst(a[0].v, a[1])
        if isinstance(a[0], SVal):
            return any(vm.branch(z3.Function("subclass", U, U, z3.BoolSort())(a[0].t, vm.term(c))) for c in cs)
        return any(_subclass(a[0], c) for c in cs)

    @reg("getattr")
    def _getattr(vm, a, k):
        if not isinstance(a[1], str):
            h = getattr(a[0], "vm_getattr_sym", None) or (a[0].facets.get("getattr_sym") if isinstance(a[0], SVal) else None)
            if h is not None:
                return h(vm, *a[1:])
            raise Unsupported(f"getattr with symbolic name on {a[0]!r}")
        try:
            return vm.getattr(a[0], a[1])
        except PyExc as e:
            if len(a) > 2 and isinstance(e.value, AttributeError):
                return a[2]
            raise

    @reg("hasattr")
    def _hasattr(vm, a, k):
        o = a[0]
        if isinstance(o, Host):
            h = getattr(o, "vm_hasattr", None)
            if h is not None:
                return h(vm, a[1])
            return hasattr(o, "m_" + a[1]) or hasattr(o, "p_" + a[1])
        if isinstance(o, SVal):
            h = o.facets.get("hasattr")
            if h is not None:
                return h(vm, a[1])
            return vm.branch(z3.Function("hasattr_" + a[1], U, z3.BoolSort())(o.t))
        if isinstance(o, IObj):
            if a[1] in o.attrs or o.cls.lookup(a[1])[1] is not None:
                return True
        try:
            vm.getattr(o, a[1])
            return True
        except PyExc as e:
            if isinstance(e.value, AttributeError):
                return False
            raise

    @reg("setattr")
    def _setattr(vm, a, k):
        vm.setattr(a[0], a[1], a[2])

    @reg("enumerate")
    def _enumerate(vm, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        it = vm.iterate(a[0])
        if it is None:
            s = a[0].frozen()
            return SSeq(f"enumerate({s.name})", s.length, lambda i: (SInt(z3.simplify(i + vm.int_term(start))), s.elem(i)))
        return VList([((SInt(start.t + i) if isinstance(start, SInt) else start + i), x) for i, x in enumerate(it)])

    @reg("zip")
    def _zip(vm, a, k):
        its = [vm.iterate(x) for x in a]
        if all(i is not None for i in its):
            if k.get("strict") and len({len(i) for i in its}) > 1:
                raise PyExc(ValueError("zip() arguments of different length"))
            return VList([tuple(t) for t in zip(*its)])
        if any(i is not None for i in its):
            raise Unsupported("zip of concrete and symbolic sequences")
        a = [s.frozen() for s in a]
        n = a[0].length
        for s in a[1:]:
            n = z3.If(s.length < n, s.length, n)
        return SSeq("zip(" + ",".join(s.name for s in a) + ")", z3.simplify(n), lambda i: tuple(s.elem(i) for s in a))

    @reg("sorted")
    def _sorted(vm, a, k):
        keyf = (lambda x: vm.call(k["key"], [x], {})) if k.get("key") is not None else (lambda x: x)
        src = vm.sequence(a[0])
        if isinstance(src, SSeq) and vm.iterate(src) is None:
            return sorted_seq(vm, src, keyf, bool(k.get("reverse")))
        return VList(insertion_sort(vm, vm.concrete_list(a[0]), keyf, bool(k.get("reverse"))))

    @reg("reversed")
    def _reversed(vm, a, k):
        if isinstance(a[0], SSeq) and vm.iterate(a[0]) is None:
            s = a[0].frozen()
            return SSeq(f"rev({s.name})", s.length, lambda i: s.elem(z3.simplify(s.length - 1 - i)), s.kind)
        return VList(list(reversed(vm.concrete_list(a[0]))))

    B["min"] = Stub(_minmax(False), "min")
    B["max"] = Stub(_minmax(True), "max")

    @reg("abs")
    def _abs(vm, a, k):
        if isinstance(a[0], SInt):
            return SInt(z3.If(a[0].t >= 0, a[0].t, -a[0].t))
        return abs(a[0])

    @reg("any")
    def _any(vm, a, k):
        if isinstance(a[0], SSeq) and vm.iterate(a[0]) is None:
            s = a[0]
            i = vm.fresh_int("anyw").t
            # some element is true / no element is: decided by an arbitrary witness
            raise Unsupported("any over a symbolic sequence")
        return any([vm.truth(x) for x in vm.concrete_list(a[0])])

    @reg("all")
    def _all(vm, a, k):
        return all([vm.truth(x) for x in vm.concrete_list(a[0])])

    @reg("sum")
    def _sum(vm, a, k):
        import ast

        r = a[1] if len(a) > 1 else 0
        if isinstance(a[0], Host) and hasattr(a[0], "vm_sum"):
            return vm.binop(ast.Add(), r, a[0].vm_sum(vm))
        for x in vm.concrete_list(a[0]):
            r = vm.binop(ast.Add(), r, x)
        return r

    @reg("iter")
    def _iter(vm, a, k):
        if isinstance(a[0], (Host,)) and hasattr(a[0], "m___iter__"):
            return a[0].m___iter__(vm, [], {})
        return VIter(vm.concrete_list(a[0]))

    @reg("next")
    def _next(vm, a, k):
        it = a[0]
        if isinstance(it, VList):
            # a generator expression, evaluated eagerly
            if it.items:
                return it.items.pop(0)
            if len(a) > 1:
                return a[1]
            raise PyExc(StopIteration())
        if isinstance(it, IGen):
            items = vm.run_gen(it)
            if items:
                return items[0]
            if len(a) > 1:
                return a[1]
            raise PyExc(StopIteration())
        nxt = it.next if hasattr(it, "next") else (lambda vm: it.m___next__(vm, [], {})) if hasattr(it, "m___next__") else None
        if nxt is not None:
            try:
                return nxt(vm)
            except PyExc as e:
                if len(a) > 1 and isinstance(e.value, StopIteration):
                    return a[1]
                raise
        if isinstance(it, SVal) and "next" in it.facets:
            return it.facets["next"](vm)
        if isinstance(it, IObj):
            return vm.call(vm.getattr(it, "__next__"), [], {})
        raise Unsupported(f"next of {it!r}")

    @reg("repr")
    def _repr(vm, a, k):
        if isinstance(a[0], (str, int, bytes, type(None), float, bool)):
            return repr(a[0])
        if isinstance(a[0], IObj):
            f, _ = a[0].cls.lookup("__repr__")
            if isinstance(f, IFunc):
                return vm.call(vm.getattr(a[0], "__repr__"), [], {})
        return vm.opaque("repr", "str")

    B["ascii"] = B["repr"]
    B["format"] = Stub(lambda vm, a, k: vm.opaque("format", "str"), "format")

    @reg("callable")
    def _callable(vm, a, k):
        o = a[0]
        if isinstance(o, (IFunc, IMethod, Stub, IClass, HostFn, type)):
            return True
        if isinstance(o, SVal):
            if "call" in o.facets:
                return True
            h = o.facets.get("callable")
            if h is not None:
                return h
            return vm.branch(z3.Function("callable", U, z3.BoolSort())(o.t))
        if isinstance(o, IObj):
            return o.cls.lookup("__call__")[0] is not None
        if isinstance(o, Host):
            return hasattr(o, "vm_call")
        return False

    @reg("id")
    def _id(vm, a, k):
        f = z3.Function("id_of", U, z3.IntSort())
        return SInt(f(vm.term(a[0])))

    @reg("hash")
    def _hash(vm, a, k):
        o = a[0]
        if isinstance(o, IObj):
            f, _ = o.cls.lookup("__hash__")
            if isinstance(f, IFunc):
                return vm.call(vm.getattr(o, "__hash__"), [], {})
        if isinstance(o, tuple):
            return SInt(z3.Function("hash_of", U, z3.IntSort())(vm.term(o)))
        return SInt(z3.Function("hash_of", U, z3.IntSort())(vm.term(o)))

    B["print"] = Stub(lambda vm, a, k: None, "print")
    B["locals"] = Stub(lambda vm, a, k: VDict(), "locals")

    @reg("map")
    def _map(vm, a, k):
        if len(a) == 2 and isinstance(a[1], SSeq) and vm.iterate(a[1]) is None:
            s = a[1].frozen()
            return SSeq(f"map({s.name})", s.length, lambda i: vm.call(a[0], [s.elem(i)], {}))
        return VList([vm.call(a[0], [x], {}) for x in vm.concrete_list(a[1])])

    @reg("filter")
    def _filter(vm, a, k):
        f = a[0]
        return VList([x for x in vm.concrete_list(a[1]) if vm.truth(vm.call(f, [x], {}) if f is not None else x)])

    @reg("divmod")
    def _divmod(vm, a, k):
        import ast

        return (vm.binop(ast.FloorDiv(), a[0], a[1]), vm.binop(ast.Mod(), a[0], a[1]))

    @reg("round")
    def _round(vm, a, k):
        return round(*a) if all(isinstance(x, (int, float)) for x in a) else vm.opaque("round")

    @reg("ord")
    def _ord(vm, a, k):
        return ord(a[0])

    @reg("chr")
    def _chr(vm, a, k):
        return chr(a[0])

    @reg("vars")
    def _vars(vm, a, k):
        return VDict(list(a[0].attrs.items()))

    # ------------------------------------------------------------- types
    from . import interp

    T = interp_types()

    def _bool(vm, a, k):
        if not a:
            return False
        if isinstance(a[0], SBool):
            return a[0]
        return vm.truth(a[0])

    T[bool] = _bool

    def _int(vm, a, k):
        if not a:
            return 0
        if isinstance(a[0], (SInt,)):
            if a[0].t.sort() != z3.IntSort():
                raise Unsupported("int of a real")
            return a[0]
        if isinstance(a[0], SBool):
            return SInt(z3.If(a[0].t, 1, 0))
        if isinstance(a[0], (int, float, str, bytes)):
            try:
                return int(*a)
            except (ValueError, TypeError) as e:
                raise PyExc(e)
        if isinstance(a[0], SVal):
            h = a[0].facets.get("int")
            if h is not None:
                return h(vm)
            return SInt(z3.Function("int_of", U, z3.IntSort())(a[0].t))
        if isinstance(a[0], IEnum):
            return a[0].value
        if hasattr(a[0], "vm_int"):
            return a[0].vm_int(vm, a[1:], k)
        raise Unsupported(f"int of {a[0]!r}")

    T[int] = _int

    def _float(vm, a, k):
        if isinstance(a[0], (int, float, str)):
            return float(a[0])
        return a[0]

    T[float] = _float

    def _str(vm, a, k):
        if not a:
            return ""
        v = a[0]
        if (len(a) > 1 or k) and isinstance(v, Host):
            if hasattr(v, "vm_decode"):
                return v.vm_decode(vm, a[1:], k)
            raise Unsupported("str() that decodes")
        if isinstance(v, (str, int, float, bool, type(None))):
            return str(v)
        if isinstance(v, bytes) and len(a) == 1:
            return str(v)
        if isinstance(v, SVal):
            if v.typ == "str":
                return v
            return SVal(z3.Function("str_of", U, U)(v.t), "str")
        if isinstance(v, SInt):
            return SVal(z3.Function("str_of_int", z3.IntSort(), U)(v.t), "str")
        if isinstance(v, Host) and hasattr(v, "vm_str"):
            return v.vm_str(vm)
        if isinstance(v, IObj):
            f, _ = v.cls.lookup("__str__")
            if isinstance(f, IFunc):
                return vm.call(vm.getattr(v, "__str__"), [], {})
        return vm.opaque("str", "str")

    T[str] = _str

    def _bytes(vm, a, k):
        if not a:
            return b""
        if isinstance(a[0], (bytes, bytearray)):
            return bytes(a[0])
        if isinstance(a[0], int):
            return bytes(a[0])
        if isinstance(a[0], str):
            return bytes(*a)
        if isinstance(a[0], SVal):
            return a[0]
        if hasattr(a[0], "vm_bytes"):
            return a[0].vm_bytes(vm)
        raise Unsupported("bytes()")

    T[bytes] = _bytes

    def _list(vm, a, k):
        if not a:
            return VList()
        a = [vm.sequence(a[0])]
        r = vm.iterate(a[0])
        if r is None:
            return a[0].frozen("list")
        return VList(r)

    T[list] = _list

    def _tuple(vm, a, k):
        if not a:
            return ()
        if isinstance(a[0], tuple):
            return a[0]
        if isinstance(a[0], SVal) and "as_tuple" in a[0].facets:
            return a[0].facets["as_tuple"]
        a = [vm.sequence(a[0])]
        r = vm.iterate(a[0])
        if r is None:
            return a[0].frozen("tuple")
        return tuple(r)

    T[tuple] = _tuple

    def _set(vm, a, k):
        s = VSet()
        if a:
            for x in vm.concrete_list(a[0]):
                if not vm.contains(s, x):
                    s.items.append(x)
        return s

    T[set] = T[frozenset] = _set

    def _dict(vm, a, k):
        d = VDict()
        if a:
            if isinstance(a[0], VDict):
                d.items = [list(e) for e in a[0].items]
            elif isinstance(a[0], Host) and hasattr(a[0], "vm_copy"):
                return a[0].vm_copy(vm)
            else:
                for x in vm.concrete_list(a[0]):
                    kk, vv = vm.unpack2(x) if hasattr(vm, "unpack2") else vm.concrete_list(x)
                    vm.setitem(d, kk, vv)
        for kk, vv in k.items():
            vm.setitem(d, kk, vv)
        return d

    T[dict] = _dict

    def _type(vm, a, k):
        if len(a) == 3:
            if "builtins.type" in vm.stubs:
                return vm.call(vm.stubs["builtins.type"], a, k)
            raise Unsupported("type() with three arguments")
        v = a[0]
        if isinstance(v, IObj):
            return v.cls
        if isinstance(v, IEnum):
            return v.cls
        if isinstance(v, (SVal, Host)):
            h = v.facets.get("type") if isinstance(v, SVal) else getattr(v, "vm_type", None)
            if h is not None:
                return h(vm)
            if isinstance(v, SVal) and isinstance(v.typ, IClass):
                return v.typ
            return TypeOf(v)
        table = {VList: list, VDict: dict, VSet: set, SInt: int, SBool: bool}
        if type(v) in table:
            return table[type(v)]
        if isinstance(v, SSeq):
            return tuple if v.kind == "tuple" else list
        if isinstance(v, IClass):
            return type
        if isinstance(v, (str, bytes, int, float, bool, type(None), tuple, BaseException, type)):
            return type(v)
        return TypeOf(v)

    T[type] = _type

    def _range(vm, a, k):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            n = vm.int_term(a[0])
            return SSeq("range", z3.If(n > 0, n, z3.IntVal(0)), lambda i: SInt(i))
        lo, hi = vm.int_term(a[0]), vm.int_term(a[1])
        if len(a) == 2:
            return SSeq("range", z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: SInt(z3.simplify(i + lo)))
        raise Unsupported("range with symbolic step")

    T[range] = _range
    T[object] = lambda vm, a, k: Fresh()
    T[memoryview] = lambda vm, a, k: a[0].vm_memoryview(vm) if hasattr(a[0], "vm_memoryview") else a[0]
    T[super] = lambda vm, a, k: SuperProxy(a[0], a[1])
    T[slice] = lambda vm, a, k: slice(*a)
    B["range"] = range

    # ------------------------------------------------ library functions
    S = self.stubs

    def stub(name):
        def d(fn):
            S.setdefault(name, Stub(fn, name))
            return fn

        return d

    stub("functools.partial")(lambda vm, a, k: Partial(a[0], a[1:], k))
    stub("itertools.count")(lambda vm, a, k: Counter(a[0] if a else 0))
    stub("itertools.chain")(lambda vm, a, k: VList([x for s in a for x in vm.concrete_list(s)]))
    stub("itertools.chain.from_iterable")(lambda vm, a, k: VList([x for s in vm.concrete_list(a[0]) for x in vm.concrete_list(s)]))
    stub("operator.itemgetter")(lambda vm, a, k: Stub(lambda vm, b, kk: vm.getitem(b[0], a[0]) if len(a) == 1 else tuple(vm.getitem(b[0], x) for x in a), "itemgetter"))
    stub("operator.attrgetter")(lambda vm, a, k: Stub(lambda vm, b, kk: vm.getattr(b[0], a[0]), "attrgetter"))
    stub("contextlib.nullcontext")(lambda vm, a, k: NullCM(a[0] if a else None))

    @stub("contextlib.suppress")
    def _suppress(vm, a, k):
        class Sup(NullCM):
            def m___exit__(self, vm, b, kk):
                return b[0] is not None and vm.isinst(b[1], tuple(a))

        return Sup()

    @stub("copy.copy")
    def _copy(vm, a, k):
        v = a[0]
        if isinstance(v, VDict):
            return VDict(v.items)
        if isinstance(v, VList):
            return VList(v.items)
        if isinstance(v, VSet):
            return VSet(v.items)
        if isinstance(v, IObj):
            o = IObj(v.cls)
            o.attrs = dict(v.attrs)
            o.args = v.args
            return o
        return v

    @stub("copy.deepcopy")
    def _deepcopy(vm, a, k):
        def rec(v):
            if isinstance(v, VDict):
                return VDict([[rec(x), rec(y)] for x, y in v.items])
            if isinstance(v, VList):
                return VList([rec(x) for x in v.items])
            if isinstance(v, VSet):
                return VSet([rec(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(rec(x) for x in v)
            if isinstance(v, IObj):
                o = IObj(v.cls)
                o.attrs = {n: rec(x) for n, x in v.attrs.items()}
                o.args = v.args
                return o
            return v

        return rec(a[0])

    stub("os.getpid")(lambda vm, a, k: SInt(z3.Int("getpid")))
    stub("time.time")(lambda vm, a, k: vm.fresh_int("time"))
    stub("time.perf_counter")(lambda vm, a, k: vm.fresh_int("time"))
    stub("sys.exc_info")(
        lambda vm, a, k: (
            (vm.exc_class(vm.path.exc_stack[-1]), vm.path.exc_stack[-1], vm.opaque("tb", "traceback"))
            if vm.path.exc_stack
            else (None, None, None)
        )
    )

    def is_awaitable(vm, v):
        if isinstance(v, (ICoro, Awaitable)):
            return True
        if isinstance(v, SVal):
            h = v.facets.get("awaitable")
            if h is not None:
                return h if not callable(h) else h(vm)
            if v.typ is not None:
                return False
            return vm.branch(z3.Function("isawaitable", U, z3.BoolSort())(v.t))
        if isinstance(v, Host):
            return hasattr(v, "vm_await")
        if isinstance(v, IObj):
            return v.cls.lookup("__await__")[0] is not None
        return False

    self.is_awaitable = is_awaitable

    def is_coro(vm, v):
        if isinstance(v, ICoro):
            return True
        if isinstance(v, Awaitable):
            return getattr(v, "coro", True)
        if isinstance(v, SVal) and "coroutine" in v.facets:
            h = v.facets["coroutine"]
            return h if not callable(h) else h(vm)
        if isinstance(v, SVal) and v.typ is None:
            return vm.branch(z3.Function("iscoroutine", U, z3.BoolSort())(v.t))
        return False

    stub("inspect.isawaitable")(lambda vm, a, k: is_awaitable(vm, a[0]))
    stub("asyncio.isfuture")(lambda vm, a, k: getattr(a[0], "is_future", False))
    for n in ("inspect.iscoroutine", "asyncio.iscoroutine", "asyncio.coroutines.iscoroutine"):
        stub(n)(lambda vm, a, k: is_coro(vm, a[0]))

    def is_corofunc(vm, a, k):
        f = a[0]
        if isinstance(f, IMethod):
            f = f.func
        if isinstance(f, IFunc):
            return f.is_async and not f.is_gen
        if isinstance(f, SVal) and "corofunc" in f.facets:
            return f.facets["corofunc"]
        if isinstance(f, SVal):
            return vm.branch(z3.Function("iscoroutinefunction", U, z3.BoolSort())(f.t))
        return False

    stub("asyncio.iscoroutinefunction")(is_corofunc)
    stub("inspect.iscoroutinefunction")(is_corofunc)
    stub("inspect.isasyncgen")(
        lambda vm, a, k: a[0].facets.get("asyncgen", False) if isinstance(a[0], SVal) else getattr(a[0], "is_asyncgen", False)
    )
    stub("inspect.isgenerator")(
        lambda vm, a, k: a[0].facets.get("generator", False) if isinstance(a[0], SVal) else isinstance(a[0], IGen)
    )
    stub("inspect.getmembers")(lambda vm, a, k: VList())

    # observation-only helpers of xoscar
    for n in ("xoscar.debug.debug_async_timeout", "xoscar.backends.pool.debug_async_timeout", "xoscar.debug.record_message_trace"):
        S.setdefault(n, Stub(lambda vm, a, k: NullCM(), n))
    for n in ("xoscar.debug.register_debug_opts",):
        S.setdefault(n, Stub(lambda vm, a, k: None, n))


_T = {}


def interp_types():
    return _T


def _m(fn, name):
    return Stub(fn, name)


def builtin_method(self, o, name):
    f = None
    if isinstance(o, VList):
        f = _LIST.get(name)
    elif isinstance(o, VDict):
        f = _DICT.get(name)
    elif isinstance(o, VSet):
        f = _SET.get(name)
    elif isinstance(o, SSeq):
        f = _SSEQ.get(name)
    elif isinstance(o, tuple):
        f = {"index": _LIST["index"], "count": _LIST["count"]}.get(name)
        if name in ("_fields",):
            return None
    elif isinstance(o, (str, bytes)):
        if hasattr(o, name) and not name.startswith("__"):
            return Stub(lambda vm, a, k: _strcall(vm, o, name, a, k), f"str.{name}")
        return None
    elif isinstance(o, (SInt, int)) and not isinstance(o, bool):
        if name == "bit_length" and isinstance(o, int):
            return Stub(lambda vm, a, k: o.bit_length())
        if name == "to_bytes" and isinstance(o, int):
            return Stub(lambda vm, a, k: o.to_bytes(*a, **k))
        return None
    elif isinstance(o, IGen):
        return None
    if f is None:
        t = {VList: list, VDict: dict, VSet: set, SSeq: list, tuple: tuple, IGen: None, SInt: int}.get(type(o))
        if isinstance(o, SSeq) and o.kind == "tuple":
            t = tuple
        if t is not None and hasattr(t, name) and not name.startswith("__"):
            raise Unsupported(f"{t.__name__}.{name}")
        return None
    return Stub(lambda vm, a, k: f(vm, o, a, k), f"{type(o).__name__}.{name}")


def _strcall(vm, o, name, a, k):
    for x in a:
        h = getattr(x, "vm_in_str", None)
        if h is not None:
            return h(vm, o, name, a, k)
    args = []
    for x in a:
        if isinstance(x, (VList, VSet, SSeq, IGen)):
            x = vm.concrete_list(x)
        args.append(x)
    if any(isinstance(x, (Sym, IObj, Host)) for x in args) or any(
        isinstance(x, list) and any(not isinstance(y, (str, bytes)) for y in x) for x in args
    ) or any(not isinstance(x, (str, bytes, int, bool, type(None), float)) for x in k.values()):
        if name in ("format", "join", "replace"):
            return vm.opaque("strop", "str")
        if name in ("startswith", "endswith"):
            return vm.fresh_bool(name)
        raise Unsupported(f"str.{name} on symbolic arguments")
    try:
        r = getattr(o, name)(*args, **k)
    except Exception as e:
        raise PyExc(e)
    return VList(r) if isinstance(r, list) else r


def _l_append(vm, o, a, k):
    o.items.append(a[0])


def _l_extend(vm, o, a, k):
    s = vm.sequence(a[0])
    if isinstance(s, SSeq) and vm.iterate(s) is None:
        # the list goes on with any number of items
        first, s = list(o.items), s.frozen()

        def elem(j):
            if isinstance(j, int):
                return first[j] if j < len(first) else s.elem(z3.IntVal(j - len(first)))
            for i, x in enumerate(first):
                if vm.branch(j == i):
                    return x
            return s.elem(z3.simplify(j - len(first)))

        o.__class__ = SSeq
        del o.items
        o.__init__(f"list and {s.name}", z3.simplify(s.length + len(first)), elem, "list")
        return
    o.items.extend(vm.concrete_list(a[0]))


def _l_insert(vm, o, a, k):
    o.items.insert(a[0], a[1])


def _l_pop(vm, o, a, k):
    i = a[0] if a else -1
    if isinstance(i, SInt):
        raise Unsupported("pop at symbolic index")
    try:
        return o.items.pop(i)
    except IndexError as e:
        raise PyExc(e)


def _l_remove(vm, o, a, k):
    for i, x in enumerate(o.items):
        if vm.truth(vm.eq(x, a[0])):
            del o.items[i]
            return
    raise PyExc(ValueError("list.remove(x): x not in list"))


def _l_index(vm, o, a, k):
    items = o.items if isinstance(o, VList) else o
    for i, x in enumerate(items):
        if vm.truth(vm.eq(x, a[0])):
            return i
    raise PyExc(ValueError("not in list"))


def _l_count(vm, o, a, k):
    items = o.items if isinstance(o, VList) else o
    return sum(1 for x in items if vm.truth(vm.eq(x, a[0])))


def _l_sort(vm, o, a, k):
    keyf = (lambda x: vm.call(k["key"], [x], {})) if k.get("key") is not None else (lambda x: x)
    o.items = insertion_sort(vm, o.items, keyf, bool(k.get("reverse")))


_LIST = {
    "append": _l_append,
    "extend": _l_extend,
    "insert": _l_insert,
    "pop": _l_pop,
    "popleft": lambda vm, o, a, k: _l_pop(vm, o, [0], {}),
    "appendleft": lambda vm, o, a, k: _l_insert(vm, o, [0, a[0]], {}),
    "remove": _l_remove,
    "index": _l_index,
    "count": _l_count,
    "sort": _l_sort,
    "clear": lambda vm, o, a, k: o.items.clear(),
    "reverse": lambda vm, o, a, k: o.items.reverse(),
    "copy": lambda vm, o, a, k: VList(o.items),
    "__setitem__": lambda vm, o, a, k: vm.setitem(o, a[0], a[1]),
    "__getitem__": lambda vm, o, a, k: vm.getitem(o, a[0]),
    "__len__": lambda vm, o, a, k: vm.length(o),
    "__contains__": lambda vm, o, a, k: vm.contains(o, a[0]),
}


def _d_get(vm, o, a, k):
    e = vm.dict_find(o, a[0])
    if e is not None:
        return e[1]
    return a[1] if len(a) > 1 else k.get("default")


def _d_pop(vm, o, a, k):
    e = vm.dict_find(o, a[0])
    if e is not None:
        o.items.remove(e)
        return e[1]
    if len(a) > 1:
        return a[1]
    raise PyExc(KeyError(a[0]))


def _d_setdefault(vm, o, a, k):
    e = vm.dict_find(o, a[0])
    if e is not None:
        return e[1]
    v = a[1] if len(a) > 1 else None
    o.items.append([a[0], v])
    return v


def _d_update(vm, o, a, k):
    if a:
        src = a[0]
        if isinstance(src, VDict):
            for x, y in [tuple(e) for e in src.items]:
                vm.setitem(o, x, y)
        else:
            for x in vm.concrete_list(src):
                kk, vv = vm.concrete_list(x)
                vm.setitem(o, kk, vv)
    for x, y in k.items():
        vm.setitem(o, x, y)


def _d_popitem(vm, o, a, k):
    if not o.items:
        raise PyExc(KeyError("popitem(): dictionary is empty"))
    e = o.items.pop()
    return (e[0], e[1])


_DICT = {
    "get": _d_get,
    "pop": _d_pop,
    "setdefault": _d_setdefault,
    "update": _d_update,
    "popitem": _d_popitem,
    "items": lambda vm, o, a, k: VList([(x, y) for x, y in o.items]),
    "keys": lambda vm, o, a, k: VList([x for x, _ in o.items]),
    "values": lambda vm, o, a, k: VList([y for _, y in o.items]),
    "clear": lambda vm, o, a, k: o.items.clear(),
    "copy": lambda vm, o, a, k: VDict(o.items),
    "__setitem__": lambda vm, o, a, k: vm.setitem(o, a[0], a[1]),
    "__getitem__": lambda vm, o, a, k: vm.getitem(o, a[0]),
    "__delitem__": lambda vm, o, a, k: vm.delitem(o, a[0]),
    "__len__": lambda vm, o, a, k: vm.length(o),
    "__contains__": lambda vm, o, a, k: vm.contains(o, a[0]),
}


def _s_add(vm, o, a, k):
    if not vm.contains(o, a[0]):
        o.items.append(a[0])


def _s_discard(vm, o, a, k):
    for i, x in enumerate(o.items):
        if vm.truth(vm.eq(x, a[0])):
            del o.items[i]
            return True
    return False


def _s_remove(vm, o, a, k):
    if not _s_discard(vm, o, a, k):
        raise PyExc(KeyError(a[0]))


def _s_update(vm, o, a, k):
    for s in a:
        for x in vm.concrete_list(s):
            _s_add(vm, o, [x], {})


_SET = {
    "add": _s_add,
    "discard": lambda vm, o, a, k: (_s_discard(vm, o, a, k), None)[1],
    "remove": _s_remove,
    "update": _s_update,
    "pop": lambda vm, o, a, k: _l_pop(vm, o, [], {}),
    "clear": lambda vm, o, a, k: o.items.clear(),
    "copy": lambda vm, o, a, k: VSet(o.items),
    "union": lambda vm, o, a, k: (lambda s: (_s_update(vm, s, a, k), s)[1])(VSet(o.items)),
    "difference": lambda vm, o, a, k: VSet([x for x in o.items if not any(vm.contains(s, x) for s in a)]),
    "intersection": lambda vm, o, a, k: VSet([x for x in o.items if all(vm.contains(s, x) for s in a)]),
    "issubset": lambda vm, o, a, k: all(vm.contains(a[0], x) for x in o.items),
}



def _sseq_append(vm, o, a, k):
    if o.kind != "list":
        raise PyExc(AttributeError("append"))
    n = o.length
    o.length = z3.simplify(n + 1)
    o.put(vm, n, a[0])


def _sseq_extend(vm, o, a, k):
    if o.kind != "list":
        raise PyExc(AttributeError("extend"))
    more = vm.iterate(a[0])
    if more is None:
        n, old, s = o.length, o.elem, a[0].frozen()
        o.length = z3.simplify(n + s.length)
        o.part = None
        o.elem = lambda j: old(j) if vm.branch(j < n) else s.elem(z3.simplify(j - n))
    else:
        for x in more:
            _sseq_append(vm, o, [x], {})


def _sseq_copy(vm, o, a, k):
    return o.frozen()


_SSEQ = {
    "index": None,
    "append": _sseq_append,
    "extend": _sseq_extend,
    "copy": _sseq_copy,
    "__setitem__": lambda vm, o, a, k: vm.setitem(o, a[0], a[1]),
    "__getitem__": lambda vm, o, a, k: vm.getitem(o, a[0]),
    "__len__": lambda vm, o, a, k: vm.length(o),
}
