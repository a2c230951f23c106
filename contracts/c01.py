"""C01: what is serialized is restored with the same values, types and sharing.

Contract of a serializer, for an object x and an arbitrary context: serial() gives a
placeholder of x when the context has x, and otherwise enters x into the context and gives a
header and parts such that deserial(), given the header and the parts restored, gives x
restored.  A part restored is equal to the part, or a placeholder of an object that is still
being restored, which is replaced when that object is there.  That the parts of all objects
come in their places, that placeholders carry the numbers of their objects and that their
callbacks are run is C02's contract for the loops around the serializers; the property
follows by induction on the object.
"""

from . import c02
from .base import *  # noqa: F401,F403

M = "xoscar.serialization.core"
N_ = "xoscar.serialization.numpy"
S_ = "xoscar.serialization.scipy"
E_ = "xoscar.serialization.exception"
I, B = z3.IntSort(), z3.BoolSort()

KIND, LEN = z3.Function("type of item", U, I), z3.Function("length of item", U, I)
RESTORED = z3.Function("restored", U, U)
CODES = {bytes: 0, str: 1, type(None): 2, bool: 3, int: 4, float: 5, complex: 6, list: 7, tuple: 8, dict: 9, set: 10}
PLAIN = (0, 1, 2, 3, 4, 5, 6, 40)  # 40: another type of values without parts


def plain(t):
    """values without parts that are their own restored form"""
    k = KIND(t)
    return z3.Or(*[k == c for c in PLAIN])


class Prims(Host):
    """the set of the types of plain values"""

    def vm_contains(self, vm, x):
        if isinstance(x, TypeOf) and isinstance(x.v, SVal):
            k = KIND(x.v.t)
            return SBool(z3.And(plain(x.v.t), k != 0, k != 1))
        if isinstance(x, type):
            return x in CODES and CODES[x] in PLAIN and x not in (str, bytes)
        return False

    def vm_isinst(self, vm, cls):
        return cls is set


def item(vm, t):
    def type_is(vm, cls):
        if cls in CODES:
            return SBool(KIND(t) == CODES[cls])
        if isinstance(cls, IClass):
            return False  # a placeholder is no part of an object
        raise Unsupported(f"whether an item is of type {cls!r}")

    vm.assume(LEN(t) >= 0)
    return SVal(t, None, type_is=type_is, len=lambda vm: SInt(LEN(t)), eq=value_eq(t))


def value_eq(t):
    """values restored, and those that are not, are no placeholders"""
    return lambda vm, o: SBool(t == o.t) if isinstance(o, SVal) else False if isinstance(o, (IObj, Host)) else SBool(t == vm.term(o))


def restored(t):
    return SVal(t, "restored", eq=value_eq(t))


class Class(Host):
    """a subclass of list, tuple or dict; own(what): whether it brings something of its own"""

    def __init__(self, vm, base, name="subclass", **known):
        # (keys are only replaced when they hold the dict, which is not claimed for subclasses)
        self.base, self.name, self.known, self.memo = base, name, dict(known, **{"own pop": False}), {}

    def __repr__(self):
        return f"<{self.name} of {self.base.__name__}>"

    def own(self, vm, what):
        if what in self.known:
            return self.known[what]
        if what not in self.memo:
            self.memo[what] = vm.fresh_bool(what)
        return vm.truth(self.memo[what])

    def given(self, vm, *what):
        """condition that the class has something of its own"""
        ts = []
        for w in what:
            if w in self.known:
                ts.append(z3.BoolVal(bool(self.known[w])))
            else:
                if w not in self.memo:
                    self.memo[w] = vm.fresh_bool(w)
                ts.append(self.memo[w].t)
        return z3.Or(*ts)

    def vm_eq(self, vm, o):
        return self is o

    def vm_hasattr(self, vm, name):
        if name == "_fields":
            return self.base is tuple and self.own(vm, "namedtuple")
        try:
            self.vm_getattr(vm, name)
            return True
        except PyExc:
            return False

    def vm_getattr(self, vm, name):
        if name in ("__name__", "__qualname__", "__module__"):
            return vm.opaque("name", "str")
        if name == "__mro__":
            return (self, self.base, object)
        if self.base is tuple and name in ("_fields", "_make", "_asdict", "_replace", "_field_defaults"):
            if not self.own(vm, "namedtuple"):
                raise PyExc(AttributeError(name))
            if name == "_make":
                return Stub(lambda vm, a, k: Inst(self, items_of(vm, a[0])), "_make")
            if name == "_fields":
                return vm.opaque("fields")
            raise Unsupported(name)
        if name == "__new__" and self.base is tuple and not self.own(vm, "own __new__") and self.own(vm, "namedtuple"):
            return self.attr(vm, "__new__ of a namedtuple")
        base = getattr(self.base, "real", self.base)
        if not hasattr(base, name):
            if self.own(vm, f"own {name}"):
                return self.attr(vm, name)
            raise PyExc(AttributeError(name))
        if self.own(vm, f"own {name}"):
            return self.attr(vm, name)
        return vm.getattr(base, name)

    def attr(self, vm, name):
        return self.memo.setdefault("attribute " + name, Stub(lambda vm, a, k: vm.opaque("whatever " + name), name))

    def vm_new(self, vm, base, a, k):
        vm.prove("made by the constructor of the base", base is self.base)
        return Inst(self, items_of(vm, a[0]) if a else [])

    def vm_call(self, vm, a, k):
        if self.base is tuple and self.own(vm, "namedtuple"):
            if vm.truth(SBool(self.given(vm, "own __new__", "own __init__"))):
                return vm.opaque("whatever the constructor makes")
            return Inst(self, list(a))
        if self.own(vm, "own __init__") or self.own(vm, "own __new__"):
            return vm.opaque("whatever the constructor makes")
        if len(a) > 1 or k:
            return vm.opaque("whatever the constructor makes")
        return self.make(items_of(vm, a[0]) if a else [])

    def make(self, items):
        return Inst(self, items)


def items_of(vm, x):
    x = vm.sequence(x)
    r = vm.iterate(x)
    return x.frozen("list") if r is None else r


METHODS = ["__iter__", "keys", "values", "__setitem__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__"]


class Inst(Host):
    """an object of a subclass"""

    def __init__(self, cls, items, attrs=None):
        self.cls = cls
        self.attrs = attrs
        if isinstance(items, SSeq):
            self.body = items
        elif cls.base is dict:
            self.body = VDict()
            self.body.items = [list(p.items if isinstance(p, VList) else p) for p in items]
        else:
            self.body = VList(items)

    def __repr__(self):
        return f"{self.cls!r}({self.body!r})"

    def vm_type(self, vm):
        return self.cls

    def vm_isinst(self, vm, cls):
        return cls in (self.cls, self.cls.base, object)

    def vm_len(self, vm):
        return vm.length(self.body)

    def vm_seq(self, vm):
        if self.cls.own(vm, "own __iter__"):
            return VList([vm.opaque("whatever is iterated")])
        return self.body if isinstance(self.body, (SSeq, VList)) else VList(vm.iterate(self.body))

    def vm_iter(self, vm):
        return vm.iterate(self.vm_seq(vm))

    def vm_getattr(self, vm, name):
        if name == "__dict__":
            if self.cls.own(vm, "attributes"):
                return VDict([["attribute", vm.opaque("value")]])
            if self.cls.own(vm, "no attributes possible"):
                raise PyExc(AttributeError(name))
            return VDict()
        if name == "__class__":
            return self.cls
        if name == "default_factory" and self.cls.name == "defaultdict":
            return self.attrs
        if name.startswith("__") and name not in ("__setitem__", "__getitem__"):
            raise Unsupported(f"{name} of an object")
        if self.cls.own(vm, f"own {name}"):
            return Stub(lambda vm, a, k: VList([vm.opaque("whatever")]), name)
        if name in ("keys", "values", "items") and self.cls.base is dict:
            return Stub(lambda vm, a, k: View(vm.call(vm.getattr(self.body, name), [], {}).items), name)
        return vm.getattr(self.body, name)

    def vm_basecall(self, vm, base, name, a, k):
        r = vm.call(vm.getattr(self.body, name), a, k)
        return View(r.items) if name in ("keys", "values", "items") else r

    def vm_setitem(self, vm, k, v):
        if not self.cls.own(vm, "own __setitem__"):
            vm.setitem(self.body, k, v)

    def vm_getitem(self, vm, k):
        return vm.getitem(self.body, k)

    def vm_delitem(self, vm, k):
        vm.delitem(self.body, k)


class View(Host):
    """view of the keys or values of a dict"""

    def __init__(self, items):
        self.items = items

    def vm_type(self, vm):
        return VIEW

    def vm_len(self, vm):
        return len(self.items)

    def vm_iter(self, vm):
        return list(self.items)


class _ViewType(Host):
    def vm_eq(self, vm, o):
        return self is o


VIEW = _ViewType()


class DictObj(Host):
    """a plain dict to be serialized: its keys are views"""

    def __init__(self, pairs):
        self.body = VDict()
        self.body.items = [list(p) for p in pairs]

    def vm_type(self, vm):
        return dict

    def vm_isinst(self, vm, cls):
        return cls in (dict, object)

    def vm_len(self, vm):
        return len(self.body.items)

    def vm_truth(self, vm):
        return bool(self.body.items)

    def vm_iter(self, vm):
        return vm.iterate(self.body)

    def vm_getitem(self, vm, k):
        return vm.getitem(self.body, k)

    def vm_getattr(self, vm, name):
        if name == "__dict__":
            raise PyExc(AttributeError(name))
        if name in ("keys", "values", "items"):
            return Stub(lambda vm, a, k: View(vm.call(vm.getattr(self.body, name), [], {}).items), name)
        return vm.getattr(self.body, name)


class Buffer(Host):
    """a buffer of an object, as made or (moved) as received"""

    def __init__(self, of, k, moved=False):
        self.of, self.k, self.moved = of, k, moved

    def vm_eq(self, vm, o):
        return self is o


def addresses(vm):
    """ids of objects that are alive tell them apart"""
    objs = []

    def ident(o):
        for x, n in objs:
            if x is o or (isinstance(x, SVal) and isinstance(o, SVal) and z3.eq(x.t, o.t)):
                return n
        n = vm.fresh_int("address", 0).t
        for _, m in objs:
            vm.assume(n != m)
        objs.append((o, n))
        return n

    vm.contracts[f"{M}:_fast_id"] = lambda vm, a, k: SInt(ident(a[0]))
    vm.stubs["builtins.id"] = Stub(lambda vm, a, k: SInt(ident(a[0])))
    return ident


def pickling(vm):
    """pickle_buffers and unpickle_buffers (their own contracts: case pickles)"""
    vm.contracts[f"{M}:pickle_buffers"] = lambda vm, a, k: VList([Buffer(a[0], 0), Buffer(a[0], 1)])

    def un(vm, a, k):
        b = vm.concrete_list(a[0])
        ok = len(b) == 2 and all(isinstance(x, Buffer) and x.moved and x.k == i for i, x in enumerate(b)) and b[0].of is b[1].of
        vm.prove("what is unpickled is all that was pickled, in order", ok, repr(b))
        return Unpickled(b[0].of) if ok else vm.opaque("garbage")

    vm.contracts[f"{M}:unpickle_buffers"] = un


class Unpickled(Host):
    """the object that pickle restores"""

    def __init__(self, of):
        self.of = of


def start(vm, x, ident):
    """a context in which x is not known, and which has something else"""
    other = vm.opaque("other object")
    key = vm.fresh_int("another id", 0)
    vm.assume(key.t != ident(x))
    return VDict([[key, other]]), key, other


def entered(vm, ctx, key, other, x, ident):
    """the context has x, kept alive under its id, and all that it had"""
    e = vm.dict_find(ctx, SInt(ident(x)))
    vm.prove("the object is in the context, under its id", e is not None and e[1] is x)
    o = vm.dict_find(ctx, key)
    vm.prove("what was in the context stays", o is not None and o[1] is other)
    vm.prove("nothing else is entered", len(ctx.items) == 2)


def known(vm, ser, x, ident):
    """an object that is in the context already is a placeholder"""
    ctx = VDict([[SInt(ident(x)), x]])
    r = call(vm, ser, "serial", x, ctx)
    ph = vm.lookup(M, "Placeholder")
    ok = isinstance(r, IObj) and r.cls is ph
    vm.prove("an object that occurs again is a placeholder", ok, repr(r))
    if ok:
        vm.prove("of that object", num(vm, r.attrs["id"]) == ident(x))
        vm.prove("without callbacks", isinstance(r.attrs["callbacks"], VList) and not r.attrs["callbacks"].items)
    vm.prove("the context is as before", len(ctx.items) == 1 and ctx.items[0][1] is x)


def one_context(vm, ser, x, ident):
    """the result of serial(x) in an arbitrary context without x"""
    ctx, key, other = start(vm, x, ident)
    r = call(vm, ser, "serial", x, ctx)
    entered(vm, ctx, key, other, x, ident)
    ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], (tuple, ATuple))
    vm.prove("an object that is new is serialized", ok, repr(r))
    return r


class Restoring:
    """restores parts by their contract"""

    def __init__(self, vm, holders=2):
        self.vm, self.places = vm, []
        self.open = [None] * holders

    def placeholder(self, k):
        if self.open[k] is None:
            p = IObj(self.vm.lookup(M, "Placeholder"))
            p.attrs.update(id=SInt(self.vm.fresh_int("number", 0).t + k), callbacks=VList())
            self.vm.assume(num(self.vm, p.attrs["id"]) >= 0)
            self.open[k] = p
            for q in self.open:
                if q is not None and q is not p:
                    self.vm.assume(num(self.vm, q.attrs["id"]) != num(self.vm, p.attrs["id"]))
        return self.open[k]

    def part(self, p, cyclic, label):
        """(the part restored, what it stands for)"""
        vm = self.vm
        if isinstance(p, Buffer):
            b = Buffer(p.of, p.k, True)
            return b, b
        if not isinstance(p, SVal):
            raise Unsupported(f"another object as part: {p!r}")
        if cyclic:
            w = vm.choose(1 + len(self.open), f"{label}: restored / placeholder")
            if w:
                # the object it stands for will be there later
                return self.placeholder(w - 1), self.final(w - 1)
        r = restored(RESTORED(p.t))
        return r, r

    def final(self, k):
        return restored(z3.Const(f"object restored later {k}", U))

    def close(self, ctx):
        """the objects that placeholders stand for are there now"""
        vm = self.vm
        for k, p in enumerate(self.open):
            if p is None:
                continue
            vm.setitem(ctx, p.attrs["id"], self.final(k))
            for cb in vm.concrete_list(p.attrs["callbacks"]):
                vm.call(cb, [self.final(k)], {})


def expected(vm, x, subs, restored):
    """what an item is restored as: as the part that it is, or as itself"""
    for s, r in zip(subs, restored):
        if s is x:
            return r
    vm.prove("only plain values are not restored on their own", plain(x.t))
    return x


def singletons(vm):
    vm.overrides.setdefault(M, {})["_primitive_types"] = Prims()


def instance(vm, cls):
    return vm.call(vm.lookup(M, cls), [], {})


def setup(vm):
    vm.stubs["copyreg._slotnames"] = Stub(lambda vm, a, k: VList([vm.opaque("slot", "str")]) if isinstance(a[0], Class) and a[0].own(vm, "slots") else VList())


def same_items(vm, got, want, what):
    ok = len(got) == len(want)
    vm.prove(f"{what}: as many items", ok)
    if ok:
        vm.prove(f"{what}: the items", conj([z3.BoolVal(a is b) if not isinstance(a, SVal) or not isinstance(b, SVal) else a.t == b.t for a, b in zip(got, want)]))


def restore(vm, r, cyclic, holders=2):
    """(parts restored, what they stand for, the machinery)"""
    head, subs, final = r
    subs = vm.concrete_list(subs)
    rs = Restoring(vm, holders)
    f = vm.truth(final)
    vm.prove("buffers are final, other parts are not", all(isinstance(s, Buffer) for s in subs) if f else not any(isinstance(s, Buffer) for s in subs))
    pairs = [rs.part(s, cyclic, f"part {i}") for i, s in enumerate(subs)]
    return subs, [p for p, _ in pairs], [w for _, w in pairs], rs


def collections(which, most, sub):
    def body(vm):
        setup(vm)
        singletons(vm)
        pickling(vm)
        ident = addresses(vm)
        n = vm.choose(most + 1, "items")
        items = [item(vm, z3.Const(f"item {i}", U)) for i in range(n)]
        base = {"ListSerializer": list, "TupleSerializer": tuple}[which]
        cls = Class(vm, base, namedtuple=sub == "namedtuple") if sub else base
        if sub == "namedtuple":
            cls.known["own __init__"] = False
        x = Inst(cls, items) if sub else VList(items) if base is list else tuple(items)
        ser = instance(vm, which)
        if vm.choose(2, "new / known") == 1:
            known(vm, ser, x, ident)
            return
        r = one_context(vm, ser, x, ident)
        head, subs, final = r
        subs, given, means, rs = restore(vm, r, base is list)
        body_ = x.body.items if sub else x.items if base is list else list(x)
        vm.prove("the object is as it was", len(body_) == n and all(a is b for a, b in zip(body_, items)))
        direct = bool(subs) and isinstance(subs[0], Buffer)
        if sub:
            extra = cls.given(vm, "attributes", "slots", *[f"own {m}" for m in METHODS])
            ctor = cls.given(vm, "own __new__", "own __init__")
            if not direct:
                vm.cover("made of items")
                vm.prove("an object with more than its items is not made of its items", z3.Not(extra))
                if sub != "namedtuple":
                    vm.prove("an object with a constructor of its own is not made of its items", z3.Not(ctor))
            else:
                vm.prove("all of the object is pickled", all(s.of is x for s in subs))
        else:
            vm.prove("a plain collection is not pickled", not direct)
        ctx2 = VDict()
        y = call(vm, instance(vm, which), "deserial", head, ctx2, VList(given))
        if direct:
            vm.cover("pickled")
            vm.prove("the object is what was pickled", isinstance(y, Unpickled) and y.of is x)
            return
        rs.close(ctx2)
        if sub:
            ok = isinstance(y, Inst) and y.cls is cls
            vm.prove("an object of the same class", ok, repr(y))
            got = y.body.items if ok else []
        else:
            ok = isinstance(y, VList) if base is list else isinstance(y, tuple)
            vm.prove(f"a {base.__name__}", ok, repr(y))
            got = list(y.items if base is list else y) if ok else []
        if ok:
            vm.cover("restored")
            same_items(vm, got, [expected(vm, i, subs, means) for i in items], "the result")

    return body


def dicts(most, sub):
    def body(vm):
        setup(vm)
        singletons(vm)
        pickling(vm)
        ident = addresses(vm)
        n = vm.choose(most + 1, "items")
        keys = [item(vm, z3.Const(f"key {i}", U)) for i in range(n)]
        vals = [item(vm, z3.Const(f"value {i}", U)) for i in range(n)]
        for x in keys + vals:
            # (other kinds of items: as in lists)
            vm.assume(z3.Or(KIND(x.t) == 4, KIND(x.t) == 50))
        for i in range(n):
            vm.assume(z3.And(*[keys[i].t != k.t for k in keys[:i]], z3.BoolVal(True)))
        ordered = Class(vm, dict, "OrderedDict", **{f"own {m}": True for m in ("__iter__", "keys", "values", "__setitem__", "__reduce__", "__init__")}, slots=False)
        ordered.known["own __new__"] = False
        default = Class(vm, dict, "defaultdict", **{f"own {m}": m in ("__reduce__", "__init__") for m in METHODS + ["__init__", "__new__"]}, slots=False)
        vm.overrides[M].update(OrderedDict=ordered, defaultdict=default)
        factory = vm.opaque("factory")
        cls = dict
        if sub:
            k = vm.choose(3, "subclass / OrderedDict / defaultdict")
            cls = (Class(vm, dict), ordered, default)[k]
            if k == 1:
                # its own methods tell its items
                ordered.own_ = ordered.own
                ordered.own = lambda vm, what: False if what.startswith("own ") and what[4:] in ("__iter__", "keys", "values", "__setitem__", "__init__") else ordered.own_(vm, what)
            if k == 2:
                default.vm_call = lambda vm, a, kw: Inst(default, vm.concrete_list(a[1]) if len(a) > 1 else [], attrs=a[0] if a else None)
            x = Inst(cls, list(zip(keys, vals)), attrs=factory)
        else:
            x = DictObj(zip(keys, vals))
        ser = instance(vm, "DictSerializer")
        if vm.choose(2, "new / known") == 1:
            known(vm, ser, x, ident)
            return
        r = one_context(vm, ser, x, ident)
        head, subs, final = r
        subs, given, means, rs = restore(vm, r, True, 1)
        vm.prove("the object is as it was", len(x.body.items) == n and all(e[0] is a and e[1] is b for e, a, b in zip(x.body.items, keys, vals)))
        direct = bool(subs) and isinstance(subs[0], Buffer)
        if sub and cls.name == "subclass":
            extra = cls.given(vm, "attributes", "slots", *[f"own {m}" for m in METHODS])
            ctor = cls.given(vm, "own __new__", "own __init__")
        else:
            extra = cls.given(vm, "attributes") if sub else z3.BoolVal(False)
            ctor = z3.BoolVal(False)
        if not direct:
            vm.cover("made of items")
            vm.prove("an object with more than its items is not made of its items", z3.Not(extra))
            vm.prove("an object with a constructor of its own is not made of its items", z3.Not(ctor))
        else:
            vm.prove("a plain dict is not pickled", bool(sub))
            vm.prove("all of the object is pickled", all(s.of is x for s in subs))
        # keys restored are as different as the keys
        want_keys = [expected(vm, k, subs, means) for k in keys] if not direct else []
        want_vals = [expected(vm, v, subs, means) for v in vals] if not direct else []
        for i, k in enumerate(want_keys):
            vm.assume(z3.And(*[k.t != j.t for j in want_keys[:i]], z3.BoolVal(True)))
        # no two keys are the same object
        holders = [k for k in want_keys if any(k is w for w in means) and any(g is not w for g, w in zip(given, means) if w is k)]
        ctx2 = VDict()
        y = call(vm, instance(vm, "DictSerializer"), "deserial", head, ctx2, VList(given))
        if direct:
            vm.cover("pickled")
            vm.prove("the object is what was pickled", isinstance(y, Unpickled) and y.of is x)
            return
        rs.close(ctx2)
        if sub:
            ok = isinstance(y, Inst) and y.cls is cls
            vm.prove("an object of the same class", ok, repr(y))
            if ok and cls is default:
                vm.prove("with the same default", y.attrs is factory)
            got = y.body if ok else None
        else:
            ok = isinstance(y, VDict)
            vm.prove("a dict", ok, repr(y))
            got = y
        if ok:
            vm.cover("restored")
            vm.prove("as many items", len(got.items) == n)
            for i, (k, v) in enumerate(zip(want_keys, want_vals)):
                es = [e for e in got.items if not isinstance(e[0], IObj) and vm.truth(vm.eq(e[0], k))]
                vm.prove("every key is there", len(es) == 1)
                if es:
                    vm.prove("with its value", es[0][1].t == v.t if isinstance(es[0][1], SVal) else False)
            if not holders and len(got.items) == n:
                vm.prove("in the same order", conj([e[0].t == k.t if isinstance(e[0], SVal) else z3.BoolVal(False) for e, k in zip(got.items, want_keys)]))

    return body


# ------------------------------------------------------------ collections of any size
class Ranks:
    """items of which some are restored on their own: rank(i) of those are before i, the j-th is at place(j)"""

    def __init__(self, vm, name):
        self.vm, self.name = vm, name
        self.n = vm.fresh_int(f"number of {name}", 0).t
        self.X = z3.Function(f"{name} at", I, U)
        self.rank, self.place = z3.Function(f"rank in {name}", I, I), z3.Function(f"place in {name}", I, I)
        vm.assume(self.rank(0) == 0)
        self.count = self.rank(self.n)
        vm.assume(z3.And(0 <= self.count, self.count <= self.n))
        self.items = SSeq(name, self.n, self.item)
        self.items.ranks = self

    def other(self, k):
        x = self.X(k)
        return z3.Not(z3.Or(z3.And(z3.Or(KIND(x) == 0, KIND(x) == 1), LEN(x) < self.limit()), z3.And(plain(x), KIND(x) != 0, KIND(x) != 1)))

    def limit(self):
        v = self.vm.lookup(M, "_MAX_STR_PRIMITIVE_LEN")
        return num(self.vm, v)

    def item(self, k):
        return item(self.vm, z3.simplify(self.X(k if z3.is_expr(k) else z3.IntVal(k))))

    def at(self, k):
        """what holds for the k-th item (case: ranks and places)"""
        r, p, o = self.rank, self.place, self.other(k)
        self.vm.assume(z3.Implies(z3.And(0 <= k, k < self.n), z3.And(
            r(k + 1) == r(k) + z3.If(o, 1, 0), 0 <= r(k), r(k) <= k, r(k + 1) <= self.count, z3.Implies(o, p(r(k)) == k))))

    def nth(self, j, i=None):
        """what holds for the j-th item that is restored on its own; it is before i when j < rank(i)"""
        p = self.place(j)
        self.vm.assume(z3.Implies(z3.And(0 <= j, j < self.count), z3.And(0 <= p, p < self.n, self.other(p), self.rank(p) == j, self.rank(p + 1) == j + 1)))
        if i is not None:
            self.vm.assume(z3.Implies(z3.And(0 <= j, 0 <= i, i <= self.n), (j < self.rank(i)) == z3.And(j < self.count, p < i)))

    def ordered(self, i, k):
        self.vm.assume(z3.Implies(z3.And(0 <= i, i <= k, k <= self.n), self.rank(i) <= self.rank(k)))
        self.vm.assume(z3.Implies(z3.And(0 <= k, k <= i, i <= self.n), self.rank(k) <= self.rank(i)))

    # the parts of the header, after i items
    def kept(self, i):
        def elem(k):
            k = k if z3.is_expr(k) else z3.IntVal(k)
            self.at(k)
            return None if self.vm.branch(z3.And(k < i, self.other(k))) else self.item(k)

        s = SSeq(f"{self.name} that are kept", self.n, elem)
        s.ranks = self
        return s

    def places(self, i):
        def elem(j):
            self.nth(j, i)
            return SInt(z3.simplify(self.place(j)))

        return SSeq("places", self.rank(i), elem)

    def objects(self, i):
        def elem(j):
            self.nth(j, i)
            return self.item(self.place(j))

        return SSeq("objects", self.rank(i), elem)


def ranks(vm):
    """the facts on ranks and places that are used, by induction on the number of items"""
    other, rank, place = z3.Function("other", I, B), z3.Function("rank", I, I), z3.Function("place", I, I)
    n, j, k, i = z3.Ints("n j k i")
    vm.assume(n >= 0)
    step = lambda k: rank(k + 1) == rank(k) + z3.If(other(k), 1, 0)
    # places are defined by: the j-th is at k when k is other and rank(k) = j; below n, all facts hold for n
    facts = lambda n: z3.And(
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= rank(k), rank(k) <= k, rank(k + 1) <= rank(n), z3.Implies(other(k), place(rank(k)) == k)))),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < rank(n)), z3.And(0 <= place(j), place(j) < n, other(place(j)), rank(place(j)) == j))),
        0 <= rank(n), rank(n) <= n)
    if vm.choose(2, "none / one more") == 0:
        vm.assume(rank(0) == 0)
        vm.prove("without items", facts(z3.IntVal(0)))
        return
    vm.assume(z3.And(facts(n), step(n), z3.Implies(other(n), place(rank(n)) == n)))
    vm.prove("with one item more", facts(n + 1))
    vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), step(k))))
    vm.assume(z3.And(0 <= i, i <= n))
    m = z3.Int("m")
    # ranks grow (induction on the distance)
    grow = lambda d: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + d <= n + 1), rank(i) <= rank(i + d)))
    d = z3.Int("d")
    vm.assume(z3.And(d >= 0, d <= n, grow(d)))
    a = z3.Int("a")
    vm.prove("ranks grow", z3.Implies(z3.And(0 <= a, a + d + 1 <= n + 1), rank(a) <= rank(a + d + 1)))
    # those before i are the first ones
    vm.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i <= k, k <= n), rank(i) <= rank(k))))
    vm.assume(z3.And(0 <= j, j < rank(n)))
    vm.prove("those before are the first ones", z3.Implies(z3.And(0 <= m, m <= n), (j < rank(m)) == (place(j) < m)))


def is_item(v, r, k):
    return v.t == r.X(k) if isinstance(v, SVal) else z3.BoolVal(False)


def kept_as(v, r, k, i):
    """v is what the header keeps of the k-th item when i items are done"""
    gone = z3.And(k < i, r.other(k))
    return gone if v is None else z3.And(z3.Not(gone), is_item(v, r, k))


def serial_loop(vm, subjects):
    """the loop of _serial_iterable; subjects(obj): the ranks of what it is called with"""

    def sel(vm, st, fr, it):
        return fr.func is not None and fr.func.name == "_serial_iterable" and all(x in fr.locals for x in ("obj_list", "idx_to_propagate", "obj_to_propagate"))

    def which(vm, fr):
        o = fr.locals.get("obj")
        for x, r in subjects.items():
            if x is o:
                return r
        raise Unsupported("another collection")

    def havoc_(vm, fr, it, i):
        r = which(vm, fr)
        r.at(i)
        r.ordered(i, r.n)
        if not vm.branch(r.rank(i) == 0):
            fr.locals["obj_list"] = r.kept(i)
        else:
            # nothing is taken out yet
            o = fr.locals["obj_list"]
            fr.locals["obj_list"] = o if o is r.items else r.items.frozen("list")
        fr.locals["idx_to_propagate"], fr.locals["obj_to_propagate"] = r.places(i), r.objects(i)

    def inv(vm, fr, it, i):
        r = which(vm, fr)
        l, p, o = (fr.locals[x] for x in ("obj_list", "idx_to_propagate", "obj_to_propagate"))
        k, j = vm.fresh_int("any item", 0).t, vm.fresh_int("any part", 0).t
        vm.assume(k < r.n)
        r.at(k)
        r.ordered(i, r.n)
        r.ordered(k, i)
        r.ordered(k + 1, i)
        out = [("as many items", num(vm, vm.length(l)) == r.n), ("as many places", num(vm, vm.length(p)) == r.rank(i)), ("as many objects", num(vm, vm.length(o)) == r.rank(i))]
        if vm.branch(j < r.rank(i)):
            r.nth(j, i)
            pv, ov = vm.getitem(p, SInt(j)), vm.getitem(o, SInt(j))
            out += [("the places", num(vm, pv) == r.place(j)), ("the objects", is_item(ov, r, r.place(j)))]
        out.append(("what is kept", kept_as(vm.getitem(l, SInt(k)), r, k, i)))
        return out

    vm.loops.append(LoopSpec("what is restored on its own", sel, havoc_, inv))


def deserial_loop(vm, subjects, sub):
    """the loop of _deserial_iterable; sub(r, j): the j-th part restored"""

    def sel(vm, st, fr, it):
        return fr.func is not None and fr.func.name == "_deserial_iterable" and "res_list" in fr.locals

    def which(vm, fr):
        l = fr.locals["res_list"]
        r = getattr(l, "ranks", None) or (getattr(l.part[0], "ranks", None) if isinstance(l, SSeq) and l.part else None)
        if r is None:
            raise Unsupported("another list")
        return r

    def havoc_(vm, fr, it, i):
        r = which(vm, fr)
        r.nth(i)
        fr.locals["res_list"] = put_back(vm, r, sub, i)

    def inv(vm, fr, it, i):
        r = which(vm, fr)
        l = fr.locals["res_list"]
        k = vm.fresh_int("any item", 0).t
        vm.assume(k < r.n)
        r.at(k)
        r.nth(i)
        v = vm.getitem(l, SInt(k))
        if vm.branch(r.other(k)):
            r.nth(r.rank(k))
            if vm.branch(r.rank(k) < i):
                c = is_part_of(vm, v, sub(r, z3.simplify(r.rank(k))))
            else:
                c = z3.BoolVal(v is None)
        else:
            c = is_item(v, r, k)
        return [("as many items", num(vm, vm.length(l)) == r.n), ("the items", c)]

    vm.loops.append(LoopSpec("what is put back", sel, havoc_, inv))


def put_back(vm, r, sub, i):
    """the items, of which the first i of those that are restored on their own are put back"""

    def elem(k):
        k = k if z3.is_expr(k) else z3.IntVal(k)
        r.at(k)
        if vm.branch(z3.Not(r.other(k))):
            return r.item(k)
        r.nth(r.rank(k))
        return sub(r, z3.simplify(r.rank(k))) if vm.branch(r.rank(k) < i) else None

    s = SSeq("items restored", r.n, elem)
    s.ranks = r
    return s


def is_part_of(vm, v, want):
    return v.t == want.t if isinstance(v, SVal) and isinstance(want, SVal) else z3.BoolVal(v is want)


class Parts:
    """the parts restored: values, or placeholders with what is to be done for them"""

    def __init__(self, vm, holders):
        self.vm, self.holders = vm, holders
        self.PH = z3.Function("is a placeholder", U, B)
        self.calls = {}
        self.later = z3.Function("restored later", U, U)
        self.number = z3.Function("number of placeholder", U, I)

    def sub(self, r, j):
        vm = self.vm
        t = z3.simplify(RESTORED(r.X(r.place(j))))
        ph = vm.lookup(M, "Placeholder")
        me = self

        def type_is(vm, cls):
            return SBool(me.PH(t)) if cls is ph and me.holders else False

        def attr(vm, name):
            if me.holders and vm.branch(me.PH(t)):
                if name == "callbacks":
                    return Calls(me, t)
                if name == "id":
                    return SInt(me.number(t))
            raise Unsupported(f"{name} of a value")

        return SVal(t, None, type_is=type_is, getattr=attr, eq=lambda vm, o: SBool(o.t == t) if isinstance(o, SVal) else False,
                    isinst=lambda vm, cls: SBool(me.PH(t)) if cls is ph and me.holders else False)


class Calls(Host):
    def __init__(self, parts, t):
        self.parts, self.t = parts, t

    def m_append(self, vm, a, k):
        self.parts.calls.setdefault(str(self.t), []).append((self.t, a[0]))


def iterable_contracts(vm, subjects, parts):
    """(proved in the cases keys and values, lists and tuples)"""

    def rank_of(x):
        for o, r in subjects:
            if o is x:
                return r
        return None

    def serial_iterable(vm, a, k):
        r = rank_of(a[1])
        if r is None:
            raise Unsupported("another collection is serialized")
        o = a[1]
        if isinstance(o, Inst) and o.cls.own(vm, "own __iter__"):
            vm.prove("an object that is iterated in another way is not made of its items", False)
        head = (r.kept(r.n), r.places(r.n), o.vm_type(vm))
        head[1].ranks = r
        return (head, r.objects(r.n), False)

    def deserial_iterable(vm, a, k):
        _, head, subs = a
        ok = isinstance(head, tuple) and len(head) == 3 and isinstance(head[0], SSeq) and isinstance(head[1], SSeq)
        vm.prove("what is put together is a header", ok, repr(head))
        r = getattr(head[0], "ranks", None)
        vm.prove("all of the same header", r is not None and getattr(head[1], "ranks", None) is r)
        vm.prove("with all its parts", num(vm, vm.length(subs)) == r.count)
        j = vm.fresh_int("a part", 0).t
        if vm.branch(j < r.count):
            r.nth(j)
            vm.prove("with its parts, in order", is_part_of(vm, vm.getitem(subs, SInt(j)), parts.sub(r, j)))
        return put_back(vm, r, parts.sub, r.count)

    vm.contracts[f"{M}:CollectionSerializer._serial_iterable"] = serial_iterable
    vm.contracts[f"{M}:CollectionSerializer._deserial_iterable"] = deserial_iterable


def any_size(which, sub=None):
    def body(vm):
        setup(vm)
        singletons(vm)
        pickling(vm)
        ident = addresses(vm)
        base = {"ListSerializer": list, "TupleSerializer": tuple}[which]
        r = Ranks(vm, "items")
        x = r.items
        x.kind = base.__name__
        before = x.frozen()
        parts = Parts(vm, base is list)
        cls = None
        if sub:
            cls = Class(vm, base, namedtuple=sub == "namedtuple")
            if sub == "namedtuple":
                cls.known["own __init__"] = False
            x = Inst(cls, r.items)
            iterable_contracts(vm, [(x, r)], parts)
        else:
            subjects = {x: r}
            serial_loop(vm, subjects)
            deserial_loop(vm, subjects, parts.sub)
        ser = instance(vm, which)
        head, subs, final = one_context(vm, ser, x, ident)
        if isinstance(subs, VList) and subs.items and isinstance(subs.items[0], Buffer):
            vm.prove("a plain collection is not pickled", bool(sub))
            vm.prove("all of the object is pickled", all(b.of is x for b in subs.items))
            vm.prove("buffers are final", vm.truth(final))
            y = call(vm, instance(vm, which), "deserial", head, VDict(), VList([Buffer(b.of, b.k, True) for b in subs.items]))
            vm.cover("pickled")
            vm.prove("the object is what was pickled", isinstance(y, Unpickled) and y.of is x)
            return
        if sub:
            vm.cover("made of items")
            vm.prove("an object with more than its items is not made of its items", z3.Not(cls.given(vm, "attributes", "slots", *[f"own {m}" for m in METHODS])))
            if sub != "namedtuple":
                vm.prove("an object with a constructor of its own is not made of its items", z3.Not(cls.given(vm, "own __new__", "own __init__")))
        whole, x = x, r.items
        vm.prove("parts of a collection are restored on their own", z3.Not(as_z3(final)) if not isinstance(final, bool) else not final)
        k = vm.fresh_int("an item", 0).t
        vm.assume(k < r.n)
        r.at(k)
        v = vm.getitem(x, SInt(k))
        vm.prove("the object is as it was", z3.And(x.length == before.length, is_item(v, r, k)))
        # the header that is received is a copy
        if not (isinstance(head, tuple) and len(head) == 3 and isinstance(head[0], SSeq)):
            raise Unsupported("another kind of header")
        copy_ = head[0].frozen("list")
        copy_.ranks = r
        j = vm.fresh_int("a part", 0).t
        given = SSeq("parts restored", num(vm, vm.length(subs)), lambda j: parts.sub(r, j))
        if vm.branch(j < given.length):
            r.nth(j)
            vm.prove("the parts are objects of the collection", is_item(vm.getitem(subs, SInt(j)), r, r.place(j)))
        ctx = VDict()
        state = {}

        def sel(vm, st, fr, it):
            if fr.func is None or fr.func.name != "deserial":
                return False
            state["st"] = st
            return True

        def result(vm, y, k):
            r.at(k)
            v = vm.getitem(y, SInt(k))
            if vm.branch(r.other(k)):
                r.nth(r.rank(k))
                return is_part_of(vm, v, parts.sub(r, z3.simplify(r.rank(k))))
            vm.prove("only plain values are not restored on their own", plain(r.X(k)))
            return is_item(v, r, k)

        def havoc_(vm, fr, it, i):
            parts.calls.clear()
            r.at(i)
            state["round"] = i
            state["fr"] = fr

        def inv(vm, fr, it, i):
            if "round" not in state:
                return []
            i = state.pop("round")
            if base is tuple:
                return []
            r.at(i)
            # an item that is a placeholder is replaced later
            isph = z3.And(r.other(i), parts.PH(RESTORED(r.X(r.place(r.rank(i))))))
            r.nth(r.rank(i))
            calls = [c for cs in parts.calls.values() for c in cs]
            if not vm.branch(isph):
                vm.prove("nothing is to be done for an item that is there", not calls)
                return []
            vm.cover("an item that is restored later")
            vm.prove("an item that is not there is to be replaced, once", len(calls) == 1)
            if len(calls) != 1:
                return []
            t, cb = calls[0]
            vm.prove("when that object is there", t == RESTORED(r.X(r.place(r.rank(i)))))
            for n_ in [x.id for x in __import__("ast").walk(state["st"].target) if hasattr(x, "id")]:
                fr.locals[n_] = vm.opaque("whatever comes later")
            w = vm.opaque("the object")
            vm.call(cb, [w], {})
            ret = [s for s in fr.func.node.body if s.__class__.__name__ == "Return"][-1]
            res = vm.eval(ret.value, fr)
            if sub:
                res = res.body if isinstance(res, Inst) else res
            q = vm.fresh_int("any place", 0).t
            vm.assume(q < r.n)
            v = vm.getitem(res, SInt(q))
            if vm.branch(q == i):
                vm.prove("the object comes into its place", is_part_of(vm, v, w))
            else:
                r.at(q)
                vm.prove("other places stay", result(vm, res, q))
            return []

        vm.loops.append(LoopSpec("placeholders", sel, havoc_, inv))
        places = head[1].frozen("list") if isinstance(head[1], SSeq) else head[1]
        places.ranks = r
        y = call(vm, instance(vm, which), "deserial", (copy_, places) + head[2:], ctx, given)
        if sub:
            ok = isinstance(y, Inst) and y.cls is cls
            vm.prove("an object of the same class", ok, repr(y))
            if not ok:
                return
            y = y.body
            y = y.frozen(base.__name__) if isinstance(y, SSeq) else y
        ok = isinstance(y, SSeq) and y.kind == base.__name__
        vm.prove(f"a {base.__name__}", ok, repr(y))
        if not ok:
            return
        vm.cover("restored")
        vm.prove("as many items", y.length == r.n)
        k = vm.fresh_int("any item", 0).t
        vm.assume(k < r.n)
        vm.prove("the items", result(vm, y, k))

    return body


def received(x):
    """a header that was sent"""
    if isinstance(x, tuple):
        return tuple(received(y) for y in x)
    if isinstance(x, SSeq):
        s = x.frozen("list")
        s.ranks = getattr(x, "ranks", None) or getattr(x.whole()[0], "ranks", None)
        return s
    return x


def any_dict(sub):
    """dicts of any size"""
    return lambda vm: _any_dict(vm, sub)


def _any_dict(vm, sub):
    setup(vm)
    singletons(vm)
    pickling(vm)
    ident = addresses(vm)
    rk, rv = Ranks(vm, "keys"), Ranks(vm, "values")
    vm.assume(rk.n == rv.n)
    n = rk.n

    class Keys(Host):
        def __init__(self, r):
            self.r = r

        def vm_type(self, vm):
            return VIEW

        def vm_len(self, vm):
            return SInt(n)

        def vm_seq(self, vm):
            return self.r.items

    class DictClass(Host):
        """the class of plain dicts"""

        def vm_eq(self, vm, o):
            return self is o

        def vm_call(self, vm, a, k):
            if not a:
                return VDict()
            s = vm.sequence(a[0])
            if not isinstance(s, SSeq):
                raise Unsupported("a dict of something else")
            return New(s)

        def vm_getattr(self, vm, name):
            return vm.getattr(dict, name)

        real = dict
        __name__ = "dict"

    DICT = DictClass()
    vm.overrides[M]["dict"] = DICT
    kv, vv = Keys(rk), Keys(rv)

    class Obj(Host):
        def vm_type(self, vm):
            return DICT

        def vm_len(self, vm):
            return SInt(n)

        def vm_truth(self, vm):
            return SBool(n > 0)

        def m_keys(self, vm, a, k):
            return kv

        def m_values(self, vm, a, k):
            return vv

        def vm_seq(self, vm):
            return rk.items

    class New(Host):
        """a dict made of pairs; focus: the pair that is looked at, as it is changed"""

        def __init__(self, pairs):
            self.pairs, self.focus = pairs, None
            self.cls, self.factory = DICT, None

        def look(self, i):
            p = self.pairs.elem(i)
            self.focus = VDict()
            self.focus.items = [[p[0], p[1]]]

        def vm_setitem(self, vm, k, v):
            if self.focus is None:
                raise Unsupported("a change before the objects are there")
            vm.setitem(self.focus, k, v)

        def m_pop(self, vm, a, k):
            return vm.call(vm.getattr(self.focus, "pop"), a, k)

        def m___setitem__(self, vm, a, k):
            self.vm_setitem(vm, a[0], a[1])

        def vm_delitem(self, vm, k):
            vm.delitem(self.focus, k)

        def vm_getitem(self, vm, k):
            return vm.getitem(self.focus, k)

    x = Obj()
    parts = Parts(vm, True)
    cls, factory = DICT, None
    if sub:
        cls = Class(vm, DICT)
        w = ("subclass", "OrderedDict", "defaultdict").index(sub)
        names = [f"own {m}" for m in METHODS + ["__init__", "__new__"]]
        if w == 1:
            # what it has of its own gives its items
            cls = Class(vm, DICT, "OrderedDict", slots=False, **{m: m in ("own __iter__", "own keys", "own values", "own __setitem__", "own __reduce__", "own __init__") for m in names})
        elif w == 2:
            cls = Class(vm, DICT, "defaultdict", slots=False, **{m: m in ("own __reduce__", "own __init__") for m in names})
        factory = vm.opaque("factory")
        vm.overrides[M]["OrderedDict"] = cls if w == 1 else AClass("OrderedDict")
        vm.overrides[M]["defaultdict"] = cls if w == 2 else AClass("defaultdict")

        class SubObj(Obj):
            def vm_type(self, vm):
                return cls

            def vm_getattr(self, vm, name):
                if name == "__dict__":
                    if cls.own(vm, "attributes"):
                        return VDict([["attribute", vm.opaque("value")]])
                    if cls.own(vm, "no attributes possible"):
                        raise PyExc(AttributeError(name))
                    return VDict()
                if name == "default_factory" and w == 2:
                    return factory
                if not w and not name.startswith("__") and cls.own(vm, f"own {name}"):
                    return Stub(lambda vm, a, k: VList([vm.opaque("whatever")]), name)
                return Obj.vm_getattr(self, vm, name)

        x = SubObj()

        def made(vm, a, k):
            if not w and (cls.own(vm, "own __init__") or cls.own(vm, "own __new__")):
                return vm.opaque("whatever the constructor makes")
            own_factory = None
            if w == 2:
                own_factory, a = (a[0] if a else None), a[1:]
            s = vm.sequence(a[0]) if a else None
            if not isinstance(s, SSeq):
                raise Unsupported("a dict of something else")
            r = New(s)
            r.cls, r.factory = cls, own_factory
            return r

        cls.vm_call = made

    iterable_contracts(vm, [(kv, rk), (vv, rv)], parts)
    ser = instance(vm, "DictSerializer")
    head, subs, final = one_context(vm, ser, x, ident)
    if sub and isinstance(subs, VList) and subs.items and isinstance(subs.items[0], Buffer):
        vm.prove("all of the object is pickled", all(b.of is x for b in subs.items))
        vm.prove("buffers are final", vm.truth(final))
        y = call(vm, instance(vm, "DictSerializer"), "deserial", head, VDict(), VList([Buffer(b.of, b.k, True) for b in subs.items]))
        vm.cover("pickled")
        vm.prove("the object is what was pickled", isinstance(y, Unpickled) and y.of is x)
        return
    if sub:
        extra = cls.given(vm, "attributes") if w else cls.given(vm, "attributes", "slots", "own __new__", "own __init__", *[f"own {m}" for m in METHODS])
        vm.prove("an object with more than its items, or a constructor of its own, is not made of its items", z3.Not(extra))
    if isinstance(subs, VList) and not subs.items:
        vm.prove("only an empty dict has no parts", z3.And(n == 0) if not vm.branch(rk.count + rv.count == 0) else True)
    elif not (isinstance(head, tuple) and len(head) == 4):
        raise Unsupported("another kind of header")
    total = z3.simplify(rk.count + rv.count)
    vm.prove("as many parts", num(vm, vm.length(subs)) == total)
    j = vm.fresh_int("a part", 0).t
    if vm.branch(j < total):
        rk.nth(j)
        rv.nth(z3.simplify(j - rk.count))
        v = vm.getitem(subs, SInt(j))
        vm.prove("the parts are objects of the dict", is_item(v, rk, rk.place(j)) if vm.branch(j < rk.count) else is_item(v, rv, rv.place(j - rk.count)))
    given = SSeq("parts restored", total, lambda j: parts.sub(rk, j) if vm.branch(z3.simplify((j if z3.is_expr(j) else z3.IntVal(j)) < rk.count)) else parts.sub(rv, z3.simplify(j - rk.count)))

    class Context(Host):
        """the objects that are there, by their numbers"""

        def __init__(self):
            self.log = []

        def vm_getitem(self, vm, k):
            for a, v in reversed(self.log):
                if vm.branch(a == num(vm, k)):
                    return v
            raise PyExc(KeyError(k))

        def m_get(self, vm, a, k):
            for b, v in reversed(self.log):
                if vm.branch(b == num(vm, a[0])):
                    return v
            return a[1] if len(a) > 1 else None

    ctx = Context()
    state = {}

    def sel(vm, st, fr, it):
        if fr.func is None or fr.func.name != "deserial":
            return False
        state["st"] = st
        return True

    def is_there(r, v, k):
        r.at(k)
        if vm.branch(r.other(k)):
            r.nth(r.rank(k))
            return is_part_of(vm, v, parts.sub(r, z3.simplify(r.rank(k))))
        vm.prove("only plain values are not restored on their own", plain(r.X(k)))
        return is_item(v, r, k)

    def havoc_(vm, fr, it, i):
        parts.calls.clear()
        rk.at(i)
        rv.at(i)
        state["round"] = i

    def term_of(r, i):
        r.nth(r.rank(i))
        return z3.simplify(RESTORED(r.X(r.place(r.rank(i)))))

    def inv(vm, fr, it, i):
        if "round" not in state:
            return []
        i = state.pop("round")
        tk, tv = term_of(rk, i), term_of(rv, i)
        calls = [c for cs in parts.calls.values() for c in cs]
        kp, vp = vm.branch(z3.And(rk.other(i), parts.PH(tk))), vm.branch(z3.And(rv.other(i), parts.PH(tv)))
        K, V = vm.opaque("the key"), vm.opaque("the value")
        ret = [s for s in fr.func.node.body if s.__class__.__name__ == "Return"][-1]
        for n_ in [x.id for x in __import__("ast").walk(state["st"].target) if hasattr(x, "id")] + [x for x in ("k", "v") if x in fr.locals]:
            fr.locals[n_] = vm.opaque("whatever comes later")
        res = vm.eval(ret.value, fr)
        if not isinstance(res, New):
            raise Unsupported("another result")
        res.look(i)
        k0, v0 = res.focus.items[0]
        if kp and vp:
            vm.assume(z3.And(tk != tv, parts.number(tk) != parts.number(tv)))
        vm.prove("as many replacements as there are objects to come", len(calls) == kp + vp)
        if len(calls) != kp + vp:
            return []
        vm.prove("for those objects", conj([t == w for (t, _), w in zip(calls, [w for w, b in ((tk, kp), (tv, vp)) if b])]))
        # the objects come in any order
        order = list(zip(calls, [w for w, b in ((K, kp), (V, vp)) if b]))
        if len(order) == 2 and vm.choose(2, "key first / value first"):
            order.reverse()
        for (t, cb), w in order:
            ctx.log.append((parts.number(t), w))
            if w is V and kp and len(ctx.log) == 1:
                # (the number of the key is not known yet: a value never comes before a key that is still open)
                raise PathEnd()
            vm.call(cb, [w], {})
        vm.cover("replaced" if kp or vp else "nothing to replace")
        got = res.focus.items
        vm.prove("still one item", len(got) == 1)
        if len(got) == 1:
            vm.prove("with its key", is_part_of(vm, got[0][0], K) if kp else is_part_of(vm, got[0][0], k0))
            vm.prove("and its value", is_part_of(vm, got[0][1], V) if vp else is_part_of(vm, got[0][1], v0))
        return []

    vm.loops.append(LoopSpec("placeholders", sel, havoc_, inv))
    y = call(vm, instance(vm, "DictSerializer"), "deserial", received(head), ctx, given)
    if isinstance(y, VDict) and not y.items and not sub:
        vm.cover("empty")
        vm.prove("an empty dict stands for an empty one", n == 0)
        return
    ok = isinstance(y, New) and y.cls is cls
    vm.prove("a dict, of the same class", ok, repr(y))
    if ok:
        vm.prove("with the same default", y.factory is factory if sub and w == 2 else True)
    if not ok:
        return
    vm.cover("restored")
    vm.prove("as many items", y.pairs.length == n)
    k = vm.fresh_int("any item", 0).t
    vm.assume(k < n)
    p = y.pairs.elem(k)
    ok = isinstance(p, tuple) and len(p) == 2
    vm.prove("made of pairs", ok)
    if ok:
        vm.prove("the keys", is_there(rk, p[0], k))
        vm.prove("the values", is_there(rv, p[1], k))


def iterables(vm):
    """_serial_iterable and _deserial_iterable for what is neither list nor tuple"""
    setup(vm)
    singletons(vm)
    addresses(vm)
    r = Ranks(vm, "items")

    class Iterated(Host):
        def vm_type(self, vm):
            return VIEW

        def vm_len(self, vm):
            return SInt(r.n)

        def vm_seq(self, vm):
            return r.items

    which = vm.choose(3, "keys or values of a dict / object of a subclass of list / of tuple")
    x = Iterated()
    if which:
        x = Inst(Class(vm, (None, list, tuple)[which], **{"own __iter__": False}), r.items)
    subjects = {x: r}
    serial_loop(vm, subjects)
    parts = Parts(vm, True)
    deserial_loop(vm, subjects, parts.sub)
    ser = instance(vm, ("DictSerializer", "ListSerializer", "TupleSerializer")[which])
    head, subs, final = call(vm, ser, "_serial_iterable", x)
    if which and isinstance(head, tuple):
        vm.prove("the header ends with the class of the object", head[-1] is x.cls, soft=True)
    vm.prove("parts of a collection are restored on their own", z3.Not(as_z3(final)) if not isinstance(final, bool) else not final)
    if not (isinstance(head, tuple) and len(head) == 3 and isinstance(head[0], SSeq)):
        raise Unsupported("another kind of header")
    vm.prove("as many parts", num(vm, vm.length(subs)) == r.count)
    j = vm.fresh_int("a part", 0).t
    if vm.branch(j < r.count):
        r.nth(j)
        vm.prove("the parts are objects of the collection", is_item(vm.getitem(subs, SInt(j)), r, r.place(j)))
    head = received(head)
    head[0].ranks = r
    y = call(vm, ser, "_deserial_iterable", head, SSeq("parts restored", r.count, lambda j: parts.sub(r, j)))
    vm.cover("restored")
    vm.prove("as many items", num(vm, vm.length(y)) == r.n)
    k = vm.fresh_int("any item", 0).t
    vm.assume(k < r.n)
    r.at(k)
    v = vm.getitem(y, SInt(k))
    if vm.branch(r.other(k)):
        r.nth(r.rank(k))
        vm.prove("the parts in their places", is_part_of(vm, v, parts.sub(r, z3.simplify(r.rank(k)))))
    else:
        vm.prove("only plain values are not restored on their own", plain(r.X(k)))
        vm.prove("the other items in their places", is_item(v, r, k))


# ------------------------------------------------------------ leaves
class Leaf(Host):
    """an object without parts; its exact class and one of its bases"""

    def __init__(self, cls, base=None):
        self.cls, self.base = cls, base

    def vm_type(self, vm):
        return self.cls

    def vm_isinst(self, vm, cls):
        return cls in (self.cls, self.base, object)

    def vm_eq(self, vm, o):
        return self is o


class AClass(Host):
    def __init__(self, name):
        self.name = name

    def vm_eq(self, vm, o):
        return self is o

    def vm_getattr(self, vm, name):
        return vm.opaque("name", "str")


class Text(Leaf):
    def m_encode(self, vm, a, k):
        enc = a[0] if a else k.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else k.get("errors", "strict")
        if err == "strict" and vm.choose(2, "a lone surrogate"):
            raise PyExc(UnicodeEncodeError("utf-8", "x", 0, 1, "surrogates not allowed"))
        return Encoded(self, enc, err)


def codec(x):
    import codecs

    return codecs.lookup(x).name if isinstance(x, str) else x


class Encoded(Host):
    """the bytes of a text; received: as bytes or as a memoryview of them"""

    def __init__(self, of, enc, err, view=False):
        self.of, self.enc, self.err, self.view = of, enc, err, view

    def vm_type(self, vm):
        return memoryview if self.view else bytes

    def vm_isinst(self, vm, cls):
        return cls in (memoryview if self.view else bytes, object)

    def vm_bytes(self, vm):
        return Encoded(self.of, self.enc, self.err)

    def vm_memoryview(self, vm):
        return Encoded(self.of, self.enc, self.err, True)

    def vm_decode(self, vm, a, k):
        enc = a[0] if a else k.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else k.get("errors", "strict")
        if codec(enc) != codec(self.enc):
            return vm.opaque("another text")
        if self.err == "surrogatepass" and err != self.err:
            if vm.choose(2, "a lone surrogate"):
                raise PyExc(UnicodeDecodeError("utf-8", b"x", 0, 1, "invalid"))
            return Restored(self.of)
        if self.err not in ("strict", "surrogatepass"):
            # some texts have no form of their own
            return vm.opaque("another text")
        return Restored(self.of)

    def vm_getattr(self, vm, name):
        if name == "tobytes" and self.view:
            return Stub(lambda vm, a, k: Encoded(self.of, self.enc, self.err), name)
        if name == "decode" and not self.view:
            return Stub(lambda vm, a, k: self.vm_decode(vm, a, k), name)
        if hasattr(memoryview if self.view else bytes, name):
            raise Unsupported(f"{name} of a buffer")
        raise PyExc(AttributeError(name))


class Restored(Host):
    def __init__(self, of):
        self.of = of


def leaf(which, make):
    """a serializer of objects without parts"""

    def body(vm):
        setup(vm)
        pickling(vm)
        ident = addresses(vm)
        x = make(vm)
        mod, _, name = which.rpartition(".")
        ser = vm.call(vm.lookup(mod or M, name), [], {})
        if vm.choose(2, "new / known") == 1:
            known(vm, ser, x, ident)
            return
        head, subs, final = one_context(vm, ser, x, ident)
        subs = vm.concrete_list(subs)
        vm.prove("its parts are buffers", vm.truth(final) or not subs)
        got = []
        for i, b in enumerate(subs):
            if isinstance(b, Buffer):
                got.append(Buffer(b.of, b.k, True))
            elif isinstance(b, Encoded):
                w = vm.choose(2, "received as bytes / memoryview")
                got.append(Encoded(b.of, b.enc, b.err, bool(w)))
            else:
                got.append(Restored(b))
        y = call(vm, vm.call(vm.lookup(mod or M, name), [], {}), "deserial", head, VDict(), VList(got))
        vm.cover("restored")
        if isinstance(y, Unpickled):
            ok = y.of is x
        elif isinstance(y, Restored):
            # a buffer, or a text, has the type of plain ones
            ok = y.of is x and x.cls in (bytes, str, memoryview)
        else:
            ok = y is x
        vm.prove("the object is restored, of the same type", ok, repr(y))

    return body


def some_text(vm):
    return (Text(str), Text(AClass("subclass of str"), str))[vm.choose(2, "str / subclass")]


def some_bytes(vm):
    return (Leaf(bytes), Leaf(AClass("subclass of bytes"), bytes), Leaf(memoryview))[vm.choose(3, "bytes / subclass / memoryview")]


def exceptions(vm):
    """ExceptionSerializer: errors that cannot be pickled are replaced, others are what they were"""
    setup(vm)
    pickling(vm)
    ident = addresses(vm)
    x = Leaf(AClass("class of an exception"), Exception)
    x.vm_str = lambda vm: vm.opaque("text", "str")
    plain_ = vm.contracts[f"{M}:pickle_buffers"]
    fails = vm.choose(4, "pickled / TypeError / PicklingError / another error")
    vm.stubs["pickle.PicklingError"] = PicklingError
    log = []

    def pick(vm, a, k):
        log.append(a[0])
        if a[0] is x and fails:
            raise PyExc([TypeError("no"), PicklingError("no"), KeyError("no")][fails - 1])
        return plain_(vm, a, k)

    vm.contracts[f"{M}:pickle_buffers"] = pick
    ser = vm.call(vm.lookup(E_, "ExceptionSerializer"), [], {})
    if fails == 0 and vm.choose(2, "new / known") == 1:
        known(vm, ser, x, ident)
        return
    ctx = VDict()
    r, e = attempt(vm, lambda: call(vm, ser, "serial", x, ctx))
    if e is not None:
        vm.prove("only what the error itself raises is raised", fails == 3 and isinstance(e, KeyError), repr(e))
        return
    head, subs, final = r
    got = [Buffer(b.of, b.k, True) for b in vm.concrete_list(subs)]
    vm.prove("its parts are buffers", final)
    y = call(vm, ser, "deserial", head, VDict(), VList(got))
    ok = isinstance(y, Unpickled)
    vm.prove("an exception is restored", ok, repr(y))
    if ok and fails == 0:
        vm.cover("pickled")
        vm.prove("it is that exception", y.of is x)
    elif ok:
        vm.cover("replaced")
        vm.prove("what cannot be pickled is an error that tells so", isinstance(y.of, IObj) and y.of.cls is vm.lookup(E_, "UnpickleableError"))


class PicklingError(Exception):
    pass


# ------------------------------------------------------------ pickle
def pickles(vm):
    """pickle_buffers and unpickle_buffers: out-of-band buffers in their order"""
    total = vm.fresh_int("buffers", 0).t
    few = vm.choose(4, "a few buffers: how many / any number")
    if few < 3:
        vm.assume(total == few)
    with_fury = vm.choose(2, "pickle / fury") == 1
    x = Leaf(AClass("class"))
    ident = addresses(vm)

    class View(Host):
        """memory of the k-th buffer"""

        def __init__(self, k, flat):
            self.k, self.flat = k, flat

        def vm_type(self, vm):
            return memoryview

        def p_ndim(self, vm):
            return 1 if self.flat else vm.fresh_int("dimensions", 2)

        def p_format(self, vm):
            return "format"

        p_nbytes = lambda self, vm: vm.fresh_int("bytes", 0)
        p_contiguous = p_c_contiguous = lambda self, vm: True

        def m_cast(self, vm, a, k):
            return View(self.k, True)

        def vm_memoryview(self, vm):
            return View(self.k, self.flat)

    class PB(Host):
        """a buffer that pickle found"""

        def __init__(self, k):
            self.k = k

        def m_raw(self, vm, a, k):
            return View(self.k, vm.choose(2, "dimensions: more / one") == 1)

        def vm_memoryview(self, vm):
            if with_fury and vm.choose(2, "no memory of its own"):
                raise PyExc(TypeError("memoryview: a bytes-like object is required"))
            return View(self.k, True)

        def m_to_buffer(self, vm, a, k):
            return View(self.k, True)

    class Stream(Host):
        """the stream, and which buffers it does without"""

        def __init__(self, fury, out):
            self.fury, self.out = fury, out

        def vm_eq(self, vm, o):
            return self is o

        def vm_truth(self, vm):
            return True

    def dump(vm, obj, cb, fury):
        vm.prove("the object itself is pickled", obj is x)
        if few < 3:
            out = []
            for i in range(few):
                if cb is None or vm.truth(vm.call(cb, [PB(z3.IntVal(i))], {})):
                    continue
                out.append(i)
            return Stream(fury, out)
        # any number: each call adds its buffer to the end of the same list
        if cb is None:
            return Stream(fury, [])
        if not isinstance(cb, IFunc) or not isinstance(cb.closure, Frame):
            raise Unsupported("another kind of callback")
        fr = cb.closure
        lists = [(n, v, list(v.items)) for n, v in fr.locals.items() if isinstance(v, VList)]
        i = vm.fresh_int("any buffer", 0).t
        vm.assume(i < total)
        inside = vm.truth(vm.call(cb, [PB(i)], {}))
        grown = [(n, v, b) for n, v, b in lists if len(v.items) != len(b) or any(p is not q for p, q in zip(v.items, b))]
        if inside or len(grown) != 1 or len(grown[0][1].items) != len(grown[0][2]) + 1 or any(p is not q for p, q in zip(grown[0][1].items, grown[0][2])):
            raise Unsupported("the callback does more than to add a buffer to a list")
        name, v, before = grown[0]
        new_ = v.items[-1]
        if not isinstance(new_, View):
            raise Unsupported("the callback adds something else")
        vm.prove("the buffer that is added is the one that was found", new_.k == i)
        vm.prove("buffers are flat", new_.flat)
        at = len(before)
        alone = sum(1 for w in fr.locals.values() if w is v)
        if alone != 1:
            raise Unsupported("the list has several names")

        def elem(j):
            if z3.is_int_value(j) and j.as_long() < at:
                return before[j.as_long()]
            for m in range(at):
                if vm.branch(j == m):
                    return before[m]
            return View(z3.simplify(j - at), True)

        fr.locals[name] = SSeq("buffers", z3.simplify(total + at), elem)
        return Stream(fury, total)

    def load(vm, s, bufs, fury):
        ok = isinstance(s, Stream) and s.fury == fury
        vm.prove("the stream is what was dumped", ok, repr(s))
        if not ok:
            return vm.opaque("garbage")
        if not isinstance(s.out, list):
            vm.cover("any number of buffers")
            vm.prove("it gets as many buffers as it does without", num(vm, vm.length(bufs)) >= total)
            j = vm.fresh_int("any buffer", 0).t
            vm.assume(j < total)
            v = vm.getitem(bufs, SInt(j))
            vm.prove("it gets the buffers that it does without, in order", v.k == j if isinstance(v, View) else False)
            return Restored(x)
        b = vm.concrete_list(bufs) if bufs is not None else []
        vm.prove("it gets the buffers that it does without, in order", len(b) >= len(s.out) and all(isinstance(v, View) and vm.branch(v.k == i) for v, i in zip(b, s.out)), repr(b))
        return Restored(x)

    def dumps(vm, a, k):
        p = k.get("protocol", a[1] if len(a) > 1 else 5)
        cb = k.get("buffer_callback")
        if cb is not None and p is not None and p != -1 and p < 5:
            raise PyExc(ValueError("buffer_callback needs protocol >= 5"))
        return dump(vm, a[0], cb, False)

    vm.stubs["cloudpickle.dumps"] = Stub(dumps)
    vm.stubs["cloudpickle.loads"] = Stub(lambda vm, a, k: load(vm, a[0], k.get("buffers", None), False))
    vm.stubs["pickle.DEFAULT_PROTOCOL"] = 4
    vm.stubs["pickle.HIGHEST_PROTOCOL"] = 5

    class Fury(Host):
        def m_serialize(self, vm, a, k):
            return dump(vm, a[0], k.get("buffer_callback"), True)

        def m_deserialize(self, vm, a, k):
            return load(vm, a[0], a[1] if len(a) > 1 else k.get("buffers"), True)

    fury = Fury() if with_fury else None
    vm.overrides.setdefault(M, {})["get_fury"] = Stub(lambda vm, a, k: fury)
    bufs = vm.call(vm.lookup(M, "pickle_buffers"), [x], {})
    moved = bufs if isinstance(bufs, SSeq) else VList(vm.concrete_list(bufs))
    for v in moved.items if isinstance(moved, VList) else []:
        if isinstance(v, View):
            vm.prove("buffers are flat", v.flat)
    y = vm.call(vm.lookup(M, "unpickle_buffers"), [moved], {})
    vm.cover("fury" if with_fury else "pickle")
    vm.prove("the object is restored", isinstance(y, Restored) and y.of is x, repr(y))


# ------------------------------------------------------------ arrays
class DType(Host):
    """dtype: fields [(name, offset)] in their order, or none"""

    def __init__(self, fields=None, objects=None, name="dtype"):
        self.fields, self.objects, self.name = fields, objects, name

    def __repr__(self):
        return f"dtype({self.fields})"

    def p_hasobject(self, vm):
        return self.objects

    def p_fields(self, vm):
        if self.fields is None:
            return None
        return VDict([[n, (DType(name=n), SInt(o))] for n, o in self.fields])

    p_names = lambda self, vm: None if self.fields is None else tuple(n for n, _ in self.fields)

    def vm_truth(self, vm):
        return self.fields is not None

    def vm_getitem(self, vm, k):
        names = vm.concrete_list(k)
        at = dict(self.fields)
        return DType([(n, at[n]) for n in names], self.objects)

    def same(self, vm, o):
        if self.fields is None or o.fields is None:
            return z3.BoolVal(self.fields is o.fields and self.name == o.name)
        if [n for n, _ in self.fields] != [n for n, _ in o.fields]:
            return z3.BoolVal(False)
        return conj([a == b for (_, a), (_, b) in zip(self.fields, o.fields)])


class Descr(Host):
    def __init__(self, of):
        self.of = of


class Token(Host):
    """shape or strides of an array"""

    def __init__(self, what, of):
        self.what, self.of = what, of

    def vm_seq(self, vm):
        s = SSeq(f"{self.what}", vm.fresh_int("dimensions", 0).t, lambda i: SInt(z3.Function(f"{self.what} {id(self.of)}", I, I)(i)), "tuple")
        s.token = self
        return s


def token(vm, x):
    """what a shape or strides are those of"""
    if isinstance(x, Token):
        return x
    if isinstance(x, SSeq):
        return getattr(x, "token", None) or getattr(x.whole()[0], "token", None)
    return None


class Array(Host):
    """array with elements; laid out in C order, in Fortran order, in both or in none"""

    def __init__(self, vm, cls, dtype, shape, c, f, elements):
        self.cls, self.dtype, self.c, self.f, self.elements = cls, dtype, c, f, elements
        self.shape = shape or Token("shape", self)
        self.strides = Token("strides", self)

    def vm_type(self, vm):
        return self.cls

    def vm_isinst(self, vm, cls):
        return cls is NDARRAY or cls is self.cls or cls is object

    p_dtype = lambda self, vm: self.dtype
    p_shape = lambda self, vm: self.shape
    p_strides = lambda self, vm: self.strides

    def p_flags(self, vm):
        a = self

        class Flags(Host):
            p_f_contiguous = p_fortran = lambda self, vm: SBool(a.f)
            p_c_contiguous = lambda self, vm: SBool(a.c)
            p_contiguous = p_c_contiguous
            p_fnc = lambda self, vm: SBool(z3.And(a.f, z3.Not(a.c)))
            p_forc = lambda self, vm: SBool(z3.Or(a.f, a.c))

            def vm_getitem(self, vm, k):
                return SBool({"F_CONTIGUOUS": a.f, "C_CONTIGUOUS": a.c, "F": a.f, "C": a.c}[k])

        return Flags()

    def copy_in(self, vm, order):
        if order not in ("C", "F"):
            raise Unsupported(f"copy in order {order!r}")
        other = vm.fresh_bool("both orders").t
        return Array(vm, self.cls, self.dtype, self.shape, z3.BoolVal(True) if order == "C" else other, z3.BoolVal(True) if order == "F" else other, self.elements)

    def m_copy(self, vm, a, k):
        return self.copy_in(vm, a[0] if a else k.get("order", "C"))

    def m_ravel(self, vm, a, k):
        return Flat(self, a[0] if a else k.get("order", "C"))

    m_flatten = m_ravel

    def m_reshape(self, vm, a, k):
        if list(a) != [-1]:
            raise Unsupported("reshape")
        return Flat(self, k.get("order", "C"))

    def m_tobytes(self, vm, a, k):
        return Flat(self, a[0] if a else k.get("order", "C"), True)


class Flat(Host):
    """the elements in an order; as bytes"""

    def __init__(self, of, order, raw=False):
        self.of, self.order, self.raw = of, order, raw

    def m_view(self, vm, a, k):
        if a and a[0] not in ("uint8", "u1", "B", "b", "int8"):
            raise Unsupported("view of elements")
        return Flat(self.of, self.order, True)

    p_data = lambda self, vm: self

    def vm_memoryview(self, vm):
        return self

    def m_cast(self, vm, a, k):
        return Flat(self.of, self.order, True)


NDARRAY = AClass("ndarray")


def arrays(vm):
    setup(vm)
    pickling(vm)
    ident = addresses(vm)
    cls = (NDARRAY, AClass("subclass of ndarray"))[vm.choose(2, "array / subclass")]
    fields = None
    if vm.choose(2, "plain / structured dtype"):
        offs = [vm.fresh_int("offset", 0).t for _ in range(3)]
        vm.assume(z3.Distinct(*offs))
        fields = list(zip(("x", "y", "z"), offs))
    objects = vm.fresh_bool("objects")
    dt = DType(fields, objects)
    x = Array(vm, cls, dt, None, vm.fresh_bool("C order").t, vm.fresh_bool("Fortran order").t, "elements")

    def to_descr(vm, a, k):
        d = a[0]
        if d.fields is not None:
            if not vm.branch(conj([p[1] < q[1] for p, q in zip(d.fields, d.fields[1:])])):
                raise PyExc(ValueError("dtype.descr is not defined for types with overlapping or out-of-order fields"))
        return Descr(d)

    def from_descr(vm, a, k):
        vm.prove("a dtype is made of a description of one", isinstance(a[0], Descr), repr(a[0]))
        return a[0].of

    S = vm.stubs
    S["numpy.ndarray"] = NDARRAY
    S["numpy.lib.format.dtype_to_descr"] = Stub(to_descr)
    S["numpy.lib.format.descr_to_dtype"] = Stub(from_descr)
    S["numpy.dtype"] = Stub(from_descr)
    S["numpy.ascontiguousarray"] = Stub(lambda vm, a, k: a[0].copy_in(vm, "C"))
    S["numpy.asfortranarray"] = Stub(lambda vm, a, k: a[0].copy_in(vm, "F"))
    made = []

    def ndarray(vm, a, k):
        names = ["shape", "dtype", "buffer", "offset", "strides", "order"]
        k = dict(zip(names, a), **k)
        made.append(k)
        return Made(k)

    class Made(Host):
        def __init__(self, k):
            self.k = k

    NDARRAY.vm_call = ndarray
    ser = vm.call(vm.lookup(N_, "NDArraySerializer"), [], {})
    if vm.choose(2, "new / known") == 1:
        known(vm, ser, x, ident)
        return
    head, subs, final = one_context(vm, ser, x, ident)
    subs = vm.concrete_list(subs)
    vm.prove("its parts are buffers", vm.truth(final) and len(subs) > 0)
    got = [Buffer(b.of, b.k, True) if isinstance(b, Buffer) else b for b in subs]
    y = call(vm, ser, "deserial", head, VDict(), VList(got))
    if isinstance(y, Unpickled):
        vm.cover("pickled")
        vm.prove("the array is what was pickled", y.of is x)
        return
    vm.cover("raw")
    vm.prove("objects, and arrays of subclasses, are not taken for their bytes", z3.And(z3.Not(objects.t), z3.BoolVal(cls is NDARRAY)))
    vm.prove("an array is made", isinstance(y, Made), repr(y))
    if not isinstance(y, Made):
        return
    k = y.k
    b = k.get("buffer")
    vm.prove("of the elements of the array", isinstance(b, Flat) and b.raw and b.of.elements is x.elements, repr(b))
    if not isinstance(b, Flat):
        return
    vm.prove("with the same dtype", k["dtype"].same(vm, dt) if isinstance(k.get("dtype"), DType) else False)
    s = token(vm, k["shape"])
    vm.prove("with the same shape", s is not None and s is x.shape)
    vm.prove("from the start", k.get("offset", 0) == 0)
    st = k.get("strides")
    if st is None:
        vm.prove("read in the order it was written in", k.get("order", "C") == b.order and b.order in ("C", "F"))
    else:
        t = token(vm, st)
        vm.prove("with the strides of an array", t is not None and t.what == "strides")
        if t is not None:
            vm.prove("that is laid out in the order of the buffer", t.of.c if b.order == "C" else t.of.f if b.order == "F" else False)
    if fields is not None:
        vm.cover("structured")


# ------------------------------------------------------------ which serializer
def registered(vm):
    """module level of the serialization modules: every class has its serializer, under a number of its own"""
    import ast

    log = []

    class Dispatcher(Host):
        def m_register(self, vm, a, k):
            log.append((a[0], a[1]))

    numbers = {}
    NUM = lambda cls: numbers.setdefault(cls, 100 + len(numbers))
    G = vm.overrides.setdefault(M, {})
    G["_serial_dispatcher"] = Dispatcher()
    G["max"] = Leaf(AClass("builtin_function_or_method"))
    vm.contracts[f"{M}:Serializer.calc_default_serializer_id"] = lambda vm, a, k: NUM(a[0])
    vm.stubs["numpy.ndarray"] = NDARRAY
    CSR = AClass("csr_matrix")
    vm.stubs["scipy.sparse.csr_matrix"] = CSR

    def toplevel(name):
        m = vm.module(name)
        g = vm.path.mod_g.setdefault(name, {})
        fr = Frame(m)
        fr.locals = g

        def registers(st):
            return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register" for n in ast.walk(st))

        def run(body):
            for st in body:
                if isinstance(st, (ast.Expr, ast.For)) and registers(st):
                    vm.exec_stmt(st, fr)
                elif isinstance(st, ast.If) and registers(st):
                    run(st.body)

        for n_ in list(m.defs):
            if n_ in ("_deserializers", "_primitive_types"):
                m.get(n_)
        run(m.src.tree.body)

    for name in (M, N_, S_, E_):
        toplevel(name)
    table = vm.module(M).get("_deserializers")[1]
    prims = vm.module(M).get("_primitive_types")[1]
    prims = vm.concrete_list(prims)
    want = [(object, M, "PickleSerializer"), (bytes, M, "BytesSerializer"), (memoryview, M, "BytesSerializer"), (str, M, "StrSerializer"), (list, M, "ListSerializer"), (tuple, M, "TupleSerializer"),
            (dict, M, "DictSerializer"), (vm.lookup(M, "Placeholder"), M, "PlaceholderSerializer"), (NDARRAY, N_, "NDArraySerializer"), (CSR, S_, "CsrMatrixSerializer"), (Exception, E_, "ExceptionSerializer")]
    for t in (bool, int, float, complex, type(None)):
        want.append((t, M, "PrimitiveSerializer"))

    def last(t):
        r = None
        for c, inst in log:
            if c is t:
                r = inst
        return r

    seen = {}
    for t, mod, cls in want:
        inst = last(t)
        c = vm.lookup(mod, cls)
        vm.prove(f"{getattr(t, '__name__', t)} has its serializer", isinstance(inst, IObj) and inst.cls is c, repr(inst))
    for c, inst in log:
        n = inst.attrs.get("_serializer_id")
        vm.prove("a serializer has a number", isinstance(n, int) and not isinstance(n, bool), repr(n))
        e = vm.dict_find(table, n)
        vm.prove("what it writes is read by a serializer of the same class", e is not None and e[1].cls is inst.cls, f"{inst!r} {n}")
        vm.prove("classes of serializers have different numbers", seen.setdefault(n, inst.cls) is inst.cls)
    # what stays in headers has no parts
    no = [list, tuple, dict, set, str, bytes, object, type(vm.lookup(M, "Placeholder")), NDARRAY, CSR, Exception, bytearray, memoryview]
    for p in prims:
        vm.prove("types of plain values are no types of collections or texts", not any(p is t for t in no), repr(p))
    vm.cover("registered")


# ------------------------------------------------------------ sparse matrices
def sparse(vm):
    setup(vm)
    ident = addresses(vm)
    lens = {n: vm.fresh_int(f"buffers of {n}", 0).t for n in ("data", "indices", "indptr")}

    class Part(Host):
        def __init__(self, n, back=False):
            self.n, self.back = n, back

        p_dtype = lambda self, vm: ("dtype", self.n)
        p_size = lambda self, vm: 0

    class Head(Host):
        def __init__(self, n):
            self.n = n

    parts = {n: Part(n) for n in lens}
    shape = (vm.fresh_int("rows", 0), vm.fresh_int("columns", 0))

    class Csr(Host):
        def vm_getattr(self, vm, name):
            if name in parts:
                return parts[name]
            if name == "shape":
                return shape
            if name == "dtype":
                return ("dtype", "data")
            raise Unsupported(f"{name} of a matrix")

        def vm_type(self, vm):
            return CSR

    CSR = AClass("csr_matrix")
    x = Csr()

    def ser_(vm, a, k):
        vm.prove("the parts of the matrix are serialized", isinstance(a[0], Part) and not a[0].back)
        n = a[0].n
        return (Head(n), SSeq(f"buffers of {n}", lens[n], lambda i: Buffer(n, i)))

    def deser(vm, a, k):
        h, bufs = a[0], a[1]
        vm.prove("a part is restored of as many buffers as it has", num(vm, vm.length(bufs)) == lens[h.n])
        j = vm.fresh_int("any buffer", 0).t
        vm.assume(j < lens[h.n])
        b = vm.getitem(bufs, SInt(j))
        vm.prove("a part is restored of its buffers, in order", z3.And(z3.BoolVal(b.of == h.n and b.moved), b.k == j))
        return Part(h.n, True)

    class New(Host):
        """a matrix that is made"""

        def __init__(self, shape, dtype, parts=None):
            self.shape, self.dtype, self.parts = shape, dtype, parts or {}

        def m_tocsr(self, vm, a, k):
            return New(self.shape, self.dtype)

        def vm_setattr(self, vm, name, v):
            self.parts[name] = v

        def vm_getattr(self, vm, name):
            m = {"tocsr": self.m_tocsr}.get(name)
            if m:
                return Stub(m)
            if name == "shape":
                return self.shape
            raise Unsupported(name)

    def matrix(vm, a, k):
        shape_ = k.get("shape", a[1] if len(a) > 1 else None)
        data = a[0]
        parts_ = {}
        if isinstance(data, tuple) and len(data) == 3 and all(isinstance(p, Part) for p in data):
            parts_ = dict(zip(("data", "indices", "indptr"), data))
        elif isinstance(data, tuple) and data and data is not shape_ and all(isinstance(v, SInt) for v in data):
            shape_ = data
        return New(shape_, k.get("dtype", "dtype of the data" if not parts_ else ("dtype", "data")), parts_)

    vm.contracts[f"{M}:serialize"] = ser_
    vm.contracts[f"{M}:deserialize"] = deser
    for n in ("coo_matrix", "csr_matrix"):
        vm.stubs[f"scipy.sparse.{n}"] = Stub(matrix)
    vm.stubs["numpy.zeros"] = Stub(lambda vm, a, k: ("zeros", k.get("dtype")))
    ser = vm.call(vm.lookup(S_, "CsrMatrixSerializer"), [], {})
    if vm.choose(2, "new / known") == 1:
        known(vm, ser, x, ident)
        return
    head, subs, final = one_context(vm, ser, x, ident)
    vm.prove("its parts are buffers", vm.truth(final))

    def moved(i):
        b = vm.getitem(subs, SInt(i))
        return Buffer(b.of, b.k, True)

    got = SSeq("buffers received", num(vm, vm.length(subs)), moved)
    y = call(vm, ser, "deserial", head, VDict(), got)
    vm.cover("restored")
    vm.prove("a matrix is made", isinstance(y, New), repr(y))
    if isinstance(y, New):
        vm.prove("of the same parts", conj([isinstance(y.parts.get(n), Part) and y.parts[n].n == n and y.parts[n].back for n in lens]))
        vm.prove("of the same shape", same(vm, y.shape, shape))
        vm.prove("of the dtype of its data", same(vm, y.dtype, ("dtype", "data")))


CASES = [
    Case("objects of subclasses of dicts, of any size", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial", f"{M}:_made_of_items"],
         any_dict("subclass"), covers=["restored", "pickled", "replaced", "nothing to replace"], max_paths=20000, seconds=400),
    Case("ordered dicts of any size", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial", f"{M}:_made_of_items"],
         any_dict("OrderedDict"), covers=["restored", "pickled", "replaced", "nothing to replace"], max_paths=20000, seconds=400),
    Case("dicts with defaults, of any size", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial", f"{M}:_made_of_items"],
         any_dict("defaultdict"), covers=["restored", "pickled", "replaced", "nothing to replace"], max_paths=20000, seconds=400),
    Case("lists of at most two items", [f"{M}:CollectionSerializer.serial", f"{M}:CollectionSerializer._serial_iterable", f"{M}:ListSerializer.deserial", f"{M}:CollectionSerializer._deserial_iterable"],
         collections("ListSerializer", 2, None), covers=["restored"], max_paths=60000, bounded="2 items"),
    Case("tuples of at most two items", [f"{M}:TupleSerializer.deserial"], collections("TupleSerializer", 2, None), covers=["restored"], max_paths=60000, bounded="2 items"),
    Case("objects of subclasses of lists, of at most two items", [f"{M}:_made_of_items", f"{M}:ListSerializer.deserial"],
         collections("ListSerializer", 2, "subclass"), covers=["restored", "pickled", "made of items"], max_paths=60000, bounded="2 items"),
    Case("objects of subclasses of tuples, of at most two items", [f"{M}:_made_of_items", f"{M}:TupleSerializer.deserial"],
         collections("TupleSerializer", 2, "subclass"), covers=["restored", "pickled", "made of items"], max_paths=60000, bounded="2 items"),
    Case("namedtuples of at most two items", [f"{M}:_made_of_items", f"{M}:TupleSerializer.deserial"],
         collections("TupleSerializer", 2, "namedtuple"), covers=["restored", "pickled", "made of items"], max_paths=60000, bounded="2 items"),
    Case("dicts of at most two items", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial"], dicts(2, False), covers=["restored"], max_paths=60000, bounded="2 items"),
    Case("objects of subclasses of dicts, of at most two items", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial", f"{M}:_made_of_items"], dicts(2, True),
         covers=["restored", "pickled", "made of items"], max_paths=60000, bounded="2 items"),
    Case("ranks and places", [], ranks),
    Case("lists of any size", [f"{M}:CollectionSerializer.serial", f"{M}:CollectionSerializer._serial_iterable", f"{M}:ListSerializer.deserial", f"{M}:CollectionSerializer._deserial_iterable"],
         any_size("ListSerializer"), covers=["restored", "an item that is restored later"], max_paths=20000),
    Case("tuples of any size", [f"{M}:CollectionSerializer._serial_iterable", f"{M}:TupleSerializer.deserial", f"{M}:CollectionSerializer._deserial_iterable"],
         any_size("TupleSerializer"), covers=["restored"], max_paths=20000),
    Case("objects of subclasses of lists, of any size", [f"{M}:_made_of_items", f"{M}:ListSerializer.deserial"], any_size("ListSerializer", "subclass"),
         covers=["restored", "pickled", "made of items", "an item that is restored later"], max_paths=20000),
    Case("objects of subclasses of tuples, of any size", [f"{M}:_made_of_items", f"{M}:TupleSerializer.deserial"], any_size("TupleSerializer", "subclass"),
         covers=["restored", "pickled", "made of items"], max_paths=20000),
    Case("namedtuples of any size", [f"{M}:_made_of_items", f"{M}:TupleSerializer.deserial"], any_size("TupleSerializer", "namedtuple"), covers=["restored", "pickled", "made of items"], max_paths=20000),
    Case("keys and values of any number", [f"{M}:CollectionSerializer._serial_iterable", f"{M}:CollectionSerializer._deserial_iterable"], iterables, covers=["restored"], max_paths=20000, seconds=400),
    Case("dicts of any size", [f"{M}:DictSerializer.serial", f"{M}:DictSerializer.deserial", f"{M}:_dict_key_replacer", f"{M}:_dict_value_replacer"],
         any_dict(False), covers=["restored", "empty", "replaced", "nothing to replace"], max_paths=20000),
    Case("plain values", [f"{M}:PrimitiveSerializer.serial", f"{M}:PrimitiveSerializer.deserial", f"{M}:buffered"], leaf("PrimitiveSerializer", lambda vm: Leaf(AClass("class"))), covers=["restored"]),
    Case("texts", [f"{M}:StrSerializer.serial", f"{M}:StrSerializer.deserial"], leaf("StrSerializer", some_text), covers=["restored"]),
    Case("bytes", [f"{M}:BytesSerializer.serial", f"{M}:BytesSerializer.deserial"], leaf("BytesSerializer", some_bytes), covers=["restored"]),
    Case("other objects", [f"{M}:PickleSerializer.serial", f"{M}:PickleSerializer.deserial"], leaf("PickleSerializer", lambda vm: Leaf(AClass("class"))), covers=["restored"]),
    Case("exceptions", [f"{E_}:ExceptionSerializer.serial", f"{E_}:ExceptionSerializer.deserial", f"{E_}:UnpickleableError.__init__"], exceptions, covers=["pickled", "replaced"]),
    Case("pickles", [f"{M}:pickle_buffers", f"{M}:unpickle_buffers"], pickles, covers=["pickle", "fury", "any number of buffers"]),
    Case("arrays", [f"{N_}:NDArraySerializer.serial", f"{N_}:NDArraySerializer.deserial"], arrays, covers=["raw", "pickled", "structured"]),
    Case("which serializer", [f"{M}:Serializer.register", f"{M}:Serializer.__cinit__"], registered, covers=["registered"]),
    Case("sparse matrices", [f"{S_}:CsrMatrixSerializer.serial", f"{S_}:CsrMatrixSerializer.deserial"], sparse, covers=["restored"]),
    # the loops around the serializers
    Case("plain", [f"{M}:serialize"], lambda vm: c02.entry(vm, False), covers=["leaf", "straight"], need=4, assumed=["_serial_single", "_serialize_with_stack"]),
    Case("writing", [f"{M}:_serialize_with_stack"], lambda vm: c02.stepping(vm, plain=True), covers=["step", "finished"], need=20, assumed=["_serial_single"]),
    Case("one object", [f"{M}:_serial_single"], c02.one, covers=["placeholder", "object"], need=20),
    Case("reading", [f"{M}:deserialize"], lambda vm: c02.reading(vm, failing=False), covers=["step", "restored"], need=20, assumed=["_deserial_single"]),
    Case("one object back", [f"{M}:_deserial_single"], c02.one_back, covers=["met again", "not complete yet", "waited for", "told"], need=20),
]

ASSUMPTIONS = [
    "the property follows from the contracts of the serializers and of the loops around them by induction on the object (that step is not machine-checked)",
    "cloudpickle.dumps and loads (fury: serialize and deserialize) restore an equal object of the same type from the same bytes and buffers; pickle itself restores attributes, constructors and sharing inside of what it is given",
    "headers reach the reader as they were written (messages: C03, channels: C04)",
    "NumPy: dtype_to_descr/descr_to_dtype, ascontiguousarray, ravel and ndarray(buffer=...) as documented; SciPy: csr matrices consist of data, indices, indptr and shape",
    "ids of objects that are alive differ, and the context keeps what it holds alive; C integers do not overflow",
    "the handler of a type is found as C16 states; encoding with surrogatepass is inverted by decoding with it",
    "constructors of namedtuples, lists, tuples and dicts make objects of the items given, unless a class brings its own",
    "dicts that are (part of) their own keys, and cycles through tuples, are left out",
    "keys that are placeholders are open no longer than the values next to them",
]

