"""C16: dispatch always picks the most specific registered handler.

A dispatcher is a map H from types to handlers and a cache I; the class hierarchy is an
arbitrary function from types to their resolution orders.  The invariant of the data
structure is that the cache holds nothing but what the search would find:

    for all t: I has t  =>  I[t] = H[mro(t)[i]] for the least i with a handler

Every operation keeps it, and with it a lookup is the search, for every history.
"""

from .base import *  # noqa: F401,F403
from pyvc.interp import StarArg

M = "xoscar._utils"

MRO = z3.Function("mro", U, z3.IntSort(), U)
LEN = z3.Function("length of mro", U, z3.IntSort())
NAMED = z3.Function("NamedType", U, U, U)


class Handlers(Map):
    def find(self, vm, k):
        r = super().find(vm, k)
        if r is not None:
            # handlers are not None
            vm.assume(r.t != vm.term(None))
        return r


def best(H, t, i):
    j = z3.Int("j")
    return z3.And(0 <= i, i < LEN(t), H[0](MRO(t, i)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(H[0](MRO(t, j))))))


IDX = z3.Function("place of the cached handler", U, z3.IntSort())


def cached_right(H, I, t, where):
    """the invariant at t, with the places one of which is the i that it says exists"""
    return z3.Implies(I[0](t), z3.Or(*[z3.And(best(H, t, i), I[1](t) == H[1](MRO(t, i))) for i in where]))


def first_of_its_order(vm, t):
    vm.assume(z3.And(LEN(t) >= 1, MRO(t, 0) == t))


def plain(vm, term=None):
    t = vm.opaque("type", "type").t if term is None else term
    first_of_its_order(vm, t)
    vm.assume(t != vm.term("module.name"))
    return SVal(t, "type", __mro__=SSeq("mro", LEN(t), lambda i: SVal(MRO(t, i), "type"), "tuple"))


class NT(Host):
    """the class of named types"""

    name = "NamedType"

    def vm_call(self, vm, a, k):
        return named(vm, a[0], a[1] if isinstance(a[1], SVal) and "__mro__" in a[1].facets else plain(vm, vm.term(a[1])))


THE_NT = NT()


class Registry(Host):
    """the set of all dispatchers"""

    m_add = lambda self, vm, a, k: None


def named(vm, name, t):
    x = NAMED(vm.term(name), t.t)
    vm.assume(x != vm.term("module.name"))
    return SVal(x, "NamedType", name=name, type_=t, type=lambda vm: THE_NT, isinst=lambda vm, c: getattr(c, "__name__", "") in ("tuple",) or c is THE_NT)


def setup(vm):
    def chain(vm, a, k):
        if len(a) == 1 and isinstance(a[0], StarArg):
            # the pairs of a sequence of pairs, one after the other
            s = a[0].v
            def elem(i):
                a, b = s.elem(z3.simplify(i / 2))
                return SVal(z3.If(i % 2 == 0, vm.term(a), vm.term(b)), "type")

            return SSeq("chain", 2 * s.length, elem)
        return VList([x for s in a for x in vm.concrete_list(s)])

    vm.stubs["itertools.chain"] = Stub(chain, "chain")
    vm.stubs["itertools.chain.from_iterable"] = Stub(lambda vm, a, k: chain(vm, [StarArg(a[0])], {}) if isinstance(a[0], SSeq) else chain(vm, vm.concrete_list(a[0]), {}), "chain")
    vm.overrides.setdefault(M, {})["NamedType"] = THE_NT
    vm.overrides[M]["_type_dispatchers"] = Registry()


def dispatcher(vm, lazy=None):
    """any dispatcher that satisfies the invariant"""
    d = vm.call(vm.lookup(M, "TypeDispatcher"), [], {})
    H, I = Handlers(vm, "handlers"), Handlers(vm, "inherited")
    havoc(vm, d, _handlers=H, _inherit_handlers=I, _lazy_handlers=lazy if lazy is not None else VDict())
    H0, I0 = (H.has, H.val), (I.has, I.val)
    # the invariant holds for every type; it is instantiated where it is used
    d.holds = lambda t: vm.assume(cached_right(H0, I0, t, [IDX(t)]))
    return d, H0, I0


def state(vm, d):
    return graph(vm, d.attrs["_handlers"]), graph(vm, d.attrs["_inherit_handlers"])


def some_type(vm):
    t = plain(vm)
    if vm.choose(2, "named type"):
        vm.cover("named type")
        nm = vm.opaque("name")
        x = named(vm, nm, t)
        i = z3.Int("i")
        key = z3.If(i % 2 == 0, NAMED(nm.t, MRO(t.t, i / 2)), MRO(t.t, i / 2))
        vm.assume(LEN(x.t) == 2 * LEN(t.t))
        vm.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(x.t)), MRO(x.t, i) == key)))
        return x
    vm.cover("plain type")
    return t


def keeps(vm, d, what, where=()):
    H, I = state(vm, d)
    t = z3.Const(vm.fresh_name("any type"), U)
    first_of_its_order(vm, t)
    if hasattr(d, "holds"):
        d.holds(t)
    vm.prove(f"{what}: the cache holds nothing but what a search finds", cached_right(H, I, t, [IDX(t), z3.IntVal(0), *where]))
    return H, I


def unchanged(vm, H, H0, except_=None):
    k = z3.Const(vm.fresh_name("any key"), U)
    c = z3.And(H[0](k) == H0[0](k), z3.Implies(H[0](k), H[1](k) == H0[1](k)))
    return c if except_ is None else z3.Implies(k != except_, c)


def lookup(vm):
    d, H0, I0 = dispatcher(vm)
    t = some_type(vm)
    d.holds(t.t)
    final = [H0]

    def reload_(vm, a, k):
        """contract of the resolution of names (case 'names')"""
        if vm.choose(2, "names become handlers"):
            H = Handlers(vm, "handlers after")
            d.attrs["_handlers"] = H
            d.attrs["_inherit_handlers"] = Handlers(vm, empty=True)
            final[0] = (H.has, H.val)
        d.attrs["_lazy_handlers"] = VDict()
        return None

    vm.contracts[f"{M}:TypeDispatcher._reload_lazy_handlers"] = reload_
    j = z3.Int("j")
    places = []
    none_before = lambda i: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(final[0][0](MRO(t.t, j)))))
    vm.loops.append(LoopSpec("search", lambda vm, st, fr, it: isinstance(it, SSeq), lambda vm, fr, it, i: (places.append(i), vm.assume(none_before(i))),
                             lambda vm, fr, it, i: [("no more specific class has a handler", none_before(i))]))
    r, e = attempt(vm, lambda: call(vm, d, "get_handler", t))
    H, I = keeps(vm, d, "lookup", places)
    vm.prove("a lookup does not change the registrations", unchanged(vm, H, final[0]))
    i = z3.Int("i")
    if e is None:
        vm.cover("found")
        vm.prove("the handler of the most specific class that has one", z3.Or(*[z3.And(best(final[0], t.t, i), vm.term(r) == final[0][1](MRO(t.t, i))) for i in (IDX(t.t), z3.IntVal(0), *places)]))
    else:
        vm.cover("not found")
        vm.prove("a KeyError", exc_is(vm, e, KeyError), f"{e!r}")
        vm.prove("only if no class has a handler", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(t.t)), z3.Not(final[0][0](MRO(t.t, i))))))


def register(vm):
    d, H0, I0 = dispatcher(vm)
    h = vm.opaque("handler", "handler")
    vm.assume(h.t != vm.term(None))
    how = vm.choose(3, "type, types, name")
    if how == 0:
        t = some_type(vm)
        vm.prove("no result", call(vm, d, "register", t, h) is None)
        H, I = keeps(vm, d, "registration")
        vm.prove("the type has this handler", z3.And(H[0](t.t), H[1](t.t) == h.t))
        vm.prove("other types keep theirs", unchanged(vm, H, H0, t.t))
    elif how == 1:
        vm.cover("several types")
        a, b = plain(vm), plain(vm)
        call(vm, d, "register", (a, b), h)
        H, I = keeps(vm, d, "registration of several types")
        vm.prove("all of the types have this handler", z3.And(H[0](a.t), H[1](a.t) == h.t, H[0](b.t), H[1](b.t) == h.t))
        k = z3.Const(vm.fresh_name("any key"), U)
        vm.prove("other types keep theirs", z3.Implies(z3.And(k != a.t, k != b.t), z3.And(H[0](k) == H0[0](k), z3.Implies(H[0](k), H[1](k) == H0[1](k)))))
    else:
        vm.cover("name")
        call(vm, d, "register", "module.name", h)
        H, I = keeps(vm, d, "registration of a name")
        vm.prove("a name changes no registration yet", unchanged(vm, H, H0))
        vm.prove("the name is kept", d.attrs["_lazy_handlers"].items == [["module.name", h]])


def unregister(vm):
    d, H0, I0 = dispatcher(vm, VDict([["module.name", vm.opaque("handler", "handler")]]))
    how = vm.choose(3, "type, types, name")
    if how == 0:
        t = some_type(vm)
        call(vm, d, "unregister", t)
        H, I = keeps(vm, d, "removal")
        vm.prove("the type has no handler", z3.Not(H[0](t.t)))
        vm.prove("other types keep theirs", unchanged(vm, H, H0, t.t))
        vm.prove("names are kept", len(d.attrs["_lazy_handlers"].items) == 1)
    elif how == 1:
        vm.cover("several types")
        a, b = plain(vm), plain(vm)
        call(vm, d, "unregister", (a, b))
        H, I = keeps(vm, d, "removal of several types")
        vm.prove("none of the types has a handler", z3.And(z3.Not(H[0](a.t)), z3.Not(H[0](b.t))))
    else:
        vm.cover("name")
        call(vm, d, "unregister", "module.name")
        H, I = keeps(vm, d, "removal of a name")
        vm.prove("the name is gone", not d.attrs["_lazy_handlers"].items)
        vm.prove("no type loses its handler", unchanged(vm, H, H0, vm.term("module.name")))


def names(vm):
    hs = [vm.opaque("handler", "handler") for _ in range(2)]
    for h in hs:
        vm.assume(h.t != vm.term(None))
    n = vm.choose(3, "names")
    entries = [["pkg.mod.A", hs[0]], ["other.B", hs[1]]][:n]
    d, H0, I0 = dispatcher(vm, VDict([list(x) for x in entries]))
    types = {"pkg.mod.A": plain(vm), "other.B": plain(vm)}

    class Mod(Host):
        def __init__(self, name):
            self.name = name

        def vm_getattr(self, vm, n):
            if f"{self.name}.{n}" in types:
                return types[f"{self.name}.{n}"]
            raise PyExc(AttributeError(n))

    vm.stubs["importlib.import_module"] = Stub(lambda vm, a, k: Mod(a[0]), "import_module")
    vm.stubs["warnings.catch_warnings"] = Stub(lambda vm, a, k: lib.NullCM(), "catch_warnings")
    vm.stubs["warnings.simplefilter"] = Stub(lambda vm, a, k: None, "simplefilter")
    call(vm, d, "_reload_lazy_handlers")
    vm.cover(f"{n} names")
    H, I = keeps(vm, d, "resolution of names")
    vm.prove("no name is left", not d.attrs["_lazy_handlers"].items)
    ts = [types[x[0]].t for x in entries]
    for i, t in enumerate(ts):
        later = z3.Or(*[t == u for u in ts[i + 1 :]]) if ts[i + 1 :] else z3.BoolVal(False)
        vm.prove("the type of a name has its handler", z3.Or(later, z3.And(H[0](t), H[1](t) == entries[i][1].t)))
    k = z3.Const(vm.fresh_name("any key"), U)
    vm.prove("other types keep theirs", (z3.Or(*[k == t for t in ts], z3.And(H[0](k) == H0[0](k), z3.Implies(H[0](k), H[1](k) == H0[1](k))))))


def fresh(vm):
    d = vm.call(vm.lookup(M, "TypeDispatcher"), [], {})
    vm.cover("made")
    H, I = keeps(vm, d, "a new dispatcher")
    vm.prove("a new dispatcher is empty", z3.Not(H[0](z3.Const("k", U))))


def dispatch(vm):
    """calling a dispatcher calls the handler of the type of the object"""
    d, _, _ = dispatcher(vm)
    t = vm.opaque("type", "type")
    obj = vm.opaque("object", None, type=lambda vm: t)
    x, y, out = vm.opaque("x"), vm.opaque("y"), vm.opaque("out")
    got, asked = [], []

    def handler(vm, a, k):
        got.append((list(a), dict(k)))
        return out

    def find(vm, a, k):
        asked.append(a[-1])
        return Stub(handler, "handler")

    vm.contracts[f"{M}:TypeDispatcher.get_handler"] = find
    r = call(vm, d, "__call__", obj, x, k=y)
    vm.cover("called")
    vm.prove("for the type of the object", asked == [t])
    vm.prove("the handler is called with the object and the arguments", got == [([obj, x], {"k": y})])
    vm.prove("its result is returned", r is out)


CASES = [
    Case("lookup", [f"{M}:TypeDispatcher.get_handler"], lookup, setup, covers=["plain type", "named type", "found", "not found", "search: body reached"], need=30),
    Case("register", [f"{M}:TypeDispatcher.register"], register, setup, covers=["several types", "name"], need=10),
    Case("unregister", [f"{M}:TypeDispatcher.unregister"], unregister, setup, covers=["several types", "name"], need=8),
    Case("names", [f"{M}:TypeDispatcher._reload_lazy_handlers"], names, setup, covers=["0 names", "1 names", "2 names"], need=8, bounded="up to two names"),
    Case("new dispatcher", [f"{M}:TypeDispatcher.__init__"], fresh, setup, covers=["made"], need=2),
    Case("call", [f"{M}:TypeDispatcher.__call__"], dispatch, setup, covers=["called"], need=3),
]

ASSUMPTIONS = [
    "a type is the first of its own resolution order; a named type is resolved as the name with, then without, each class of the order of its type",
    "handlers are not None",
    "names are resolved when a lookup first misses (what a name denotes is looked up by importlib)",
    "two threads do not change one dispatcher at the same time",
]
