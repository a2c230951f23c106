"""C19: references keep identity through copies, pickling and lookups."""

from .base import *  # noqa: F401,F403
from . import refs as references
from . import context as asking

K = "xoscar.core"
U_ = "xoscar._utils"
T = "xoscar.utils"


class Weak(Host):
    """weakref.ref to something alive"""

    def __init__(self, o):
        self.o = o

    def vm_call(self, vm, a, k):
        return self.o


def setup(vm):
    vm.stubs["weakref.ref"] = Stub(lambda vm, a, k: Weak(a[0]), "ref")
    vm.stubs["weakref.WeakValueDictionary"] = Stub(lambda vm, a, k: VDict(), "WeakValueDictionary")


def text(vm, name):
    return vm.opaque(name, "str")


def uid_of(vm, name, as_text):
    """a uid as bytes, and the same as it is given to the constructor"""
    if as_text:
        s = text(vm, name)
        return call(vm, s, "encode"), s
    b = vm.opaque(name, "bytes")
    return b, b


def actor(vm, address, uid):
    return new(vm, K, "_BaseActor", _address=address, _uid=uid)


KINDS = ["remote, bytes", "remote, text", "local"]


def make(vm, kind, n):
    """(reference, address, uid bytes)"""
    a = text(vm, f"address{n}")
    if kind == "local":
        u = vm.opaque(f"uid{n}", "bytes")
        return vm.call(vm.lookup(K, "LocalActorRef"), [actor(vm, a, u)], {}), a, u
    u, given = uid_of(vm, f"uid{n}", kind == "remote, text")
    proxies = vm.opaque(f"proxies{n}", "list") if vm.choose(2, "proxies") else None
    return vm.call(vm.lookup(K, "ActorRef"), [a, given], {"proxy_addresses": proxies}), a, u


def equality(vm):
    i, j = vm.choose(3, "first"), vm.choose(3, "second")
    r1, a1, u1 = make(vm, KINDS[i], 1)
    r2, a2, u2 = make(vm, KINDS[j], 2)
    want = z3.And(vm.term(a1) == vm.term(a2), vm.term(u1) == vm.term(u2))
    eq = as_z3(vm.eq(r1, r2))
    vm.cover("compared")
    vm.prove("equal exactly if address and id are", eq == want)
    h1, h2 = vm.call(vm.builtins["hash"], [r1], {}), vm.call(vm.builtins["hash"], [r2], {})
    vm.prove("equal references have equal hashes", z3.Implies(want, num(vm, h1) == num(vm, h2)))
    vm.prove("the address is kept", same(vm, vm.getattr(r1, "address"), a1))
    vm.prove("the id is kept, as bytes", same(vm, vm.getattr(r1, "uid"), u1))


def unlike(vm):
    r, _, _ = make(vm, KINDS[vm.choose(3, "kind")], 1)
    others = [None, 1, "x", (), vm.call(vm.lookup(K, "BufferRef"), [text(vm, "a"), vm.opaque("u", "bytes")], {}), actor(vm, text(vm, "b"), vm.opaque("v", "bytes"))]
    o = others[vm.choose(len(others), "other")]
    e = vm.eq(r, o)
    vm.cover("compared")
    vm.prove("not equal to anything but a reference", z3.Not(as_z3(e)))


def local_lookup(vm):
    """contract of the lookup of a local actor: None or the actor with that address and id"""
    found = {}

    def f(vm, a, k):
        if vm.choose(2, "actor is in this process") == 0:
            return None
        found["actor"] = actor(vm, a[0], a[1])
        return found["actor"]

    vm.contracts[f"{K}:_get_local_actor"] = f
    return found


def pickling(vm):
    kind = KINDS[vm.choose(3, "kind")]
    r, a, u = make(vm, kind, 1)
    proxies = vm.getattr(r, "proxy_addresses")
    found = local_lookup(vm)
    cur = r
    for _ in range(2):
        f, args = vm.concrete_list(call(vm, cur, "__reduce__"))[:2]
        cur = vm.call(f, vm.concrete_list(args), {})
    vm.cover("restored local" if cur.cls is vm.lookup(K, "LocalActorRef") else "restored remote")
    vm.prove("a copy is a reference", cur.cls in (vm.lookup(K, "ActorRef"), vm.lookup(K, "LocalActorRef")))
    vm.prove("of the same address", same(vm, vm.getattr(cur, "address"), a))
    vm.prove("and id", same(vm, vm.getattr(cur, "uid"), u))
    vm.prove("and equal", as_z3(vm.eq(cur, r)))
    if not found:
        vm.prove("proxies are kept", same(vm, vm.getattr(cur, "proxy_addresses"), proxies))


def core_create(vm):
    found = local_lookup(vm)
    a, (u, given) = text(vm, "address"), uid_of(vm, "uid", vm.choose(2, "text") == 1)
    p = vm.opaque("proxies", "list")
    r = vm.call(vm.lookup(K, "create_actor_ref"), [a, given, p], {})
    vm.cover("created")
    vm.prove("address", same(vm, vm.getattr(r, "address"), a))
    if not found:
        vm.prove("id as bytes", same(vm, vm.getattr(r, "uid"), u))
        vm.prove("proxies", same(vm, vm.getattr(r, "proxy_addresses"), p))
    else:
        vm.prove("a local reference to the actor found", r.cls is vm.lookup(K, "LocalActorRef"))


class Registry(Host):
    """any number of pools are registered already; some may have gone"""

    def __init__(self, vm):
        self.new = []
        self.HAS, self.GONE = z3.Function("is registered", U, z3.BoolSort()), z3.Function("is gone", U, z3.BoolSort())

    def m_get(self, vm, a, k):
        t = vm.term(a[0])
        for key, v in reversed(self.new):
            if vm.branch(t == key):
                return v
        if not vm.branch(self.HAS(t)):
            return a[1] if len(a) > 1 else None
        return Weak(None if vm.branch(self.GONE(t)) else Registered(z3.Function("pool at", U, U)(t)))

    def vm_contains(self, vm, x):
        t = vm.term(x)
        return SBool(z3.Or(self.HAS(t), *[t == key for key, _ in self.new]))

    def vm_getitem(self, vm, x):
        r = self.m_get(vm, [x], {})
        if r is None:
            raise PyExc(KeyError(x))
        return r

    def vm_setitem(self, vm, x, v):
        self.new.append((vm.term(x), v))

    def m_pop(self, vm, a, k):
        raise Unsupported("removal of a registered pool")


class Registered(Host):
    """a pool with any number of actors"""

    def __init__(self, t):
        self.t = t

    def p__actors(self, vm):
        return self

    def has(self, u):
        return z3.Function("has actor", U, U, z3.BoolSort())(self.t, u)

    def act(self, u):
        return z3.Function("actor of", U, U, U)(self.t, u)

    def vm_contains(self, vm, x):
        return SBool(self.has(vm.term(x)))

    def m_get(self, vm, a, k):
        t = vm.term(a[0])
        if not vm.branch(self.has(t)):
            return a[1] if len(a) > 1 else None
        r = SVal(self.act(t), "actor")
        vm.assume(r.t != vm.term(None))
        return r

    def vm_getitem(self, vm, x):
        r = self.m_get(vm, [x], {})
        if r is None:
            raise PyExc(KeyError(x))
        return r


def find_local(vm):
    """only the actor registered under the id, in the pool registered under the address"""
    reg = Registry(vm)
    vm.overrides.setdefault(K, {})["_local_pool_map"] = reg
    a, own, u = text(vm, "address"), text(vm, "address of a new pool"), vm.opaque("uid", "bytes")
    pool = Registered(vm.opaque("new pool").t)
    vm.call(vm.lookup(K, "register_local_pool"), [own, pool], {})
    vm.prove("registered under its address", len(reg.new) == 1 and reg.new[0][0].eq(own.t) and vm.call(reg.new[0][1], [], {}) is pool)
    got = vm.call(vm.lookup(K, "_get_local_actor"), [a, u], {})
    vm.cover("found" if got is not None else "not found")
    old = Registered(z3.Function("pool at", U, U)(a.t))
    new = a.t == own.t
    there = z3.If(new, pool.has(u.t), z3.And(reg.HAS(a.t), z3.Not(reg.GONE(a.t)), old.has(u.t)))
    vm.prove("found exactly if the pool of the address exists and has an actor of the id", there == (got is not None))
    if got is not None:
        vm.prove("it is the actor of this pool with this id", vm.term(got) == z3.If(new, pool.act(u.t), old.act(u.t)))


def utils_create(vm):
    """create_actor_ref of _utils: every way of giving address and id"""
    f = vm.lookup(U_, "create_actor_ref")
    way = vm.choose(6, "how it is given")
    a = text(vm, "address")
    at = vm.choose(2, "address as bytes")
    given_a = call(vm, a, "encode") if at else a
    u, given = uid_of(vm, "uid", vm.choose(2, "id as text") == 1)
    p = vm.opaque("proxies", "list")
    has_p = False
    if way == 0:
        r = vm.call(f, [given_a, given], {})
    elif way == 1:
        r, has_p = vm.call(f, [given_a, given, p], {}), True
    elif way == 2:
        r = vm.call(f, [], {"address": given_a, "uid": given})
    elif way == 3:
        r, has_p = vm.call(f, [], {"address": given_a, "uid": given, "proxy_addresses": p}), True
    elif way == 4:
        r = vm.call(f, [given], {"address": given_a})
    else:
        old = vm.call(vm.lookup(K, "ActorRef"), [a, given], {"proxy_addresses": p})
        r, has_p = vm.call(f, [old], {}), True
    vm.cover("created")
    vm.prove("address", same(vm, vm.getattr(r, "address"), a))
    vm.prove("id as bytes", same(vm, vm.getattr(r, "uid"), u))
    vm.prove("proxies", same(vm, vm.getattr(r, "proxy_addresses"), p if has_p else None))


def utils_refused(vm):
    f = vm.lookup(U_, "create_actor_ref")
    a, b = text(vm, "address"), vm.opaque("uid", "bytes")
    args, kw = [([a, b], {"address": "x"}), ([], {"address": a}), ([a, b], {"port": 1}), ([a, None], {})][vm.choose(4, "wrong call")]
    _, e = attempt(vm, lambda: vm.call(f, list(args), dict(kw)))
    vm.cover("refused")
    vm.prove("refused", exc_is(vm, e, ValueError))


def conversions(vm):
    s, b = text(vm, "text"), vm.opaque("data", "bytes")
    to_str, to_binary = vm.lookup(U_, "to_str"), vm.lookup(U_, "to_binary")
    vm.cover("converted")
    vm.prove("text is kept", same(vm, vm.call(to_str, [s], {}), s))
    vm.prove("data is kept", same(vm, vm.call(to_binary, [b], {}), b))
    e = vm.call(to_binary, [s], {})
    vm.prove("text through data", same(vm, vm.call(to_str, [e], {}), s))
    vm.prove("nothing stays nothing", vm.call(to_str, [None], {}) is None and vm.call(to_binary, [None], {}) is None)
    for f in (to_str, to_binary):
        _, x = attempt(vm, lambda: vm.call(f, [1], {}))
        vm.prove("anything else is refused", exc_is(vm, x, TypeError))


def registered(kind, create, lookup):
    def body(vm):
        c = vm.lookup(K, kind)
        a, a2 = text(vm, "address"), text(vm, "other address")
        u, u2 = vm.opaque("uid", "bytes"), vm.opaque("other uid", "bytes")
        vm.assume(z3.Or(a.t != a2.t, u.t != u2.t))
        b, b2 = vm.opaque("object", "object"), vm.opaque("other object", "object")
        order = vm.choose(2, "order")
        refs = {}
        for i in (0, 1) if order == 0 else (1, 0):
            refs[i] = vm.call(vm.getattr(c, create), [(b, b2)[i], (a, a2)[i], (u, u2)[i]], {})
        r, r2 = refs[0], refs[1]
        vm.cover("created")
        vm.prove("keeps address and id", conj([same(vm, vm.getattr(r, "address"), a), same(vm, vm.getattr(r, "uid"), u)]))
        vm.prove("finds its object", vm.call(vm.getattr(c, lookup), [r], {}) is b)
        # a copy that was pickled (any number of times)
        cur = r
        for _ in range(2):
            o = IObj(c)
            call(vm, o, "__setstate__", call(vm, cur, "__getstate__"))
            cur = o
        vm.prove("a copy keeps address and id", conj([same(vm, vm.getattr(cur, "address"), a), same(vm, vm.getattr(cur, "uid"), u)]))
        vm.prove("a copy finds the object registered", vm.call(vm.getattr(c, lookup), [cur], {}) is b)
        vm.prove("the other reference finds its own", vm.call(vm.getattr(c, lookup), [r2], {}) is b2)
        made = vm.call(c, [a2, u2], {})
        vm.prove("equal exactly if address and id are", as_z3(vm.eq(r, made)) == z3.And(a.t == a2.t, u.t == u2.t))
        vm.prove("a reference made from address and id is equal", as_z3(vm.eq(vm.call(c, [a, u], {}), r)))
        h = lambda x: num(vm, vm.call(vm.builtins["hash"], [x], {}))
        vm.prove("equal hashes", h(cur) == h(r))
        for other in (u, a, (a, u), None, vm.call(vm.lookup(K, "BufferRef" if kind != "BufferRef" else "FileObjectRef"), [a, u], {})):
            vm.prove("not equal to its parts, nor to another kind with them", z3.Not(as_z3(vm.eq(r, other))))
        vm.prove("not equal to another kind", z3.Not(as_z3(vm.eq(r, vm.call(vm.lookup(K, "ActorRef"), [a, u], {})))))

    return Case(kind, [f"{K}:{kind}.create", f"{K}:{kind}.{lookup}", f"{K}:{kind}.__eq__", f"{K}:{kind}.__hash__", f"{K}:{kind}.__getstate__", f"{K}:{kind}.__setstate__"],
                body, setup, covers=["created"], need=8)


# ------------------------------------------------------------ wildcard addresses
class Addr(Host):
    """the text  host ":" port  (port without colon; the host may have colons and a scheme)"""

    def __init__(self, host, port):
        self.host, self.port = host, port

    def key(self):
        return self.host, self.port

    def vm_eq(self, vm, b):
        if not isinstance(b, Addr):
            raise Unsupported("comparison of an address")
        return SBool(z3.And(vm.term(self.host) == vm.term(b.host), vm.term(self.port) == vm.term(b.port)))

    def m_split(self, vm, a, k):
        if list(a) == [":"] and not k:
            return Segs(self.host, self.port)
        raise Unsupported("split of an address")

    def m_rsplit(self, vm, a, k):
        if list(a) == [":", 1] or (list(a) == [":"] and k == {"maxsplit": 1}):
            return VList([self.host, self.port])
        raise Unsupported("rsplit of an address")

    def m_rpartition(self, vm, a, k):
        if list(a) == [":"]:
            return (self.host, ":", self.port)
        raise Unsupported("rpartition of an address")


class Segs(Host):
    """the parts between colons: those of the host, then the port"""

    def __init__(self, host, port):
        self.host, self.port = host, port

    def vm_getitem(self, vm, k):
        if k == -1 and self.port is not None:
            return self.port
        if isinstance(k, slice) and self.port is not None and k.start in (None, 0) and k.stop == -1 and k.step is None:
            return Segs(self.host, None)
        raise Unsupported("part of an address")

    def vm_in_str(self, vm, sep, name, a, k):
        if sep == ":" and name == "join" and self.port is None:
            return self.host
        raise Unsupported("join of an address")


def is_addr(vm, x, host, port):
    """x is the text host:port"""
    if isinstance(x, Addr):
        return z3.And(vm.term(x.host) == vm.term(host), vm.term(x.port) == vm.term(port))
    h = z3.Function("fstr3", U, U, U, U)
    return vm.term(x) == h(vm.term(host), vm.term(":"), vm.term(port))


def zero_ip(vm):
    z4, z6 = z3.Function("is_v4_zero", U, U, z3.BoolSort()), z3.Function("is_v6_zero", U, U, z3.BoolSort())
    p = lambda f: lambda vm, a, k: SBool(f(vm.term(a[0].host), vm.term(a[0].port)))
    vm.contracts[f"{T}:is_v4_zero_ip"] = p(z4)
    vm.contracts[f"{T}:is_v6_zero_ip"] = p(z6)
    zero = lambda a: z3.Or(z4(vm.term(a.host), vm.term(a.port)), z6(vm.term(a.host), vm.term(a.port)))
    vm.contracts[f"{T}:is_zero_ip"] = lambda vm, a, k: SBool(zero(a[0]))
    r, c = (Addr(text(vm, n + " host"), text(vm, n + " port")) for n in ("remote", "connect"))
    out = vm.call(vm.lookup(T, "fix_all_zero_ip"), [r, c], {})
    vm.cover("kept" if out is r else "replaced")
    vm.prove("an address that is no wildcard is left alone", z3.Implies(z3.Not(zero(r)), is_addr(vm, out, r.host, r.port)))
    vm.prove("a wildcard becomes the host the client connected to, with the port of the reply",
             z3.Implies(z3.And(zero(r), z3.Not(zero(c))), is_addr(vm, out, c.host, r.port)))
    vm.prove("nothing better is known if the client connected to a wildcard", z3.Implies(z3.And(zero(r), zero(c)), is_addr(vm, out, r.host, r.port)))


class Part(Host):
    """a part of an address between colons, by its index"""

    def __init__(self, i, empty, value):
        self.i, self.empty, self.value = i, empty, value

    def vm_eq(self, vm, b):
        if b == "":
            return SBool(self.empty(self.i))
        raise Unsupported("comparison of a part")

    def vm_truth(self, vm):
        return SBool(z3.Not(self.empty(self.i)))

    def vm_int(self, vm, a, k):
        if list(a) == [16] or k == {"base": 16}:
            vm.prove("only a part with digits is read as a number", z3.Not(self.empty(self.i)), soft=True)
            return SInt(self.value(self.i))
        raise Unsupported("number of a part")


def v6(vm):
    """an address is an IPv6 wildcard if it has more than two parts, and all but the port are empty or zero"""
    empty = z3.Function("part is empty", z3.IntSort(), z3.BoolSort())
    value = z3.Function("part as number", z3.IntSort(), z3.IntSort())
    n = vm.fresh_int("parts", 1).t
    seq = SSeq("parts", n, lambda i: Part(i, empty, value))

    class Rest(Host):
        def m_split(self, vm, a, k):
            if list(a) == [":"]:
                return seq
            raise Unsupported("split")

    class Text(Host):
        def m_split(self, vm, a, k):
            if list(a)[:1] == ["://"]:
                return VList([vm.opaque("scheme", "str"), Rest()] if vm.choose(2, "scheme") else [Rest()])
            raise Unsupported("split")

    i = z3.Int("i")
    zero = lambda m: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Or(empty(i), value(i) == 0)))
    vm.loops.append(LoopSpec("parts", lambda vm, st, fr, it: isinstance(it, SSeq), lambda vm, fr, it, k: vm.assume(zero(k)),
                             lambda vm, fr, it, k: [("all parts so far are zero", zero(k))]))
    got = vm.call(vm.lookup(T, "is_v6_zero_ip"), [Text()], {})
    want = z3.And(n > 2, zero(n - 1))
    vm.cover("yes" if got is True else "no")
    vm.prove("exactly the IPv6 wildcards", as_z3(got) == want)


def v4(vm):
    f = vm.lookup(T, "is_v4_zero_ip")
    yes = ["0.0.0.0:1", "ucx://0.0.0.0:65535", "tcp://0.0.0.0:0"]
    no = ["10.0.0.0:1", "0.0.0.01:1", "127.0.0.1:80", "ucx://10.0.0.0:1", ":::1", "host:1", "0.0.0.1:0", "tcp://h:1"]
    vm.cover("decided")
    vm.prove("wildcards", all(vm.call(f, [x], {}) is True for x in yes))
    vm.prove("others", all(vm.call(f, [x], {}) is False for x in no))


CASES = [
    Case("equality", [f"{K}:ActorRef.__eq__", f"{K}:ActorRef.__hash__", f"{K}:ActorRef.__init__", f"{K}:LocalActorRef.__init__"], equality, setup, covers=["compared"], need=20),
    Case("unlike", [f"{K}:ActorRef.__eq__"], unlike, setup, covers=["compared"], need=10),
    Case("pickling", [f"{K}:ActorRef.__reduce__", f"{K}:create_actor_ref"], pickling, setup, covers=["restored local", "restored remote"], need=10),
    Case("core.create_actor_ref", [f"{K}:create_actor_ref"], core_create, setup, covers=["created"], need=4),
    Case("local lookup", [f"{K}:_get_local_actor", f"{K}:register_local_pool"], find_local, setup, covers=["found", "not found"], need=6),
    Case("_utils.create_actor_ref", [f"{U_}:create_actor_ref", f"{U_}:to_str"], utils_create, setup, covers=["created"], need=30),
    Case("_utils.create_actor_ref refused", [f"{U_}:create_actor_ref"], utils_refused, setup, covers=["refused"], need=4),
    Case("conversions", [f"{U_}:to_str", f"{U_}:to_binary"], conversions, setup, covers=["converted"], need=6),
    registered("BufferRef", "create", "get_buffer"),
    registered("FileObjectRef", "create", "get_local_file_object"),
    Case("wildcard address", [f"{T}:fix_all_zero_ip"], zero_ip, covers=["kept", "replaced"], need=9),
    Case("IPv6 wildcard", [f"{T}:is_v6_zero_ip"], v6, covers=["yes", "no"], need=2),
    Case("IPv4 wildcard", [f"{T}:is_v4_zero_ip"], v4, covers=["decided"], need=2, bounded="eleven texts"),
    *asking.RESOLVED,
    *asking.HANDED["actor_ref"],
    *asking.HANDED["buffer_ref"],
    *asking.HANDED["file_object_ref"],
    *references.LOCAL,
]

ASSUMPTIONS = [
    "utf-8 encoding is a bijection between texts and their encodings",
    "equal tuples have equal hashes",
    "a weak reference or weak dictionary holds what is still alive (collection of the referent is C08's and the concrete layer's subject)",
    "an actor found under an id has that id (C08)",
    "pickle restores an object by its __reduce__ or __getstate__/__setstate__",
    "an address is host:port and the parts of an IPv6 host are empty or hexadecimal",
]
