"""The caller's side: cases that several properties depend on.

What the context of the backend asks of which pool, and what the general context and the
functions of the API hand on.  A request is seen through the contract of ``_call`` (C05,
C12), its outcome through those of ``_wait`` and ``_process_result_message`` (C09).
"""

import asyncio

from .base import *  # noqa: F401,F403

X = "xoscar.backends.context"
G = "xoscar.context"
A = "xoscar.api"
K = "xoscar.core"
MSG = "xoscar.backends.message"
R = "xoscar.backends.router"
AL = "xoscar.backends.allocate_strategy"
CTX = f"{X}:IndigenActorContext"
CLIENT = f"{G}:ClientActorContext"


def reference(vm, address, uid):
    return vm.call(vm.lookup(K, "ActorRef"), [address, uid], {})


class World:
    """requests that are sent, and their outcomes"""

    def __init__(self, vm, outcomes=()):
        self.sent, self.waited, self.ids = [], [], []
        self.outcomes = list(outcomes)
        self.failure = None

        def call_(vm, a, k):
            names = ("address", "message", "wait", "proxy_addresses")
            d = {"wait": True, "proxy_addresses": None, **dict(zip(names, a[1:])), **k}
            self.sent.append(d)
            d["future"] = vm.opaque("future of request")
            d["reply"] = vm.opaque("reply")
            return Awaitable(lambda vm: d["reply"] if vm.truth(d["wait"]) else d["future"], "call")

        def wait(vm, a, k):
            names = ("future", "address", "message")
            d = dict(zip(names, a[1:]), **k)

            def run(vm):
                for s in self.sent:
                    if s["future"] is d["future"]:
                        vm.prove("its own request is waited for", d["message"] is s["message"] and same(vm, d["address"], s["address"]))
                        self.waited.append(s)
                        return s["reply"]
                vm.prove("a request that was sent is waited for", False)

            return Awaitable(run, "wait")

        def outcome(vm, a, k):
            for i, s in enumerate(self.sent):
                if s["reply"] is a[-1]:
                    s["looked"] = True
                    o = self.outcomes[i]
                    if isinstance(o, SExc):
                        raise PyExc(o)
                    return o
            vm.prove("the outcome of a request", False)

        vm.contracts[f"{CTX}._call"] = call_
        vm.contracts[f"{CTX}._wait"] = wait
        vm.contracts[f"{CTX}._process_result_message"] = outcome

        def new_id(vm, a, k):
            self.ids.append(vm.opaque("message id", "bytes"))
            return self.ids[-1]

        vm.overrides.setdefault(X, {})["new_message_id"] = Stub(new_id, "new_message_id")

    def message(self, vm, i, cls, address, proxies=None, /, **fields):
        """request i: of this kind, to this pool, with these fields and an id of its own"""
        if len(self.sent) <= i:
            vm.prove(f"request {i + 1} is sent", False)
            return None
        s = self.sent[i]
        m = s["message"]
        vm.prove(f"{cls} to the pool of its address", same(vm, s["address"], address))
        vm.prove("through the proxies", same(vm, s["proxy_addresses"], proxies))
        ok = isinstance(m, IObj) and m.cls is vm.lookup(MSG, cls)
        vm.prove(f"a {cls}", ok)
        if ok:
            vm.prove("with an id of its own", any(vm.getattr(m, "message_id") is x for x in self.ids) and all(vm.getattr(m, "message_id") is not vm.getattr(o["message"], "message_id") for o in self.sent if o is not s))
            for f, v in fields.items():
                got = vm.getattr(m, f)
                vm.prove(f"its {f}", v(got) if callable(v) and not isinstance(v, (SVal, IObj, IClass, Host)) else same(vm, got, v))
            vm.prove("its outcome is looked at", bool(s.get("looked")))
            vm.prove("it is waited for", vm.truth(s["wait"]) or s in self.waited)
        return m


def outcome(vm, what):
    """a value or an error"""
    if vm.choose(2, f"{what} fails") == 1:
        return SExc(f"error of {what}", BaseException)
    return vm.opaque(f"outcome of {what}")


def is_outcome(vm, r, e, o):
    if isinstance(o, SExc):
        vm.prove("the error of the request", e is o)
    else:
        vm.prove("no error", e is None, f"{e!r}")
        vm.prove("the outcome of the request", r is o)


def a_ref(vm):
    address, uid, proxies = vm.opaque("address", "str"), vm.opaque("uid", "bytes"), vm.opaque("proxies", "list")
    ref = reference(vm, address, uid)
    ref.attrs["proxy_addresses"] = proxies
    return ref, address, uid, proxies


def create(vm):
    """create_actor: one message to the address that was asked for"""
    o = outcome(vm, "creation")
    w = World(vm, [o])
    how = vm.choose(3, "address given, that of the context, that of the router")
    given, own, router_ = (vm.opaque(x, "str", truth=True) for x in ("given", "own", "of the router"))
    strategy = vm.choose(3, "no strategy, a strategy, something else")
    cls, uid = vm.opaque("class"), vm.opaque("uid", "bytes")

    class RouterHost(Host):
        def p_external_address(self, vm):
            return router_

    vm.contracts[f"{R}:Router.get_instance_or_empty"] = lambda vm, a, k: RouterHost()
    p = new(vm, X, "IndigenActorContext", _address=None if how == 2 else own)
    x, y = vm.opaque("argument"), vm.opaque("named argument")
    kw = {"other": y}
    alloc = None
    if strategy == 1:
        alloc = kw["allocate_strategy"] = vm.call(vm.lookup(AL, "MainPool"), [], {})
    elif strategy == 2:
        kw["allocate_strategy"] = vm.opaque("own argument", isinst=lambda vm, c: False)
    if how == 0:
        kw["address"] = given
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(p, "create_actor"), [cls, x], {**kw, "uid": uid})))
    address = (given, own, router_)[how]
    is_outcome(vm, r, e, o)
    vm.cover("created")

    def strategy_ok(s):
        if strategy == 1:
            return s is alloc
        return isinstance(s, IObj) and s.cls is vm.lookup(AL, "AddressSpecified") and s.attrs.get("address") is address

    def kw_ok(d):
        d = dict(d.items) if isinstance(d, VDict) else d
        want = {k: v for k, v in kw.items() if k != "address" and not (strategy == 1 and k == "allocate_strategy")}
        return isinstance(d, dict) and d.keys() == want.keys() and all(d[k] is want[k] for k in want)

    def args_ok(t):
        t = vm.concrete_list(t) if not isinstance(t, tuple) else t
        return len(t) == 1 and t[0] is x

    w.message(vm, 0, "CreateActorMessage", address, None, actor_cls=cls, actor_id=uid, args=args_ok, kwargs=kw_ok, allocate_strategy=strategy_ok)
    vm.prove("one message", len(w.sent) == 1)


def ask(vm):
    """has_actor, destroy_actor: one message about this reference"""
    which = vm.choose(2, "has or destroy")
    o = outcome(vm, "request")
    w = World(vm, [o])
    ref, address, uid, proxies = a_ref(vm)
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, ("has_actor", "destroy_actor")[which], ref))
    vm.cover(("asked", "destroyed")[which])
    is_outcome(vm, r, e, o)
    w.message(vm, 0, ("HasActorMessage", "DestroyActorMessage")[which], address, proxies, actor_ref=ref)
    vm.prove("one message", len(w.sent) == 1)


def control(vm, m_type):
    return lambda got: got is vm.getattr(vm.lookup(MSG, "ControlMessageType"), m_type) or same(vm, got, vm.getattr(vm.lookup(MSG, "ControlMessageType"), m_type))


def kill(vm):
    """kill_actor: the sub pool where the actor really is is stopped by its main pool"""
    fails = vm.choose(4, "which step fails")
    main, real = vm.opaque("main address", "str"), vm.opaque("real address", "str")
    on_main = vm.branch(main.t == real.t)
    err = [SExc(f"error {i}", BaseException) for i in range(3)]
    o = [err[0] if fails == 1 else main, err[2] if fails == 3 else vm.opaque("stopped")]
    w = World(vm, o)
    ref, address, uid, proxies = a_ref(vm)
    there = reference(vm, real, uid)
    resolved = []

    def resolve(vm, a, k):
        def run(vm):
            resolved.append(a[1])
            if fails == 2:
                raise PyExc(err[1])
            return there

        return Awaitable(run, "actor_ref")

    vm.contracts[f"{CTX}.actor_ref"] = resolve
    p = new(vm, X, "IndigenActorContext")
    force = vm.opaque("force", "bool")
    default = vm.choose(2, "force left out") == 1
    r, e = attempt(vm, lambda: acall(vm, p, "kill_actor", ref, *([] if default else [force])))
    w.message(vm, 0, "ControlMessage", address, proxies, address=address, control_message_type=control(vm, "get_config"), content="main_pool_address")
    if fails == 1:
        vm.cover("failed")
        vm.prove("the error, and nothing is stopped", e is err[0] and len(w.sent) == 1)
        return
    vm.prove("the reference is looked up", resolved == [ref])
    if fails == 2:
        vm.prove("the error, and nothing is stopped", e is err[1] and len(w.sent) == 1)
    elif on_main:
        vm.cover("refused")
        vm.prove("actors of the main pool are not killed", exc_is(vm, e, ValueError) and len(w.sent) == 1)
    else:
        vm.cover("killed")
        is_outcome(vm, r, e, o[1])

        def content(c):
            return isinstance(c, tuple) and len(c) == 2 and (c[1] is True if default else c[1] is force)

        w.message(vm, 1, "ControlMessage", main, proxies, address=real, control_message_type=control(vm, "stop"), content=content)
        vm.prove("two messages", len(w.sent) == 2)


def resolve(vm):
    """actor_ref: the local actor, or what the pool says, at an address that can be reached"""
    local = vm.choose(2, "local actor") == 1
    ref, address, uid, proxies = a_ref(vm)
    told = vm.opaque("address told", "str")
    same_address = vm.branch(told.t == address.t)
    got = reference(vm, told, vm.opaque("uid told", "bytes"))
    o = SExc("error", BaseException) if vm.choose(2, "fails") else got
    w = World(vm, [o])
    lref, fixed = vm.opaque("local reference"), vm.opaque("address that can be reached", "str")
    vm.assume(lref.t != vm.term(None))
    asked, fixes = [], []

    def make(vm, a, k):
        asked.append((a, k))
        return ref

    vm.overrides[X].update(
        create_actor_ref=Stub(make, "create_actor_ref"),
        create_local_actor_ref=Stub(lambda vm, a, k: (vm.prove("the local actor at this address with this id", same(vm, a[0], address) is not False and a[1] is uid), lref if local else None)[1], "create_local_actor_ref"),
        fix_all_zero_ip=Stub(lambda vm, a, k: (fixes.append(tuple(a)), fixed)[1], "fix_all_zero_ip"),
    )
    p = new(vm, X, "IndigenActorContext")
    x, y = vm.opaque("argument"), vm.opaque("named")
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(p, "actor_ref"), [x], {"uid": y})))
    vm.prove("the reference that is asked for", asked == [([x], {"uid": y})] or (len(asked) == 1 and list(asked[0][0]) == [x] and asked[0][1] == {"uid": y}))
    if local:
        vm.cover("local")
        vm.prove("the local reference, without any message", r is lref and e is None and not w.sent)
        return
    is_outcome(vm, r, e, o)
    w.message(vm, 0, "ActorRefMessage", address, proxies, actor_ref=ref)
    vm.prove("one message", len(w.sent) == 1)
    if e is not None:
        return
    vm.cover("asked")
    now = vm.getattr(got, "address")
    # fix_all_zero_ip gives the same address for equal addresses (C19, wildcard address)
    if same_address:
        vm.prove("the address told", now is told or (now is fixed and fixes == [(told, address)]))
    else:
        vm.cover("another address")
        vm.prove("an address that can be reached", now is fixed and fixes == [(told, address)])


def recovered(vm):
    """wait_actor_pool_recovered: the main pool is asked to wait for this pool"""
    known = vm.choose(2, "main address given") == 1
    address, main = vm.opaque("address", "str"), vm.opaque("main address", "str")
    is_main = vm.branch(address.t == main.t)
    fail = vm.choose(2, "waiting fails") == 1
    last = SExc("error", BaseException) if fail else vm.opaque("recovered")
    first_fails = not known and vm.choose(2, "asking fails") == 1
    err = SExc("cannot be asked", BaseException)
    o = [last] if known else [err if first_fails else main, last]
    w = World(vm, o)
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, "wait_actor_pool_recovered", address, *([main] if known else [])))
    n = 0
    if not known:
        w.message(vm, 0, "ControlMessage", address, None, address=address, control_message_type=control(vm, "get_config"), content="main_pool_address")
        n = 1
        if first_fails:
            vm.prove("the error", e is err and len(w.sent) == 1)
            return
    if is_main:
        vm.cover("main pool")
        vm.prove("the main pool is never recovered", e is None and len(w.sent) == n)
        return
    vm.cover("waited")
    w.message(vm, n, "ControlMessage", main, None, address=address, control_message_type=control(vm, "wait_pool_recovered"))
    vm.prove("no other message", len(w.sent) == n + 1)
    vm.prove("an error is raised", e is last if fail else e is None)


def pool_config(vm):
    o = outcome(vm, "request")
    w = World(vm, [o])
    address = vm.opaque("address", "str")
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, "get_pool_config", address))
    vm.cover("asked")
    is_outcome(vm, r, e, o)
    w.message(vm, 0, "ControlMessage", address, None, address=address, control_message_type=control(vm, "get_config"), content=None)
    vm.prove("one message", len(w.sent) == 1)


def calls(vm):
    """_call and _call_with_client: the caller of this thread with the router of this process"""
    router, future, error = vm.opaque("router"), vm.opaque("future"), SExc("error", BaseException)
    fails = vm.choose(2, "fails") == 1
    vm.contracts[f"{R}:Router.get_instance_or_empty"] = lambda vm, a, k: router
    got = []

    def answer(name):
        def f(vm, a, k):
            def run(vm):
                got.append((name, list(a), dict(k)))
                if fails:
                    raise PyExc(error)
                return future

            return Awaitable(run, name)

        return f

    class Caller(Host):
        def m_call(self, vm, a, k):
            a = dict(zip(("router", "address", "message", "wait", "proxy_addresses"), a))
            return answer("call")(vm, [], {"wait": True, "proxy_addresses": None, **a, **k})

        def m_call_with_client(self, vm, a, k):
            a = dict(zip(("client", "message", "wait"), a))
            return answer("call_with_client")(vm, [], {"wait": True, **a, **k})

        def m_call_send_buffers(self, vm, a, k):
            a = dict(zip(("client", "local_buffers", "meta_message", "wait"), a))
            return answer("call_send_buffers")(vm, [], {"wait": True, **a, **k})

    p = new(vm, X, "IndigenActorContext", _caller=Caller())
    which = vm.choose(3, "kind of call")
    m, proxies = vm.opaque("message"), vm.opaque("proxies")
    wait = [None, True, False][vm.choose(3, "wait")]
    kw = {} if wait is None else {"wait": wait}
    if which == 0:
        address = vm.opaque("address", "str")
        with_proxies = vm.choose(2, "proxies") == 1
        if with_proxies:
            kw["proxy_addresses"] = proxies
        r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(p, "_call"), [address, m], kw)))
        want = ("call", dict(router=router, address=address, message=m, wait=wait is not False, proxy_addresses=proxies if with_proxies else None))
    elif which == 1:
        client = vm.opaque("client")
        r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(p, "_call_with_client"), [client, m], kw)))
        want = ("call_with_client", dict(client=client, message=m, wait=wait is not False))
    else:
        client, bufs = vm.opaque("client"), vm.opaque("buffers")
        r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(p, "_call_send_buffers"), [client, bufs, m], kw)))
        want = ("call_send_buffers", dict(client=client, local_buffers=bufs, meta_message=m, wait=wait is not False))
    vm.cover("called")
    vm.prove("one call, as it was asked for", len(got) == 1 and got[0][0] == want[0] and got[0][2].keys() == want[1].keys() and all(got[0][2][k] is want[1][k] for k in want[1]))
    vm.prove("its future", r is future and e is None if not fails else e is error)


# ---------------------------------------------------------------- copies


def copy_client(vm):
    """_get_client: inside pools, never through proxies, the fastest client there is"""
    inside = vm.choose(2, "inside a pool") == 1
    proxy = inside and vm.choose(2, "reached by a proxy") == 1
    kind = vm.choose(3, "dummy, sends buffers, other")
    n = vm.choose(3, "further types") if kind == 2 else 0
    able = [vm.choose(2, f"type {i} sends buffers") == 1 for i in range(n)]
    vm.note_bounded("up to two client types at an address")
    address = vm.opaque("address", "str")
    is_dummy = kind == 0
    client = vm.opaque("client", isinst=lambda vm, c: is_dummy if getattr(c, "name", getattr(c, "__name__", "")) == "DummyClient" else False, hasattr=lambda vm, name: kind == 1 if name == "send_buffers" else False)
    types = [vm.opaque(f"type {i}", hasattr=lambda vm, name, i=i: able[i] if name == "send_buffers" else False) for i in range(n)]
    other = vm.opaque("client of another type")
    asked = []

    class RouterHost(Host):
        def m_get_proxy(self, vm, a, k):
            vm.prove("the proxy of this address", same(vm, a[0], address))
            return vm.opaque("proxy", truth=True) if proxy else None

        def m_get_all_client_types(self, vm, a, k):
            vm.prove("the types at this address", same(vm, a[0], address))
            return VList(list(types))

    router = RouterHost()

    class Caller(Host):
        def m_get_client(self, vm, a, k):
            vm.prove("a client to this address", a[0] is router and same(vm, a[1], address))
            return Awaitable(lambda vm: client, "get_client")

        def m_get_client_via_type(self, vm, a, k):
            vm.prove("a client to this address", a[0] is router and same(vm, a[1], address))
            asked.append(a[2])
            return Awaitable(lambda vm: other, "get_client_via_type")

    vm.contracts[f"{R}:Router.get_instance"] = lambda vm, a, k: router if inside else None
    p = new(vm, X, "IndigenActorContext", _caller=Caller())
    r, e = attempt(vm, lambda: acall(vm, p, "_get_client", address))
    if not inside:
        vm.cover("outside")
        vm.prove("refused outside of pools", exc_is(vm, e, AssertionError))
    elif proxy:
        vm.cover("proxy")
        vm.prove("refused with proxies", exc_is(vm, e, RuntimeError))
    else:
        vm.prove("no error", e is None, f"{e!r}")
        if kind == 2 and any(able):
            vm.cover("another type")
            vm.prove("the first type that sends buffers", r is other and asked == [types[able.index(True)]])
        else:
            vm.cover("the client")
            vm.prove("the client", r is client and not asked)


# ---------------------------------------------------------------- the general context


class Address(Host):
    """text of an address, with or without a scheme"""

    def __init__(self, scheme):
        self.scheme = scheme

    def vm_in_str(self, vm, x):
        vm.prove("the mark of schemes", x == "://")
        return self.scheme is not None

    vm_contains = vm_in_str

    def vm_isinst(self, vm, c):
        return c is str

    def vm_truth(self, vm):
        return True

    def vm_eq(self, vm, b):
        return self is b


def backend_of(vm):
    how = vm.choose(4, "no address, no scheme, empty scheme, a scheme")
    known = vm.choose(2, "context known") == 1
    registered = vm.choose(2, "scheme registered") == 1 or known
    text = vm.opaque("scheme", "str", truth=True)
    address = None if how == 0 else Address([None, None, "", text][how])
    want = text if how == 3 else None
    ctx, made, stored = vm.opaque("context known"), [], {}
    fresh = vm.opaque("context made")

    class Url(Host):
        p_scheme = lambda self, vm: address.scheme

    def parse(vm, a, k):
        vm.prove("this address", a[0] is address)
        return Url()

    vm.stubs["urllib.parse.urlparse"] = Stub(parse, "urlparse")

    def key(k):
        vm.prove("the scheme of the address", k is want)

    class Contexts(Host):
        def has(self):
            return known or bool(stored)

        def vm_contains(self, vm, k):
            key(k)
            return self.has()

        def vm_getitem(self, vm, k):
            key(k)
            if not self.has():
                raise PyExc(KeyError("scheme"))
            return ctx if known else stored["x"]

        def m_get(self, vm, a, k):
            key(a[0])
            return self.vm_getitem(vm, a[0]) if self.has() else (a[1] if len(a) > 1 else None)

        def vm_setitem(self, vm, k, v):
            key(k)
            vm.prove("a known context stays", not known)
            stored["x"] = v

        def m_setdefault(self, vm, a, k):
            if not self.has():
                self.vm_setitem(vm, a[0], a[1])
            return self.vm_getitem(vm, a[0])

    class Classes(Host):
        def vm_getitem(self, vm, k):
            key(k)
            if not registered:
                raise PyExc(KeyError("unknown scheme"))

            class Cls(Host):
                def vm_call(self, vm, a, kw):
                    made.append((list(a), kw))
                    return fresh

            return Cls()

        def m_get(self, vm, a, k):
            return self.vm_getitem(vm, a[0]) if registered else (a[1] if len(a) > 1 else None)

        def vm_contains(self, vm, k):
            key(k)
            return registered

    vm.overrides.setdefault(G, {})["_backend_context_cls"] = Classes()
    p = new(vm, G, "ClientActorContext", _backend_contexts=Contexts())
    r, e = attempt(vm, lambda: call(vm, p, "_get_backend_context", address))
    if how == 0:
        vm.cover("no address")
        vm.prove("an address is needed", exc_is(vm, e, ValueError) and not made)
    elif not registered:
        vm.cover("unknown scheme")
        vm.prove("schemes without backend are refused", e is not None and not stored)
    elif known:
        vm.cover("known")
        vm.prove("the context of this scheme", r is ctx and e is None and not made)
    else:
        vm.cover("made")
        vm.prove("a context of the backend, made for this address and kept", r is fresh and e is None and stored.get("x") is fresh and len(made) == 1 and (made[0][0] + list(made[0][1].values())) == [address])


REQUESTS = ["create_actor", "has_actor", "destroy_actor", "kill_actor", "send", "wait_actor_pool_recovered", "get_pool_config", "buffer_ref", "file_object_ref", "actor_ref"]
# the parameters of the request at the contexts of backends
PARAMETERS = dict(
    has_actor=("actor_ref",), destroy_actor=("actor_ref",), kill_actor=("actor_ref",), send=("actor_ref", "message", "wait_response", "profiling_context"),
    wait_actor_pool_recovered=("address", "main_address"), get_pool_config=("address",), buffer_ref=("address", "buf"), file_object_ref=("address", "file_object"),
)
DEFAULTS = dict(send={"wait_response": True, "profiling_context": None}, wait_actor_pool_recovered={"main_address": None})


class Handed(Host):
    """a context that records what it is asked for"""

    def __init__(self, error=None):
        self.got, self.error, self.out = [], error, None

    def vm_getattr(self, vm, name):
        if name not in REQUESTS + ["copy_to", "copy_to_buffers", "copy_to_fileobjs"]:
            raise Unsupported(f"{name} of a context")
        h = self

        class Method(Host):
            def vm_call(self, vm, a, k):
                names = PARAMETERS.get(name)
                d = (list(a), dict(k)) if names is None else {**DEFAULTS.get(name, {}), **dict(zip(names, a)), **k}
                h.got.append((name, d))
                if name in ("buffer_ref", "file_object_ref"):
                    if h.error is not None:
                        raise PyExc(h.error)
                    return h.out

                def run(vm):
                    h.got.append("awaited")
                    if h.error is not None:
                        raise PyExc(h.error)
                    return h.out

                return Awaitable(run, name)

        return Method()


def general(vm, which, through):
    """a request: to the context of its address, with everything it was asked for"""
    error = SExc("error", BaseException) if vm.choose(2, "fails") else None
    h = Handed(error)
    h.out = vm.opaque("outcome")
    ref, address, uid, proxies = a_ref(vm)
    asked = []
    if through == "context":
        vm.contracts[f"{CLIENT}._get_backend_context"] = lambda vm, a, k: (asked.append(a[-1]), h)[1]
        p = new(vm, G, "ClientActorContext")
        f = vm.getattr(p, which)
    else:
        vm.overrides.setdefault(A, {})["get_context"] = Stub(lambda vm, a, k: h, "get_context")
        f = vm.lookup(A, which)
    new_id = vm.opaque("new id", "bytes")
    vm.overrides.setdefault(G, {})["new_actor_id"] = Stub(lambda vm, a, k: new_id, "new_actor_id")
    x, y = vm.opaque("argument"), vm.opaque("named argument")
    if which == "create_actor":
        cls = vm.opaque("class")
        has_uid = vm.choose(2, "id given") == 1
        u = vm.opaque("uid", truth=True)
        a, k = [cls, x], dict(address=address, n=y, **({"uid": u} if has_uid else {}))
        want_uid = u if has_uid else (new_id if through == "context" else None)
        want = ([cls, x], {"address": address, "n": y, "uid": want_uid})
    elif which == "actor_ref":
        a, k = [x], {"uid": y}
        if through == "context":
            made = []
            f_ = Stub(lambda vm, a, k: (made.append((list(a), dict(k))), ref)[1], "create_actor_ref")
            vm.contracts["xoscar._utils:create_actor_ref"] = f_.fn if hasattr(f_, "fn") else (lambda vm, a, k: (made.append((list(a), dict(k))), ref)[1])
            want = ([ref], {})
        else:
            want = ([x], {"uid": y})
    elif which == "send":
        m, w, prof = vm.opaque("message"), vm.opaque("wait", "bool"), vm.opaque("profiling")
        n = vm.choose(3, "arguments given")
        a, k = [ref, m], [{}, {"wait_response": w}, {"wait_response": w, "profiling_context": prof}][n]
        want = {"actor_ref": ref, "message": m, "wait_response": w if n else True, "profiling_context": prof if n == 2 else None}
    elif which == "wait_actor_pool_recovered":
        n = vm.choose(2, "main address given")
        a, k = [address] + [x] * n, {}
        want = {"address": address, "main_address": x if n else None}
    elif which == "get_pool_config":
        a, k, want = [address], {}, {"address": address}
    elif which in ("buffer_ref", "file_object_ref"):
        a, k, want = [address, x], {}, dict(zip(PARAMETERS[which], (address, x)))
    else:
        a, k, want = [ref], {}, {"actor_ref": ref}

    sync = which in ("buffer_ref", "file_object_ref")
    r, e = attempt(vm, lambda: vm.call(f, a, k) if sync else vm.await_(vm.call(f, a, k)))
    vm.cover(which)
    calls = [g for g in h.got if g != "awaited"]

    def equal(g, w):
        if isinstance(w, tuple):
            return len(g[0]) == len(w[0]) and all(p is q for p, q in zip(g[0], w[0])) and equal(g[1], w[1])
        return isinstance(g, dict) and g.keys() == w.keys() and all(g[i] is w[i] or (isinstance(w[i], bool) and g[i] == w[i]) for i in w)

    vm.prove("one request, with everything it was asked for", len(calls) == 1 and calls[0][0] == which and equal(calls[0][1], want))
    if through == "context":
        vm.prove("to the context of its address", bool(asked) and all(x is address for x in asked))
        if which == "actor_ref":
            vm.prove("the reference that is asked for", made == [([x], {"uid": y})])
    if not sync:
        vm.prove("that is awaited once", h.got.count("awaited") == 1)
    vm.prove("its outcome", e is error if error is not None else (e is None and r is h.out))


def handed_on(which, through):
    def body(vm):
        general(vm, which, through)

    return body


def copy_api(vm):
    h = Handed(SExc("error", BaseException) if vm.choose(2, "fails") else None)
    h.out = vm.opaque("outcome")
    vm.overrides.setdefault(A, {})["get_context"] = Stub(lambda vm, a, k: h, "get_context")
    x, y, b = vm.opaque("local"), vm.opaque("remote"), vm.opaque("block size")
    given = vm.choose(2, "block size given") == 1
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.lookup(A, "copy_to"), [x, y] + [b] * given, {})))
    vm.cover("copied")
    g = [q for q in h.got if q != "awaited"]
    vals = g[0][1][0] + list(g[0][1][1].values()) if g else []
    vm.prove("one copy, as it was asked for", len(g) == 1 and len(vals) in (2, 3) and vals[0] is x and vals[1] is y and (vals[2:] in ([], [None]) if not given else len(vals) == 3 and vals[2] is b))
    vm.prove("its outcome", e is h.error if h.error is not None else (e is None and r is h.out))


def copy_choice(vm):
    """copy_to: what is refused, and which kind of copy it is"""
    n, m = vm.choose(4, "local"), vm.choose(4, "remote")
    vm.note_bounded("up to three buffers")
    buffers = vm.choose(2, "buffers") == 1
    refs = [vm.call(vm.lookup(K, "BufferRef" if buffers else "FileObjectRef"), [vm.opaque(f"address {i}", "str"), vm.opaque(f"uid {i}", "bytes")], {}) for i in range(m)]
    local = VList([vm.opaque(f"local {i}") for i in range(n)])
    size = [None, vm.fresh_int("block size")][vm.choose(2, "block size given")]
    h = Handed(SExc("error", BaseException) if vm.choose(2, "fails") else None)
    h.out = vm.opaque("outcome")
    asked = []
    vm.contracts[f"{CLIENT}._get_backend_context"] = lambda vm, a, k: (asked.append(a[-1]), h)[1]
    p = new(vm, G, "ClientActorContext")
    rl = VList(list(refs))
    r, e = attempt(vm, lambda: vm.await_(call(vm, p, "copy_to", local, rl, *([] if size is None else [size]))))
    ad = [vm.term(vm.getattr(x, "address")) for x in refs]
    one = all(vm.branch(t == ad[0]) for t in ad[1:])
    bad = n == 0 or m == 0 or n != m or not one or (size is not None and vm.branch(size.t <= 0))
    if bad:
        vm.cover("refused")
        vm.prove("refused, and nothing is copied", e is not None and e is not h.error and not h.got)
        return
    vm.cover("buffers" if buffers else "files")
    g = [q for q in h.got if q != "awaited"]
    vals = g[0][1][0] + list(g[0][1][1].values()) if g else []
    vm.prove("one copy of this kind", len(g) == 1 and g[0][0] == ("copy_to_buffers" if buffers else "copy_to_fileobjs"))
    vm.prove("of these, in their order, in these blocks", len(vals) in (2, 3) and vals[0] is local and vals[1] is rl and (vals[2:] in ([], [None]) if size is None else len(vals) == 3 and vals[2] is size)
             and [x is y for x, y in zip(rl.items, refs)] == [True] * m)
    vm.prove("by the context of the destination", z3.And(*[vm.term(x) == ad[0] for x in asked]) if asked else False)
    vm.prove("its outcome", e is h.error if h.error is not None else (e is None and r is h.out))


CREATION = [
    Case("creation is asked for", [f"{CTX}.create_actor"], create, covers=["created"], need=60, seconds=100),
]
ASKED = [
    Case("actors are asked for", [f"{CTX}.has_actor", f"{CTX}.destroy_actor"], ask, covers=["asked", "destroyed"], need=20),
]
KILLED = [
    Case("actors are killed", [f"{CTX}.kill_actor"], kill, covers=["killed", "refused", "failed"], need=30),
]
RESOLVED = [
    Case("references are resolved", [f"{CTX}.actor_ref"], resolve, covers=["local", "asked", "another address"], need=20),
]
RECOVERED = [
    Case("recovery is waited for", [f"{CTX}.wait_actor_pool_recovered"], recovered, covers=["main pool", "waited"], need=20),
]
CONFIGURATION = [
    Case("configuration is asked for", [f"{CTX}.get_pool_config"], pool_config, covers=["asked"], need=8),
]
CALLED = [
    Case("requests of the context", [f"{CTX}._call", f"{CTX}._call_with_client", f"{CTX}._call_send_buffers"], calls, covers=["called"], need=30),
]
COPIES = [
    Case("client of copies", [f"{CTX}._get_client", f"{CTX}._get_copy_to_client"], copy_client, covers=["outside", "proxy", "another type", "the client"], need=10),
]
BACKENDS = [
    Case("backend of an address", [f"{CLIENT}._get_backend_context"], backend_of, covers=["no address", "unknown scheme", "known", "made"], need=12),
]
HANDED = {
    w: [Case(f"general context, {w}", [f"{CLIENT}.{w}"], handed_on(w, "context"), covers=[w], need=6)] + ([Case(f"API, {w}", [f"{A}:{w}"], handed_on(w, "API"), covers=[w], need=4)] if w != "send" else [])
    for w in REQUESTS
}
COPYING = [
    Case("copies that are asked for", [f"{CLIENT}.copy_to"], copy_choice, covers=["refused", "buffers", "files"], need=20, bounded="up to three buffers"),
    Case("API, copy_to", [f"{A}:copy_to"], copy_api, covers=["copied"], need=6),
]
CASES = BACKENDS + COPYING + [c for cs in HANDED.values() for c in cs] + CREATION + ASKED + KILLED + RESOLVED + RECOVERED + CONFIGURATION + CALLED + COPIES
ASSUMPTIONS = []
