"""C08: the pool knows exactly the actors that exist.

A pool has any number of actors; the main pool has any number of addresses with any number
of actors at each.  HAS(a, u): an actor with the id u is allocated at the address a.
"""

from .base import *  # noqa: F401,F403
from . import refs as references
from . import context as asking
from . import pools
from . import c10

P = "xoscar.backends.pool"
I = "xoscar.backends.indigen.pool"
MSG = "xoscar.backends.message"
K = "xoscar.core"
HAS = z3.Function("allocated", U, U, z3.BoolSort())


def setup(vm):
    vm.stubs["weakref.ref"] = Stub(lambda vm, a, k: vm.opaque("weak"), "ref")
    vm.stubs["weakref.WeakValueDictionary"] = Stub(lambda vm, a, k: VDict(), "WeakValueDictionary")
    vm.stubs["os.getpid"] = Stub(lambda vm, a, k: vm.fresh_int("pid", 1), "getpid")
    # contract of create_actor_ref (C19): a reference with this address and id
    f = lambda vm, a, k: vm.call(vm.lookup(K, "ActorRef"), list(a), k)
    vm.contracts[f"{K}:create_actor_ref"] = f
    vm.contracts["xoscar._utils:create_actor_ref"] = f
    # contract of new_message_id: not used before
    ids = lambda vm, a, k: vm.opaque("new id", "bytes")
    for m in ("xoscar._utils", "xoscar.utils", MSG):
        vm.contracts[f"{m}:new_message_id"] = ids


class Actor(Host):
    """an actor whose hooks succeed or fail"""

    def __init__(self, vm, fails):
        self.fails, self.attrs = fails, {}
        self.log = []

    def vm_setattr(self, vm, name, v):
        self.attrs[name] = v

    def hook(self, vm, name):
        def run(vm):
            self.log.append(name)
            if self.fails:
                raise PyExc(SExc("error of the hook", BaseException))

        return Awaitable(run, name)

    def m___post_create__(self, vm, a, k):
        return self.hook(vm, "post create")

    def m___pre_destroy__(self, vm, a, k):
        return self.hook(vm, "pre destroy")


class Actors(Map):
    """id -> actor of a pool"""

    def __init__(self, vm, actor=None):
        super().__init__(vm, "actors")
        self.actor = actor
        self.wrap = lambda t: self.objs.get(t.get_id(), self.actor or SVal(t, "actor"))
        self.objs = {}


def run_coro(vm):
    """contract of _run_coro: the outcome of the coroutine (C09)"""
    vm.contracts[f"{P}:AbstractActorPool._run_coro"] = lambda vm, a, k: a[2]


class Proxies(Host):
    def __init__(self, vm):
        self.value = vm.opaque("proxies", "list")

    def m_get_proxies(self, vm, a, k):
        return self.value


def pool(vm, cls, mod=P, **more):
    own = vm.opaque("own address", "str")
    return new(vm, mod, cls, external_address=own, _router=Proxies(vm), **more), own


def message(vm, kind, *fields, **kw):
    return vm.call(vm.lookup(MSG, kind), [vm.opaque("message id", "bytes")] + list(fields), {"protocol": 0, **kw})


def is_msg(vm, r, kind):
    return isinstance(r, IObj) and r.cls is vm.lookup(MSG, kind)


def failed_with(vm, r, name, msg):
    """an error reply to the request, with an error of this class"""
    if not is_msg(vm, r, "ErrorMessage"):
        return False
    e = vm.getattr(r, "error")
    cls = vm.lookup("xoscar.errors", name)
    return conj([vm.isinst(e, cls), same(vm, vm.getattr(r, "message_id"), vm.getattr(msg, "message_id"))])


def answered(vm, r, msg):
    return conj([is_msg(vm, r, "ResultMessage"), same(vm, vm.getattr(r, "message_id"), vm.getattr(msg, "message_id"))])


def is_ref(vm, r, address, uid):
    if not (isinstance(r, IObj) and r.cls.name in ("ActorRef", "LocalActorRef")):
        return z3.BoolVal(False)
    return z3.And(vm.term(vm.getattr(r, "address")) == vm.term(address), vm.term(vm.getattr(r, "uid")) == vm.term(uid))


def reference(vm, address, uid):
    return vm.call(vm.lookup(K, "ActorRef"), [address, uid], {})


# ---------------------------------------------------------------- a pool and its own actors


def create(vm):
    how = vm.choose(3, "created, constructor fails, hook fails")
    actor = Actor(vm, how == 2)
    actors = Actors(vm)
    p, own = pool(vm, "ActorPoolBase", _actors=actors)
    run_coro(vm)
    uid = vm.opaque("uid", "bytes")
    made = []

    class Cls(Host):
        def vm_call(self, vm, a, k):
            made.append((a, k))
            if how == 1:
                raise PyExc(SExc("error of the constructor", BaseException))
            return actor

    args, kwargs = (vm.opaque("arg"),), VDict([["name", vm.opaque("kwarg")]])
    msg = message(vm, "CreateActorMessage", Cls(), uid, args, kwargs, vm.opaque("strategy"))
    before = actors.graph()
    r, e = attempt(vm, lambda: acall(vm, p, "create_actor", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    after = actors.graph()
    vm.prove("other actors stay", same_map(vm, after, before, [uid.t]))
    if vm.branch(before[0](uid.t)):
        vm.cover("exists")
        vm.prove("an id that exists is refused with ActorAlreadyExist", failed_with(vm, r, "ActorAlreadyExist", msg))
        vm.prove("no actor is made", not made)
        vm.prove("and nothing changes", z3.And(after[0](uid.t), after[1](uid.t) == before[1](uid.t)))
        return
    vm.prove("the actor is made once, of the arguments given", len(made) == 1 and len(made[0][0]) == 1 and made[0][0][0] is args[0] and list(made[0][1]) == ["name"] and made[0][1]["name"] is kwargs.items[0][1])
    if how == 0:
        vm.cover("created")
        vm.prove("the pool has the actor", z3.And(after[0](uid.t), after[1](uid.t) == vm.term(actor)))
        vm.prove("its hook has run once", actor.log == ["post create"])
        vm.prove("it knows its id and its address", actor.attrs.get("uid") is uid and actor.attrs.get("address") is own)
        vm.prove("the answer is a reference to it", z3.And(answered(vm, r, msg), is_ref(vm, vm.getattr(r, "result"), own, uid)))
        vm.prove("with the proxies of the address", vm.getattr(vm.getattr(r, "result"), "proxy_addresses") is p.attrs["_router"].value)
    else:
        vm.cover("constructor fails" if how == 1 else "hook fails")
        vm.prove("a failure is reported", conj([is_msg(vm, r, "ErrorMessage"), same(vm, vm.getattr(r, "message_id"), vm.getattr(msg, "message_id"))]))
        vm.prove("and leaves nothing", z3.Not(after[0](uid.t)))


def destroy(vm):
    fails = vm.choose(2, "hook fails") == 1
    actor = Actor(vm, fails)
    actors = Actors(vm, actor)
    p, own = pool(vm, "ActorPoolBase", _actors=actors)
    run_coro(vm)
    uid = vm.opaque("uid", "bytes")
    msg = message(vm, "DestroyActorMessage", reference(vm, own, uid))
    before = actors.graph()
    r, e = attempt(vm, lambda: acall(vm, p, "destroy_actor", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    after = actors.graph()
    vm.prove("other actors stay", same_map(vm, after, before, [uid.t]))
    if not vm.branch(before[0](uid.t)):
        vm.cover("unknown")
        vm.prove("an unknown id is refused with ActorNotExist", failed_with(vm, r, "ActorNotExist", msg))
        vm.prove("and nothing changes", z3.Not(after[0](uid.t)))
        return
    vm.prove("its hook has run once", actor.log == ["pre destroy"])
    if fails:
        vm.cover("hook fails")
        vm.prove("a failure is reported and the actor stays", conj([is_msg(vm, r, "ErrorMessage"), after[0](uid.t)]))
    else:
        vm.cover("destroyed")
        vm.prove("the actor is gone", z3.Not(after[0](uid.t)))
        vm.prove("the answer names it", conj([answered(vm, r, msg), same(vm, vm.getattr(r, "result"), uid)]))


def own_queries(vm):
    actors = Actors(vm)
    p, own = pool(vm, "ActorPoolBase", _actors=actors)
    uid = vm.opaque("uid", "bytes")
    before = actors.graph()
    there = before[0](uid.t)
    msg = message(vm, "HasActorMessage", reference(vm, own, uid))
    r = acall(vm, p, "has_actor", msg)
    vm.prove("an actor is there exactly if the pool has it", conj([answered(vm, r, msg), as_z3(vm.getattr(r, "result")) == there]))
    msg = message(vm, "ActorRefMessage", reference(vm, vm.opaque("any address", "str"), uid))
    r = acall(vm, p, "actor_ref", msg)
    if vm.branch(there):
        vm.cover("found")
        vm.prove("found where it lives", conj([answered(vm, r, msg), is_ref(vm, vm.getattr(r, "result"), own, uid)]))
    else:
        vm.cover("unknown")
        vm.prove("an unknown id is refused with ActorNotExist", failed_with(vm, r, "ActorNotExist", msg))
    vm.prove("asking changes nothing", not actors.changed)


def own_calls(vm):
    """calls: an unknown actor is refused, others get the message"""
    got = []

    class Called(Actor):
        def m___on_receive__(self, vm, a, k):
            def run(vm):
                got.append(a[0])
                return vm.opaque("answer")

            return Awaitable(run, "receive")

    actors = Actors(vm, Called(vm, False))
    p, own = pool(vm, "ActorPoolBase", _actors=actors)
    run_coro(vm)
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: vm.await_(a[0]), "create_task")
    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(lambda vm, a, k: Awaitable(lambda vm: None, "sleep"), "sleep")
    uid, content = vm.opaque("uid", "bytes"), vm.opaque("content")
    tell = vm.choose(2, "tell") == 1
    msg = message(vm, "TellMessage" if tell else "SendMessage", reference(vm, own, uid), content)
    before = actors.graph()
    r, e = attempt(vm, lambda: acall(vm, p, "tell" if tell else "send", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    if vm.branch(before[0](uid.t)):
        vm.cover("called")
        vm.prove("the actor gets the message once", len(got) == 1 and got[0] is content)
        vm.prove("and an answer is given", answered(vm, r, msg))
    else:
        vm.cover("unknown")
        vm.prove("an unknown actor is refused with ActorNotExist", failed_with(vm, r, "ActorNotExist", msg))
        vm.prove("nobody is called", not got)


# ---------------------------------------------------------------- what the main pool knows


class Item(Host):
    """the references allocated at an address; each has this address"""

    def __init__(self, vm, table, t):
        self.table, self.t = table, t
        self.has = lambda u, t=t: HAS(t, u)
        self.value = lambda u: None
        self.changed = False

    def key(self, vm, ref):
        if not (isinstance(ref, IObj) and ref.cls.name in ("ActorRef", "LocalActorRef")):
            raise Unsupported(f"{ref!r} as a key of what is allocated")
        return vm.term(vm.getattr(ref, "address")), vm.term(vm.getattr(ref, "uid"))

    def vm_contains(self, vm, ref):
        a, u = self.key(vm, ref)
        return SBool(z3.And(a == self.t, self.has(u)))

    def vm_setitem(self, vm, ref, v):
        a, u = self.key(vm, ref)
        vm.prove("references are kept at their address", a == self.t)
        h = self.has
        self.changed = True
        self.puts = getattr(self, "puts", []) + [(u, v)]
        self.has = lambda x: z3.Or(x == u, h(x))

    def _drop(self, u):
        h = self.has
        self.changed = True
        self.has = lambda x: z3.And(x != u, h(x))

    def m_pop(self, vm, args, k):
        a, u = self.key(vm, args[0])
        if not vm.branch(z3.And(a == self.t, self.has(u))):
            if len(args) < 2:
                raise PyExc(KeyError("reference"))
            return args[1]
        self._drop(u)
        return vm.opaque("allocated value")

    def vm_delitem(self, vm, ref):
        self.m_pop(vm, [ref], {})


class Table(Map):
    """address -> what is allocated there"""

    def __init__(self, vm):
        super().__init__(vm, "table", keywrap=lambda t: SVal(t, "str"))
        self.slots = []
        self.wrap = lambda t: t

    def item(self, vm, t):
        for s in self.slots:
            if s.t.eq(t) or vm.branch(s.t == t):
                return s
        s = Item(vm, self, t)
        self.slots.append(s)
        return s

    def find(self, vm, k):
        t = vm.term(k)
        return self.item(vm, t) if vm.branch(self.has(t)) else None

    def _pairs(self, vm, f):
        s = self.vm_seq(vm)

        def elem(i):
            x = s.elem(i)
            return f(x, self.item(vm, vm.term(x)))

        r = SSeq("table", s.length, elem)
        r.map = self
        return r

    def m_values(self, vm, a, k):
        return self._pairs(vm, lambda x, c: c)

    def m_items(self, vm, a, k):
        return self._pairs(vm, lambda x, c: (x, c))


def search(vm, table, uid):
    """the loops that look for an id at all addresses: no address so far has it"""
    FIRST = z3.Function("first address with the id", U, z3.IntSort())
    first = FIRST(uid)
    seen = []

    def where(it, i):
        x = it.elem(i)
        x = x[0] if isinstance(x, tuple) else x
        return x.t if isinstance(x, Item) else vm.term(x)

    def at(it, i):
        """the definition of the first place with the id"""
        w = where(it, i)
        vm.assume(z3.Implies(z3.And(0 <= i, i < it.length), z3.And(z3.Implies(HAS(w, uid), first <= i), z3.Implies(first == i, HAS(w, uid)))))

    def sel(vm, st, fr, it):
        return getattr(getattr(it, "source", it), "map", None) is table

    def havoc_(vm, fr, it, i):
        seen.append(it)
        at(it, i)
        vm.assume(first >= i)

    def inv(vm, fr, it, i):
        at(it, i - 1)
        return [("no address so far has it", first >= i)]

    vm.assume(first >= 0)
    vm.loops.append(LoopSpec("search", sel, havoc_, inv))
    return seen, at, where


def main_state(vm, **more):
    table = Table(vm)
    actors = Actors(vm)
    p, own = pool(vm, "MainActorPoolBase", _actors=actors, _allocated_actors=table, **more)
    return p, own, table, actors


def ids(vm):
    """an id as bytes, and as it is given"""
    if vm.choose(2, "id as text"):
        s = vm.opaque("uid", "str")
        return call(vm, s, "encode"), s
    b = vm.opaque("uid", "bytes")
    return b, b


def main_has(vm):
    p, own, table, actors = main_state(vm)
    uid, given = ids(vm)
    u = vm.term(uid)
    seen, at, where = search(vm, table, u)
    msg = message(vm, "HasActorMessage", reference(vm, vm.opaque("any address", "str"), given))
    r = acall(vm, p, "has_actor", msg)
    vm.prove("an answer", answered(vm, r, msg))
    a = z3.Const("an address", U)
    table.at_key(vm, a)
    j = table.place_(a)
    found = vm.truth(vm.getattr(r, "result"))
    vm.cover("found" if found else "not found")
    if found:
        b = z3.Const("b", U)
        vm.prove("found only if allocated somewhere", z3.Exists([b], z3.And(table.has(b), HAS(b, u))))
    else:
        for it in seen[-1:]:
            at(it, j)
        vm.prove("not found only if allocated nowhere", z3.Implies(table.has(a), z3.Not(HAS(a, u))))
    vm.prove("asking changes nothing", not table.changed and all(not s.changed for s in table.slots))


def main_ref(vm):
    p, own, table, actors = main_state(vm)
    uid, given = ids(vm)
    u = vm.term(uid)
    # an actor of the main pool is known there
    vm.assume(z3.Implies(actors.has(u), z3.And(table.has(own.t), HAS(own.t, u))))
    seen, at, where = search(vm, table, u)
    asked = vm.opaque("any address", "str")
    msg = message(vm, "ActorRefMessage", reference(vm, asked, given))
    r, e = attempt(vm, lambda: acall(vm, p, "actor_ref", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    a = z3.Const("an address", U)
    table.at_key(vm, a)
    table.at_key(vm, asked.t)
    vm.prove("asking changes nothing", not table.changed and all(not s.changed for s in table.slots) and not actors.changed)
    if is_msg(vm, r, "ErrorMessage"):
        vm.cover("unknown")
        vm.prove("an unknown id is refused with ActorNotExist", failed_with(vm, r, "ActorNotExist", msg))
        for it in seen[-1:]:
            at(it, it.place(table.place_(a)) if hasattr(it, "place") else table.place_(a))
        vm.prove("only if allocated nowhere", z3.Implies(table.has(a), z3.Not(HAS(a, u))))
        return
    vm.cover("found")
    vm.prove("the answer is that to the request", answered(vm, r, msg))
    ref = vm.getattr(r, "result")
    b = vm.term(vm.getattr(ref, "address"))
    vm.prove("found where it is allocated", z3.And(table.has(b), HAS(b, u), vm.term(vm.getattr(ref, "uid")) == u))
    for it in seen[-1:]:
        if hasattr(it, "place"):
            q = it.place(table.place_(asked.t))
            at(it, q)
            i = [t for t in [z3.Int("round!0")]][0]
            if vm.branch(z3.And(0 <= q, q < it.length, i < q, i >= 0)):
                it.ordered(i, q)
    vm.prove("at the address that is asked for, if it is there", z3.Implies(z3.And(table.has(asked.t), HAS(asked.t, u)), b == asked.t))
    vm.prove("with the proxies", vm.getattr(ref, "proxy_addresses") is p.attrs["_router"].value)


def main_destroy(vm):
    p, own, table, actors = main_state(vm)
    uid, given = ids(vm)
    u = vm.term(uid)
    where = vm.opaque("where it lives", "str")
    msg = message(vm, "DestroyActorMessage", reference(vm, vm.opaque("any address", "str"), given))
    known = vm.choose(2, "known") == 1
    outcome = vm.choose(3, "destroyed, gone already, failed")
    refusal = new(vm, MSG, "ErrorMessage", message_id=vm.getattr(msg, "message_id"))

    def lookup(vm, a, k):
        """contract of actor_ref: an actor that is allocated, where it is, or an error"""

        def run(vm):
            vm.prove("the actor is looked up by its id", vm.term(call(vm, vm.getattr(vm.getattr(a[1], "actor_ref"), "uid"), "encode") if isinstance(vm.getattr(vm.getattr(a[1], "actor_ref"), "uid"), SVal) and vm.getattr(vm.getattr(a[1], "actor_ref"), "uid").typ == "str" else vm.getattr(vm.getattr(a[1], "actor_ref"), "uid")) == u)
            if not known:
                return refusal
            vm.assume(z3.And(table.has(where.t), HAS(where.t, u)))
            return vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(msg, "message_id"), reference(vm, where, uid)], {})

        return Awaitable(run, "lookup")

    vm.contracts[f"{P}:MainActorPoolBase.actor_ref"] = lookup
    done = []

    def end(vm, m):
        vm.prove("nothing is removed before", all(not s.changed for s in table.slots))
        done.append(m)
        if outcome == 0:
            return vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(msg, "message_id"), uid], {})
        err = vm.call(vm.lookup("xoscar.errors", "ActorNotExist"), ["gone"], {}) if outcome == 1 else SExc("error of the hook", Exception)
        if outcome == 2:
            err.known.append((vm.lookup("xoscar.errors", "ActorNotExist"), False))
        c = vm.lookup(MSG, "MessageType")
        return new(vm, MSG, "ErrorMessage", message_id=vm.getattr(msg, "message_id"), error=err)

    vm.contracts[f"{P}:ActorPoolBase.destroy_actor"] = lambda vm, a, k: Awaitable(lambda vm: [vm.prove("destroyed here only if it lives here", where.t == own.t), end(vm, a[1])][1], "destroy here")

    def there(vm, a, k):
        def run(vm):
            vm.prove("destroyed where it lives", vm.term(a[1]) == where.t)
            m = a[2]
            vm.prove("the pool is told to destroy this actor", is_msg(vm, m, "DestroyActorMessage"))
            vm.prove("as the actor of this id", is_ref(vm, vm.getattr(m, "actor_ref"), where, uid))
            vm.prove("and that the main pool knows", vm.getattr(m, "from_main"))
            return end(vm, m)

        return Awaitable(run, "call")

    vm.contracts[f"{P}:AbstractActorPool.call"] = there
    r, e = attempt(vm, lambda: acall(vm, p, "destroy_actor", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    a, x = z3.Const("an address", U), z3.Const("an id", U)
    has = lambda a, x: z3.BoolVal(True) and _has(table, a, x)
    if not known:
        vm.cover("unknown")
        vm.prove("an unknown actor is refused", r is refusal)
        vm.prove("and nothing changes", not done and all(not s.changed for s in table.slots))
        return
    here = vm.branch(where.t == own.t)
    vm.prove("the actor is destroyed once", len(done) == 1)
    if outcome == 1 and here:
        return  # the main pool's own actors are those allocated there
    vm.prove("the table of addresses stays", not table.changed)
    gone = outcome < 2
    vm.cover(("destroyed", "gone already", "failed")[outcome] + (" here" if here else " there"))
    if gone:
        vm.prove("exactly this actor is forgotten", has(a, x) == z3.And(HAS(a, x), z3.Not(z3.And(a == where.t, x == u))))
        if outcome == 0:
            vm.prove("the answer names it", conj([answered(vm, r, msg), same(vm, vm.getattr(r, "result"), uid)]))
    else:
        vm.prove("an actor that was not destroyed stays", has(a, x) == HAS(a, x))
        vm.prove("the failure is reported", is_msg(vm, r, "ErrorMessage"))


def _has(table, a, x):
    t = HAS(a, x)
    for s in table.slots:
        t = z3.If(a == s.t, s.has(x), t)
    return t


def registration(vm):
    """an actor that a sub pool has created on its own is made known"""
    p, own, table, actors = main_state(vm)
    uid, given = ids(vm)
    where = vm.opaque("address of the sub pool", "str")
    vm.assume(table.has(where.t))
    vm.assume(where.t != own.t)
    T = vm.lookup(MSG, "ControlMessageType")
    strategy = vm.opaque("strategy")
    create_msg = message(vm, "CreateActorMessage", vm.opaque("class"), given, (), VDict(), strategy)
    # sub pools send this with their own address
    msg = message(vm, "ControlMessage", where, vm.getattr(T, "add_sub_pool_actor"), (where, strategy, create_msg))
    r, e = attempt(vm, lambda: acall(vm, p, "handle_control_command", msg))
    vm.prove("an answer", conj([e is None, answered(vm, r, msg) if e is None else z3.BoolVal(False)]), f"{e!r}")
    a, x = z3.Const("an address", U), z3.Const("an id", U)
    vm.cover("registered")
    vm.prove("exactly this actor is added", _has(table, a, x) == z3.Or(HAS(a, x), z3.And(a == where.t, x == vm.term(uid))))
    puts = [v for s in table.slots for _, v in getattr(s, "puts", [])]
    vm.prove("with its strategy and what it was created by", len(puts) == 1 and isinstance(puts[0], tuple) and puts[0][0] is strategy and puts[0][1] is create_msg)
    vm.prove("which will not be reported again when it is recovered", vm.getattr(create_msg, "from_main"))


# ---------------------------------------------------------------- sub pools


def sub_state(vm):
    main = vm.opaque("main address", "str")
    p, own = pool(vm, "SubActorPoolBase", _main_address=main, _actors=Actors(vm))
    sent = []

    def call_(vm, a, k):
        def run(vm):
            sent.append((a[1], a[2]))
            return sub_state.reply

        return Awaitable(run, "call")

    vm.contracts[f"{P}:AbstractActorPool.call"] = call_
    return p, own, main, sent


def sub_changes(vm):
    """actors created or destroyed at the sub pool itself are reported to the main pool"""
    p, own, main, sent = sub_state(vm)
    sub_state.reply = None
    destroys = vm.choose(2, "destroy") == 1
    from_main = vm.choose(2, "through the main pool") == 1
    ok = vm.choose(2, "succeeds") == 1
    uid, strategy = vm.opaque("uid", "bytes"), vm.opaque("strategy")
    if destroys:
        msg = message(vm, "DestroyActorMessage", reference(vm, own, uid), from_main=from_main)
    else:
        msg = message(vm, "CreateActorMessage", vm.opaque("class"), uid, (), VDict(), strategy, from_main=from_main)
    reply = vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(msg, "message_id"), vm.opaque("result")], {}) if ok else new(vm, MSG, "ErrorMessage", message_id=vm.getattr(msg, "message_id"))
    f = "destroy_actor" if destroys else "create_actor"

    def base(vm, a, k):
        def run(vm):
            vm.prove("not reported before it is done", not sent)
            vm.prove("the request is carried out as it is", a[1] is msg)
            return reply

        return Awaitable(run, f)

    vm.contracts[f"{P}:ActorPoolBase.{f}"] = base
    r, e = attempt(vm, lambda: acall(vm, p, f, msg))
    vm.prove("the answer is that of the pool", e is None and r is reply)
    told = ok and not from_main
    vm.prove("the main pool is told exactly of what it does not know", len(sent) == (1 if told else 0))
    if not told or len(sent) != 1:
        vm.cover("not told")
        return
    vm.cover("told of a destruction" if destroys else "told of a creation")
    to, m = sent[0]
    vm.prove("the main pool is told", vm.term(to) == main.t)
    if destroys:
        vm.prove("which actor is gone", is_msg(vm, m, "DestroyActorMessage") and is_ref(vm, vm.getattr(m, "actor_ref"), own, uid))
    else:
        T = vm.lookup(MSG, "ControlMessageType")
        vm.prove("by a registration", is_msg(vm, m, "ControlMessage") and vm.getattr(m, "control_message_type") is vm.getattr(T, "add_sub_pool_actor"))
        c = vm.getattr(m, "content")
        vm.prove("of the address, the strategy and the request", isinstance(c, tuple) and len(c) == 3 and c[0] is own and c[1] is strategy and c[2] is msg)
        vm.prove("not as a command to itself", vm.term(vm.getattr(m, "address")) == own.t)


def sub_ref(vm):
    p, own, main, sent = sub_state(vm)
    uid = vm.opaque("uid", "bytes")
    msg = message(vm, "ActorRefMessage", reference(vm, vm.opaque("any address", "str"), uid))
    local = vm.choose(2, "lives here") == 1
    mine = vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(msg, "message_id"), vm.opaque("reference")], {}) if local else new(vm, MSG, "ErrorMessage", message_id=vm.getattr(msg, "message_id"))
    answer = vm.opaque("answer of the main pool")
    found = vm.choose(2, "known to the main pool") == 1
    other = vm.call(vm.lookup(MSG, "ResultMessage"), [vm.opaque("another id", "bytes"), answer], {}) if found else new(vm, MSG, "ErrorMessage", message_id=vm.opaque("another id", "bytes"))
    sub_state.reply = other
    vm.contracts[f"{P}:ActorPoolBase.actor_ref"] = lambda vm, a, k: Awaitable(lambda vm: mine, "actor_ref")
    r, e = attempt(vm, lambda: acall(vm, p, "actor_ref", msg))
    vm.prove("an answer with the id of the request", e is None and same(vm, vm.getattr(r, "message_id"), vm.getattr(msg, "message_id")))
    if local:
        vm.cover("here")
        vm.prove("the pool's own answer", r is mine and not sent)
        return
    vm.cover("elsewhere")
    vm.prove("the main pool is asked once", len(sent) == 1 and vm.term(sent[0][0]) == main.t)
    if len(sent) == 1:
        m = sent[0][1]
        vm.prove("for the same actor", is_msg(vm, m, "ActorRefMessage") and vm.term(vm.getattr(vm.getattr(m, "actor_ref"), "uid")) == uid.t)
    vm.prove("its answer is passed on", is_msg(vm, r, "ResultMessage" if found else "ErrorMessage") and (not found or vm.getattr(r, "result") is answer))


# ---------------------------------------------------------------- pools that come and go


def attach(vm):
    p, own, table, actors = main_state(vm)
    procs = Map(vm, "processes")
    p.attrs["sub_processes"] = procs
    g, t0 = procs.graph(), table.has
    address, process = vm.opaque("address", "str"), vm.opaque("process")

    def setdefault(vm, a, k):
        t = vm.term(a[0])
        if not vm.branch(table.has(t)):
            vm.prove("nothing is allocated at a new address", isinstance(a[1], VDict) and not a[1].items)
            h = table.has
            table.has = lambda x: z3.Or(x == t, h(x))
        return None

    table.m_setdefault = setdefault
    known = vm.branch(t0(address.t))
    call(vm, p, "attach_sub_process", address, process)
    vm.prove("a known address is not replaced", not (known and table.changed))
    x = z3.Const("an address", U)
    vm.cover("attached")
    vm.prove("the address is known", table.has(x) == z3.Or(t0(x), x == address.t))
    vm.prove("what is allocated stays", all(not s.changed for s in table.slots))
    h = procs.graph()
    vm.prove("the process is that of the address", z3.And(h[0](address.t), h[1](address.t) == process.t))
    vm.prove("other processes stay", same_map(vm, h, g, [address.t]))


def remove(vm):
    p, own = pool(vm, "MainActorPool", I)
    p.attrs["sub_processes"], p.attrs["_allocated_actors"] = procs, table = Map(vm, "processes"), Map(vm, "table")
    log = []
    index = vm.opaque("index")
    address = vm.opaque("address", "str")
    vm.assume(procs.has(address.t))

    class Config(Host):
        def m_get_process_index(self, vm, a, k):
            vm.prove("the index of this pool", vm.term(a[0]) == address.t)
            log.append("index")
            return index

        def m_remove_pool_config(self, vm, a, k):
            vm.prove("this pool is removed from the configuration", a[0] is index)
            log.append("unconfigured")

    p.attrs["_config"] = Config()
    g, t = procs.graph(), table.graph()
    process = g[1](address.t)
    force = [False, True][vm.choose(2, "force")]
    patience = vm.opaque("timeout")

    def stop(vm, a, k):
        vm.prove("as it is asked for", {**dict(zip(("timeout", "force"), a[3:])), **k} == {"timeout": patience, "force": force})
        vm.prove("the process of this address is stopped", z3.And(vm.term(a[1]) == address.t, vm.term(a[2]) == process))
        log.append("stopped")
        return Awaitable(lambda vm: None, "stop")

    def control(vm, a, k):
        T = vm.lookup(MSG, "ControlMessageType")
        vm.prove("the other pools get the new configuration", vm.getattr(a[1], "control_message_type") is vm.getattr(T, "sync_config") and vm.getattr(a[1], "content") is p.attrs["_config"])
        vm.prove("as a command of the main pool", vm.term(vm.getattr(a[1], "address")) == own.t)
        log.append("synchronized")
        return Awaitable(lambda vm: None, "control")

    for c in (f"{P}:MainActorPoolBase", f"{I}:MainActorPool"):
        vm.contracts[f"{c}.stop_sub_pool"] = stop
        vm.contracts[f"{c}.handle_control_command"] = control
    r, e = attempt(vm, lambda: acall(vm, p, "remove_sub_pool", address, patience, force))
    vm.cover("removed")
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("each step once", sorted(log) == ["index", "stopped", "synchronized", "unconfigured"])
    vm.prove("the configuration is changed before it is sent", "unconfigured" in log and "synchronized" in log and log.index("unconfigured") < log.index("synchronized"))
    for what, m, was in (("process", procs, g), ("allocated actors", table, t)):
        h = m.graph()
        vm.prove(f"the {what} of the address are forgotten", z3.Not(h[0](address.t)))
        vm.prove(f"the {what} of other addresses stay", same_map(vm, h, was, [address.t]))


B, C, S = f"{P}:ActorPoolBase", f"{P}:MainActorPoolBase", f"{P}:SubActorPoolBase"
CASES = [
    Case("create", [f"{B}.create_actor", f"{P}:_ErrorProcessor.__exit__"], create, setup, covers=["exists", "created", "constructor fails", "hook fails"], need=12),
    Case("destroy", [f"{B}.destroy_actor"], destroy, setup, covers=["unknown", "hook fails", "destroyed"], need=8),
    Case("queries", [f"{B}.has_actor", f"{B}.actor_ref"], own_queries, setup, covers=["found", "unknown"], need=5),
    Case("calls", [f"{B}.send", f"{B}.tell"], own_calls, setup, covers=["called", "unknown"], need=6),
    Case("main: has_actor", [f"{C}.has_actor"], main_has, setup, covers=["found", "not found", "search: body reached"], need=5),
    Case("main: actor_ref", [f"{C}.actor_ref"], main_ref, setup, covers=["found", "unknown", "search: body reached"], need=8),
    Case("main: create_actor", [f"{C}.create_actor"], c10.placement, covers=["refused", "created here", "created there", "failed", "broken"], need=60),
    Case("main: destroy_actor", [f"{C}.destroy_actor"], main_destroy, setup, covers=["unknown", "destroyed here", "destroyed there", "gone already there", "failed here", "failed there"], need=20),
    Case("main: registration", [f"{C}.handle_control_command"], registration, setup, covers=["registered"], need=4),
    Case("sub: create and destroy", [f"{S}.create_actor", f"{S}.destroy_actor", f"{S}.notify_main_pool_to_create", f"{S}.notify_main_pool_to_destroy"], sub_changes, setup,
         covers=["told of a creation", "told of a destruction", "not told"], need=15),
    Case("sub: actor_ref", [f"{S}.actor_ref"], sub_ref, setup, covers=["here", "elsewhere"], need=5),
    Case("attached pools", [f"{C}.attach_sub_process"], attach, setup, covers=["attached"], need=4),
    Case("removed pools", [f"{I}:MainActorPool.remove_sub_pool"], remove, setup, covers=["removed"], need=8),
    pools.MADE[0],
    *asking.CREATION,
    *asking.ASKED,
    *asking.KILLED,
    *asking.BACKENDS,
    *[c for w in ("create_actor", "has_actor", "destroy_actor", "kill_actor") for c in asking.HANDED[w]],
    *references.DESTROYED,
]

ASSUMPTIONS = [
    "_run_coro gives the outcome of the coroutine and messages between pools arrive with their fields (C09, C03, C05)",
    "an actor is destroyed, or its id used again, only after its creation has been answered, and not by two requests at once",
    "references allocated at an address have this address; actors of the main pool are those allocated at its address",
]
