"""C17: remote generators yield every item once, in order, then end.

A generator is a sequence of items of any length, a position in it and an end (exhausted,
or an error).  One step of the remote iteration is proved for an arbitrary position; that
the k-th step gives the k-th item follows by induction on the position.
"""

from .base import *  # noqa: F401,F403

A = "xoscar.api"
ITEMS = z3.Function("item of the generator", z3.IntSort(), U)


class Gen(Host):
    """a generator of the method, at any position"""

    def __init__(self, vm, is_async):
        self.is_async = is_async
        self.length = vm.fresh_int("items", 0).t
        self.pos = vm.fresh_int("position", 0).t
        self.start = self.pos
        vm.assume(self.pos <= self.length)
        self.pulls = 0
        self.end = None
        self.error = None

    def vm_truth(self, vm):
        return True

    def step(self, vm):
        self.pulls += 1
        vm.prove("an ended generator is not resumed", self.end is None)
        if vm.branch(self.pos < self.length):
            p = self.pos
            self.pos = z3.simplify(p + 1)
            # its comparisons are its own, and may answer anything
            return SVal(ITEMS(p), eq=lambda vm, o: vm.fresh_bool("=="))
        self.end = ["exhausted", "error"][vm.choose(2, "the generator raises")]
        if self.end == "exhausted":
            raise PyExc(StopAsyncIteration() if self.is_async else StopIteration())
        # errors inside of generators that look like an end are turned into RuntimeErrors by
        # the language, except for a StopAsyncIteration of a synchronous generator
        if not self.is_async and vm.choose(2, "a StopAsyncIteration"):
            self.error = StopAsyncIteration("inside")
        else:
            self.error = SExc("error of the generator", Exception)
            self.error.known += [(StopIteration, False), (StopAsyncIteration, False), (vm.lookup(A, "_GeneratorExhausted"), False)]
        raise PyExc(self.error)

    def m___next__(self, vm, a, k):
        if self.is_async:
            raise PyExc(AttributeError("__next__"))
        return self.step(vm)

    def m___anext__(self, vm, a, k):
        if not self.is_async:
            raise PyExc(AttributeError("__anext__"))
        return Awaitable(self.step, "anext")

    def m_asend(self, vm, a, k):
        return self.m___anext__(vm, a, k)

    def m_send(self, vm, a, k):
        return self.m___next__(vm, a, k)


class Gens(Host):
    """the generators of an actor: some arbitrary ones and perhaps the one in question"""

    def __init__(self, vm, uid, mine):
        self.uid, self.mine = uid, mine
        self.others = True
        self.added = []

    def _mine(self, vm, k):
        if k is not self.uid:
            raise Unsupported("lookup of another generator")

    def m_get(self, vm, a, k):
        self._mine(vm, a[0])
        return self.mine if self.mine is not None else (a[1] if len(a) > 1 else None)

    def vm_getitem(self, vm, k):
        self._mine(vm, k)
        if self.mine is None:
            raise PyExc(KeyError("uid"))
        return self.mine

    def vm_contains(self, vm, k):
        self._mine(vm, k)
        return self.mine is not None

    def m_pop(self, vm, a, k):
        if a[0] is not self.uid:
            self.others = False
            return None
        r, self.mine = self.mine, None
        if r is None:
            if len(a) < 2:
                raise PyExc(KeyError("uid"))
            return a[1]
        return r

    def vm_delitem(self, vm, k):
        self.m_pop(vm, [k], {})

    def vm_setitem(self, vm, k, v):
        if k is self.uid:
            self.mine = v
        else:
            self.added.append((k, v))

    def m_clear(self, vm, a, k):
        self.mine, self.others = None, False


def world(vm, between=lambda vm: None):
    """other tasks may run at every await"""

    def thread(vm, a, k):
        def run(vm):
            between(vm)
            try:
                r = vm.call(a[0], list(a[1:]), k)
            except PyExc as e:
                vm.prove("no StopIteration is passed through a future, which would never end", not exc_is(vm, e.value, StopIteration))
                between(vm)
                raise
            between(vm)
            return r

        return Awaitable(run, "to_thread")

    def task(vm, a, k):
        def run(vm):
            between(vm)
            try:
                return vm.await_(a[0])
            finally:
                between(vm)

        return Awaitable(run, "task")

    vm.stubs["asyncio.to_thread"] = Stub(thread, "to_thread")
    vm.stubs["asyncio.create_task"] = Stub(task, "create_task")
    vm.stubs["inspect.isgenerator"] = Stub(lambda vm, a, k: isinstance(a[0], Gen) and not a[0].is_async, "isgenerator")
    vm.stubs["inspect.isasyncgen"] = Stub(lambda vm, a, k: isinstance(a[0], Gen) and a[0].is_async, "isasyncgen")


def actor(vm, gens):
    return new(vm, A, "AsyncActorMixin", _generators=gens, address="addr", uid=b"actor")


def step(vm):
    there = vm.choose(3, "the generator: is synchronous, is asynchronous, is not there")
    g = Gen(vm, there == 1) if there < 2 else None
    uid = vm.opaque("uid", "str")
    gens = Gens(vm, uid, g)
    destroyed = []

    def between(vm):
        if gens.mine is not None and vm.choose(2, "destroyed meanwhile"):
            gens.mine = None
            destroyed.append(1)

    world(vm, between)
    r, e = attempt(vm, lambda: acall(vm, actor(vm, gens), "__xoscar_next__", uid))
    vm.prove("other generators are not affected", gens.others and not gens.added)
    if g is None:
        vm.cover("released")
        vm.prove("using a released generator is an error", e is not None and not exc_is(vm, e, vm.lookup(A, "_GeneratorExhausted")) and not exc_is(vm, e, StopAsyncIteration))
        return
    vm.prove("one step of the generator for one request", g.pulls == 1)
    if g.end is None:
        vm.cover("item")
        vm.prove("an item is no end", e is None, f"{e!r}")
        if e is None:
            vm.prove("it is the next item", vm.term(r) == ITEMS(g.start))
        vm.prove("the generator stays", gens.mine is g or bool(destroyed))
    elif g.end == "exhausted":
        vm.cover("end")
        vm.prove("the end is reported as such", exc_is(vm, e, vm.lookup(A, "_GeneratorExhausted")), f"{r!r} {e!r}")
        vm.prove("the generator is released at its end", gens.mine is None)
    else:
        vm.cover("error")
        vm.prove("the error of the generator is raised", e is g.error, f"{r!r} {e!r}")
        vm.prove("the generator is released at its error", gens.mine is None)


def wrapper(vm, ref=None):
    w = new(vm, A, "IteratorWrapper")
    w.partial = False
    w = vm.call(vm.lookup(A, "IteratorWrapper"), ["uid", "addr", b"actor"], {})
    return w


class Ref(Host):
    """reference of the actor: its calls end with the outcomes of its methods (C09)"""

    def __init__(self, calls, outcome):
        self.calls, self.outcome = calls, outcome

    def m___xoscar_next__(self, vm, a, k):
        self.calls.append(("next", list(a)))
        return Awaitable(self.outcome, "next")

    def m___xoscar_destroy_generator__(self, vm, a, k):
        self.calls.append(("destroy", list(a)))
        return Awaitable(lambda vm: None, "destroy")


def lookup(vm, ref, found):
    def f(vm, a, k):
        found.append((a, dict(k)))
        return Awaitable(lambda vm: ref, "actor_ref")

    vm.contracts[f"{A}:actor_ref"] = f


def client(vm):
    calls, found = [], []
    value = vm.opaque("item")
    exhausted = vm.lookup(A, "_GeneratorExhausted")
    err = SExc("error", BaseException)
    err.known += [(exhausted, False), (StopAsyncIteration, False)]
    stop = StopAsyncIteration("inside")
    kind = ["item", "end", "error", "looks like an end", "value that looks like an end", "exception as a value"][vm.choose(6, "reply")]
    end = vm.call(exhausted, ["StopIteration"], {})

    def outcome(vm):
        if kind == "item":
            return value
        if kind == "value that looks like an end":
            return end
        if kind == "exception as a value":
            return stop
        raise PyExc({"end": end, "error": err, "looks like an end": stop}[kind])

    ref = Ref(calls, outcome)
    lookup(vm, ref, found)
    w = wrapper(vm)
    vm.prove("an iterator iterates itself", call(vm, w, "__aiter__") is w)
    for i in range(1 + vm.choose(2, "again")):
        calls.clear()
        r, e = attempt(vm, lambda: acall(vm, w, "__anext__"))
        vm.prove("one request for this generator", calls == [("next", ["uid"])], f"{calls}")
        if kind == "end":
            vm.cover("end")
            vm.prove("the end ends the iteration", exc_is(vm, e, StopAsyncIteration))
        elif kind == "error":
            vm.cover("error")
            vm.prove("an error is raised as it is", e is err)
        elif kind == "looks like an end":
            vm.cover("error like an end")
            vm.prove("an error of the generator is not mistaken for the end", e is not None and not exc_is(vm, e, StopAsyncIteration), f"{e!r}")
        else:
            vm.cover("item")
            vm.prove("an item is given as it is", e is None and r is {"item": value, "value that looks like an end": end, "exception as a value": stop}[kind])
    vm.prove("of this actor", len(found) >= 1 and all(x == ([], {"address": "addr", "uid": b"actor"}) or x == (["addr", b"actor"], {}) for x in found), f"{found}")


def whole_step(vm):
    """client and actor together, at an arbitrary position"""
    g = Gen(vm, vm.choose(2, "asynchronous") == 1)
    gens = Gens(vm, "uid", g)
    world(vm)
    act = actor(vm, gens)

    class Direct(Host):
        m___xoscar_next__ = lambda self, vm, a, k: call(vm, act, "__xoscar_next__", *a)

    lookup(vm, Direct(), [])
    w = wrapper(vm)
    r, e = attempt(vm, lambda: acall(vm, w, "__anext__"))
    if g.end is None:
        vm.cover("item")
        vm.prove("the next item", e is None and vm.term(r) == ITEMS(g.start), f"{e!r}")
    elif g.end == "exhausted":
        vm.cover("end")
        vm.prove("then the end", exc_is(vm, e, StopAsyncIteration))
    else:
        vm.cover("error")
        vm.prove("or the error, which is no end", e is not None and not exc_is(vm, e, StopAsyncIteration), f"{e!r}")
    r, e2 = attempt(vm, lambda: acall(vm, w, "__anext__")) if g.end is not None else (None, None)
    if g.end is not None:
        vm.prove("an iterator that has ended gives nothing more", e2 is not None)


def release(vm):
    uid = vm.opaque("uid", "str")
    g = Gen(vm, False) if vm.choose(2, "there") else None
    gens = Gens(vm, uid, g)
    act = actor(vm, gens)
    f = vm.getattr(act, "__xoscar_destroy_generator__")
    r, e = attempt(vm, lambda: vm.await_(vm.call(f, [uid], {})))
    vm.cover("released" if g else "not there")
    vm.prove("destroying does not fail", e is None)
    vm.prove("the generator is released", gens.mine is None)
    vm.prove("other generators are not affected", gens.others and not gens.added)
    from .c06 import HINT

    vm.prove("it does not wait for the lock of the actor", vm.truth(attempt(vm, lambda: vm.getattr(f, HINT))[0]))


def destroy(vm):
    calls, found = [], []
    lookup(vm, Ref(calls, None), found)
    w = wrapper(vm)
    for i in range(1 + vm.choose(2, "again")):
        r, e = attempt(vm, lambda: acall(vm, w, "destroy"))
        vm.cover("destroyed")
        vm.prove("no error", e is None)
        vm.prove("one request for this generator", calls == [("destroy", ["uid"])] * (i + 1))


def collect(vm):
    started, ran = [], []
    owner = vm.choose(3, "owner, pickled once, pickled twice")

    class Thread(Host):
        def __init__(self, k):
            self.k = k

        def m_start(self, vm, a, k):
            started.append(self)
            vm.call(self.k["target"], list(self.k.get("args", ())), {})

        def m_join(self, vm, a, k):
            self.joined = True

    vm.stubs["threading.Thread"] = Stub(lambda vm, a, k: Thread(k), "Thread")
    vm.stubs["asyncio.run"] = Stub(lambda vm, a, k: ran.append(1) or vm.await_(a[0]), "run")
    calls, found = [], []
    lookup(vm, Ref(calls, None), found)
    w = wrapper(vm)
    states = [call(vm, w, "__getstate__") for _ in range(owner)]
    r, e = attempt(vm, lambda: call(vm, w, "__del__"))
    vm.prove("collecting does not fail", e is None, f"{e!r}")
    if owner == 0:
        vm.cover("owner")
        vm.prove("a collected iterator releases its generator", calls == [("destroy", ["uid"])])
    else:
        vm.cover("given away")
        vm.prove("a copy that was sent away is not destroyed with the original", calls == [])
    for s in states:
        copy = new(vm, A, "IteratorWrapper")
        for k, v in s.items:
            copy.attrs[k] = v
        calls.clear()
        call(vm, copy, "__del__")
        vm.prove("the copy releases the generator", calls == [("destroy", ["uid"])], f"{calls}")


def method(vm):
    """what a decorated method returns"""
    is_async = vm.choose(2, "async method") == 1
    kind = vm.choose(4, "generator, async generator, other, fails")
    world(vm)
    g = Gen(vm, kind == 1) if kind < 2 else None
    other = vm.opaque("value")
    err = SExc("error of the method", BaseException)
    if not is_async:
        err.known.append((StopIteration, False))
    gens = Gens(vm, "old", Gen(vm, False))
    old = gens.mine
    act = actor(vm, gens)
    n = [0]

    class Uid(Host):
        def vm_getattr(self, vm, name):
            return self.s

    def uuid(vm, a, k):
        n[0] += 1
        u = Uid()
        u.s = f"new{n[0]}"
        return u

    for x in ("uuid1", "uuid4"):
        vm.stubs[f"uuid.{x}"] = Stub(uuid, x)
    got = []

    def run(vm, a, k):
        got.append((list(a), dict(k)))
        if kind == 3:
            raise PyExc(err)
        return g if g is not None else other

    f = Stub((lambda vm, a, k: Awaitable(lambda vm: run(vm, a, k))) if is_async else run, "method")
    vm.stubs["asyncio.iscoroutinefunction"] = Stub(lambda vm, a, k: is_async, "iscoroutinefunction")
    x, y = vm.opaque("x"), vm.opaque("y")
    w = vm.call(vm.lookup(A, "generator"), [f], {})
    r, e = attempt(vm, lambda: vm.await_(vm.call(w, [act, x], {"k": y})))
    vm.prove("the method is called once with its arguments", got == [([act, x], {"k": y})])
    vm.prove("generators there are stay", gens.mine is old and gens.others)
    if kind == 3:
        vm.cover("failed")
        vm.prove("the error of the method is raised", e is err)
        vm.prove("nothing is kept of a failed method", not gens.added)
    elif kind == 2:
        vm.cover("no generator")
        vm.prove("another result is returned as it is", e is None and r is other and not gens.added)
    else:
        vm.cover("generator")
        vm.prove("no error", e is None, f"{e!r}")
        vm.prove("the generator is kept under a new name", len(gens.added) == 1 and gens.added[0][1] is g)
        ok = isinstance(r, IObj) and r.cls is vm.lookup(A, "IteratorWrapper") and len(gens.added) == 1
        vm.prove("an iterator for it is returned", ok)
        if ok:
            calls, found = [], []
            ref = Ref(calls, lambda vm: None)
            lookup(vm, ref, found)
            acall(vm, r, "__anext__")
            vm.prove("that asks this actor for this generator", calls == [("next", [gens.added[0][0]])] and found[0][1] == {"address": "addr", "uid": b"actor"})


CASES = [
    Case("step in the actor", [f"{A}:AsyncActorMixin.__xoscar_next__", f"{A}:AsyncActorMixin.__xoscar_destroy_generator__"], step,
         covers=["released", "item", "end", "error"], need=30, assumed=["asyncio.to_thread", "asyncio.create_task"]),
    Case("step of the client", [f"{A}:IteratorWrapper.__anext__", f"{A}:IteratorWrapper.__init__"], client, covers=["end", "error", "error like an end", "item"], need=20, assumed=["xoscar.api.actor_ref (C12, C09)"]),
    Case("whole step", [f"{A}:IteratorWrapper.__anext__", f"{A}:AsyncActorMixin.__xoscar_next__"], whole_step, covers=["item", "end", "error"], need=6),
    Case("release", [f"{A}:AsyncActorMixin.__xoscar_destroy_generator__"], release, covers=["released", "not there"], need=6),
    Case("destroy", [f"{A}:IteratorWrapper.destroy"], destroy, covers=["destroyed"], need=4),
    Case("collection", [f"{A}:IteratorWrapper.__del__", f"{A}:IteratorWrapper.__getstate__"], collect, covers=["owner", "given away"], need=6, assumed=["threading.Thread", "asyncio.run"]),
    Case("method", [f"{A}:generator"], method, covers=["failed", "no generator", "generator"], need=20, assumed=["uuid.uuid1"]),
]

ASSUMPTIONS = [
    "an error raised in a generator is turned into a RuntimeError by the language where it would look like its own end (PEP 479)",
    "errors reach the client as they are raised (C09)",
    "generated names of generators do not coincide (uuid)",
    "one generator is asked for its next item by one request at a time (the lock of the actor, C06; callers of stateless actors take turns)",
]
