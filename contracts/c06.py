"""C06: an actor runs one method at a time, unless marked lock-free.

The lock is an asyncio.Lock, whose mutual exclusion is assumed.  What is proved is that
every way of calling an actor runs the whole method inside one critical section of the
actor's lock, and leaves it however the method ends.
"""

from .base import *  # noqa: F401,F403

K = "xoscar.core"
HINT = "__XOSCAR_ACTOR_METHOD_NO_LOCK__"


class Lock(Host):
    def __init__(self, log, cancellable=True):
        self.log = log
        self.held = False
        self.cancellable = cancellable

    def _enter(self, vm):
        if self.cancellable and vm.choose(2, "cancelled while waiting for the lock"):
            self.log.append(("cancelled waiting",))
            raise PyExc(SExc("cancelled", BaseException))
        vm.prove("the lock is not taken twice by one call", not self.held)
        self.held = True
        self.log.append(("acquire",))
        return None

    def _exit(self, vm):
        vm.prove("only a held lock is released", self.held)
        self.held = False
        self.log.append(("release",))
        return False

    m___aenter__ = lambda self, vm, a, k: Awaitable(self._enter, "aenter")
    m___aexit__ = lambda self, vm, a, k: Awaitable(self._exit, "aexit")
    m_acquire = lambda self, vm, a, k: Awaitable(lambda vm: (self._enter(vm), True)[1], "acquire")
    m_release = lambda self, vm, a, k: self._exit(vm)
    m_locked = lambda self, vm, a, k: self.held


class Coro(Awaitable):
    """coroutine of a method: its part after the first await"""

    coro = True

    def __init__(self, m):
        super().__init__(self.run, "method coroutine")
        self.m = m

    def run(self, vm):
        self.m.log.append(("run", self.m.lock.held))
        if vm.choose(2, "coroutine fails"):
            self.m.log.append(("failed",))
            raise PyExc(self.m.error)
        self.m.log.append(("done",))
        return self.m.result


class Method(Host):
    """a method of the actor"""

    def __init__(self, vm, log, lock, hint):
        self.log, self.lock, self.hint = log, lock, hint
        self.result = vm.opaque("result", coroutine=False)
        self.error = SExc("error", BaseException)
        self.args = None

    def vm_call(self, vm, a, k):
        self.args = (list(a), dict(k))
        self.log.append(("call", self.lock.held))
        d = vm.choose(3, "method: returns, returns a coroutine, fails")
        if d == 0:
            self.log.append(("done",))
            return self.result
        if d == 1:
            return Coro(self)
        self.log.append(("failed",))
        raise PyExc(self.error)

    def p_batch(self, vm):
        return self.batch

    def m_call_with_lists(self, vm, a, k):
        return self.vm_call(vm, a, k)

    def vm_hasattr(self, vm, name):
        return name in ("call_with_lists", "batch") or (name == "__self__" and self.hint in OWNERS) or (name == HINT and self.hint in ("method", "false"))

    def vm_getattr(self, vm, name):
        if name == HINT:
            if self.hint == "method":
                return True
            if self.hint == "false":
                return False
            raise PyExc(AttributeError(name))
        if name == "__self__":
            if self.hint in OWNERS:
                return Owner(self.hint)
            raise PyExc(AttributeError(name))
        return super().vm_getattr(vm, name)


class Owner(Host):
    """the object of a bound method: the attribute is set on it, on its class or not at all"""

    def __init__(self, hint):
        self.hint = hint

    def vm_hasattr(self, vm, name):
        if name != HINT:
            raise Unsupported(f"attribute {name} of the owner")
        return self.hint != "owner without"

    def vm_getattr(self, vm, name):
        if name != HINT:
            raise Unsupported(f"attribute {name} of the owner")
        if self.hint == "owner without":
            raise PyExc(AttributeError(name))
        return self.hint in FREE

    def vm_type(self, vm):
        return OwnerClass(self.hint)


class OwnerClass(Host):
    def __init__(self, hint):
        self.hint = hint

    def vm_hasattr(self, vm, name):
        if name != HINT:
            raise Unsupported(f"attribute {name} of the class of the owner")
        return "class" in self.hint

    def vm_getattr(self, vm, name):
        if not self.vm_hasattr(vm, name):
            raise PyExc(AttributeError(name))
        return self.hint == "owner class"


OWNERS = ["owner", "owner class", "owner class says no", "owner without"]
FREE = ["method", "owner", "owner class"]
HINTS = [None, "false", "method"] + OWNERS


def arbitrary_method(vm, log, lock):
    return Method(vm, log, lock, HINTS[vm.choose(len(HINTS), "marked no_lock")])


def handler(log, lock, vm):
    """contract of the handling of results: may succeed or fail"""
    out = vm.opaque("handled")
    err = SExc("error of the result", BaseException)
    got = []

    def f(vm, a, k):
        got.append(a[-1])
        log.append(("handle", lock.held))

        def run(vm):
            if vm.choose(2, "handling fails"):
                raise PyExc(err)
            return out

        return Awaitable(run, "handler")

    return f, got, out, err


def settle(vm, log, lock, m, got, out, err, r, e):
    """what has to be true of one call, whatever the ways taken"""
    names = [x[0] for x in log]
    free = m.hint in FREE
    vm.prove("the lock is free after the call", not lock.held)
    if "cancelled waiting" in names:
        vm.cover("cancelled")
        vm.prove("a call that was cancelled while waiting never runs", "call" not in names and e is not None)
        vm.prove("and never takes the lock", not free and "acquire" not in names)
        return
    vm.prove("the method is called once", names.count("call") == 1)
    if free:
        vm.cover("no lock")
        vm.prove("a lock-free method never waits for the lock", "acquire" not in names)
    else:
        vm.cover("locked")
        end = max(i for i, n in enumerate(names) if n in ("done", "failed"))
        vm.prove("one critical section", names.count("acquire") == 1 and names.count("release") == 1)
        vm.prove("around the whole method", "acquire" in names and names.index("acquire") < names.index("call") and "release" in names and names.index("release") > end, f"{log}")
        vm.prove("the lock is held while the method runs", all(x[1] for x in log if x[0] in ("call", "run")))
    if "failed" in names:
        vm.cover("failed")
        vm.prove("the error of the method is raised", e is m.error, f"{e!r}")
        vm.prove("a failed method has no result", not got)
    else:
        vm.prove("the result is handled once", len(got) == 1 and got[0] is m.result)
        vm.prove("the lock is not held while awaitables of the result are awaited", all(not x[1] for x in log if x[0] == "handle"))
        if e is None:
            vm.cover("returned")
            vm.prove("the outcome is returned", r is out)
        else:
            vm.prove("the error of the result is raised", e is err)


def wrapper(vm):
    log = []
    lock = Lock(log)
    m = arbitrary_method(vm, log, lock)
    h, got, out, err = handler(log, lock, vm)
    x, kw = vm.opaque("argument"), vm.opaque("keyword argument")
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.lookup(K, "__pyx_actor_method_wrapper"), [m, Stub(h), lock, (x,), VDict([["k", kw]])], {})))
    settle(vm, log, lock, m, got, out, err, r, e)
    if m.args is not None:
        vm.prove("with its arguments", m.args[0] == [x] and list(m.args[1].items()) == [("k", kw)])


def debug_off(vm):
    class Debug:
        pass

    vm.stubs["xoscar.debug.debug_async_timeout"] = Stub(lambda vm, a, k: lib.NullCM(), "debug_async_timeout")
    vm.stubs["xoscar.debug.pop_message_trace"] = Stub(lambda vm, a, k: vm.opaque("trace"), "pop_message_trace")
    vm.stubs["xoscar.debug.set_message_trace"] = Stub(lambda vm, a, k: None, "set_message_trace")


def received(batch):
    def body(vm):
        log = []
        lock = Lock(log)
        m = arbitrary_method(vm, log, lock)
        h, got, out, err = handler(log, lock, vm)
        vm.contracts[f"{K}:_BaseActor._handle_actor_result"] = h
        act = new(vm, K, "_BaseActor", _lock=lock, _uid=b"uid", _address="addr", method=m)
        vm.overrides.setdefault(K, {})["_log_unhandled_errors"] = vm.choose(2, "errors are logged") == 1
        vm.stubs["xoscar.debug.logger"] = Logger()
        x, y, kw = vm.opaque("argument"), vm.opaque("argument 2"), vm.opaque("keyword argument")
        has_kw = vm.choose(2, "keyword arguments") == 1
        if batch:
            lists = (VList([(x,), (y,)]), VList([VDict(), VDict([["k", kw]])]) if has_kw else None)
            msg = ("method", vm.lookup(K, "CALL_METHOD_BATCH"), lists, None)
        else:
            msg = ("method", vm.lookup(K, "CALL_METHOD_DEFAULT"), (x, y), VDict([["k", kw]] if has_kw else []))
        r, e = attempt(vm, lambda: vm.await_(call(vm, act, "__on_receive__", msg)))
        settle(vm, log, lock, m, got, out, err, r, e)
        if m.args is not None:
            a, k = m.args
            if not batch:
                vm.prove("with its arguments", a == [x, y] and list(k.items()) == ([("k", kw)] if has_kw else []))
            else:
                al, kl = [vm.concrete_list(z) for z in a]
                vm.prove("with the arguments of all calls in order", al == [(x,), (y,)])
                vm.prove("and their keyword arguments", [z.items for z in kl] == ([[], [["k", kw]]] if has_kw else [[], []]))

    return body


def bad_call(vm):
    log = []
    lock = Lock(log)
    act = new(vm, K, "_BaseActor", _lock=lock, _uid=b"uid", _address="addr")
    vm.overrides.setdefault(K, {})["_log_unhandled_errors"] = False
    act.partial = False  # a method that does not exist
    kind = vm.lookup(K, "CALL_METHOD_BATCH" if vm.choose(2, "batch") else "CALL_METHOD_DEFAULT")
    r, e = attempt(vm, lambda: vm.await_(call(vm, act, "__on_receive__", ("nothing", kind, ((), None), VDict()))))
    vm.cover("refused")
    vm.prove("a method that does not exist is an AttributeError", exc_is(vm, e, AttributeError))
    vm.prove("and leaves the lock free", not lock.held)


class Return_(Host):
    pass


class Gen(Host):
    """async generator of a method; each step may yield, return or fail"""

    def __init__(self, vm, log, lock):
        self.log, self.lock = log, lock
        self.expect = ("value", None)
        self.value = vm.opaque("returned")
        self.error = SExc("error of the generator", Exception)
        self.end = None
        self.n = 0

    def step(self, vm, got):
        def run(vm):
            self.log.append(("step", self.lock.held))
            self.n += 1
            vm.cover("sent a value" if got[0] == "value" else "sent an error")
            vm.prove("the generator gets back the outcome of what it yielded", got[0] == self.expect[0] and (got[1] is self.expect[1]), f"{got} {self.expect}")
            d = vm.choose(4, "generator: yields, ends, returns a value, fails")
            if d == 0:
                self.yielded = vm.opaque("yielded")
                return self.yielded
            self.end = d
            if d == 1:
                raise PyExc(StopAsyncIteration())
            if d == 2:
                e = vm.call(vm.lookup(K, "Return"), [self.value], {})
                raise PyExc(e)
            # the generator's own failure is no end of iteration
            self.error.known += [(StopAsyncIteration, False), (vm.lookup(K, "Return"), False)]
            raise PyExc(self.error)

        return Awaitable(run, "step")

    def m_asend(self, vm, a, k):
        return self.step(vm, ("value", a[0]))

    def m___anext__(self, vm, a, k):
        return self.step(vm, ("value", None))

    def m_athrow(self, vm, a, k):
        return self.step(vm, ("error", a[1] if len(a) > 1 else a[0]))

    def m_aclose(self, vm, a, k):
        return Awaitable(lambda vm: None)


def generator(vm):
    debug_off(vm)
    log = []
    lock = Lock(log)
    gen = Gen(vm, log, lock)
    vm.overrides.setdefault(K, {})["_log_cycle_send"] = vm.choose(2, "debugging") == 1
    handled = []

    def handle(vm, a, k):
        y = a[-1]

        def run(vm):
            log.append(("handle", lock.held))
            handled.append(y)
            vm.prove("what was yielded is handled", y is gen.yielded)
            vm.prove("the lock is not held while what was yielded is awaited", not lock.held)
            if vm.choose(2, "what was yielded fails"):
                e = SExc("outcome", BaseException)
                gen.expect = ("error", e)
                raise PyExc(e)
            v = vm.opaque("outcome")
            gen.expect = ("value", v)
            return v

        return Awaitable(run, "handle")

    vm.contracts[f"{K}:_BaseActor._handle_actor_result"] = handle
    act = new(vm, K, "_BaseActor", _lock=lock, _uid=b"uid", _address="addr")

    def havoc_(vm, fr):
        if not {"res", "is_exception"} <= set(fr.locals):
            raise Unsupported("the state of the loop is kept in another way")
        log.clear()
        if vm.choose(2, "previous outcome was an error"):
            e = SExc("previous outcome", BaseException)
            gen.expect = ("error", e)
            fr.locals["res"] = (vm.exc_class(e), e, vm.opaque("tb", "traceback"))
            fr.locals["is_exception"] = True
        else:
            v = vm.opaque("previous outcome")
            gen.expect = ("value", v)
            fr.locals["res"] = v
            fr.locals["is_exception"] = False

    def inv(vm, fr):
        loc = fr.locals
        if not {"res", "is_exception"} <= set(loc):
            raise Unsupported("the state of the loop is kept in another way")
        res, exc = loc["res"], loc["is_exception"]
        kind, x = gen.expect
        good = (exc is False and kind == "value" and res is x) or (exc is True and kind == "error" and isinstance(res, tuple) and len(res) == 3 and res[1] is x)
        return [("the lock is free", not lock.held), ("the outcome of the last yield is kept", good)]

    vm.loops.append(WhileSpec("steps", lambda vm, st, fr: fr.func.qualname.endswith("_run_actor_async_generator"), havoc_, inv))
    lock.cancellable = False
    r, e = attempt(vm, lambda: vm.await_(call(vm, act, "_run_actor_async_generator", gen)))
    vm.prove("the lock is free at the end", not lock.held)
    vm.prove("every step holds the lock", all(x[1] for x in log if x[0] == "step"))
    if gen.end == 1:
        vm.cover("ended")
        vm.prove("a generator that ends gives nothing", e is None and r is None)
    elif gen.end == 2:
        vm.cover("returned")
        vm.prove("a generator that returns a value gives it", e is None and r is gen.value, f"{r!r} {e!r}")
    elif gen.end == 3:
        vm.cover("failed")
        vm.prove("an error of the generator is raised", e is gen.error, f"{e!r}")


def fake_lock(vm):
    """the lock of stateless actors never waits"""
    lock = vm.call(vm.lookup(K, "_FakeLock"), [], {})
    for _ in range(2):
        vm.await_(call(vm, lock, "__aenter__"))
    r = vm.await_(call(vm, lock, "__aexit__", None, None, None))
    vm.cover("entered")
    vm.prove("entered twice without waiting", True)
    vm.prove("errors pass", not vm.truth(r))


def locks(vm):
    made = []

    class ALock(Host):
        pass

    vm.stubs["asyncio.locks.Lock"] = vm.stubs["asyncio.Lock"] = Stub(lambda vm, a, k: made.append(ALock()) or made[-1], "Lock")
    a, b = vm.call(vm.lookup(K, "_Actor"), [], {}), vm.call(vm.lookup(K, "_Actor"), [], {})
    s = vm.call(vm.lookup(K, "_StatelessActor"), [], {})
    vm.cover("made")
    vm.prove("every stateful actor has a lock of its own", len(made) == 2 and a.attrs.get("_lock") is made[0] and b.attrs.get("_lock") is made[1])
    vm.prove("stateless actors have none", isinstance(s.attrs.get("_lock"), IObj) and s.attrs["_lock"].cls is vm.lookup(K, "_FakeLock"))


def local_reference(vm):
    """calls through a local reference are calls of the actor's method under the actor's own lock"""
    log = []
    lock = Lock(log)
    m = arbitrary_method(vm, log, lock)
    batch = m.batch = Method(vm, log, lock, None)
    act = new(vm, K, "_BaseActor", _lock=lock, _uid=b"uid", _address="addr", meth=m)

    class Weak(Host):
        def vm_call(self, vm, a, k):
            return act if alive else None

    alive = vm.choose(2, "the actor is found by its weak reference") == 1
    vm.stubs["weakref.ref"] = Stub(lambda vm, a, k: Weak(), "ref")
    there = alive or vm.choose(2, "the actor is registered") == 1
    vm.contracts[f"{K}:_get_local_actor"] = lambda vm, a, k: act if there else None
    ref = vm.call(vm.lookup(K, "LocalActorRef"), [act], {})
    made, tasks = [], []

    def wrapper_contract(vm, a, k):
        made.append(list(a))
        return Awaitable(lambda vm: None, "wrapper")

    vm.contracts[f"{K}:__pyx_actor_method_wrapper"] = wrapper_contract
    vm.stubs["asyncio.create_task"] = Stub(lambda vm, a, k: tasks.append(a[0]), "create_task")
    vm.stubs["asyncio.sleep"] = Stub(lambda vm, a, k: Awaitable(lambda vm: None, "sleep"), "sleep")
    x, kw = vm.opaque("argument"), vm.opaque("keyword argument")
    way = ["call", "send", "tell", "batch", "batch tell"][vm.choose(5, "way")]

    def go():
        f = vm.getattr(ref, "meth")
        if way == "call":
            return vm.call(f, [x], {"k": kw})
        if way in ("send", "tell"):
            return call(vm, f, way, x, k=kw)
        return call(vm, f, "batch", x, kw, send=way == "batch")

    r, e = attempt(vm, go)
    if not there:
        vm.cover("gone")
        vm.prove("an actor that is gone is an ActorNotExist", e is not None and isinstance(e, IObj) and e.cls.name == "ActorNotExist", f"{e!r}")
        vm.prove("and nothing is called", not made)
        return
    vm.cover("called")
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("one call under the lock", len(made) == 1)
    if len(made) != 1:
        return
    method, h, l, args, kwargs = made[0]
    vm.prove("of this method", method is (batch if "batch" in way else m))
    vm.prove("with the lock of this actor", l is lock)
    vm.prove("with the handler of this actor", isinstance(h, (IMethod,)) and h.self_ is act and h.func.name == "_handle_actor_result" or isinstance(h, Stub))
    if "batch" in way:
        vm.prove("with its arguments", list(args) == [x, kw] and not kwargs.items)
    else:
        vm.prove("with its arguments", list(args) == [x] and kwargs.items == [["k", kw]])
    vm.prove("a tell runs on its own, any other call is awaited by the caller", bool(tasks) == (way in ("tell", "batch tell")) and len(tasks) <= 1)


from pyvc.interp import Logger  # noqa: E402

CASES = [
    Case("wrapper of local calls", [f"{K}:__pyx_actor_method_wrapper", f"{K}:_has_no_lock_hint_for_method"], wrapper,
         covers=["locked", "no lock", "failed", "returned", "cancelled"], need=30),
    Case("call received", [f"{K}:_BaseActor.__on_receive__", f"{K}:_has_no_lock_hint_for_method"], received(False), debug_off,
         covers=["locked", "no lock", "failed", "returned", "cancelled"], need=30),
    Case("batch received", [f"{K}:_BaseActor.__on_receive__"], received(True), debug_off,
         covers=["locked", "no lock", "failed", "returned", "cancelled"], need=30),
    Case("wrong call received", [f"{K}:_BaseActor.__on_receive__"], bad_call, debug_off, covers=["refused"], need=2),
    Case("async generator", [f"{K}:_BaseActor._run_actor_async_generator"], generator, covers=["ended", "returned", "failed", "sent a value", "sent an error"], need=20),
    Case("stateless actors", [f"{K}:_FakeLock.__aenter__", f"{K}:_FakeLock.__aexit__"], fake_lock, covers=["entered"], need=2),
    Case("locks of actors", [f"{K}:_BaseActor.__cinit__", f"{K}:_Actor._create_lock", f"{K}:_StatelessActor._create_lock"], locks, covers=["made"], need=2),
    Case("local references", [f"{K}:LocalActorRefMethod.send", f"{K}:LocalActorRefMethod.__call__", f"{K}:LocalActorRefMethod.tell", f"{K}:LocalActorRefMethod.batch",
                              f"{K}:LocalActorRefMethod._get_referent", f"{K}:LocalActorRef.__getattr__", f"{K}:LocalActorRef._weakref_local_actor"],
         local_reference, covers=["gone", "called"], need=20),
]

ASSUMPTIONS = [
    "asyncio.Lock excludes: between a completed acquire and the release no other acquire completes",
    "a method is arbitrary: it returns a value, returns a coroutine that returns or raises anything, or raises anything (BaseException)",
    "the debug options are without effect on calls",
    "all users of an actor call it through __on_receive__ or a local reference (the pools do, C09)",
]
