"""C05: each caller gets its own response; a lost connection fails all waiters.

Any number of calls is in flight on a client.  What the listener does is proved for one
arbitrary step (what is received next); between the steps other tasks register calls and
cancel them.
"""

import asyncio

from .base import *  # noqa: F401,F403
from . import refs as references
from . import context as asking

M = "xoscar.backends.core"
MSG = "xoscar.backends.message"
DONE = z3.Function("done", U, z3.BoolSort())


class Future(Host):
    """the future of a call in flight"""

    def __init__(self, t, log):
        self.t, self.log = t, log

    def m_done(self, vm, a, k):
        return SBool(DONE(self.t))

    def m_cancelled(self, vm, a, k):
        raise Unsupported("cancelled")

    def m_set_result(self, vm, a, k):
        vm.prove("a call that is done gets nothing more", z3.Not(DONE(self.t)))
        self.log.append(("result", self.t, a[0]))

    def m_set_exception(self, vm, a, k):
        vm.prove("a call that is done gets nothing more", z3.Not(DONE(self.t)))
        self.log.append(("error", self.t, a[0]))


class Calls(Host):
    """client -> calls in flight, for one client"""

    def __init__(self, vm, client, log):
        self.client, self.log = client, log
        self.fresh(vm)

    def fresh(self, vm):
        """any calls in flight"""
        self.map = Map(vm, "calls in flight", wrap=lambda t: Future(t, self.log), keywrap=lambda t: SVal(t, "bytes"))
        self.replaced = 0

    def vm_getitem(self, vm, k):
        vm.prove("only calls of this client are touched", k is self.client)
        if self.map is None:
            raise PyExc(KeyError("client"))
        return self.map

    def suspended(self, vm):
        """another task may register a call now"""
        vm.prove("calls can be registered whenever others run", self.map is not None)

    def m_get(self, vm, a, k):
        return self.vm_getitem(vm, a[0])

    def vm_setitem(self, vm, k, v):
        vm.prove("only calls of this client are touched", k is self.client)
        self.map = v
        self.replaced += 1

    def m_pop(self, vm, a, k):
        m = self.vm_getitem(vm, a[0])
        self.map = None
        return m

    def vm_contains(self, vm, k):
        return k is self.client and self.map is not None


class Client(Host):
    def __init__(self, vm, log):
        self.log, self.closes, self.n = log, 0, 0
        self.dest_address, self.local_address, self.channel_type = vm.opaque("dest", "str"), vm.opaque("local", "str"), None

    def vm_getattr(self, vm, name):
        if name == "closed":
            self.n += 1
            return SBool(z3.Bool(f"closed {self.n}"))
        if name in ("dest_address", "local_address", "channel_type"):
            return getattr(self, name)
        return super().vm_getattr(vm, name)

    def m_close(self, vm, a, k):
        def run(vm):
            self.suspended(vm)
            self.closes += 1
            if self.closefails:
                raise PyExc(ConnectionError())

        return Awaitable(run, "close")

    closefails = False
    suspended = staticmethod(lambda vm: None)


def setup(vm):
    vm.stubs["copy.copy"] = Stub(lambda vm, a, k: a[0], "copy")
    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(lambda vm, a, k: Awaitable(lambda vm: None, "sleep"), "sleep")


def is_error(vm, x):
    return isinstance(x, (SExc, BaseException)) or isinstance(x, IObj) and vm.isinst(x, BaseException)


def listen(vm):
    log, state = [], {}
    client = Client(vm, log)
    calls = Calls(vm, client, log)
    client.suspended = lambda vm: calls.suspended(vm)
    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(lambda vm, a, k: Awaitable(client.suspended, "sleep"), "sleep")
    p = new(vm, M, "ActorCallerThreadLocal", _client_to_message_futures=calls, _clients=VDict())
    kind = vm.choose(6, "a response, one that cannot be read, end, connection error, another error, cancelled")
    client.closefails = vm.choose(2, "closing fails") == 1
    mid = vm.opaque("message id", "bytes")
    msg = new(vm, MSG, "ResultMessage", message_id=mid, result=vm.opaque("result"))
    cause = SExc("cause", Exception)
    unread = vm.lookup(MSG, "DeserializeMessageFailed")
    other = SExc("another error", Exception)
    other.known += [(EOFError, False), (ConnectionError, False), (BrokenPipeError, False), (unread, False)]

    def receive(vm, a, k):
        def run(vm):
            calls.fresh(vm)
            state["begin"] = calls.map.graph()
            state["map"] = calls.map
            if kind < 2:
                # responses are to calls that were sent
                vm.assume(calls.map.has(mid.t))
            if kind == 0:
                return msg
            if kind == 1:
                e = vm.call(unread, [mid], {})
                e.attrs["__cause__"] = cause
                raise PyExc(e)
            raise PyExc([None, None, EOFError(), ConnectionError(), other, asyncio.CancelledError()][kind])

        return Awaitable(run, "recv")

    client.m_recv = receive

    def all_fail(it, i):
        """in one round of the loop that fails calls"""

    def whole(it):
        """the calls looped over, from the first one on (or a part of them, from another one on)"""
        seq, start = it.whole() if isinstance(it, SSeq) else (it, z3.IntVal(0))
        return getattr(seq, "map", None), start

    def sel(vm, st, fr, it):
        return whole(it)[0] is not None

    def havoc_(vm, fr, it, i):
        del log[:]
        state["over"], state["start"] = whole(it)
        state["round"] = i
        state.pop("checked", None)

    def inv(vm, fr, it, i):
        if "round" in state and "checked" not in state:
            state["checked"] = True
            r = state["round"]
            m, start = whole(it)
            t = m.val(m.key_(z3.simplify(r + start)))
            vm.prove("every call that waits fails once", z3.BoolVal(len(log) == 1) == z3.Not(DONE(t)) if len(log) < 2 else z3.BoolVal(False))
            for what, f, x in log[:1]:
                vm.prove("by an error", what == "error" and f.eq(t) and is_error(vm, x))
        return []

    vm.loops.append(LoopSpec("calls", sel, havoc_, inv))

    def start(vm, fr):
        state.clear()
        del log[:]
        calls.fresh(vm)
        state["whole"] = calls.map
        client.closes = 0
        # the loop leaves nothing behind in its locals
        for k in ("message", "future", "e"):
            fr.locals.pop(k, None)

    def step(vm, fr):
        if "begin" not in state:
            return []
        judge(vm)
        return []

    def judge(vm):
        x = z3.Const(vm.fresh_name("any id"), U)
        g = state["begin"]
        if kind in (0, 1):
            vm.cover("response" if kind == 0 else "unreadable response")
            h = graph(vm, calls.map)
            f = g[1](mid.t)
            vm.prove("exactly the call with this id is answered", z3.And(h[0](x) == z3.And(g[0](x), x != mid.t), z3.Implies(h[0](x), h[1](x) == g[1](x))))
            vm.prove("unless it is done", z3.BoolVal(len(log) == 1) == z3.Not(DONE(f)) if len(log) < 2 else z3.BoolVal(False))
            for what, t, v in log[:1]:
                vm.prove("its own call", t == f)
                if kind == 0:
                    vm.prove("gets the response", what == "result" and v is msg)
                else:
                    vm.prove("fails with the original error", what == "error" and v is cause)
            vm.prove("the connection stays", client.closes == 0)
        else:
            vm.cover("connection lost" if kind < 4 else "failure")
            vm.prove("all calls in flight fail", z3.BoolVal(False) if "round" not in state or state["over"] is not state["map"] else state["round"] == state["map"].size)
            vm.prove("none twice", not [x for x in log if "round" not in state])
            if kind < 4:
                vm.prove("the client is closed", client.closes == 1)

    vm.loops.append(WhileSpec("listening", lambda vm, st, fr: True, start, step))
    r, e = attempt(vm, lambda: acall(vm, p, "_listen", client))
    vm.prove("the client is closed in the end", client.closes >= 1)
    if e is not None:
        vm.cover("cancelled")
        vm.prove("only the end of the listener itself is raised", kind == 5 and exc_is(vm, e, asyncio.CancelledError))
        return
    vm.cover("closed")
    vm.prove("the client was closed", z3.Bool(f"closed {client.n}"))
    vm.prove("all calls in flight have failed", z3.BoolVal(False) if "round" not in state or state["over"] is not state["whole"] else z3.And(state["start"] == 0, state["round"] == state["whole"].size))


def calling(vm, buffers=False):
    """a call is registered before it is sent and waits for its own response"""
    log = []
    client = Client(vm, log)
    calls = Calls(vm, client, log)
    g = calls.map.graph()
    mid = vm.opaque("message id", "bytes")
    vm.assume(z3.Not(g[0](mid.t)))
    msg = new(vm, MSG, "SendMessage", message_id=mid)
    outcome = vm.choose(5, "answered, fails, connection lost when sending, sending fails, cancelled")
    wait = vm.choose(2, "wait") == 1
    client.closefails = vm.choose(2, "closing fails") == 1
    answer, error = vm.opaque("answer"), SExc("error", Exception)
    unsent = SExc("cannot be sent", Exception)
    unsent.known.append((ConnectionError, False))
    state = {}

    class Mine(Future):
        def __init__(self):
            super().__init__(z3.Const("my future", U), log)

        def vm_await(self, vm):
            state["waited"] = state.get("waited", 0) + 1
            vm.prove("waiting after sending", "sent" in state)
            if outcome == 1:
                raise PyExc(error)
            if outcome == 4:
                raise PyExc(asyncio.CancelledError())
            return answer

    mine = Mine()
    vm.const_terms = getattr(vm, "const_terms", None)

    class Loop(Host):
        def m_create_future(self, vm, a, k):
            vm.prove("one future", "made" not in state)
            state["made"] = True
            return mine

    for n in ("get_running_loop", "get_event_loop", "events.get_running_loop"):
        vm.stubs["asyncio." + n] = Stub(lambda vm, a, k: Loop(), n)

    def send(vm, a, k):
        def run(vm):
            state["sent"] = a[0]
            h = calls.map.graph()
            vm.prove("a call is registered before it is sent", z3.And(h[0](mid.t), h[1](mid.t) == vm.term(mine)))
            vm.prove("other calls stay", same_map(vm, h, g, [mid.t]))
            if outcome == 2:
                raise PyExc(ConnectionError())
            if outcome == 3:
                raise PyExc(unsent)

        return Awaitable(run, "send")

    local = vm.opaque("local buffers")
    if buffers:

        def send_buffers(vm, a, k):
            vm.prove("these buffers", len(a) == 2 and a[0] is local)
            return send(vm, [a[1]], k)

        client.m_send_buffers = send_buffers
    else:
        client.m_send = send
    profiled, duration = [], vm.opaque("duration")

    class Profiling(Host):
        def m_collect_actor_call(self, vm, a, k):
            profiled.append([*a, *k.values()])

    p = new(vm, M, "ActorCallerThreadLocal", _client_to_message_futures=calls, _profiling_data=Profiling())

    class Timing(Host):
        def p_duration(self, vm):
            vm.prove("the time is taken when the call has ended", self.ended)
            return duration

        ended = False

        def m___enter__(self, vm, a, k):
            return self

        def m___exit__(self, vm, a, k):
            self.ended = True
            return None

    vm.contracts["xoscar._utils:Timer"] = lambda vm, a, k: Timing()
    r, e = attempt(vm, lambda: acall(vm, p, *(("call_send_buffers", client, local) if buffers else ("call_with_client", client)), msg, wait))
    vm.prove("the message is sent", state.get("sent") is msg)
    if e is None:
        vm.prove("the call is recorded once, with its time", profiled == [[msg, duration]])
    vm.prove("other calls stay", same_map(vm, graph(vm, calls.map), g, [mid.t]))
    if outcome == 2:
        vm.cover("connection lost")
        vm.prove("a lost connection is a ServerClosed", e is not None and vm.isinst(e, vm.lookup("xoscar.errors", "ServerClosed")))
        vm.prove("and closes the client, so that the other calls fail as well", client.closes == 1)
    elif outcome == 3:
        vm.cover("not sent")
        vm.prove("a message that cannot be sent fails its call only", e is unsent and client.closes == 0)
    elif not wait:
        vm.cover("not waited for")
        vm.prove("the future is given to the caller", e is None and r is mine and "waited" not in state)
    elif outcome == 0:
        vm.cover("answered")
        vm.prove("the caller gets what its future gets", e is None and r is answer and state["waited"] == 1)
    elif outcome == 1:
        vm.cover("failed")
        vm.prove("the caller gets the error", e is error)
    else:
        vm.cover("cancelled")
        vm.prove("a cancelled call disturbs nobody", exc_is(vm, e, asyncio.CancelledError) and client.closes == 0 and not log)


def listeners(vm):
    """one listener for every client"""
    client = vm.opaque("client", "client")
    clients, futures = Map(vm, "clients"), Map(vm, "futures of clients")
    clients.m___len__ = lambda vm, a, k: vm.fresh_int("clients", 0)
    clients.vm_len = lambda vm: vm.fresh_int("clients", 0)
    g, f = clients.graph(), futures.graph()
    started = []
    task = vm.opaque("listener")
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: started.append(a[0]) or task, "create_task")
    vm.contracts[f"{M}:ActorCallerThreadLocal._listen"] = lambda vm, a, k: ("listen", a[1])
    p = new(vm, M, "ActorCallerThreadLocal", _client_to_message_futures=futures, _clients=clients)

    class Router(Host):
        def m_get_client(self, vm, a, k):
            return Awaitable(lambda vm: client, "get client")

        def m_get_client_via_type(self, vm, a, k):
            return Awaitable(lambda vm: client, "get client")

    if vm.choose(2, "by type"):
        r = acall(vm, p, "get_client_via_type", Router(), vm.opaque("address", "str"), vm.opaque("type"))
    else:
        r = acall(vm, p, "get_client", Router(), vm.opaque("address", "str"))
    vm.prove("the client of the router", r is client)
    h, j = clients.graph(), futures.graph()
    vm.prove("other clients stay", z3.And(same_map(vm, h, g, [client.t]), same_map(vm, j, f, [client.t])))
    vm.prove("the client is listened to", h[0](client.t))
    if vm.branch(g[0](client.t)):
        vm.cover("known")
        vm.prove("a client that is listened to stays as it is", z3.And(z3.BoolVal(not started), h[1](client.t) == g[1](client.t), j[0](client.t) == f[0](client.t), j[1](client.t) == f[1](client.t)))
    else:
        vm.cover("new")
        vm.prove("one listener is started", started == [("listen", client)])
        vm.prove("and no call is in flight", j[0](client.t))


def forwarding(vm):
    """a call through a client of another address is wrapped, with the id of the call"""
    log = []
    T, C = vm.lookup(MSG, "MessageType"), vm.lookup("xoscar.backends.communication.base", "ChannelType")
    client = Client(vm, log)
    types = [vm.getattr(C, n) for n in ("remote", "local", "ipc")]
    client.channel_type = types[vm.choose(3, "channel")]
    kinds = ["SendMessage", "ControlMessage"]
    kind = kinds[vm.choose(2, "message")]
    mid = vm.opaque("message id", "bytes")
    msg = vm.call(vm.lookup(MSG, kind), [mid] + [vm.opaque(f"field {i}") for i in range(2)], {"protocol": 0})
    address = vm.opaque("address", "str")
    wait = vm.opaque("wait", "bool")
    proxies = vm.opaque("proxies", "list")
    router = vm.opaque("router", "router")
    sent = []
    p = new(vm, M, "ActorCallerThreadLocal")

    def get(vm, a, k):
        vm.prove("a client to the destination, by its proxies", a[1] is router and a[2] is address and (a[3] if len(a) > 3 else k.get("proxy_addresses")) is proxies)
        return Awaitable(lambda vm: client, "get client")

    def call_(vm, a, k):
        sent.append((a[1], a[2], a[3] if len(a) > 3 else k.get("wait")))
        return Awaitable(lambda vm: "reply", "call")

    vm.contracts[f"{M}:ActorCallerThreadLocal.get_client"] = get
    vm.contracts[f"{M}:ActorCallerThreadLocal.call_with_client"] = call_
    r = acall(vm, p, "call", router, address, msg, wait, proxies)
    vm.prove("called once, with the client", len(sent) == 1 and sent[0][0] is client and sent[0][2] is wait and r == "reply")
    m = sent[0][1]
    needs = vm.branch(client.dest_address.t != address.t) and client.channel_type is types[0] and kind == "SendMessage"
    if needs:
        vm.cover("wrapped")
        vm.prove("wrapped for the destination", isinstance(m, IObj) and m.cls is vm.lookup(MSG, "ForwardMessage") and vm.getattr(m, "address") is address and vm.getattr(m, "raw_message") is msg)
        vm.prove("with the id of the call", same(vm, vm.getattr(m, "message_id"), mid))
    else:
        vm.cover("as it is")
        vm.prove("the message is sent as it is", m is msg)


A = f"{M}:ActorCallerThreadLocal"
def of_thread(vm):
    """every thread has its own caller, which is stopped when the thread ends"""
    known = vm.choose(2, "caller known") == 1
    made, finalizers, stopped, submitted = [], [], [], []
    attribute = vm.opaque("attribute")
    loop = vm.opaque("loop of the closing thread")

    class Caller(Host):
        def p_call(self, vm):
            return attribute

        def m_stop(self, vm, a, k):
            stopped.append(self)
            return ("stop", self)

    old = Caller()

    class Local(Host):
        """of one thread: nothing of other threads is seen"""

        def __init__(self):
            self.d = {"actor_caller": old} if known else {}

        def vm_getattr(self, vm, name):
            if name not in self.d:
                raise PyExc(AttributeError(name))
            return self.d[name]

        def vm_hasattr(self, vm, name):
            return name in self.d

        def vm_setattr(self, vm, name, v):
            self.d[name] = v

    def new_caller(vm, a, k):
        made.append(Caller())
        return made[-1]

    local = Local()
    vm.contracts[f"{M}:ActorCallerThreadLocal"] = new_caller
    vm.contracts[f"{M}:ActorCaller._ensure_initialized"] = lambda vm, a, k: submitted.append("ready")
    vm.stubs["weakref.finalize"] = Stub(lambda vm, a, k: finalizers.append((a[0], a[1], list(a[2:]), k)), "finalize")
    vm.stubs["threading.current_thread"] = Stub(lambda vm, a, k: "thread", "current_thread")
    vm.stubs["threading.local"] = Stub(lambda vm, a, k: local, "local")
    vm.stubs["asyncio.run_coroutine_threadsafe"] = vm.stubs["asyncio.tasks.run_coroutine_threadsafe"] = Stub(lambda vm, a, k: submitted.append(tuple(a)), "run_coroutine_threadsafe")
    p = vm.call(vm.lookup(M, "ActorCaller"), [], {})
    vm.setattr(vm.lookup(M, "ActorCaller"), "_close_loop", loop)
    r, e = attempt(vm, lambda: vm.getattr(p, "call"))
    vm.prove("the attribute of the caller of this thread", r is attribute and e is None, f"{e!r}")
    if known:
        vm.cover("known")
        vm.prove("the caller of this thread stays", local.d["actor_caller"] is old and not made and not finalizers)
        return
    vm.cover("made")
    vm.prove("one caller is made and kept for this thread", len(made) == 1 and local.d.get("actor_caller") is made[0])
    r2, e2 = attempt(vm, lambda: vm.getattr(p, "call"))
    vm.prove("it is used again", r2 is attribute and e2 is None and len(made) == 1)
    vm.prove("what goes with the thread is watched", len(finalizers) == 1 and any(finalizers[0][0] is v for v in local.d.values()) and finalizers[0][0] is not made[0])
    vm.prove("it runs as long as its thread", not stopped and not submitted)
    vm.call(finalizers[0][1], finalizers[0][2], finalizers[0][3])
    vm.prove("and is stopped with it, in the closing thread", submitted == ["ready", (("stop", made[0]), loop)])


CASES = [
    Case("listener", [f"{A}._listen"], listen, setup, covers=["listening: body reached", "calls: body reached", "response", "unreadable response", "connection lost", "failure", "cancelled", "closed"], need=60),
    Case("call", [f"{A}.call_with_client"], calling, setup, covers=["connection lost", "not sent", "not waited for", "answered", "failed", "cancelled"], need=40),
    Case("listeners", [f"{A}._listen_client", f"{A}.get_client", f"{A}.get_client_via_type"], listeners, setup, covers=["known", "new"], need=8),
    Case("forwarding", [f"{A}.call"], forwarding, setup, covers=["wrapped", "as it is"], need=12),
    Case("call with buffers", [f"{A}.call_send_buffers"], lambda vm: calling(vm, True), setup, covers=["connection lost", "not sent", "not waited for", "answered", "failed", "cancelled"], need=40),
    Case("callers of threads", [f"{M}:ActorCaller.__getattr__", f"{M}:ActorCaller.__init__"], of_thread, setup, covers=["made", "known"], need=8),
    *asking.CALLED,
    *references.CALLS,
    *references.LATER,
    *asking.HANDED["send"],
]

ASSUMPTIONS = [
    "message ids of calls in flight differ; a response carries the id of a call that was sent on this client (C09)",
    "a client is given to a caller only while it is open (C12), so that calls are registered while its listener runs",
    "asyncio.Future wakes who waits for it; futures are done only by their listener and by cancellation",
]
