"""C09: every request gets exactly one reply, with its own id.

Requests, handlers and their outcomes are arbitrary.  From outside in: what arrives on a
channel becomes one task of process_message or one error reply (on_new_channel), each task
sends one reply (process_message), each reply that cannot be sent becomes one error reply
(_send_channel), and each handler answers with the id of its request.
"""

import asyncio

from .base import *  # noqa: F401,F403
from . import context as asking
from .c08 import failed_with, answered, is_msg, message, Actor, Actors, pool, Proxies
from . import c06, c08

P = "xoscar.backends.pool"
X = "xoscar.backends.context"
MSG = "xoscar.backends.message"
A = f"{P}:AbstractActorPool"
B = f"{P}:ActorPoolBase"
MAIN = f"{P}:MainActorPoolBase"


def setup(vm):
    c08.setup(vm)
    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(lambda vm, a, k: Awaitable(lambda vm: None, "sleep"), "sleep")
    vm.stubs["traceback.format_tb"] = Stub(lambda vm, a, k: VList([]), "format_tb")


def debug_off(vm):
    setup(vm)
    c06.debug_off(vm)


class Flag(Host):
    """asyncio.Event"""

    def __init__(self, value=None):
        self.value, self.n = value, 0

    def m_is_set(self, vm, a, k):
        if self.value is not None:
            return self.value
        self.n += 1
        return SBool(z3.Bool(f"stopped {self.n}"))


def arbitrary_error(vm, name="error", *not_):
    e = SExc(name, BaseException)
    e.known += [(c, False) for c in not_]
    return e


def error_reply(vm, r, mid, own, error=None):
    """an error reply with this id, telling this address"""
    if not is_msg(vm, r, "ErrorMessage"):
        return z3.BoolVal(False)
    cs = [same(vm, vm.getattr(r, "message_id"), mid), same(vm, vm.getattr(r, "address"), own), num_eq(vm, vm.getattr(r, "pid"), z3.Int("pid of this process"))]
    if error is not None:
        cs.append(z3.BoolVal(vm.getattr(r, "error") is error))
    return conj(cs)


def pid(vm):
    vm.stubs["os.getpid"] = Stub(lambda vm, a, k: SInt(z3.Int("pid of this process")), "getpid")


# ---------------------------------------------------------------- from what arrives to its reply


def arriving(vm):
    """one arbitrary step of the loop over what arrives on a channel"""
    pid(vm)
    state = {}
    kind = vm.choose(6, "message, meta message, unreadable with cause, unreadable, end, another error")
    unread = vm.lookup(MSG, "DeserializeMessageFailed")
    cause = arbitrary_error(vm, "cause")
    vm.assume(z3.BoolVal(True))
    mid = vm.opaque("message id", "bytes")
    msg = vm.opaque("message", "message")
    vm.assume(msg.t != vm.term(None))
    other = arbitrary_error(vm, "another error", EOFError, ConnectionError, BrokenPipeError, unread)
    end = [EOFError, ConnectionError, BrokenPipeError][vm.choose(3, "end")] if kind == 4 else None
    closing = vm.choose(3, "closing works, fails as lost, fails otherwise")
    log, closes = [], []

    class Channel(Host):
        def m_recv(self, vm, a, k):
            def run(vm):
                del log[:]
                del closes[:]
                state["received"] = True
                if kind < 2:
                    return msg
                if kind < 4:
                    e = vm.call(unread, [mid], {})
                    e.attrs["__cause__"] = cause if kind == 2 else None
                    state["e"] = e
                    raise PyExc(e)
                raise PyExc(end() if kind == 4 else other)

            return Awaitable(run, "recv")

        def m_close(self, vm, a, k):
            def run(vm):
                closes.append(1)
                if closing:
                    raise PyExc(ConnectionError() if closing == 1 else arbitrary_error(vm, "cannot close"))

            return Awaitable(run, "close")

    channel = Channel()
    own = vm.opaque("own address", "str")
    p = new(vm, P, "ActorPoolBase", external_address=own, _stopped=Flag())
    vm.contracts[f"{A}.process_message"] = lambda vm, a, k: ("process", a[1], a[2])

    def meta(vm, a, k):
        def run(vm):
            if kind == 1:
                log.append(("meta", a[1], a[2]))
            return kind == 1

        return Awaitable(run, "meta")

    vm.contracts[f"{A}._handle_ucx_meta_message"] = meta
    vm.contracts[f"{A}._send_channel"] = lambda vm, a, k: Awaitable(lambda vm: log.append(("send", a[1], a[2])), "send")
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: log.append(a[0]), "create_task")

    def start(vm, fr):
        del log[:]
        del closes[:]
        state.clear()
        for k in ("message", "e", "processor"):
            fr.locals.pop(k, None)

    def step(vm, fr):
        if "received" in state:
            judge()
        return []

    def judge():
        vm.prove("one reply", len(log) == 1)
        if kind == 0:
            vm.cover("request")
            vm.prove("a request is processed once, for its own channel", len(log) == 1 and log[0][0] == "process" and log[0][1] is msg and log[0][2] is channel)
        elif kind == 1:
            vm.cover("meta")
            vm.prove("a meta message is handled", len(log) == 1 and log[0] == ("meta", msg, channel))
        elif kind in (2, 3):
            vm.cover("unreadable")
            ok = len(log) == 1 and log[0][0] == "send" and log[0][2] is channel
            vm.prove("what cannot be read gets one error reply", z3.And(ok, error_reply(vm, log[0][1], mid, own, cause if kind == 2 else state["e"])) if ok else False)
        else:
            vm.prove("the loop goes on only after requests", False)
        vm.prove("the channel stays open", not closes)

    vm.loops.append(WhileSpec("arriving", lambda vm, st, fr: True, start, step))
    r, e = attempt(vm, lambda: acall(vm, p, "on_new_channel", channel))
    vm.prove("the channel is closed in the end", len(closes) >= 1)
    if e is not None:
        vm.cover("broken")
        vm.prove("only other errors of the channel are raised", kind == 5 and e is other or kind == 4 and closing == 2)
    elif kind == 4 and "received" in state:
        vm.cover("end")
        vm.prove("the end of a channel is no request", not log)
    else:
        vm.cover("stopped")


class Table(Map):
    def fresh(self, vm):
        f = Map(vm, "tasks")
        self.has, self.val = f.has, f.val


def processed(vm):
    """process_message: one reply, whatever the handler does"""
    pid(vm)
    T = vm.lookup(MSG, "MessageType")
    kinds = ["create_actor", "destroy_actor", "has_actor", "actor_ref", "send", "tell", "cancel", "forward", "control", "copy_to_buffers", "copy_to_fileobjs"]
    outcome = vm.choose(3, "reply, error, cancelled")
    reply = vm.opaque("reply", "message")
    vm.assume(reply.t != vm.term(None))
    error = arbitrary_error(vm) if outcome == 1 else asyncio.CancelledError()
    mid = vm.opaque("message id", "bytes")
    kind = vm.lookup(MSG, "MessageType")
    handled, sent = [], []
    channel = vm.opaque("channel", "channel")
    own = vm.opaque("own address", "str")
    table = Table(vm, "tasks")
    task = vm.opaque("current task", "task")
    vm.assume(z3.Not(table.has(mid.t)))
    for n in ("asyncio.current_task", "asyncio.tasks.current_task"):
        vm.stubs[n] = Stub(lambda vm, a, k: task, "current_task")
    state = {}
    msg = new(vm, MSG, "SendMessage", message_id=mid, protocol=0)
    p = new(vm, P, "ActorPoolBase", external_address=own, _process_messages=table)

    class Handler(Host):
        def vm_call(self, vm, a, k):
            handled.append((self, a))

            def run(vm):
                g = table.graph()
                state["known"] = z3.And(g[0](mid.t), g[1](mid.t) == task.t)
                # meanwhile other requests come and go
                before = table.graph()
                table.fresh(vm)
                vm.assume(z3.Implies(table.has(mid.t), table.val(mid.t) == task.t))
                state["then"] = table.graph()
                if outcome == 0:
                    return reply
                raise PyExc(error)

            return Awaitable(run, "handler")

    mine = Handler()

    class Handlers(Host):
        def vm_getitem(self, vm, k):
            vm.prove("the handler of this kind of message", same(vm, k, vm.getattr(msg, "message_type")))
            return mine

    p.attrs["_message_handler"] = Handlers()
    vm.contracts[f"{A}._send_channel"] = lambda vm, a, k: Awaitable(lambda vm: sent.append((a[1], a[2], len(a), k)), "send")
    r, e = attempt(vm, lambda: acall(vm, p, "process_message", msg, channel))
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("handled once", len(handled) == 1 and handled[0][1][0] is p and handled[0][1][1] is msg)
    vm.prove("while it is handled its task is known", state["known"])
    vm.prove("and not afterwards", z3.Not(table.has(mid.t)))
    vm.prove("other tasks stay", same_map(vm, table.graph(), state["then"], [mid.t]))
    vm.prove("one reply, on the channel of the request", len(sent) == 1 and sent[0][1] is channel and sent[0][2] == 3 and not sent[0][3])
    for what, _, _, _ in sent[:1]:
        if outcome == 0:
            vm.cover("reply")
            vm.prove("the reply of the handler", what is reply)
        else:
            vm.cover("error" if outcome == 1 else "cancelled")
            vm.prove("an error reply with the id of the request", error_reply(vm, what, mid, own, error))


def running(vm):
    """_run_coro: the task is known while the coroutine runs"""
    outcome = vm.choose(3, "value, error, cancelled")
    error = arbitrary_error(vm) if outcome == 1 else asyncio.CancelledError()
    value = vm.opaque("value")
    table = Table(vm, "tasks")
    g = table.graph()
    mid, task = vm.opaque("message id", "bytes"), vm.opaque("current task", "task")
    for n in ("asyncio.current_task", "asyncio.tasks.current_task"):
        vm.stubs[n] = Stub(lambda vm, a, k: task, "current_task")
    p = new(vm, P, "ActorPoolBase", _process_messages=table)
    state = {"runs": 0}

    def run(vm):
        state["runs"] += 1
        h = table.graph()
        vm.prove("its task is known", z3.And(h[0](mid.t), h[1](mid.t) == task.t))
        vm.prove("other tasks stay at the start", same_map(vm, h, g, [mid.t]))
        table.fresh(vm)
        state["then"] = table.graph()
        if outcome:
            raise PyExc(error)
        return value

    r, e = attempt(vm, lambda: acall(vm, p, "_run_coro", mid, Awaitable(run, "coroutine")))
    vm.cover(["value", "error", "cancelled"][outcome])
    vm.prove("run once", state["runs"] == 1)
    vm.prove("the outcome is that of the coroutine", r is value and e is None if outcome == 0 else e is error)
    h = table.graph()
    vm.prove("its task is known no longer", z3.Not(h[0](mid.t)))
    vm.prove("other tasks stay", same_map(vm, h, state["then"], [mid.t]))


def sending(vm):
    """_send_channel: sent once; what cannot be sent is replaced once"""
    pid(vm)
    closed = vm.lookup("xoscar.backends.communication.errors", "ChannelClosed")
    first = vm.choose(5, "sent, channel closed, connection reset, cannot be sent, cancelled")
    second = vm.choose(4, "sent, channel closed, connection reset, cannot be sent") if first == 3 else 0
    stop, shut = SBool(z3.Bool("stopped")), SBool(z3.Bool("channel is closed"))
    mid = vm.opaque("message id", "bytes")
    own = vm.opaque("own address", "str")
    err = vm.choose(2, "an error reply") == 1
    if err:
        msg = vm.call(vm.lookup(MSG, "ErrorMessage"), [mid, own, 1, vm.opaque("type"), SExc("original", BaseException), vm.opaque("tb")], {"protocol": 0})
    else:
        msg = new(vm, MSG, "ResultMessage", message_id=mid, protocol=0, result=vm.opaque("result"))
    sends = []

    def error(n):
        if n == 1:
            return vm.call(closed, [], {})
        if n == 2:
            return ConnectionResetError()
        if n == 4:
            return asyncio.CancelledError()
        e = SExc("cannot be sent", Exception)
        e.known += [(closed, False), (ConnectionResetError, False)]
        return e

    class Channel(Host):
        def m_send(self, vm, a, k):
            def run(vm):
                sends.append(a[0])
                if len(sends) > 2:
                    return None
                n = first if len(sends) == 1 else second
                if n:
                    raise PyExc(error(n))

            return Awaitable(run, "send")

        def vm_getattr(self, vm, name):
            if name == "closed":
                return shut
            if name in ("local_address", "dest_address"):
                return own
            return super().vm_getattr(vm, name)

    p = new(vm, P, "ActorPoolBase", external_address=own, _stopped=Flag(stop))
    r, e = attempt(vm, lambda: acall(vm, p, "_send_channel", msg, Channel()))
    vm.prove("the reply is sent, first", len(sends) >= 1 and sends[0] is msg)
    last = second if first == 3 else first
    if first == 3:
        vm.cover("replaced")
        vm.prove("what cannot be sent is replaced once", len(sends) == 2)
        if len(sends) < 2:
            return
        x = sends[1]
        vm.prove("by an error reply with its id", error_reply(vm, x, mid, own))
        if is_msg(vm, x, "ErrorMessage"):
            vm.prove("that tells that it could not be sent", vm.isinst(vm.getattr(x, "error"), vm.lookup("xoscar.errors", "SendMessageFailed")))
    else:
        vm.cover("sent" if first == 0 else "not sent")
        vm.prove("nothing else is sent", len(sends) == 1)
    if last == 0:
        vm.prove("no error", e is None)
    elif last in (1, 2):
        gone = z3.Or(stop.t, shut.t)
        vm.prove("a lost connection is told unless the pool or the channel has been closed", gone if e is None else z3.Not(gone))
    else:
        vm.prove("other errors are raised", e is not None)


def meta(vm):
    """_handle_ucx_meta_message: takes only its own messages, and replies once to them"""
    pid(vm)
    T = vm.lookup(MSG, "ControlMessageType")
    types = ["switch_to_copy_to", "stop", "sync_config", "get_config"]
    control = vm.choose(3, "a call, a result, a control message")
    ucx = vm.choose(2, "a channel of UCX") == 1
    t = types[vm.choose(len(types), "type")] if control == 2 else None
    mid = vm.opaque("message id", "bytes")
    own = vm.opaque("own address", "str")
    outcome = vm.choose(3, "received, error, cancelled") if ucx and t == types[0] else 0
    n = vm.choose(3, "buffers")
    refs = [(vm.opaque(f"address {i}", "str"), vm.opaque(f"uid {i}", "bytes")) for i in range(n)]
    if control == 2:
        msg = new(vm, MSG, "ControlMessage", message_id=mid, protocol=0, control_message_type=vm.getattr(T, t), content=VList(list(refs)))
    else:
        msg = new(vm, MSG, ["SendMessage", "ResultMessage"][control], message_id=mid, protocol=0)
    error = arbitrary_error(vm) if outcome == 1 else asyncio.CancelledError()
    got, sent = [], []

    class Channel(Host):
        def m_recv_buffers(self, vm, a, k):
            def run(vm):
                got.append(list(a[0].items if isinstance(a[0], VList) else a[0]))
                if outcome:
                    raise PyExc(error)

            return Awaitable(run, "recv_buffers")

        def vm_isinst(self, vm, cls):
            return ucx

    channel = Channel()
    buffers = {}

    def get(vm, a, k):
        r = a[-1]
        b = ("buffer of", vm.getattr(r, "address"), vm.getattr(r, "uid"))
        return b

    vm.contracts["xoscar.core:BufferRef.get_buffer"] = get
    p = new(vm, P, "ActorPoolBase", external_address=own)
    vm.contracts[f"{A}._send_channel"] = lambda vm, a, k: sent.append((a[1], a[2]))
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: None, "create_task")
    r, e = attempt(vm, lambda: acall(vm, p, "_handle_ucx_meta_message", msg, channel))
    vm.prove("no error", e is None, f"{e!r}")
    if not (ucx and t == types[0]):
        vm.cover("left alone")
        vm.prove("other messages are left alone", r is False and not sent and not got)
        return
    vm.cover("handled")
    vm.prove("handled, one reply on the channel", r is True and len(sent) == 1 and sent[0][1] is channel)
    vm.prove("the buffers that are named are filled", len(got) == 1 and got[0] == [("buffer of", x, y) for x, y in refs])
    x = sent[0][0]
    if outcome == 0:
        vm.prove("a result with its id", z3.And(is_msg(vm, x, "ResultMessage"), same(vm, vm.getattr(x, "message_id"), mid)))
    else:
        vm.prove("an error reply with its id", error_reply(vm, x, mid, own, error))


# ---------------------------------------------------------------- handlers


def cancelling(vm):
    """a cancel request cancels the task of the request it names, and no other"""
    table = Table(vm, "tasks")
    g = table.graph()
    cancelled = []
    DONE = z3.Function("task is done", U, z3.BoolSort())

    class Task(Host):
        def __init__(self, t):
            self.t = t

        def m_done(self, vm, a, k):
            return SBool(DONE(self.t))

        def m_cancel(self, vm, a, k):
            cancelled.append(self.t)
            return True

    table.wrap = lambda t: Task(t)
    p, own = pool(vm, "ActorPoolBase", _process_messages=table)
    target = vm.opaque("id of the request", "bytes")
    msg = message(vm, "CancelMessage", own, target)
    r, e = attempt(vm, lambda: acall(vm, p, "cancel", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    running = z3.And(g[0](target.t), z3.Not(DONE(g[1](target.t))))
    if vm.branch(running):
        vm.cover("cancelled")
        vm.prove("the request that is named is cancelled, once", conj([len(cancelled) == 1] + [t == g[1](target.t) for t in cancelled]))
        vm.prove("answered", answered(vm, r, msg))
    else:
        vm.cover("not running")
        vm.prove("nothing is cancelled", not cancelled)
        vm.prove("refused", failed_with(vm, r, "CannotCancelTask", msg))


def main_cancel(vm):
    """the main pool passes cancel requests to the pool they are for"""
    p, own = pool(vm, "MainActorPoolBase")
    address = own if vm.choose(2, "own") else vm.opaque("address", "str")
    if address is not own:
        vm.assume(address.t != own.t)
    msg = message(vm, "CancelMessage", address, vm.opaque("id of the request", "bytes"))
    seen = []
    vm.contracts[f"{B}.cancel"] = lambda vm, a, k: Awaitable(lambda vm: seen.append(("here", a[1])) or "reply", "cancel")
    vm.contracts[f"{A}.call"] = lambda vm, a, k: Awaitable(lambda vm: seen.append((a[1], a[2])) or "reply", "call")
    r, e = attempt(vm, lambda: acall(vm, p, "cancel", msg))
    vm.prove("one answer", e is None and r == "reply" and len(seen) == 1 and seen[0][1] is msg)
    if address is own:
        vm.cover("here")
        vm.prove("cancelled here", seen[0][0] == "here")
    else:
        vm.cover("there")
        vm.prove("cancelled there", seen[0][0] is address)


def calls(vm):
    """send: the result, or the error, of the call with the id of the request"""
    pid(vm)
    outcome = vm.choose(4, "value, error, cancelled, unknown actor")
    value = vm.opaque("value")
    error = arbitrary_error(vm) if outcome == 1 else asyncio.CancelledError()
    ran = []

    class Act(Host):
        def m___on_receive__(self, vm, a, k):
            def run(vm):
                ran.append(a[0])
                if outcome:
                    raise PyExc(error)
                return value

            return Awaitable(run, "on_receive")

    actors = Actors(vm, Act())
    table = Table(vm, "tasks")
    p, own = pool(vm, "ActorPoolBase", _actors=actors, _process_messages=table)
    for n in ("asyncio.current_task", "asyncio.tasks.current_task"):
        vm.stubs[n] = Stub(lambda vm, a, k: vm.opaque("task"), "current_task")
    uid = vm.opaque("uid", "bytes")
    vm.assume(actors.has(uid.t) if outcome < 3 else z3.Not(actors.has(uid.t)))
    content = vm.opaque("content", "tuple")
    prof = vm.opaque("profiling")
    msg = message(vm, "SendMessage", c08.reference(vm, own, uid), content, profiling_context=prof)
    mid = vm.getattr(msg, "message_id")
    r, e = attempt(vm, lambda: acall(vm, p, "send", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    if outcome == 3:
        vm.cover("unknown")
        vm.prove("refused", failed_with(vm, r, "ActorNotExist", msg))
        return
    vm.prove("called once", len(ran) == 1 and ran[0] is content)
    if outcome == 0:
        vm.cover("result")
        vm.prove("the result as it is, with its id", answered(vm, r, msg))
        vm.prove("the result as it is", vm.getattr(r, "result") is value and vm.getattr(r, "profiling_context") is prof)
    else:
        vm.cover("error")
        vm.prove("the error with the id of the request", error_reply(vm, r, mid, own, error))


def main_calls(kind):
    """send and tell of the main pool: the reply of the pool the actor is at, to a request with the same id"""

    def body(vm):
        where = vm.choose(3, "an own actor, an actor of a sub pool, no actor")
        actors = Actors(vm, Actor(vm, False))
        p, own = pool(vm, "MainActorPoolBase", _actors=actors)
        uid, address = vm.opaque("uid", "bytes"), vm.opaque("address", "str")
        vm.assume(actors.has(uid.t) if where == 0 else z3.Not(actors.has(uid.t)))
        content, trace = vm.opaque("content", "tuple"), vm.opaque("trace")
        old = c08.reference(vm, vm.opaque("address asked", "str"), uid)
        msg = message(vm, "SendMessage" if kind == "send" else "TellMessage", old, content, message_trace=trace)
        mid = vm.getattr(msg, "message_id")
        fails = vm.choose(2, "the pool of the actor fails") == 1
        error = arbitrary_error(vm)
        seen = []

        def here(vm, a, k):
            def run(vm):
                seen.append("here")
                vm.prove("the own pool gets the request", a[1] is msg)
                if fails:
                    raise PyExc(error)
                return "reply"

            return Awaitable(run, kind)

        vm.contracts[f"{B}.{kind}"] = here
        found = c08.reference(vm, address, uid)
        refused = new(vm, MSG, "ErrorMessage", message_id=mid)

        def lookup(vm, a, k):
            q = a[1]
            vm.prove("the actor of the request is looked up", conj([is_msg(vm, q, "ActorRefMessage"), is_same_ref(vm, vm.getattr(q, "actor_ref"), old)]))
            vm.prove("and an answer to it has the id of the request", same(vm, vm.getattr(q, "message_id"), mid))

            def run(vm):
                if where == 2:
                    return refused
                return vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(q, "message_id"), found], {"protocol": 0})

            return Awaitable(run, "actor_ref")

        vm.contracts[f"{MAIN}.actor_ref"] = lookup

        def there(vm, a, k):
            def run(vm):
                seen.append((a[1], a[2]))
                if fails:
                    raise PyExc(error)
                return "reply"

            return Awaitable(run, "call")

        vm.contracts[f"{A}.call"] = there
        r, e = attempt(vm, lambda: acall(vm, p, kind, msg))
        if where == 2:
            vm.cover("unknown")
            vm.prove("refused with the id of the request, nothing is called", e is None and r is refused and not seen)
            return
        vm.prove("one pool is asked, once", len(seen) == 1)
        vm.prove("its reply is the reply", r == "reply" and e is None if not fails else e is error)
        if where == 0:
            vm.cover("own")
            vm.prove("an own actor is called here", seen == ["here"])
        elif len(seen) == 1 and isinstance(seen[0], tuple):
            vm.cover("forwarded")
            to, q = seen[0]
            vm.prove("the pool the actor is at is asked", same(vm, to, address))
            if not is_msg(vm, q, "SendMessage" if kind == "send" else "TellMessage"):
                vm.prove("by a request of the same kind", False)
                return
            vm.prove("with the id of the request", same(vm, vm.getattr(q, "message_id"), mid))
            vm.prove("for this actor", is_same_ref(vm, vm.getattr(q, "actor_ref"), found))
            vm.prove("with its content", vm.getattr(q, "content") is content)
        else:
            vm.prove("an actor elsewhere is called there", False)

    return body


def is_same_ref(vm, r, ref):
    return c08.is_ref(vm, r, vm.getattr(ref, "address"), vm.getattr(ref, "uid"))


def forwards(vm):
    """forward: the reply of the pool the request is for"""
    p, own = pool(vm, "ActorPoolBase")
    raw, address = vm.opaque("raw message", "message"), vm.opaque("address", "str")
    msg = new(vm, MSG, "ForwardMessage", message_id=vm.opaque("id", "bytes"), address=address, raw_message=raw, protocol=0)
    seen = []
    outcome = vm.choose(2, "reply, error")
    error = arbitrary_error(vm)
    router = p.attrs["_router"]

    class Caller(Host):
        def m_call(self, vm, a, k):
            def run(vm):
                seen.append(a)
                if outcome:
                    raise PyExc(error)
                return "reply"

            return Awaitable(run, "call")

    p.attrs["_caller"] = Caller()
    r, e = attempt(vm, lambda: acall(vm, p, "forward", msg))
    vm.prove("called once", len(seen) == 1)
    vm.prove("the message it carries, to its destination", len(seen) == 1 and seen[0][0] is router and seen[0][1] is address and seen[0][2] is raw)
    vm.cover(["reply", "error"][outcome])
    vm.prove("and its reply is the reply", r == "reply" and e is None if outcome == 0 else e is error)


def controls(main):
    def body(vm):
        pid(vm)
        T = vm.lookup(MSG, "ControlMessageType")
        names = ["stop", "sync_config", "get_config", "wait_pool_recovered", "add_sub_pool_actor", "switch_to_copy_to"]
        name = names[vm.choose(len(names), "command")]
        fails = vm.choose(2, "fails") == 1
        error = arbitrary_error(vm)
        remote = main and vm.choose(2, "for another pool") == 1

        class Config(Host):
            def m_get_process_indexes(self, vm, a, k):
                return VList([vm.fresh_int("main index", 0)])

            def m_get_pool_config(self, vm, a, k):
                if fails:
                    raise PyExc(error)
                return VDict([["external_address", VList([vm.opaque("main address", "str")])]])

        def may_fail(vm, a, k):
            if fails:
                raise PyExc(error)

        config = Config()
        p, own = pool(vm, "MainActorPoolBase" if main else "ActorPoolBase", _config=config)
        address = own
        if remote:
            address = vm.opaque("address", "str")
            vm.assume(address.t != own.t)
        content = "main_pool_address" if name == "get_config" and vm.choose(2, "what") else vm.opaque("content", "tuple")
        if name == "stop":
            content = None if vm.choose(2, "default") else (vm.fresh_real("timeout"), vm.fresh_bool("force"))
        msg = message(vm, "ControlMessage", address, vm.getattr(T, name), content)
        mid = vm.getattr(msg, "message_id")
        subs = VDict([[vm.opaque(f"sub {i}", "str"), vm.opaque(f"process {i}")] for i in range(vm.choose(3, "sub pools"))] if main and name == "sync_config" and not remote else [])
        if main:
            if remote and name == "stop":
                subs = VDict([[address, vm.opaque("process")]])
            p.attrs.update(sub_processes=subs, _auto_recover=vm.opaque("auto recover"), _recover_events=VDict(), _allocated_actors=c08.Map(vm, "allocated"))
        vm.contracts[f"{A}._sync_pool_config"] = may_fail
        told = []

        def remote_call(vm, a, k):
            def run(vm):
                told.append((a[1], a[2]))
                if fails:
                    raise PyExc(error)
                return vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(a[2], "message_id"), True], {"protocol": 0})

            return Awaitable(run, "call")

        vm.contracts[f"{A}.call"] = remote_call
        vm.contracts[f"{A}.stop"] = vm.contracts[f"{MAIN}.stop"] = vm.contracts[f"{MAIN}.stop_sub_pool"] = lambda vm, a, k: Awaitable(lambda vm: may_fail(vm, a, k), "stop")
        vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: Once(a[0]), "create_task")
        vm.stubs["asyncio.gather"] = vm.stubs["asyncio.tasks.gather"] = Stub(lambda vm, a, k: Awaitable(lambda vm: VList([vm.await_(x) for x in a]), "gather"), "gather")

        class Event(Host):
            def m_wait(self, vm, a, k):
                return Awaitable(lambda vm: True, "wait")

        vm.stubs["asyncio.Event"] = vm.stubs["asyncio.locks.Event"] = Stub(lambda vm, a, k: Event(), "Event")
        if remote and name == "add_sub_pool_actor":
            return  # C08: registration of actors
        r, e = attempt(vm, lambda: acall(vm, p, "handle_control_command", msg))
        vm.prove("an answer", e is None, f"{e!r}")
        if is_msg(vm, r, "ResultMessage"):
            vm.cover("result")
            vm.prove("the reply carries the id of the request", same(vm, vm.getattr(r, "message_id"), mid))
            if name == "sync_config":
                vm.prove("a failure is not answered as success", not fails)
                vm.prove("every sub pool is told", [x for x, _ in told] == ([x for x, _ in subs.items] if not remote else [address]))
        else:
            vm.cover("error")
            vm.prove("or an error reply with its id", error_reply(vm, r, mid, own))
            known = name in ("sync_config", "get_config", "stop")
            vm.prove("errors only for failures and unknown commands", fails or not known and not remote)

    return body


class Once(Host):
    """a task: its outcome is kept"""

    def __init__(self, aw):
        self.aw, self.out = aw, None

    def vm_await(self, vm):
        if self.out is None:
            try:
                self.out = (vm.await_(self.aw), None)
            except PyExc as e:
                self.out = (None, e)
        if self.out[1] is not None:
            raise self.out[1]
        return self.out[0]


# ---------------------------------------------------------------- the caller's side


def outcome_of_reply(vm):
    """a result is returned as it is, an error is raised"""
    value = vm.opaque("value")
    c = vm.lookup(X, "IndigenActorContext")
    f = vm.getattr(c, "_process_result_message")
    if vm.choose(2, "error"):
        vm.cover("error")
        raised = SExc("as it is raised", BaseException)
        vm.contracts[f"{MSG}:ErrorMessage.as_instanceof_cause"] = lambda vm, a, k: raised
        r, e = attempt(vm, lambda: vm.call(f, [new(vm, MSG, "ErrorMessage")], {}))
        vm.prove("an error is raised", e is raised)
    else:
        vm.cover("result")
        r, e = attempt(vm, lambda: vm.call(f, [new(vm, MSG, "ResultMessage", result=value)], {}))
        vm.prove("the result as it is", r is value and e is None)


def waiting(vm):
    """_wait: a cancelled caller cancels its own request and gets its outcome"""
    how = vm.choose(3, "answered, fails, caller cancelled")
    after = vm.choose(3, "cancelled, cannot be cancelled, fails") if how == 2 else 0
    value, error = vm.opaque("value"), arbitrary_error(vm)
    error.known.append((asyncio.CancelledError, False))
    address, mid = vm.opaque("address", "str"), vm.opaque("message id", "bytes")
    msg = new(vm, MSG, "SendMessage", message_id=mid)
    late = SExc("error of the cancel request", Exception)
    cannot = vm.lookup("xoscar.errors", "CannotCancelTask")
    late.known += [(cannot, False), (asyncio.CancelledError, False)]
    seen, state = [], {"awaited": 0}

    class Future(Host):
        def vm_await(self, vm):
            state["awaited"] += 1
            if how == 1:
                raise PyExc(error)
            return value

    future = Future()

    def shield(vm, a, k):
        def run(vm):
            vm.prove("the future is not cancelled itself", a[0] is future)
            if how == 2:
                raise PyExc(asyncio.CancelledError())
            return vm.await_(a[0])

        return Awaitable(run, "shield")

    vm.stubs["asyncio.shield"] = vm.stubs["asyncio.tasks.shield"] = Stub(shield, "shield")

    def cancel(vm, a, k):
        def run(vm):
            seen.append((a[1], a[2]))
            if after == 1:
                raise PyExc(vm.call(cannot, [], {}))
            if after == 2:
                raise PyExc(late)

        return Awaitable(run, "cancel")

    vm.contracts[f"{X}:IndigenActorContext.cancel"] = cancel
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, "_wait", future, address, msg))
    if how < 2:
        vm.cover("answered" if how == 0 else "failed")
        vm.prove("no request is cancelled", not seen)
        vm.prove("the outcome of the request", r is value and e is None if how == 0 else e is error)
    else:
        vm.cover("cancelled")
        vm.prove("its own request is cancelled, once", len(seen) == 1 and seen[0][0] is address and seen[0][1] is mid)
        if after == 0:
            vm.prove("the outcome of the request", r is value and e is None)
        elif after == 1:
            vm.prove("the caller is cancelled", exc_is(vm, e, asyncio.CancelledError))
        else:
            vm.prove("the error", e is late)


def cancel_request(vm):
    """cancel: a request to the pool, naming the request to cancel"""
    sent = []
    reply = vm.opaque("reply")
    vm.contracts[f"{X}:IndigenActorContext._call"] = lambda vm, a, k: Awaitable(lambda vm: sent.append((a[1], a[2], len(a), k)) or reply, "call")
    vm.contracts[f"{X}:IndigenActorContext._process_result_message"] = lambda vm, a, k: ("outcome", a[-1])
    p = new(vm, X, "IndigenActorContext")
    address, target = vm.opaque("address", "str"), vm.opaque("id of the request", "bytes")
    r = acall(vm, p, "cancel", address, target)
    vm.cover("asked")
    m = sent[0][1]
    vm.prove("one cancel request to the pool", len(sent) == 1 and sent[0][0] is address and is_msg(vm, m, "CancelMessage"))
    vm.prove("that names the request and the pool", vm.getattr(m, "cancel_message_id") is target and vm.getattr(m, "address") is address)
    vm.prove("with an id of its own", vm.getattr(m, "message_id") is not target)
    vm.prove("and its outcome", r == ("outcome", reply))


def call_of_actor(vm):
    """send of the context: one request, its own outcome"""
    sent, waited = [], []
    future, reply = vm.opaque("future"), vm.opaque("reply")
    vm.contracts[f"{X}:IndigenActorContext._call"] = lambda vm, a, k: Awaitable(lambda vm: sent.append((a[1], a[2], a[3] if len(a) > 3 else k.get("wait", True), k.get("proxy_addresses"))) or future, "call")
    fails = vm.choose(2, "waiting fails") == 1
    error = arbitrary_error(vm)

    def wait(vm, a, k):
        def run(vm):
            waited.append(a[1:])
            if fails:
                raise PyExc(error)
            return reply

        return Awaitable(run, "wait")

    vm.contracts[f"{X}:IndigenActorContext._wait"] = wait
    vm.contracts[f"{X}:IndigenActorContext._process_result_message"] = lambda vm, a, k: ("outcome", a[-1])
    vm.contracts["xoscar.debug:detect_cycle_send"] = lambda vm, a, k: None
    p = new(vm, X, "IndigenActorContext")
    address, uid, proxies = vm.opaque("address", "str"), vm.opaque("uid", "bytes"), vm.opaque("proxies", "list")
    ref = c08.reference(vm, address, uid)
    ref.attrs["proxy_addresses"] = proxies
    content, prof = vm.opaque("content", "tuple"), vm.opaque("profiling")
    wait_ = vm.choose(2, "wait for the response") == 1
    r, e = attempt(vm, lambda: acall(vm, p, "send", ref, content, wait_response=wait_, profiling_context=prof))
    vm.prove("one request", len(sent) == 1)
    a, m, w, pr = sent[0]
    vm.prove("to the pool of the actor, by its proxies, without waiting", a is address and pr is proxies and w is False)
    vm.prove("that carries the call", is_msg(vm, m, "SendMessage") and vm.getattr(m, "actor_ref") is ref and vm.getattr(m, "content") is content and vm.getattr(m, "profiling_context") is prof)
    if not wait_:
        vm.cover("not waited for")
        vm.prove("the future of the request", r is future and not waited)
        return
    vm.prove("its own reply is waited for", len(waited) == 1 and waited[0][0] is future and waited[0][1] is address and waited[0][2] is m)
    vm.cover("failed" if fails else "answered")
    vm.prove("the outcome", e is error if fails else r == ("outcome", reply))


def raised(vm):
    """as_instanceof_cause: an error that was raised elsewhere, with address and process"""
    address, number = vm.opaque("address", "str"), vm.fresh_int("pid", 1)
    tb = vm.opaque("traceback", "traceback")
    vm.assume(tb.t != vm.term(None))
    kind = vm.choose(3, "first, already told, cancelled")
    base = vm.lookup(MSG, "_AsCauseBase")
    wrapped = []
    told = SExc("told", BaseException)
    vm.contracts["xoscar.utils:wrap_exception"] = lambda vm, a, k: wrapped.append((a, k)) or told

    class Err(SExc):
        pass

    if kind == 2:
        error = asyncio.CancelledError()
        cls = asyncio.CancelledError
    elif kind == 0:
        error = SExc("original", BaseException)
        error.known.append((asyncio.CancelledError, False))
        cls = ValueError
    else:
        error = vm.call(base, [], {})
        cls = base
        error.attrs["with_traceback"] = Stub(lambda vm, a, k: ("again", a[0]), "with_traceback")
    m = new(vm, MSG, "ErrorMessage", message_id=vm.opaque("id", "bytes"), address=address, pid=number, error_type=cls, error=error, traceback=tb)
    r, e = attempt(vm, lambda: call(vm, m, "as_instanceof_cause"))
    vm.prove("no failure", e is None, f"{e!r}")
    if kind == 0:
        vm.cover("first")
        vm.prove("told once", r is told and len(wrapped) == 1)
        a, k = wrapped[0]
        a = list(a) + [None] * (6 - len(a))
        bases = a[1] if a[1] is not None else k.get("bases")
        attrs = a[5] if a[5] is not None else k.get("attr_dict")
        vm.prove("of the original error and its traceback", a[0] is error and (k.get("traceback") is tb or a[4] is tb))
        vm.prove("with the prefix", isinstance(bases, tuple) and len(bases) == 1 and bases[0] is base)
        d = {x: y for x, y in attrs.items}
        vm.prove("of this address and process", d.get("address") is address and d.get("pid") is number)
    elif kind == 1:
        vm.cover("already told")
        vm.prove("it is raised as it is, with its traceback", r == ("again", tb) and not wrapped)
    else:
        vm.cover("cancelled")
        vm.prove("told as cancelled", vm.isinst(r, asyncio.CancelledError) and not wrapped)


def wrapping(vm):
    """wrap_exception: an error of a class below the original one, with the same arguments"""
    made, objects = [], []
    n = vm.choose(3, "arguments")
    args = tuple(vm.opaque(f"argument {i}") for i in range(n))
    own_tb = vm.opaque("its own traceback", "traceback")
    parts = {"args": args, "__traceback__": own_tb, "__cause__": vm.opaque("cause"), "__context__": vm.opaque("context"), "__suppress_context__": vm.fresh_bool("suppress"), "field": vm.opaque("field")}

    class Cls(Host):
        def vm_getattr(self, vm, name):
            if name in ("__name__", "__module__", "__qualname__"):
                return {"__name__": "Original", "__module__": "somewhere", "__qualname__": "Original"}[name]
            return super().vm_getattr(vm, name)

    cls = Cls()

    class Original(Host):
        def vm_type(self, vm):
            return cls

        def vm_getattr(self, vm, name):
            if name in parts:
                return parts[name]
            if name == "__class__":
                return cls
            raise PyExc(AttributeError(name))

    class Made(Host):
        def __init__(self, how):
            self.how, self.tb = how, None

        def m_with_traceback(self, vm, a, k):
            self.tb = a[0]
            return self

    refuses = vm.choose(2, "cannot be made with its arguments") == 1

    class New(Host):
        def m___new__(self, vm, a, k):
            vm.prove("an object of the class that was made", a[0] is self)
            if refuses:
                raise PyExc(TypeError("arguments"))
            objects.append(Made(tuple(a[1:])))
            return objects[-1]

        def vm_call(self, vm, a, k):
            objects.append(Made(None))
            return objects[-1]

    def make(vm, a, k):
        made.append(a)
        return New()

    vm.stubs["builtins.type"] = Stub(make, "type")
    exc = Original()
    base = vm.opaque("base", "type")
    address = vm.opaque("address", "str")
    tb = vm.opaque("traceback", "traceback") if vm.choose(2, "traceback") else None
    if tb is not None:
        vm.assume(tb.t != vm.term(None))
    text = "text" if vm.choose(2, "text") else None
    f = vm.lookup("xoscar.utils", "wrap_exception")
    r, e = attempt(vm, lambda: vm.call(f, [exc, (base,)], {"traceback": tb, "message": text, "attr_dict": VDict([["address", address]])}))
    vm.prove("no failure", e is None and len(made) == 1 and len(objects) == 1 and r is objects[0], f"{e!r}")
    vm.cover("made without arguments" if refuses else "made")
    name, bases, attrs = made[0]
    d = {x: y for x, y in attrs.items}
    vm.prove("it has the name of the original class", name == "Original" and d.get("__module__") == "somewhere")
    vm.prove("its class is below the bases and the original class", isinstance(bases, tuple) and len(bases) == 2 and bases[0] is base and bases[1] is cls)
    vm.prove("it has the arguments of the original error", d.get("args") is args and (refuses or r.how == args))
    vm.prove("it knows the original error", d.get("__wrapped__") is exc)
    vm.prove("what is added is kept", d.get("address") is address)
    vm.prove("it keeps the cause and the context", all(d.get(x) is parts[x] for x in ("__cause__", "__context__", "__suppress_context__")))
    vm.prove("it has the traceback", r.tb is (tb if tb is not None else own_tb))
    v, e = attempt(vm, lambda: vm.call(d["__getattr__"], [r, "field"], {}))
    vm.prove("other attributes are those of the original error", v is parts["field"])
    v, e = attempt(vm, lambda: vm.call(d["__getattr__"], [r, "missing"], {}))
    vm.prove("a missing attribute is missing", exc_is(vm, e, AttributeError))
    if text is not None:
        v, e = attempt(vm, lambda: vm.call(d["__str__"], [r], {}))
        vm.prove("its text is the one that is given", v == text)


I_ = f"{X}:IndigenActorContext"
CASES = [
    Case("what arrives", [f"{A}.on_new_channel", f"{P}:_ErrorProcessor.__exit__"], arriving, setup, covers=["arriving: body reached", "request", "meta", "unreadable", "end", "broken", "stopped"], need=20),
    Case("processing", [f"{A}.process_message", f"{P}:_ErrorProcessor.__exit__", f"{A}._run_coro"], processed, debug_off, covers=["reply", "error", "cancelled"], need=15),
    Case("running", [f"{A}._run_coro"], running, setup, covers=["value", "error", "cancelled"], need=12),
    Case("sending", [f"{A}._send_channel"], sending, setup, covers=["sent", "not sent", "replaced"], need=20),
    Case("meta messages", [f"{A}._handle_ucx_meta_message"], meta, debug_off, covers=["left alone", "handled"], need=10, bounded="up to two buffers"),
    Case("cancel", [f"{B}.cancel"], cancelling, setup, covers=["cancelled", "not running"], need=5),
    Case("main: cancel", [f"{MAIN}.cancel"], main_cancel, setup, covers=["here", "there"], need=4),
    Case("calls", [f"{B}.send"], calls, debug_off, covers=["result", "error", "unknown"], need=8),
    Case("main: calls", [f"{MAIN}.send"], main_calls("send"), setup, covers=["own", "forwarded", "unknown"], need=20),
    Case("main: tells", [f"{MAIN}.tell"], main_calls("tell"), setup, covers=["own", "forwarded", "unknown"], need=20),
    Case("forwards", [f"{A}.forward", f"{A}.call"], forwards, setup, covers=["reply", "error"], need=5),
    Case("control", [f"{A}.handle_control_command"], controls(False), setup, covers=["result", "error"], need=10),
    Case("main: control", [f"{MAIN}.handle_control_command"], controls(True), setup, covers=["result", "error"], need=20, bounded="up to two sub pools"),
    Case("outcome of a reply", [f"{I_}._process_result_message"], outcome_of_reply, setup, covers=["result", "error"], need=2),
    Case("waiting", [f"{I_}._wait"], waiting, setup, covers=["answered", "failed", "cancelled"], need=8),
    Case("cancel request", [f"{I_}.cancel"], cancel_request, setup, covers=["asked"], need=4),
    Case("call", [f"{I_}.send"], call_of_actor, debug_off, covers=["not waited for", "answered", "failed"], need=8),
    Case("errors", [f"{MSG}:ErrorMessage.as_instanceof_cause"], raised, setup, covers=["first", "already told", "cancelled"], need=5),
    Case("wrapped errors", ["xoscar.utils:wrap_exception"], wrapping, setup, covers=["made", "made without arguments"], need=20, bounded="up to two arguments"),
    *asking.HANDED["send"],
    *asking.CALLED,
]

ASSUMPTIONS = [
    "ids of requests in flight differ; handlers give a reply (replies with the id of the request: the handlers under contract here, in C08, C10 and C14; through other pools, C05)",
    "a send that fails has sent nothing (C04)",
    "asyncio runs every task that is created; asyncio.shield passes on the outcome of its future",
]
