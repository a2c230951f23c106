"""C09: bursts of raw requests of every kind (valid, failing, for unknown actors, forwarded, with results that cannot be sent, that cannot be read) on socket and in-process channels to main and sub pools, counting the replies per request; errors of all kinds of exception classes through local pools and chains of actors; cancellations of one of several requests at various points, by message and by cancelling the call. Non-trivial: (kind, outcome, channel), exception class and path, cancellation point."""

import asyncio
import os
import re

import xoscar as mo
from util import pool, remote, spin
from xoscar.backends.allocate_strategy import AddressSpecified
from xoscar.backends.communication import get_client_type
from xoscar.backends.message import (
    ActorRefMessage,
    CancelMessage,
    ControlMessage,
    ControlMessageType,
    CreateActorMessage,
    DestroyActorMessage,
    ErrorMessage,
    ForwardMessage,
    HasActorMessage,
    ResultMessage,
    SendMessage,
    TellMessage,
    new_message_id,
)
from xoscar.core import ActorRef
from xoscar.errors import ActorNotExist, CannotCancelTask, SendMessageFailed

try:
    ExceptionGroup
except NameError:
    ExceptionGroup = None


class Custom(Exception):
    def __init__(self, a, b=2):
        super().__init__(a, b)
        self.a = a

    def __str__(self):
        return f"custom {self.a}"


class Strict(Exception):
    """arguments are required"""

    def __init__(self, a, *, must):
        super().__init__(a)
        self.must = must

    def __reduce__(self):
        return (_strict, (self.args[0], self.must))


def _strict(a, must):
    return Strict(a, must=must)


class New(Exception):
    def __new__(cls, x, y):
        return super().__new__(cls, x, y)


class Base(BaseException):
    pass


REASONS = [RuntimeError, OSError, ConnectionRefusedError, EOFError, KeyError, TypeError, ValueError, TimeoutError, BrokenPipeError, LookupError, AssertionError, StopAsyncIteration]


class NoPickle:
    def __init__(self, k=0):
        self.k = k

    def __reduce__(self):
        raise REASONS[self.k % len(REASONS)]("not to be sent")


class NoLoad:
    def __reduce__(self):
        return (_noload, ("x",))


def _noload(x):
    raise LookupError("not to be read")


class BadError(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.bad = NoPickle()

    def __reduce__(self):
        raise RuntimeError("error not to be sent")


def errors():
    out = [
        ValueError("text"),
        ValueError(),
        KeyError("k"),
        KeyError(1, 2),
        IndexError(3),
        OSError(2, "no file"),
        FileNotFoundError(2, "no file", "name"),
        UnicodeDecodeError("utf8", b"\xff", 0, 1, "reason"),
        StopAsyncIteration("s"),
        AssertionError(),
        TypeError({"a": [1]}),
        Custom("x"),
        Custom("x", "y"),
        Strict("s", must=1),
        New(1, 2),
        ActorNotExist("mine"),
        asyncio.TimeoutError(),
        ConnectionError("c"),
        EOFError("eof"),
        MemoryError("m"),
        ZeroDivisionError("z" * 2000),
        RuntimeError("line\nline"),
        Exception(None),
        Exception(b"bytes", [1, (2,)]),
    ]
    if ExceptionGroup is not None:
        out.append(ExceptionGroup("g", [ValueError(1), KeyError(2)]))
        out.append(BaseExceptionGroup("g", [ValueError(1), Base(2)]))
    return out


def wireable(e):
    """exceptions that the library which pickles them (tblib) keeps whole; the others are tried in process only"""
    return not isinstance(e, UnicodeDecodeError) and not (ExceptionGroup is not None and isinstance(e, BaseExceptionGroup) and not isinstance(e, Exception))


RUN = {}


class A(mo.StatelessActor):
    async def ret(self, x, n=0):
        await spin(n)
        return x

    async def err(self, i, n=0):
        await spin(n)
        raise errors()[i]

    def serr(self, i):
        raise errors()[i]

    async def relay(self, address, uid, i):
        return await ActorRef(address, uid).err(i)

    async def nopickle(self, k=0):
        return NoPickle(k)

    async def noload(self):
        return NoLoad()

    async def baderr(self):
        raise BadError("bad")

    async def block(self, key, swallow=False):
        RUN[key] = "started"
        try:
            await asyncio.sleep(30 if key[0] != "q" else 0.01)
            RUN[key] = "done"
            return key
        except asyncio.CancelledError:
            RUN[key] = "cancelled"
            if swallow:
                return "swallowed"
            raise

    async def cancels(self):
        raise asyncio.CancelledError()

    async def leave(self, cls, args, n=0):
        await spin(n)
        raise cls(*args)


class Failing(mo.Actor):
    async def __post_create__(self):
        raise Custom("post")


def is_type(e, t):
    return isinstance(e, t)


async def raw(addr):
    return await get_client_type(addr).connect(addr)


async def collect(client, n, idle=0.05, timeout=8):
    """n replies, and what comes after them"""
    out = []
    while len(out) < n:
        out.append(await asyncio.wait_for(client.recv(), timeout))
    extra = asyncio.ensure_future(client.recv())
    done, _ = await asyncio.wait([extra], timeout=idle)
    if done:
        try:
            out.append(extra.result())
        except Exception:
            pass
    else:
        extra.cancel()
    return out


def bursts(h):
    """one reply for each request, with its id"""
    rng = h.rng

    async def main():
        async with pool(2) as p:
            main_a = p.external_address
            subs = list(p.sub_processes)
            addrs = [main_a] + subs
            refs = {a: await mo.create_actor(A, uid="s", address=a) for a in addrs}
            # the main pool finds these by their id only
            for a in subs:
                await mo.create_actor(A, uid="only" + a, address=a)
            for case in range(h.n(60, 600)):
                if h.time_left() < 40 or len(h.failures) > 5:
                    return
                a = rng.choice(addrs)
                inproc = rng.random() < 0.4
                conn = p._config.external_to_internal_address_map[a] if inproc else a
                client = await raw(conn)
                log = [("inproc" if inproc else "socket", "main" if a == main_a else "sub")]
                want = {}
                msgs = []
                for _ in range(rng.randrange(1, 14)):
                    i = new_message_id()
                    kind = rng.choice(
                        ["ret", "err", "serr", "nopickle", "noload", "baderr", "unknown", "tell", "has", "ref", "noref", "create", "create_fail", "destroy_missing", "config", "cancel_missing", "forward", "forward_err", "nomethod", "unreadable", "copy_missing", "bad_control", "through", "through_err", "through_tell"]
                    )
                    if inproc and kind in ("nopickle", "noload", "baderr", "unreadable"):
                        kind = "ret"
                    if a == main_a and kind == "bad_control" or a != main_a and kind.startswith("through"):
                        kind = "ret"
                    here = remote(refs[a])
                    other = remote(refs[rng.choice([x for x in addrs if x != a])])
                    n = rng.randrange(8)
                    j = rng.choice([k for k, e in enumerate(errors()) if wireable(e)])
                    exp = None
                    if kind == "ret":
                        m = SendMessage(i, here, ("ret", 0, (i, n), {}))
                        exp = lambda r, i=i: isinstance(r, ResultMessage) and r.result == i
                    elif kind == "err":
                        m = SendMessage(i, here, ("err", 0, (j, n), {}))
                        exp = lambda r, j=j: isinstance(r, ErrorMessage) and issubclass(r.error_type, type(errors()[j]))
                    elif kind == "serr":
                        m = SendMessage(i, here, ("serr", 0, (j,), {}))
                        exp = lambda r, j=j: isinstance(r, ErrorMessage) and issubclass(r.error_type, type(errors()[j]))
                    elif kind.startswith("through"):
                        far = ActorRef(a, ("only" + rng.choice(subs)).encode())
                        if kind == "through":
                            m = SendMessage(i, far, ("ret", 0, (i, n), {}))
                            exp = lambda r, i=i: isinstance(r, ResultMessage) and r.result == i
                        elif kind == "through_err":
                            m = SendMessage(i, far, ("err", 0, (j, n), {}))
                            exp = lambda r, j=j: isinstance(r, ErrorMessage) and issubclass(r.error_type, type(errors()[j]))
                        else:
                            m = TellMessage(i, far, (rng.choice(["ret", "err"]), 0, (1,), {}))
                            exp = lambda r: isinstance(r, ResultMessage) and r.result is None
                    elif kind in ("nopickle", "baderr"):
                        m = SendMessage(i, here, (kind, 0, (n,) if kind == "nopickle" else (), {}))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, SendMessageFailed)
                    elif kind == "noload":
                        # the client cannot read the reply: it must be there all the same
                        m = SendMessage(i, here, (kind, 0, (), {}))
                        exp = "unreadable"
                    elif kind == "unknown":
                        m = SendMessage(i, ActorRef(a, b"nobody"), ("ret", 0, (1,), {}))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, ActorNotExist)
                    elif kind == "nomethod":
                        m = SendMessage(i, here, ("no_such_method", 0, (1,), {}))
                        exp = lambda r: isinstance(r, ErrorMessage)
                    elif kind == "tell":
                        m = TellMessage(i, here, (rng.choice(["ret", "err"]), 0, (1,), {}))
                        exp = lambda r: isinstance(r, ResultMessage) and r.result is None
                    elif kind == "has":
                        x = rng.choice([here, ActorRef(a, b"nobody")])
                        m = HasActorMessage(i, x)
                        exp = lambda r, x=x: isinstance(r, ResultMessage) and r.result is (x.uid == b"s")
                    elif kind == "ref":
                        m = ActorRefMessage(i, here)
                        exp = lambda r, here=here: isinstance(r, ResultMessage) and r.result == here
                    elif kind == "noref":
                        m = ActorRefMessage(i, ActorRef(a, b"nobody"))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, ActorNotExist)
                    elif kind == "create":
                        m = CreateActorMessage(i, A, i, (), {}, AddressSpecified(a))
                        exp = lambda r, i=i, a=a: isinstance(r, ResultMessage) and r.result.uid == i and r.result.address == a
                    elif kind == "create_fail":
                        m = CreateActorMessage(i, Failing, i, (), {}, AddressSpecified(rng.choice(addrs) if a == main_a else a))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, Custom)
                    elif kind == "destroy_missing":
                        m = DestroyActorMessage(i, ActorRef(a, b"nobody"))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, ActorNotExist)
                    elif kind == "config":
                        m = ControlMessage(i, a, ControlMessageType.get_config, "main_pool_address")
                        exp = lambda r: isinstance(r, ResultMessage) and r.result == main_a
                    elif kind == "bad_control":
                        m = ControlMessage(i, a, ControlMessageType.restart, None)
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, TypeError)
                    elif kind == "cancel_missing":
                        m = CancelMessage(i, a, new_message_id())
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, CannotCancelTask)
                    elif kind == "forward":
                        m = ForwardMessage(i, other.address, SendMessage(i, other, ("ret", 0, (i, n), {})))
                        exp = lambda r, i=i: isinstance(r, ResultMessage) and r.result == i
                    elif kind == "forward_err":
                        m = ForwardMessage(i, other.address, SendMessage(i, other, ("err", 0, (j, n), {})))
                        exp = lambda r, j=j: isinstance(r, ErrorMessage) and issubclass(r.error_type, type(errors()[j]))
                    elif kind == "unreadable":
                        m = SendMessage(i, here, ("ret", 0, (NoLoad(),), {}))
                        exp = lambda r: isinstance(r, ErrorMessage) and issubclass(r.error_type, LookupError)
                    elif kind == "copy_missing":
                        from xoscar.backends.message import CopyToBuffersMessage

                        m = CopyToBuffersMessage(message_id=i, content=[(a, b"none", 0, 1, b"x")])
                        exp = lambda r: isinstance(r, ErrorMessage)
                    want[i] = (kind, j, exp)
                    msgs.append(m)
                    log.append((kind, j, n))
                for m in msgs:
                    await client.send(m)
                got = []
                try:
                    while len(got) < len(msgs):
                        try:
                            got.append(await asyncio.wait_for(client.recv(), 8))
                        except Exception as e:
                            mid = getattr(e, "message_id", None)
                            if mid is None:
                                raise
                            got.append(e)
                    extra = asyncio.ensure_future(client.recv())
                    done, _ = await asyncio.wait([extra], timeout=0.01)
                    extra.cancel()
                    h.check(not done, "C09.one_reply", log, "more replies than requests")
                except (asyncio.TimeoutError, EOFError, ConnectionError) as e:
                    missing = [k for x, (k, _, _) in want.items() if x not in [g.message_id for g in got]]
                    h.fail("C09.one_reply", log, f"{type(e).__name__}: {len(got)} replies, none for {missing}")
                ids = [g.message_id for g in got]
                h.check(len(set(ids)) == len(ids) and set(ids) <= set(want), "C09.ids", log, "replies with other ids, or twice the same")
                for g in got:
                    if g.message_id not in want:
                        continue
                    kind, j, exp = want[g.message_id]
                    h.seen((kind, j if "err" in kind else 0, inproc, a == main_a), log)
                    if exp == "unreadable":
                        h.check(isinstance(g, Exception), "C09.reply", (log, kind), repr(g))
                    else:
                        desc = getattr(g, "result", None), getattr(g, "error_type", None), getattr(g, "error", None)
                        h.check(not isinstance(g, Exception) and exp(g), "C09.reply", (log, kind, j), f"{type(g).__name__} {desc!r}")
                await client.close()

    h.arun(main, "C09.bursts", "bursts of requests", timeout=200)


def check_error(h, e, orig, address, inp):
    h.check(is_type(e, type(orig)), "C09.error_type", inp, f"{type(e).__mro__[:4]} for {type(orig).__name__}")
    if isinstance(orig, asyncio.CancelledError):
        return
    want = repr(orig.args)
    h.check(repr(e.args) == want, "C09.error_args", inp, f"{e.args!r}, want {want}")
    s = str(e)
    m = re.fullmatch(r"\[address=(\S+), pid=(\d+)\] (.*)", s, re.S)
    if h.check(m is not None, "C09.error_text", inp, s[:300]):
        h.check(m.group(1) == address and int(m.group(2)) == os.getpid(), "C09.error_prefix", inp, f"{s[:100]}, raised at {address}")
        h.check(m.group(3) == str(orig), "C09.error_text", inp, f"{s[:300]}, original text {str(orig)[:200]}")


def exceptions(h):
    """the exception a caller gets"""
    async def main():
        async with pool(2) as p:
            addrs = [p.external_address] + list(p.sub_processes)
            refs = [await mo.create_actor(A, uid="s", address=a) for a in addrs]
            n = len(errors())
            for k, ref in enumerate(refs):
                for i in range(n):
                    for name in ("err", "serr"):
                        orig = errors()[i]
                        inp = (type(orig).__name__, orig.args, name, k)
                        h.seen(inp, inp)
                        try:
                            await getattr(remote(ref), name)(i)
                            h.fail("C09.error_type", inp, "no error")
                        except BaseException as e:
                            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                                raise
                            check_error(h, e, orig, ref.address, inp)
                    # through another actor
                    via = refs[(k + 1) % 3]
                    inp = (type(orig).__name__, orig.args, "relayed", k)
                    h.seen(inp)
                    try:
                        await remote(via).relay(ref.address, ref.uid, i)
                        h.fail("C09.error_type", inp, "no error")
                    except BaseException as e:
                        if isinstance(e, (KeyboardInterrupt, SystemExit)):
                            raise
                        check_error(h, e, orig, ref.address, inp)
                try:
                    await remote(ref).cancels()
                    h.fail("C09.error_type", "CancelledError", "no error")
                except asyncio.CancelledError:
                    h.seen(("cancels", k))

    h.arun(main, "C09.exceptions", "all exception classes", timeout=60)


def over_sockets(h):
    """exceptions and results that travel as bytes"""
    rng = h.rng

    async def main():
        async with pool(1) as p:
            for a in [p.external_address, *p.sub_processes]:
                ref = await mo.create_actor(A, uid="s", address=a)
                client = await raw(a)
                for i in range(len(errors())):
                    orig = errors()[i]
                    if not wireable(orig):
                        continue
                    inp = (type(orig).__name__, orig.args, "socket")
                    m = SendMessage(new_message_id(), remote(ref), ("err", 0, (i,), {}))
                    await client.send(m)
                    r = await asyncio.wait_for(client.recv(), 8)
                    h.seen(inp)
                    if h.check(isinstance(r, ErrorMessage) and r.message_id == m.message_id, "C09.reply", inp, repr(r)):
                        check_error(h, r.as_instanceof_cause(), orig, a, inp)
                await client.close()

    h.arun(main, "C09.over_sockets", "error replies as bytes", timeout=60)


def leaving(h):
    """errors that usually end a process, raised in a process of its own"""

    async def call(f):
        try:
            return ("returned", await asyncio.wait_for(f, 20))
        except BaseException as e:
            return ("raised", e)

    async def main():
        path = os.environ.get("PYTHONPATH", "")
        os.environ["PYTHONPATH"] = os.pathsep.join([os.path.dirname(os.path.abspath(__file__))] + ([path] if path else []))
        try:
            p = await mo.create_actor_pool("127.0.0.1", n_process=1)
        finally:
            os.environ["PYTHONPATH"] = path
        try:
            address = list(p.sub_processes)[0]
            ref = await mo.create_actor(A, uid="s", address=address)
            for cls, args in [(SystemExit, ("done",)), (SystemExit, (3,)), (KeyboardInterrupt, ()), (GeneratorExit, ("g",)), (MemoryError, ("m",)), (RecursionError, ())]:
                for n in (0, 3):
                    inp = (cls.__name__, args, n)
                    h.seen(inp, inp)
                    how, e = await call(ref.leave(cls, args, n))
                    h.check(how == "raised" and is_type(e, cls) and repr(e.args) == repr(args), "C09.error_type", inp, f"{how} {e!r}")
                    how, v = await call(ref.ret(7))
                    if not h.check((how, v) == ("returned", 7), "C09.reply", (inp, "and another call afterwards"), f"{how} {v!r}"):
                        return
        finally:
            await asyncio.wait_for(p.stop(), 20)

    h.arun(main, "C09.leaving", "errors that end processes", timeout=90)


def cancellations(h):
    """a cancel request affects the request it names, and no other"""
    rng = h.rng

    async def main():
        async with pool(2) as p:
            addrs = [p.external_address] + list(p.sub_processes)
            refs = {a: await mo.create_actor(A, uid="s", address=a) for a in addrs}
            for case in range(h.n(40, 400)):
                if h.time_left() < 40 or len(h.failures) > 5:
                    return
                a = rng.choice(addrs)
                inproc = rng.random() < 0.5
                client = await raw(p._config.external_to_internal_address_map[a] if inproc else a)
                n = rng.randrange(2, 6)
                RUN.clear()
                ids = [new_message_id() for _ in range(n)]
                slow = [rng.random() < 0.7 for _ in range(n)]
                slow[0] = True
                keys = [("s" if s else "q", case, k) for k, s in enumerate(slow)]
                swallow = rng.random() < 0.2
                victims = rng.sample([k for k in range(n) if slow[k]], rng.randrange(1, sum(slow) + 1))
                log = [inproc, a == addrs[0], slow, victims, swallow]
                for i, k in zip(ids, keys):
                    await client.send(SendMessage(i, remote(refs[a]), ("block", 0, (k, swallow), {})))
                for _ in range(2000):
                    if all(k in RUN for k in keys):
                        break
                    await asyncio.sleep(0.002)
                cids = {}
                for v in victims:
                    c = new_message_id()
                    cids[c] = v
                    await client.send(CancelMessage(c, a, ids[v]))
                expect = len(victims) * 2 + slow.count(False)
                got = []
                try:
                    for _ in range(expect):
                        got.append(await asyncio.wait_for(client.recv(), 8))
                except (asyncio.TimeoutError, EOFError, ConnectionError) as e:
                    h.fail("C09.cancel", log, f"{type(e).__name__}: {len(got)} of {expect} replies")
                by = {g.message_id: g for g in got}
                for c, v in cids.items():
                    h.check(c in by and isinstance(by[c], ResultMessage) and by[c].result is True, "C09.cancel_reply", log, repr(by.get(c)))
                for k in range(n):
                    g = by.get(ids[k])
                    h.seen((inproc, a == addrs[0], slow[k], k in victims, swallow, n, len(victims)), log)
                    if k in victims:
                        if swallow:
                            h.check(isinstance(g, ResultMessage) and g.result == "swallowed", "C09.cancelled", log, repr(g))
                        else:
                            h.check(isinstance(g, ErrorMessage) and issubclass(g.error_type, asyncio.CancelledError), "C09.cancelled", log, repr(g))
                        h.check(RUN[keys[k]] == "cancelled", "C09.cancelled", log, RUN[keys[k]])
                    elif slow[k]:
                        h.check(g is None and RUN[keys[k]] == "started", "C09.others_go_on", log, f"request {k}: {RUN[keys[k]]} {g!r}")
                    else:
                        h.check(isinstance(g, ResultMessage) and g.result == keys[k], "C09.others_go_on", log, f"request {k}: {g!r}")
                rest = [k for k in range(n) if slow[k] and k not in victims]
                for k in rest:
                    await client.send(CancelMessage(new_message_id(), a, ids[k]))
                # a request that has been answered cannot be cancelled
                c = new_message_id()
                await client.send(CancelMessage(c, a, ids[victims[0]]))
                got = []
                for _ in range(2 * len(rest) + 1):
                    got.append(await asyncio.wait_for(client.recv(), 8))
                g = [x for x in got if x.message_id == c]
                h.check(len(g) == 1 and isinstance(g[0], ErrorMessage) and issubclass(g[0].error_type, CannotCancelTask), "C09.cancel_too_late", log, repr(g))
                await client.close()

    h.arun(main, "C09.cancel", "cancellations by message", timeout=150)


def cancelled_calls(h):
    """cancelling a call at the caller"""
    rng = h.rng

    async def main():
        async with pool(1) as p:
            addrs = [p.external_address] + list(p.sub_processes)
            refs = [await mo.create_actor(A, uid="s", address=a) for a in addrs]
            for case in range(h.n(30, 300)):
                ref = remote(rng.choice(refs))
                n = rng.randrange(2, 5)
                RUN.clear()
                keys = [("s", "call", case, k) for k in range(n)]
                ts = [asyncio.ensure_future(ref.block(k)) for k in keys]
                quick = asyncio.ensure_future(ref.ret("v", rng.randrange(6)))
                await spin(rng.choice([0, 1, 2, 3, 5, 30]))
                started = all(k in RUN for k in keys)
                v = rng.randrange(n)
                log = [n, v, started]
                ts[v].cancel()
                d, _ = await asyncio.wait([ts[v]], timeout=8)
                h.seen((n, v, started, case % 5), log)
                if not h.check(bool(d), "C09.cancelled", log, "the cancelled call does not end"):
                    return
                h.check(ts[v].cancelled(), "C09.cancelled", log, f"{ts[v]!r}")
                if started:
                    h.check(RUN.get(keys[v]) == "cancelled", "C09.cancelled", log, f"method: {RUN.get(keys[v])}")
                h.check(await asyncio.wait_for(quick, 8) == "v", "C09.others_go_on", log, "")
                await spin(20)
                for k in range(n):
                    if k != v:
                        h.check(not ts[k].done() and RUN.get(keys[k]) == "started", "C09.others_go_on", log, f"{k}: {RUN.get(keys[k])} {ts[k]!r}")
                        ts[k].cancel()
                await asyncio.wait(ts, timeout=8)
                h.check(await ref.ret("again") == "again", "C09.others_go_on", log, "call afterwards")

    h.arun(main, "C09.cancelled_calls", "cancelled calls", timeout=100)


PARTS = [bursts, exceptions, over_sockets, leaving, cancellations, cancelled_calls]
