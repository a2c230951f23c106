"""C05: calls of an ActorCaller to scripted servers on in-process, unix and TCP channels: batches of 1 to 8 calls answered in all orders (all permutations up to 4 calls, random above), mixed with errors, cancelled calls (before, between and after the responses), responses that cannot be deserialized (sockets), waiting and non-waiting calls, and the connection closed or broken by either side after any number of responses, inside a message, or before; two clients at once. Non-trivial: (channel, order, fates, point of the break)."""

import asyncio
import itertools
import os
import tempfile

from util import free_port, spin
from xoscar.backends.communication import get_server_type
from xoscar.backends.core import ActorCaller
from xoscar.backends.message import CancelMessage, ErrorMessage, ResultMessage, SendMessage, new_message_id
from xoscar.backends.router import Router
from xoscar.core import ActorRef


class NoLoad:
    def __init__(self, i):
        self.i = i

    def __reduce__(self):
        return (_noload, (self.i,))


class LoadError(Exception):
    pass


def _noload(i):
    raise LoadError("cannot read", i)


class Server:
    """accepts a connection, hands out what it receives"""

    n = 0

    def __init__(self, kind, tmp):
        self.kind = kind
        self.tmp = tmp
        self.channels = []
        self.got = asyncio.Queue()

    async def start(self):
        Server.n += 1
        if self.kind == "dummy":
            self.address = f"dummy://c05-{Server.n}"
            cfg = dict(address=self.address)
        elif self.kind == "unix":
            self.address = f"unixsocket:///{900000000 + os.getpid() % 100000 * 1000 + Server.n}"
            cfg = dict(address=self.address)
        else:
            self.address = f"127.0.0.1:{free_port()}"
            cfg = dict(host="127.0.0.1", port=int(self.address.split(":")[1]))
        self.server = await get_server_type(self.address).create(dict(cfg, handle_channel=self.handle))
        await self.server.start()
        return self

    async def handle(self, channel):
        self.channels.append(channel)
        try:
            while True:
                self.got.put_nowait((channel, await channel.recv()))
        except Exception:
            pass

    async def stop(self):
        try:
            await asyncio.wait_for(self.server.stop(), 3)
        except Exception:
            pass


def msg(i=None):
    return SendMessage(new_message_id(), ActorRef("x", b"y"), ("m", 0, (i,), {}))


async def caller_calls(caller, router, addr, msgs, wait):
    ts = []
    for m, w in zip(msgs, wait):
        if w:
            ts.append(asyncio.ensure_future(caller.call(router, addr, m)))
        else:

            async def call(m=m):
                return await (await caller.call(router, addr, m, wait=False))

            ts.append(asyncio.ensure_future(call()))
    return ts


FATES = ["ok", "ok", "error", "cancel_before", "cancel_after", "noload"]


async def scenario(h, kind, order, fates, wait, cut, who_cuts, tmp, log, second):
    """requests are answered in ``order`` until ``cut``; then the connection goes away"""
    n = len(order)
    s = await Server(kind, tmp).start()
    s2 = await Server(kind, tmp).start() if second else None
    router = Router([], None)
    caller = ActorCaller()
    msgs = [msg(i) for i in range(n)]
    try:
        ts = await caller_calls(caller, router, s.address, msgs, wait)
        other = None
        if second:
            m2 = msg("other")
            other = asyncio.ensure_future(caller.call(router, s2.address, m2))
            ch2, _ = await asyncio.wait_for(s2.got.get(), 5)
        ch = None
        for _ in range(n):
            ch, m = await asyncio.wait_for(s.got.get(), 5)
        by_id = {m.message_id: i for i, m in enumerate(msgs)}
        # cancellations come before any response
        for i, f in enumerate(fates):
            if f == "cancel_before":
                ts[i].cancel()
        await spin(3)
        answered = []
        for k, i in enumerate(order):
            if k == cut:
                break
            mid = msgs[i].message_id
            f = fates[i]
            if f == "noload":
                r = ResultMessage(mid, NoLoad(i))
            elif f == "error":
                r = ErrorMessage(mid, "x", 1, KeyError, KeyError(i), None)
            else:
                r = ResultMessage(mid, ("result", i))
            if f == "cancel_after":
                # the response is on its way when the call is cancelled
                await ch.send(r)
                ts[i].cancel()
            else:
                await ch.send(r)
            answered.append(i)
            if k % 2:
                await spin(2)
        pending = [i for i in range(n) if i not in answered and fates[i] != "cancel_before"]
        # what has been answered arrives before the connection goes away
        if answered:
            await asyncio.wait([ts[i] for i in answered], timeout=8)
        for i in pending:
            h.check(not ts[i].done(), "C05.only_its_own", log, f"call {i} ended without a response: {ts[i]!r}")
        if cut < n:
            if who_cuts == "server":
                await ch.close()
            elif who_cuts == "abort":
                # breaks inside a message
                w = getattr(ch, "writer", None)
                if w is None:
                    await ch.close()
                else:
                    w.write(b"\x01\x40\x00\x00")
                    try:
                        await w.drain()
                    except Exception:
                        pass
                    w.close()
            elif who_cuts == "rst":
                w = getattr(ch, "writer", None)
                if w is None:
                    await ch.close()
                else:
                    w.transport.abort()
            elif who_cuts == "garbage":
                w = getattr(ch, "writer", None)
                if w is None:
                    await ch.close()
                else:
                    w.write(b"\x77" * 64)
            elif who_cuts == "stop":
                await s.stop()
            else:
                client = await router.get_client(s.address, from_who=getattr(caller, "_thread_local").actor_caller)
                await client.close()
        done, not_done = await asyncio.wait(ts, timeout=8)
        h.check(not not_done, "C05.no_hang", log, f"calls {[i for i, t in enumerate(ts) if t in not_done]} still wait after the connection was gone")
        for i, t in enumerate(ts):
            if t in not_done:
                t.cancel()
                continue
            f = fates[i]
            if f == "cancel_before":
                h.check(t.cancelled(), "C05.cancelled", log, f"{i}: {t!r}")
            elif i in answered:
                if f == "cancel_after" and t.cancelled():
                    continue
                if f == "noload" and kind != "dummy":
                    e = t.exception()
                    h.check(isinstance(e, LoadError) and e.args == ("cannot read", i), "C05.unreadable", log, f"{i}: {e!r}")
                elif t.exception() is not None:
                    h.fail("C05.own_response", log, f"{i}: {t.exception()!r}")
                else:
                    r = t.result()
                    ok = r.message_id == msgs[i].message_id
                    if f == "error":
                        ok = ok and isinstance(r, ErrorMessage) and r.error.args == (i,)
                    elif f == "noload":
                        ok = ok and r.result.i == i
                    else:
                        ok = ok and isinstance(r, ResultMessage) and r.result == ("result", i)
                    h.check(ok, "C05.own_response", log, f"{i}: {r!r}")
            else:
                e = None if t.cancelled() else t.exception()
                h.check(isinstance(e, Exception), "C05.fails", log, f"{i}: {t!r}")
        if second:
            h.check(not other.done(), "C05.other_clients", log, f"{other!r}")
            await ch2.send(ResultMessage(m2.message_id, "fine"))
            r = await asyncio.wait_for(other, 8)
            h.check(r.result == "fine", "C05.other_clients", log, f"{r!r}")
        if cut >= n:
            # the connection still serves new calls
            m = msg("later")
            t = asyncio.ensure_future(caller.call(router, s.address, m))
            ch, _ = await asyncio.wait_for(s.got.get(), 5)
            await ch.send(ResultMessage(m.message_id, "late"))
            r = await asyncio.wait_for(t, 8)
            h.check(r.result == "late" and len(s.channels) == 1, "C05.goes_on", log, f"{r!r}, {len(s.channels)} connections")
        elif who_cuts not in ("stop",):
            # and a new connection is made once the client has noticed (a call
            # sent before that fails, but does not hang)
            for attempt in range(4):
                m = msg("later")
                t = asyncio.ensure_future(caller.call(router, s.address, m))
                g = asyncio.ensure_future(s.got.get())
                await asyncio.wait([t, g], timeout=8, return_when=asyncio.FIRST_COMPLETED)
                if g.done():
                    await g.result()[0].send(ResultMessage(m.message_id, "late"))
                    await asyncio.wait([t], timeout=8)
                else:
                    g.cancel()
                if not t.done():
                    h.fail("C05.no_hang", log, "a call made after the connection was lost hangs")
                    t.cancel()
                    break
                if t.exception() is None:
                    h.check(t.result().result == "late", "C05.reconnects", log, f"{t!r}")
                    break
            else:
                h.fail("C05.reconnects", log, f"{t!r}")
    finally:
        await s.stop()
        if s2 is not None:
            await s2.stop()
        caller.cancel_tasks()


def run(h, cases):
    with tempfile.TemporaryDirectory() as tmp:
        cases = iter(cases)
        while h.time_left() > 30 and len(h.failures) < 6:
            block = list(itertools.islice(cases, 20))
            if not block:
                break
            cur = [None]

            async def main():
                for kind, order, fates, wait, cut, who, second in block:
                    log = dict(channel=kind, order=order, fates=fates, wait=wait, cut=cut, by=who, second=second)
                    cur[0] = log
                    h.seen((kind, tuple(order), tuple(fates), cut, who if cut < len(order) else None, second), log)
                    await scenario(h, kind, order, fates, wait, cut, who, tmp, log, second)

            class Lazy:
                def __repr__(self):
                    return repr(cur[0])

            h.arun(main, "C05.scenario", Lazy(), timeout=120)


def orders(h):
    """all orders of up to 4 responses, with every fate"""
    rng = h.rng

    def gen():
        for n in range(1, 5):
            for order in itertools.permutations(range(n)):
                for kind in ("dummy", "unix", "tcp"):
                    fates = [rng.choice(FATES) for _ in range(n)]
                    yield kind, list(order), fates, [rng.random() < 0.7 for _ in range(n)], n, "", False
        for kind in ("dummy", "unix", "tcp"):
            for f in itertools.product(["ok", "error", "cancel_before", "cancel_after", "noload"], repeat=2):
                yield kind, [1, 0], list(f), [True, True], 2, "", True

    run(h, gen())


def breaks(h):
    """the connection goes away at every point"""
    rng = h.rng

    def gen():
        for n in (1, 2, 3):
            for cut in range(n):
                for kind in ("dummy", "unix", "tcp"):
                    for who in ("server", "client", "stop", "abort", "rst", "garbage"):
                        if kind == "dummy" and who in ("abort", "rst", "garbage"):
                            continue
                        order = list(range(n))
                        rng.shuffle(order)
                        fates = [rng.choice(FATES) for _ in range(n)]
                        yield kind, order, fates, [rng.random() < 0.7 for _ in range(n)], cut, who, rng.random() < 0.4

    run(h, gen())


def random_(h):
    rng = h.rng

    def gen():
        for _ in range(h.n(150, 3000)):
            n = rng.randrange(2, 9)
            order = list(range(n))
            rng.shuffle(order)
            kind = rng.choice(["dummy", "unix", "tcp"])
            who = rng.choice(["server", "client", "stop"] + (["abort", "rst", "garbage"] if kind != "dummy" else []))
            yield kind, order, [rng.choice(FATES) for _ in range(n)], [rng.random() < 0.7 for _ in range(n)], rng.randrange(n + 1), who, rng.random() < 0.3

    run(h, gen())


def real_calls(h):
    """many calls to actors at once: each caller gets what it asked for"""
    import xoscar as mo
    from util import pool, remote

    class A(mo.StatelessActor):
        async def f(self, x, n):
            await spin(n)
            if n == 7:
                raise KeyError(x)
            return x

    rng = h.rng

    async def main():
        async with pool(2) as p:
            refs = [await mo.create_actor(A, uid=f"a{i}", address=p.external_address, allocate_strategy=mo.allocate_strategy.ProcessIndex(i)) for i in range(3)]
            for case in range(h.n(20, 300)):
                n = rng.randrange(2, 40)
                ns = [rng.randrange(9) for _ in range(n)]
                ts = [asyncio.ensure_future(remote(rng.choice(refs)).f((case, i), ns[i])) for i in range(n)]
                await spin(rng.randrange(4))
                gone = rng.sample(range(n), rng.randrange(0, n // 2))
                for i in gone:
                    ts[i].cancel()
                res = await asyncio.wait_for(asyncio.gather(*ts, return_exceptions=True), 20)
                h.seen((n, tuple(ns), len(gone)))
                for i, r in enumerate(res):
                    if i in gone:
                        h.check(isinstance(r, asyncio.CancelledError) or r == (case, i) or isinstance(r, KeyError), "C05.cancelled", (ns, gone, i), f"{r!r}")
                    elif ns[i] == 7:
                        h.check(isinstance(r, KeyError) and r.args == ((case, i),), "C05.own_response", (ns, gone, i), f"{r!r}")
                    else:
                        h.check(r == (case, i), "C05.own_response", (ns, gone, i), f"{r!r}")

    h.arun(main, "C05.real_calls", "many calls to three actors", timeout=100)


PARTS = [orders, breaks, random_, real_calls]
