"""C04: connected pairs of in-process, unix and TCP channels: sequences of objects (empty, nested, bytes of 0 to several MB, arrays of all layouts and item sizes, objects of more than 100 parts) sent in both directions with sends and receives overlapping, several senders or receivers at once, slow readers (flow control); the byte stream of such a sequence cut into chunks at every position / at random, truncated at every position, aborted, and with another version; the announced sizes compared with the bytes written. Non-trivial: (channel, objects, schedule) or (objects, cut)."""

import asyncio
import os

import numpy as np
import cloudpickle

from util import free_port, spin
from xoscar.backends.communication import get_client_type, get_server_type
from xoscar.backends.communication.socket import SocketChannel
from xoscar.backends.communication.utils import read_buffers, write_buffers
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize
from xoscar.serialization.core import Serializer


class Bufs:
    """an object with the given buffers"""

    def __init__(self, bufs):
        self.bufs = bufs


class BufsSerializer(Serializer):
    def serial(self, obj, context):
        return (), list(obj.bufs), True

    def deserial(self, serialized, context, subs):
        return Bufs(list(subs))


BufsSerializer.register(Bufs)


def raw(b):
    return memoryview(b).tobytes()


def equal(a, b):
    if isinstance(a, Bufs):
        return isinstance(b, Bufs) and [raw(x) for x in a.bufs] == [raw(x) for x in b.bufs]
    if isinstance(a, np.ndarray):
        return type(b) is type(a) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def array(rng, big=False):
    dt = rng.choice(["u1", "i2", "f8", "c16", "?", "S3", "M8[s]"])
    n = rng.choice([0, 1, 2, 7])
    shape = rng.choice([(n,), (n, 3), (2, n, 2), ()])
    if big:
        shape = (rng.choice([70_000, 300_000]),)
        dt = "f8"
    a = np.arange(int(np.prod(shape))).reshape(shape)
    a = (a % 2).astype(dt) if dt == "?" else a.astype("i8").astype(dt)
    k = rng.randrange(3)
    if k == 1 and a.ndim:
        a = np.asfortranarray(a)
    elif k == 2 and a.ndim:
        a = a[::2]
    return a


def buf(rng):
    k = rng.randrange(7)
    n = rng.choice([0, 1, 5, 64, 1000])
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return bytearray(n)
    if k == 2:
        return memoryview(bytes(range(n % 256)))
    if k == 3:
        return memoryview(np.arange(n * 2, dtype="f8").reshape(2, n)) if n else memoryview(b"")
    if k == 4:
        return memoryview(np.arange(n, dtype="i4"))
    if k == 5:
        return np.arange(n, dtype="i2")
    return memoryview(np.arange(n * 3, dtype="u2").reshape(3, n)) if n else memoryview(bytearray())


def obj(rng, depth=0):
    k = rng.randrange(13 if depth < 2 else 8)
    if k == 0:
        return None
    if k == 1:
        return rng.randrange(-5, 1 << 70)
    if k == 2:
        return "x" * rng.choice([0, 3, 1000])
    if k == 3:
        return os.urandom(rng.choice([0, 1, 100, 5000]))
    if k == 4:
        return array(rng)
    if k == 5:
        return Bufs([buf(rng) for _ in range(rng.randrange(5))])
    if k == 6:
        return rng.random()
    if k == 7:
        return array(rng, True) if rng.random() < 0.2 else b"z" * rng.choice([1, 70_000, 300_000])
    if k == 8:
        return [obj(rng, depth + 1) for _ in range(rng.randrange(4))]
    if k == 9:
        return tuple(obj(rng, depth + 1) for _ in range(rng.randrange(4)))
    if k == 10:
        return {i: obj(rng, depth + 1) for i in range(rng.randrange(4))}
    if k == 11:
        return [[i] for i in range(rng.choice([90, 99, 100, 101, 200]))]
    return [[i, array(rng)] for i in range(rng.choice([60, 120]))]


def brief(objs):
    def b(o):
        if isinstance(o, Bufs):
            return f"Bufs({[(type(x).__name__, memoryview(x).nbytes, memoryview(x).format, memoryview(x).shape) for x in o.bufs]})"
        if isinstance(o, np.ndarray):
            return f"array({o.dtype}, {o.shape}, {o.strides})"
        r = repr(o)
        return r if len(r) < 60 else f"{type(o).__name__} of {len(o)}"

    return [b(o) for o in objs]


N = [0]


class Pair:
    def __init__(self, kind):
        self.kind = kind

    async def __aenter__(self):
        N[0] += 1
        k = self.kind
        if k == "dummy":
            addr, cfg = f"dummy://c04-{N[0]}", None
            cfg = dict(address=addr)
        elif k == "unix":
            addr = f"unixsocket:///{800000000 + os.getpid() % 100000 * 1000 + N[0]}"
            cfg = dict(address=addr)
        else:
            addr = f"127.0.0.1:{free_port()}"
            cfg = dict(host="127.0.0.1", port=int(addr.split(":")[1]))
        got = asyncio.get_running_loop().create_future()
        end = self.end = asyncio.Event()

        async def handle(ch):
            if not got.done():
                got.set_result(ch)
            await end.wait()

        self.server = await get_server_type(addr).create(dict(cfg, handle_channel=handle))
        await self.server.start()
        self.client = await get_client_type(addr).connect(addr)
        self.a = self.client.channel
        self.b = await asyncio.wait_for(got, 5)
        return self

    async def __aexit__(self, *a):
        self.end.set()
        for c in (self.client.close, self.server.stop):
            try:
                await asyncio.wait_for(c(), 5)
            except Exception:
                pass


KINDS = ["dummy", "unix", "tcp"]


def pairs(h):
    """both directions at once, sends and receives overlapping"""
    rng = h.rng

    async def main():
        for case in range(h.n(90, 1500)):
            if h.time_left() < 30:
                break
            kind = KINDS[case % 3]
            msgs = [[obj(rng) for _ in range(rng.randrange(1, 9))] for _ in range(2)]
            slow = rng.randrange(3)
            log = dict(channel=kind, objects=[brief(m) for m in msgs], slow=slow)
            h.seen((kind, repr(log["objects"]), slow), log)
            async with Pair(kind) as p:

                async def send(ch, ms):
                    for m in ms:
                        await ch.send(m)
                        if rng.random() < 0.3:
                            await spin(rng.randrange(4))

                async def recv(ch, n):
                    r = []
                    for _ in range(n):
                        if slow == 1:
                            await asyncio.sleep(0.002)
                        elif slow == 2:
                            await spin(rng.randrange(5))
                        r.append(await ch.recv())
                    return r

                ts = [asyncio.ensure_future(x) for x in (send(p.a, msgs[0]), recv(p.b, len(msgs[0])), send(p.b, msgs[1]), recv(p.a, len(msgs[1])))]
                done, nd = await asyncio.wait(ts, timeout=15)
                if nd:
                    h.fail("C04.arrives", log, f"not everything sent arrives: {[t for t in nd]!r}")
                    for t in nd:
                        t.cancel()
                    continue
                for want, t in ((msgs[0], ts[1]), (msgs[1], ts[3])):
                    got = t.result()
                    h.check(equal(want, got), "C04.same_in_order", log, f"received {brief(got)}")
                # nothing more arrives, until the channel is closed
                rs = [asyncio.ensure_future(c.recv()) for c in (p.a, p.b)]
                await spin(5)
                h.check(not any(r.done() for r in rs), "C04.once", log, f"{rs!r}")
                await (p.a if case % 2 else p.b).close()
                done, nd = await asyncio.wait(rs, timeout=8)
                h.check(not nd and all(isinstance(r.exception(), (EOFError, ConnectionError)) for r in done), "C04.end", log, f"{rs!r}")
                for t in nd:
                    t.cancel()

    h.arun(main, "C04.pairs", "pairs of channels", timeout=200)


def concurrent(h):
    """several senders and receivers on one channel: every message whole and once"""
    rng = h.rng

    async def main():
        for case in range(h.n(40, 500)):
            if h.time_left() < 30:
                break
            kind = KINDS[case % 3]
            ns, nr = rng.randrange(1, 6), rng.randrange(1, 4)
            per = rng.randrange(1, 6)
            size = [rng.choice([0, 10, 100_000]) for _ in range(ns)]
            log = dict(channel=kind, senders=ns, receivers=nr, each=per, sizes=size)
            h.seen(repr(log), log)
            async with Pair(kind) as p:

                async def send(i):
                    for j in range(per):
                        await p.a.send((i, j, np.full(size[i], i, "u1"), bytes([j]) * size[i]))

                got = []

                async def recv():
                    while len(got) < ns * per:
                        got.append(await p.b.recv())

                rs = [asyncio.ensure_future(recv()) for _ in range(nr)]
                ss = [asyncio.ensure_future(send(i)) for i in range(ns)]
                done, nd = await asyncio.wait(ss, timeout=15)
                h.check(not nd, "C04.arrives", log, f"sends hang: {nd!r}")
                for t in done:
                    h.check(t.exception() is None, "C04.sends", log, f"{t!r}")
                for _ in range(2000):
                    if len(got) >= ns * per or all(r.done() for r in rs):
                        break
                    await asyncio.sleep(0.002)
                keys = sorted((m[0], m[1]) for m in got)
                h.check(keys == sorted((i, j) for i in range(ns) for j in range(per)), "C04.once", log, f"{keys}")
                for i, j, a, b in got:
                    h.check(a.tobytes() == bytes([i]) * size[i] and b == bytes([j]) * size[i], "C04.whole", log, f"message {i},{j}")
                if nr == 1:
                    for i in range(ns):
                        h.check([m[1] for m in got if m[0] == i] == list(range(per)), "C04.order", log, f"{[m[:2] for m in got]}")
                for r in rs:
                    r.cancel()

    h.arun(main, "C04.concurrent", "several senders and receivers", timeout=200)


class FakeWriter:
    """records what is written"""

    def __init__(self):
        self.data = bytearray()
        self.closed = False

    def write(self, b):
        self.data += memoryview(b).tobytes() if not isinstance(b, bytes) else b

    def writelines(self, bs):
        for b in bs:
            self.write(b)

    async def drain(self):
        await asyncio.sleep(0)

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    async def wait_closed(self):
        pass


async def stream_of(msgs):
    """the bytes of the messages and the ends of each"""
    w = FakeWriter()
    ch = SocketChannel(asyncio.StreamReader(), w)
    ends = []
    for m in msgs:
        await ch.send(m)
        ends.append(len(w.data))
    return bytes(w.data), ends


async def receive(data, cuts, n, eof=True, exc=None):
    """feed the bytes in chunks to a receiving channel; list of (kind, value)"""
    reader = asyncio.StreamReader()
    ch = SocketChannel(reader, FakeWriter())
    out = []

    async def recv():
        for _ in range(n):
            try:
                out.append(("ok", await ch.recv()))
            except BaseException as e:
                out.append(("exc", e))
                break

    t = asyncio.ensure_future(recv())
    prev = 0
    for c in list(cuts) + [len(data)]:
        if c > prev:
            reader.feed_data(data[prev:c])
            prev = c
            await asyncio.sleep(0)
            await asyncio.sleep(0)
    if exc is not None:
        reader.set_exception(exc)
    elif eof:
        reader.feed_eof()
    done, nd = await asyncio.wait([t], timeout=8)
    if nd:
        t.cancel()
        out.append(("hang", None))
    return out


def chunks(h):
    """however the stream is split"""
    rng = h.rng

    async def main():
        # every single split and the split into single bytes, for a short stream
        msgs = [None, {"a": [1, b"xyz"]}, np.arange(6, dtype="i2").reshape(2, 3), Bufs([b"", memoryview(np.arange(4.0)), b"q"])]
        data, ends = await stream_of(msgs)
        splits = [[i] for i in range(1, len(data))] + [list(range(1, len(data)))]
        for _ in range(h.n(150, 3000)):
            splits.append(sorted(rng.sample(range(1, len(data)), rng.randrange(1, 12))))
        for cuts in splits:
            out = await receive(data, cuts, len(msgs) + 1)
            h.seen(("split", tuple(cuts)))
            ok = len(out) == len(msgs) + 1 and all(o[0] == "ok" for o in out[:-1]) and equal(msgs, [o[1] for o in out[:-1]])
            h.check(ok and out[-1][0] == "exc" and isinstance(out[-1][1], (EOFError, ConnectionError)), "C04.split", (brief(msgs), cuts if len(cuts) < 20 else "single bytes"), f"{out!r}")
        # truncated at every byte; broken at some
        for cut in range(len(data)):
            whole = sum(1 for e in ends if e <= cut)
            for exc in (None, ConnectionResetError("gone")):
                if exc is not None and cut % 3:
                    continue
                out = await receive(data[:cut], [cut // 2], len(msgs), exc=exc)
                h.seen(("truncated", cut, exc is not None))
                # the messages that are complete may have arrived before the break
                n = sum(1 for o in out if o[0] == "ok")
                ok = (n == whole or (exc is not None and n <= whole)) and equal(msgs[:n], [o[1] for o in out[:n]])
                last = out[-1]
                ok = ok and len(out) == n + 1 and last[0] == "exc" and isinstance(last[1], (EOFError, ConnectionError))
                h.check(ok, "C04.truncated", (brief(msgs), f"{cut} of {len(data)} bytes, {exc!r}"), f"{out!r}")
        # another version
        for v in range(256):
            if v == data[0]:
                continue
            for k, start in enumerate([0] + ends[:-1]):
                if k and v % 16:
                    continue
                d = data[:start] + bytes([v]) + data[start + 1 :]
                out = await receive(d, [], len(msgs))
                h.seen(("version", v, k))
                ok = len(out) == k + 1 and equal(msgs[:k], [o[1] for o in out[:k]]) and out[-1][0] == "exc" and isinstance(out[-1][1], (EOFError, ConnectionError))
                h.check(ok, "C04.version", f"message {k} with version {v}", f"{out!r}")
        # random sequences, chunks and truncations
        for _ in range(h.n(60, 1500)):
            if h.time_left() < 30:
                break
            msgs = [obj(rng) for _ in range(rng.randrange(1, 5))]
            data, ends = await stream_of(msgs)
            for _ in range(2):
                cut = rng.choice([len(data), rng.randrange(len(data) + 1)])
                cuts = sorted(rng.randrange(cut + 1) for _ in range(rng.choice([0, 1, 3, 10])))
                out = await receive(data[:cut], cuts, len(msgs))
                h.seen((repr(brief(msgs)), cut, tuple(cuts)))
                n = sum(1 for e in ends if e <= cut)
                good = [o[1] for o in out if o[0] == "ok"]
                ok = equal(msgs[:n], good) and (n == len(msgs) or (out[-1][0] == "exc" and isinstance(out[-1][1], (EOFError, ConnectionError))))
                h.check(ok, "C04.split", (brief(msgs), cuts, f"{cut} of {len(data)} bytes"), f"{[o if o[0] != 'ok' else brief([o[1]]) for o in out]!r}")

    h.arun(main, "C04.chunks", "splits and truncations of streams", timeout=220)


def sizes(h):
    """the announced sizes are those of the bytes that follow"""
    rng = h.rng

    async def main():
        objs = [Bufs([b]) for b in (b"", b"abc", bytearray(5), memoryview(b"abcd"), memoryview(np.arange(5.0)), memoryview(np.zeros((2, 3), "i4")), memoryview(np.zeros((0, 3))), np.zeros((3, 0)), np.ones((4, 4), "f4", order="F"), memoryview(np.arange(10, dtype="i8"))[::3], memoryview(np.ones((4, 4), "u1").T), memoryview(np.array(3.0)))]
        objs += [Bufs([b"", b"", b"x", b""]), Bufs([]), Bufs([np.zeros(2_000_000, "f8"), memoryview(np.arange(400_000, dtype="i8"))])]
        objs += [obj(rng) for _ in range(h.n(250, 3000))]
        for o in objs:
            bufs = await AioSerializer(o).run()
            flat = [raw(b) for b in bufs]
            header = cloudpickle.loads(flat[1])
            log = brief([o])
            h.seen(repr(log), log)
            h.check(len(flat[0]) == 11 and int.from_bytes(flat[0][1:9], "little") == len(flat[1]), "C04.header_length", log, f"{flat[0]!r}, header of {len(flat[1])}")
            h.check(header[0]["buf_sizes"] == [len(b) for b in flat[2:]], "C04.sizes", log, f"announced {header[0]['buf_sizes']}, follow {[len(b) for b in flat[2:]]}")
            w = FakeWriter()
            write_buffers(w, bufs)
            h.check(bytes(w.data) == b"".join(flat), "C04.written", log, f"{len(w.data)} bytes written, {sum(map(len, flat))} expected")
            r = asyncio.StreamReader()
            r.feed_data(bytes(w.data) + b"rest")
            d = AioDeserializer(r)
            hd = await d.get_header()
            b2 = await read_buffers(hd, r)
            h.check([bytes(b) for b in b2] == flat[2:], "C04.read", log, f"{[len(b) for b in b2]}")
            h.check(equal(o, deserialize(hd, b2)), "C04.same_in_order", log, "")
            r.feed_eof()
            h.check(await r.read() == b"rest", "C04.consumed", log, "more or less than the message was consumed")
            # also without the channel
            r = asyncio.StreamReader()
            r.feed_data(bytes(w.data))
            r.feed_eof()
            h.check(equal(o, await AioDeserializer(r).run()), "C04.same_in_order", log, "AioDeserializer.run")
            r = asyncio.StreamReader()
            r.feed_data(bytes(w.data))
            h.check(await AioDeserializer(r).get_size() == len(w.data), "C04.get_size", log, f"{len(w.data)} bytes")

    h.arun(main, "C04.sizes", "sizes of messages", timeout=120)


PARTS = [pairs, concurrent, chunks, sizes]
