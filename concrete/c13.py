"""C13: copy_to between pools through in-process and TCP channels: lists of 1 to 9 byte buffers of 0 to several blocks (bytes, bytearrays, memory views, arrays; exhaustively all lists of up to 3 sizes around small block sizes) and of up to 5 files (empty ones, short reads), all block sizes 1 to 9, around the sizes and the default; remote buffers longer than the local ones; failures of the remote side at every message. What is sent is observed on the channels. Non-trivial: (kind, sizes, block size, channel)."""

import asyncio
import io
import itertools
import os
import tempfile

import numpy as np

import xoscar as mo
from util import pool
from xoscar.aio import AioFileObject
from xoscar.backends.communication.dummy import DummyChannel
from xoscar.backends.communication.socket import SocketChannel
from xoscar.backends.message import MessageType
from xoscar.backends.router import Router

SENT = []


def spy(cls):
    orig = cls.send

    async def send(self, message, *a, **k):
        t = getattr(message, "message_type", None)
        if t in (MessageType.copy_to_buffers, MessageType.copy_to_fileobjs):
            try:
                SENT.append((t, sum(memoryview(c[-1]).nbytes for c in message.content)))
            except Exception:
                pass
        return await orig(self, message, *a, **k)

    cls.send = send


spy(DummyChannel)
spy(SocketChannel)


class Holder(mo.StatelessActor):
    def __init__(self):
        self.bufs = {}
        self.files = {}

    def make(self, sizes, array=False, ro=None):
        self.bufs = {}
        refs = []
        for i, n in enumerate(sizes):
            if array:
                a = np.zeros(n, "u1")
            else:
                a = memoryview(bytes(n) if i == ro else bytearray(n))
            self.bufs[i] = a
            refs.append(mo.buffer_ref(self.address, a))
        return refs

    def make_items(self, shapes, dtype):
        self.bufs = {i: np.zeros(s, dtype) for i, s in enumerate(shapes)}
        return [mo.buffer_ref(self.address, b) for b in self.bufs.values()]

    def get(self):
        return [b.tobytes() for b in self.bufs.values()]

    def drop(self, i):
        self.bufs.pop(i)

    def open(self, paths, mode="wb"):
        self.files = {i: AioFileObject(open(p, mode)) for i, p in enumerate(paths)}
        return [mo.file_object_ref(self.address, f) for f in self.files.values()]

    async def close(self, i=None):
        for k, f in list(self.files.items()):
            if i is None or k == i:
                await f.close()


class ShortFile:
    """a local file whose reads may be short; records the sizes asked for"""

    def __init__(self, data, rng, fail_at=None):
        self.f = io.BytesIO(data)
        self.rng = rng
        self.asked = []
        self.fail_at = fail_at

    async def read(self, n=-1):
        self.asked.append(n)
        await asyncio.sleep(0)
        if self.fail_at is not None and len(self.asked) > self.fail_at:
            raise OSError("cannot read")
        if self.rng is not None and n > 1:
            n = self.rng.randrange(1, n + 1)
        return self.f.read(n)


class Env:
    def __init__(self, h, limit):
        self.h = h
        self.limit = limit

    def run(self, body, what):
        async def main():
            async with pool(2) as p:
                for i in (1, 0):
                    pass
                refs = [await mo.create_actor(Holder, uid=f"h{i}", address=p.external_address, allocate_strategy=mo.allocate_strategy.ProcessIndex(i)) for i in (0, 1)]
                local = Router.get_instance()
                plain = Router(["127.0.0.1:1"], None)
                try:
                    await body(refs, {"in-process": local, "tcp": plain})
                finally:
                    Router.set_instance(local)

        self.h.arun(main, "C13.no_error", what, timeout=self.limit)


def local(rng, n, k=None):
    data = bytes(rng.randrange(1, 256) for _ in range(n)) if n < 3000 else os.urandom(n)
    k = rng.randrange(4) if k is None else k
    return data, [bytes(data), bytearray(data), memoryview(data), np.frombuffer(data, "u1")][k]


async def copy(h, ref, router, sizes, extra, block, kinds, rng, log):
    datas = [local(rng, n, k) for n, k in zip(sizes, kinds)]
    Router.set_instance(router[0])
    try:
        array = rng.random() < 0.5 and all(isinstance(d[1], np.ndarray) for d in datas)
        refs = await ref.make([n + e for n, e in zip(sizes, extra)], array)
        del SENT[:]
        kw = {} if block is None else dict(block_size=block)
        await asyncio.wait_for(mo.copy_to([d[1] for d in datas], refs, **kw), 20)
        sent = list(SENT)
        got = await ref.get()
    finally:
        Router.set_instance(router[1])
    want = [d[0] + bytes(e) for d, e in zip(datas, extra)]
    h.check(got == want, "C13.same_bytes", log, f"buffers differ: {[i for i, (a, b) in enumerate(zip(got, want)) if a != b]}; got {[len(g) for g in got]}")
    for d in datas:
        h.check(bytes(d[1]) == d[0], "C13.local_unchanged", log)
    if block is not None:
        h.check(all(n <= block for _, n in sent), "C13.block_size", log, f"messages of {[n for _, n in sent]} bytes")
    h.check(sum(n for _, n in sent) == sum(sizes), "C13.once", log, f"messages of {[n for _, n in sent]} bytes")


def small(h):
    """all lists of up to 3 sizes with all small block sizes"""
    rng = h.rng

    async def body(refs, routers):
        for case, (n, block) in enumerate(itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 8))):
            top = 11 if n == 1 else 9 if n == 2 else 6
            for k, sizes in enumerate(itertools.product(range(top), repeat=n)):
                if h.time_left() < 60 or len(h.failures) > 5:
                    return
                if n == 3 and not h.thorough and k % 3 != case % 3:
                    continue
                log = dict(sizes=sizes, block=block, channel="in-process")
                h.seen((sizes, block), log)
                extra = [k % 3] * n
                await copy(h, refs[case % 2], (routers["in-process"], routers["in-process"]), sizes, extra, block, [3] * n if case % 4 == 0 else [rng.randrange(4) for _ in range(n)], rng, log)

    Env(h, 200).run(body, "small sizes")


def random_(h):
    rng = h.rng

    async def body(refs, routers):
        for case in range(h.n(200, 3000)):
            if h.time_left() < 60 or len(h.failures) > 5:
                return
            block = rng.choice([1, 7, 16, 100, 1000, 4096, None])
            base = min(block or 5000, 5000)
            n = rng.randrange(1, 10)
            sizes = [rng.choice([0, 1, base - 1, base, base + 1, 2 * base, 3 * base + 2, rng.randrange(3 * base + 1)]) for _ in range(n)]
            if block == 1:
                sizes = [min(s, 20) for s in sizes]
            if block == 7:
                sizes = [min(s, 60) for s in sizes]
            extra = [rng.choice([0, 0, 1, 9]) for _ in range(n)]
            ch = rng.choice(["in-process", "tcp"])
            log = dict(sizes=sizes, block=block, channel=ch, longer=extra)
            h.seen(repr(log), log)
            await copy(h, rng.choice(refs), (routers[ch], routers["in-process"]), sizes, extra, block, [3] * n if case % 4 == 0 else [rng.randrange(4) for _ in range(n)], rng, log)
        # several at once, to the same pool
        for case in range(h.n(10, 100)):
            datas = [local(rng, 50 + i) for i in range(8)]
            brefs = await refs[0].make([len(d[0]) for d in datas])
            await asyncio.gather(*(mo.copy_to([d[1]], [r], block_size=7 + i) for i, (d, r) in enumerate(zip(datas, brefs))))
            h.seen(("at once", case))
            h.check(await refs[0].get() == [d[0] for d in datas], "C13.same_bytes", "8 copies at once", "")
        # larger than the default block, and arrays of larger items
        for n in h.n([5 * 2**20], [5 * 2**20, 9 * 2**20 + 1]):
            for ch in routers:
                await copy(h, refs[1], (routers[ch], routers["in-process"]), [n, 3, n // 2], [0, 1, 0], None, [3, 0, 2], rng, dict(sizes=n, channel=ch))
                h.seen(("large", n, ch))
        for ch in routers:
            for block in (1, 3, 8, 100):
                src = [np.arange(n, dtype="f8") + 1 for n in (5, 0, 17)]
                Router.set_instance(routers[ch])
                brefs = await refs[0].make_items([(6,), (2,), (17,)], "f8")
                await mo.copy_to(src, brefs, block_size=block)
                got = await refs[0].get()
                Router.set_instance(routers["in-process"])
                h.seen(("f8", ch, block))
                h.check(got == [src[0].tobytes() + bytes(8), bytes(16), src[2].tobytes()], "C13.same_bytes", f"arrays of f8, block {block}, {ch}", "")

    Env(h, 200).run(body, "random sizes")


def files(h):
    rng = h.rng

    async def body(refs, routers):
        with tempfile.TemporaryDirectory() as tmp:
            cases = []
            for block in (1, 2, 3, 5):
                for sizes in itertools.product((0, 1, 2, 3, 5, 6), repeat=2):
                    cases.append((list(sizes), block))
            for _ in range(h.n(120, 1500)):
                block = rng.choice([1, 4, 10, 100, 5000, None])
                base = block or 3000
                cases.append(([rng.choice([0, 1, base - 1, base, base + 1, 3 * base, rng.randrange(3 * base + 1)]) for _ in range(rng.randrange(1, 6))], block))
            for k, (sizes, block) in enumerate(cases):
                if h.time_left() < 40 or len(h.failures) > 5:
                    return
                ch = "tcp" if k % 3 == 0 else "in-process"
                short = k % 2
                log = dict(files=sizes, block=block, channel=ch, short_reads=bool(short))
                h.seen(repr(log), log)
                datas = [local(rng, n, 0)[0] for n in sizes]
                fs = [ShortFile(d, rng if short else None) for d in datas]
                if not short and k % 4 == 0:
                    paths = []
                    for i, d in enumerate(datas):
                        with open(os.path.join(tmp, f"l{i}"), "wb") as f:
                            f.write(d)
                        paths.append(f.name)
                    use = [AioFileObject(open(q, "rb")) for q in paths]
                else:
                    use = fs
                outs = [os.path.join(tmp, f"r{i}") for i in range(len(sizes))]
                ref = rng.choice(refs)
                Router.set_instance(routers[ch])
                frefs = await ref.open(outs)
                kw = {} if block is None else dict(block_size=block)
                await asyncio.wait_for(mo.copy_to(use, frefs, **kw), 20)
                await ref.close()
                Router.set_instance(routers["in-process"])
                got = [open(o, "rb").read() for o in outs]
                h.check(got == datas, "C13.same_bytes", log, f"files of {[len(g) for g in got]} bytes; different: {[i for i, (a, b) in enumerate(zip(got, datas)) if a != b]}")
                if block is not None:
                    for f in fs:
                        h.check(all(n is not None and 0 <= n <= block for n in f.asked), "C13.reads", log, f"reads of {f.asked}")
                if use is not fs:
                    for f in use:
                        await f.close()

    Env(h, 200).run(body, "files")


def errors(h):
    """what fails on the remote side is raised here"""
    rng = h.rng

    async def body(refs, routers):
        with tempfile.TemporaryDirectory() as tmp:
            for k in range(h.n(80, 800)):
                if h.time_left() < 30 or len(h.failures) > 5:
                    return
                ch = rng.choice(["tcp", "in-process"])
                n = rng.randrange(1, 6)
                bad = rng.randrange(n)
                block = rng.choice([3, 8, 50, None])
                how = rng.choice(["released", "too small", "closed file", "read-only file", "read only", "local file"])
                log = dict(n=n, fails=bad, block=block, how=how, channel=ch)
                h.seen(repr(log), log)
                kw = {} if block is None else dict(block_size=block)
                Router.set_instance(routers[ch])
                ref = refs[k % 2]
                try:
                    if how in ("released", "too small", "read only"):
                        sizes = [rng.randrange(1, 20) for _ in range(n)]
                        datas = [local(rng, s) for s in sizes]
                        if how == "too small":
                            brefs = await ref.make([s - (i == bad) for i, s in enumerate(sizes)])
                            want = ValueError
                        else:
                            brefs = await ref.make(sizes, False, bad if how == "read only" else None)
                            if how == "released":
                                await ref.drop(bad)
                                want = KeyError
                            else:
                                want = TypeError
                        coro = mo.copy_to([d[1] for d in datas], brefs, **kw)
                    else:
                        datas = [local(rng, rng.randrange(1, 20), 0)[0] for _ in range(n)]
                        paths = [os.path.join(tmp, f"e{i}") for i in range(n)]
                        for q in paths:
                            open(q, "wb").close()
                        frefs = await ref.open(paths, "rb" if how == "read-only file" else "wb")
                        if how == "closed file":
                            await ref.close(bad)
                        want = {"closed file": ValueError, "read-only file": io.UnsupportedOperation, "local file": OSError}[how]
                        fs = [ShortFile(d, None, fail_at=0 if how == "local file" and i == bad else None) for i, d in enumerate(datas)]
                        coro = mo.copy_to(fs, frefs, **kw)
                    try:
                        await asyncio.wait_for(coro, 10)
                    except asyncio.TimeoutError:
                        h.fail("C13.errors", log, "hangs")
                    except Exception as e:
                        h.check(isinstance(e, want), "C13.errors", log, f"{e!r}")
                    else:
                        h.fail("C13.errors", log, "nothing was raised")
                    # and the connection still works
                    brefs = await ref.make([4])
                    await asyncio.wait_for(mo.copy_to([b"abcd"], brefs, block_size=3), 10)
                    h.check(await ref.get() == [b"abcd"], "C13.after_error", log, "")
                finally:
                    Router.set_instance(routers["in-process"])

    Env(h, 150).run(body, "errors")


PARTS = [small, random_, files, errors]
