"""C17: generators of stateful and stateless actors (synchronous and asynchronous, as generator functions and returned by methods) with 0 to 12 items of every kind (None, falsy values, exceptions and classes as values, tuples, containers), ending or raising one of 12 errors at any point, iterated through local and remote references and pickled iterators, up to 6 interleaved; destroyed explicitly, by collection, at the end and at the error; weak references tell when they are released. Non-trivial: (kind, items, end, way)."""

import asyncio
import gc
import itertools
import pickle
import weakref

import numpy as np
import xoscar as mo
from util import pool, remote, spin


class MyError(Exception):
    def __init__(self, a, b="dflt"):
        super().__init__(a, b)
        self.a = a


class Odd:
    """an item whose comparisons answer anything"""

    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    __hash__ = None

    def __bool__(self):
        raise ValueError("no truth value")

    def __len__(self):
        raise ValueError("no length")

    def __repr__(self):
        return f"Odd({self.answer!r})"


ITEMS = [np.arange(3), np.zeros(0), np.ones((2, 2), dtype=bool), np.array([True]), Odd(True), Odd(False), Odd(ValueError("==")), Odd([]), None, 0, False, "", (), [], {}, 1, "text", b"b", 1.5, ValueError("value"), KeyError, StopIteration(), StopAsyncIteration("x"), Exception("StopIteration"), (1, None), [None], {"a": ()}, NotImplemented, Ellipsis, object, (StopIteration(),)]
ERRORS = [None, ValueError("boom", 1), KeyError("k"), MyError("m"), Exception("StopIteration"), RuntimeError("stop"), OSError(2, "x"), LookupError(), EOFError("eof"), TypeError("t"), Exception(), ArithmeticError("No iterator with id"), StopIteration("inside"), StopAsyncIteration("inside")]


def make(cls):
    class G(cls):
        def __init__(self):
            super().__init__()
            self.refs = {}
            self.pulled = {}

        def _sync(self, key, items, err):
            for i, x in enumerate(items):
                self.pulled[key] = i + 1
                yield x
            if err is not None:
                raise err

        async def _async(self, key, items, err):
            for i, x in enumerate(items):
                self.pulled[key] = i + 1
                if i % 2:
                    await asyncio.sleep(0)
                yield x
            if err is not None:
                raise err

        def _note(self, key, g):
            self.refs[key] = weakref.ref(g)
            self.pulled[key] = 0
            return g

        @mo.generator
        def sync_gen(self, key, items, err):
            for x in items:
                yield x
            if err is not None:
                raise err

        @mo.generator
        async def async_gen(self, key, items, err):
            for x in items:
                yield x
                await asyncio.sleep(0)
            if err is not None:
                raise err

        @mo.generator
        def sync_sync(self, key, items, err):
            return self._note(key, self._sync(key, items, err))

        @mo.generator
        def sync_async(self, key, items, err):
            return self._note(key, self._async(key, items, err))

        @mo.generator
        async def async_sync(self, key, items, err):
            await asyncio.sleep(0)
            return self._note(key, self._sync(key, items, err))

        @mo.generator
        async def async_async(self, key, items, err):
            return self._note(key, self._async(key, items, err))

        @mo.generator
        async def no_generator(self, value):
            return value

        @mo.generator
        def no_generator2(self, value):
            return value

        def alive(self, key, collect=False):
            if collect:
                gc.collect()
            return self.refs[key]() is not None

        def how_far(self, key):
            return self.pulled[key]

    G.__name__ = f"G{cls.__name__}"
    return G


METHODS = ["sync_gen", "async_gen", "sync_sync", "sync_async", "async_sync", "async_async"]


def same(a, b):
    if isinstance(a, BaseException):
        return type(a) is type(b) and a.args == b.args
    if isinstance(a, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(a, b)
    if type(a) is Odd:
        return type(b) is Odd and (show(a.answer) == show(b.answer))
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def show(e):
    return f"{type(e).__name__}{e.args}" if isinstance(e, BaseException) else repr(e)


async def ended(h, exc, err, meth, log):
    """the iteration ended as the generator did"""
    if err is None:
        h.check(isinstance(exc, StopAsyncIteration), "C17.end", log, f"{exc!r}")
    else:
        # as in python itself, these become RuntimeErrors
        if isinstance(err, (StopIteration, StopAsyncIteration)):
            h.check(isinstance(exc, RuntimeError), "C17.error", log, f"{exc!r}")
        else:
            h.check(isinstance(exc, type(err)) and exc.args == err.args and str(err) in str(exc), "C17.error", log, f"{exc!r}")


def forget(*excs):
    """an error object shared by the actors of this process keeps the frames it went through"""
    for e in excs:
        while e is not None:
            e.__traceback__ = None
            e.__context__, e = None, e.__cause__ or e.__context__


async def drop(holder):
    """collect an iterator, in a thread: its __del__ waits for other threads, and must not block the loop of the pools, which here share a process"""

    def run():
        del holder[0]

    await asyncio.to_thread(run)


async def settle(ref, key):
    for n in range(60):
        if not await ref.alive(key, n % 8 == 3):
            return True
        await asyncio.sleep(0.005)
    return False


async def scenario(h, refs, key, meth, items, err, way, stop_at, other):
    log = dict(method=meth, items=[show(i) for i in items], raises=show(err) if err is not None else None, way=way, stop_at=stop_at)
    r = refs[way.split("+")[0]]
    it = await getattr(r, meth)(key, items, err)
    if "pickled" in way:
        first = it
        it = pickle.loads(pickle.dumps(first))
        del first
    got = []
    exc = None
    while True:
        if stop_at is not None and len(got) == stop_at:
            break
        try:
            got.append(await asyncio.wait_for(it.__anext__(), 10))
        except asyncio.TimeoutError as e:
            h.fail("C17.no_hang", log, "the next item does not come")
            it._gc_destroy = False
            return
        except BaseException as e:
            exc = e
            break
        if len(got) > len(items):
            break
        if other:
            await spin(other)
    want = items if stop_at is None else items[:stop_at]
    ok = len(got) == len(want) and all(same(a, b) for a, b in zip(want, got))
    h.check(ok, "C17.items", log, f"{[show(g) for g in got]}")
    tracked = meth not in ("sync_gen", "async_gen")
    if stop_at is None:
        it._gc_destroy = False
        await ended(h, exc, err, meth, log)
        forget(exc, err)
        exc = None
        if tracked:
            h.check(await settle(refs["local"], key), "C17.released_at_end", log, "the generator is kept")
    else:
        if tracked:
            h.check(await refs["local"].alive(key), "C17.kept", log, "the generator was released too early")
            n = await refs["local"].how_far(key)
            h.check(n == stop_at, "C17.on_demand", log, f"{n} items were taken")
        if key % 2:
            await it.destroy()
            keep = it
        else:
            # another iterator to use the released generator with
            keep = type(it).__new__(type(it))
            keep.__dict__.update(it.__dict__)
            keep._gc_destroy = False
            holder = [it]
            del it
            await drop(holder)
        it = keep
        if tracked:
            h.check(await settle(refs["local"], key), "C17.released_by_destroy", log, "the generator is kept")
    # a released one
    try:
        v = await asyncio.wait_for(it.__anext__(), 10)
        h.fail("C17.released_is_error", log, f"gives {v!r}")
    except StopAsyncIteration as e:
        h.fail("C17.released_is_error", log, f"{e!r}")
    except Exception:
        h.check(True, "C17.released_is_error", log)
    if stop_at is not None:
        it._gc_destroy = False


async def with_actors(h, body, limit=200):
    async with pool(2) as p:
        for cls in (mo.Actor, mo.StatelessActor):
            c = make(cls)
            local = await mo.create_actor(c, uid=f"g{c.__name__}", address=p.external_address, allocate_strategy=mo.allocate_strategy.ProcessIndex(1))
            await body({"local": local, "remote": remote(local)}, cls.__name__)


def singles(h):
    """all kinds, lengths and ends"""
    rng = h.rng

    async def main():
        key = itertools.count()

        async def body(refs, name):
            cases = []
            for meth in METHODS:
                for err in ERRORS:
                    cases.append((meth, rng.sample(ITEMS, rng.randrange(4)), err, None))
                for n in (0, 1, 2, 12):
                    cases.append((meth, [rng.choice(ITEMS) for _ in range(n)], None, None))
                for x in ITEMS:
                    cases.append((meth, [x, 1, x], None, None))
                for n in (0, 1, 3):
                    for s in range(n + 1):
                        cases.append((meth, [rng.choice(ITEMS) for _ in range(n)], rng.choice([None, None, ValueError("v")]), s))
            cases = cases * h.n(4, 20)
            for meth, items, err, stop in cases:
                if h.time_left() < 40 or len(h.failures) > 5:
                    return
                way = rng.choice(["local", "remote", "local+pickled", "remote+pickled"])
                k = next(key)
                h.seen((name, meth, tuple(show(i) for i in items), show(err), way, stop), (name, meth, [show(i) for i in items], show(err), way, stop))
                await scenario(h, refs, k, meth, items, err, way, stop, rng.choice([0, 0, 3]))

        await with_actors(h, body)

    h.arun(main, "C17.no_error", "single generators", timeout=200)


def interleaved(h):
    """several generators of an actor at once"""
    rng = h.rng

    async def main():
        key = itertools.count(100000)

        async def body(refs, name):
            for _ in range(h.n(400, 4000)):
                if h.time_left() < 30 or len(h.failures) > 5:
                    return
                n = rng.randrange(2, 7)
                # what happens to one does not change the others
                cs = []
                for _ in range(n):
                    items = [rng.choice(ITEMS) for _ in range(rng.randrange(7))]
                    stop = rng.choice([None, None, rng.randrange(len(items) + 1)])
                    cs.append((next(key), rng.choice(METHODS), items, rng.choice(ERRORS[:8]), rng.choice(["local", "remote", "remote+pickled"]), stop, rng.randrange(6)))
                h.seen(tuple((c[1], len(c[2]), show(c[3]), c[5]) for c in cs))
                await asyncio.gather(*(scenario(h, refs, *c) for c in cs))

        await with_actors(h, body)

    h.arun(main, "C17.no_error", "interleaved generators", timeout=200)


def others(h):
    """methods that return no generator; async for; generators that use others"""
    rng = h.rng

    class Relay(mo.StatelessActor):
        def __init__(self, ref):
            super().__init__()
            self.ref = ref

        @mo.generator
        async def relay(self, key, items, err):
            it = await self.ref.async_async(key, items, err)
            it._gc_destroy = False
            async for x in it:
                yield ("relayed", x)

    async def main():
        async def body(refs, name):
            for v in [None, 0, "x", [1], (1, 2), {"a": 1}]:
                for m in ("no_generator", "no_generator2"):
                    for w in refs:
                        h.seen((name, m, repr(v), w))
                        r = await getattr(refs[w], m)(v)
                        h.check(same(v, r), "C17.no_generator", (m, v, w), f"{r!r}")
            relay = await mo.create_actor(Relay, refs["remote"], uid=f"relay{name}", address=refs["local"].address)
            for k in range(h.n(200, 1500)):
                items = [rng.choice(ITEMS) for _ in range(rng.randrange(6))]
                err = rng.choice(ERRORS[:8])
                got, exc = [], None
                log = dict(relayed=[show(i) for i in items], raises=show(err))
                h.seen((name, repr(log)), log)
                try:
                    it = await remote(relay).relay(500000 + k, items, err)
                    it._gc_destroy = False
                    async for x in it:
                        got.append(x)
                except Exception as e:
                    exc = e
                h.check(len(got) == len(items) and all(same(("relayed", a), b) for a, b in zip(items, got)), "C17.items", log, f"{[show(g) for g in got]}")
                if err is None:
                    h.check(exc is None, "C17.end", log, f"{exc!r}")
                else:
                    h.check(isinstance(exc, type(err)) and exc.args == err.args, "C17.error", log, f"{exc!r}")
                forget(exc, err)
                exc = None
                h.check(await settle(refs["local"], 500000 + k), "C17.released_at_end", log, "the generator is kept")

        await with_actors(h, body)

    h.arun(main, "C17.no_error", "others", timeout=120)


PARTS = [singles, interleaved, others]
