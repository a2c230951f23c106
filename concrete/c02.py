"""C02: the random values of C01 (sharing and cycles included) and values of up to several hundred parts serialized with every spawn threshold from 0 to beyond the number of steps (all thresholds for values of up to 60 steps), with the default executor, a thread pool and an executor that starts late, several at once; compared with plain serialization: buffers one by one, the deserialized value with types and sharing, and the recorded number of steps. Non-trivial: (value, threshold)."""

import asyncio
import concurrent.futures as cf
import random
import threading
import time

import numpy as np

import gen
from xoscar.serialization import deserialize, serialize, serialize_with_spawn


# copies of padded records hold arbitrary bytes in the padding
gen.DTYPES = [d for d in gen.DTYPES if not isinstance(d, dict)]


class Late(cf.Executor):
    """starts in another thread, late"""

    def __init__(self):
        self.threads = set()
        self.calls = 0

    def submit(self, fn, *args, **kw):
        f = cf.Future()
        self.calls += 1

        def run():
            self.threads.add(threading.get_ident())
            time.sleep(0.0005)
            try:
                f.set_result(fn(*args, **kw))
            except BaseException as e:
                f.set_exception(e)

        threading.Thread(target=run, daemon=True).start()
        return f


def steps(node):
    """number of steps below and at a node of a header: one for a part, one more to complete what has parts"""
    total = 0
    stack = [node]
    while stack:
        n = stack.pop()
        total += 1
        num, final = n[2], n[3]
        if num and not final:
            total += 1
            stack.extend(n[-num:])
    return total


def raw(bufs):
    return [memoryview(b).tobytes() for b in bufs]


async def one(h, x, thresholds, log, executor):
    hd, bufs = serialize(x)
    flat = raw(bufs)
    total = steps(hd[1]) - 1  # the first part is not counted
    for t in thresholds(total):
        lg = f"{log}, threshold {t} of {total} steps"
        h.seen((log, t))
        h2, b2 = await asyncio.wait_for(serialize_with_spawn(x, spawn_threshold=t, executor=executor), 10)
        h.check(raw(b2) == flat, "C02.same_buffers", lg, f"{len(b2)} buffers, {len(flat)} expected")
        n = h2[0].get("_N")
        if 0 < t < total:
            h.check(n == total, "C02.steps", lg, f"{n} steps recorded")
        else:
            h.check(n is None or n == total, "C02.steps", lg, f"{n} steps recorded")
        try:
            y = deserialize(h2, raw(b2))
        except Exception as e:
            h.fail("C02.same_object", lg, f"{e!r}")
            continue
        d = gen.diff(x, y)
        h.check(d is None, "C02.same_object", lg, d)
        if len(h.failures) >= 6:
            return


def every_threshold(h):
    """every point of interruption"""
    rng = h.rng

    async def main():
        ex = Late()
        pool = cf.ThreadPoolExecutor(2)
        done = 0
        while done < h.n(250, 5000) and h.time_left() > 40 and len(h.failures) < 6:
            x = gen.value(random.Random(rng.randrange(1 << 60)))
            s = steps(serialize(x)[0][1])
            if not 3 <= s <= 60:
                continue
            done += 1
            await one(h, x, lambda total: range(0, total + 3), gen.brief(x, 500), rng.choice([ex, pool, None]))
        pool.shutdown()

    h.arun(main, "C02.no_error", "every threshold", timeout=200)


def shapes(h):
    """chosen shapes of sharing at every point"""

    def build():
        s = "s" * 3000
        a, d = [], {}
        a += [1, d, s, a]
        d.update(a=a, b=(s, [s]), c=b"c" * 2000, d=np.arange(5))
        yield "cyclic", a
        t = (1, [2], "t" * 1500)
        yield "tuples", [t, t, {1: t}, (t, [t, [t]])]
        yield "flat", [[i] for i in range(40)]
        yield "one child", [[[[[[[[1]]]]]]]]
        yield "buffers", [b"%d" % i * 600 for i in range(12)]
        yield "dict of dicts", {i: {i: {}} for i in range(8)}
        yield "leaf last", [1, 2, [3], b"l" * 2000]
        yield "empties", [[], {}, (), [], [[]], ({},)]
        yield "repeated", [s] * 10 + [[s]] * 3
        yield "long keys", {"k" * 1500: ["k" * 1500], "j" * 1500: {}}

    async def main():
        for ex in (None, Late()):
            for name, x in build():
                await one(h, x, lambda total: range(0, total + 3), f"{name}", ex)

    h.arun(main, "C02.no_error", "shapes", timeout=60)


def large(h):
    """values of many parts, several at once"""
    rng = h.rng

    async def main():
        for case in range(h.n(30, 400)):
            if h.time_left() < 30:
                break
            n = rng.choice([30, 34, 49, 50, 51, 99, 100, 101, 333])
            a = {"x": [1]}

            def make(n=n):
                return [[i, a, (i, a, "l" * 1100), np.full(3, i), b"b" * 1030] for i in range(n)] + [a, [a]]

            xs = [make() for _ in range(rng.randrange(1, 4))]
            await asyncio.gather(*(one(h, x, lambda total: sorted({1, 2, 50, 100, total - 1, total, total + 1, rng.randrange(total)}), f"{n} parts, {len(xs)} at once", None) for x in xs))

    h.arun(main, "C02.no_error", "large values", timeout=200)


def interrupted(h):
    """while the second phase waits, other values are serialized"""

    async def main():
        class Held(cf.Executor):
            def __init__(self):
                self.todo = []

            def submit(self, fn, *a, **k):
                f = cf.Future()
                self.todo.append((f, fn, a, k))
                return f

            def go(self):
                def run():
                    while self.todo:
                        f, fn, a, k = self.todo.pop(0)
                        try:
                            f.set_result(fn(*a, **k))
                        except BaseException as e:
                            f.set_exception(e)

                t = threading.Thread(target=run)
                t.start()
                t.join()

        for k in range(h.n(120, 1500)):
            rng = random.Random(h.rng.randrange(1 << 60))
            x = [gen.value(rng) for _ in range(3)]
            total = steps(serialize(x)[0][1]) - 1
            if total < 3:
                continue
            ex = Held()
            t = rng.randrange(1, total)
            task = asyncio.ensure_future(serialize_with_spawn(x, spawn_threshold=t, executor=ex))
            await asyncio.sleep(0)
            # meanwhile
            z = [x, gen.value(rng)]
            hz, bz = serialize(z)
            for _ in range(3):
                ex.go()
                await asyncio.sleep(0)
                await asyncio.sleep(0)
            lg = f"{gen.brief(x, 600)}, threshold {t} of {total}"
            h.seen(lg)
            if not task.done():
                ex.go()
            hd, b = await asyncio.wait_for(task, 5)
            h.check(raw(b) == raw(serialize(x)[1]), "C02.same_buffers", lg, f"{len(b)} buffers")
            h.check(hd[0].get("_N") == total, "C02.steps", lg, f"{hd[0]}")
            d = gen.diff(x, deserialize(hd, raw(b)))
            h.check(d is None, "C02.same_object", lg, d)
            d = gen.diff(z, deserialize(hz, raw(bz)))
            h.check(d is None, "C02.other_object", lg, d)

    h.arun(main, "C02.no_error", "interrupted", timeout=100)


PARTS = [shapes, every_threshold, large, interrupted]
