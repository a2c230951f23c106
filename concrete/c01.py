"""C01: random values (depth up to 4, of all the kinds named, arrays of 19 dtypes and 8 layouts, subclasses with and without constructors and attributes) whose lists, dicts, tuples and long strings occur several times, cyclic lists and dicts and subclasses of them included, as well as exhaustive small shapes of sharing, round-tripped directly and through the bytes of a channel, and compared with types, sharing and order; the value itself is compared with a copy made before. Non-trivial: the text of the value."""

import asyncio
import collections
import itertools
import random

import cloudpickle
import numpy as np

import gen
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize
from xoscar.serialization.aio import get_header_length


class Wire:
    """the bytes of a message, read by an AioDeserializer"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    async def readexactly(self, n):
        r = self.data[self.pos : self.pos + n]
        if len(r) != n:
            raise EOFError
        self.pos += n
        return r


async def through_bytes(x):
    bufs = await AioSerializer(x).run()
    w = Wire(b"".join(memoryview(b).tobytes() for b in bufs))
    r = await AioDeserializer(w).run()
    if w.pos != len(w.data):
        raise EOFError("not everything was read")
    return r


def pickled_header(x):
    h, b = serialize(x)
    h = cloudpickle.loads(cloudpickle.dumps(h))
    return deserialize(h, [memoryview(i).tobytes() for i in b])


def one(h, x, snapshot, log):
    h._case = log
    with h.guard("C01.no_error", log):
        y = deserialize(*serialize(x))
        d = gen.diff(x, y)
        h.check(d is None, "C01.round_trip", log, d)
    with h.guard("C01.no_error", log):
        y = pickled_header(x)
        d = gen.diff(x, y)
        h.check(d is None, "C01.round_trip_pickled", log, d)
    h.arun(lambda: check_bytes(h, x, log), "C01.no_error", log)
    d = gen.diff(snapshot, x)
    h.check(d is None, "C01.unchanged", log, d)


async def check_bytes(h, x, log):
    y = await through_bytes(x)
    d = gen.diff(x, y)
    h.check(d is None, "C01.round_trip_bytes", log, d)


def random_(h):
    for case in range(h.n(2500, 60000)):
        if h.time_left() < 40 or len(h.failures) >= 6:
            break
        seed = h.rng.randrange(1 << 60)
        x = gen.value(random.Random(seed))
        snap = gen.value(random.Random(seed))  # the same value again
        log = gen.brief(x)
        h.seen(log, log)
        one(h, x, snap, log)


def scalars(h):
    rng = h.rng
    for _ in range(h.n(600, 6000)):
        seed = rng.randrange(1 << 60)
        x, snap = gen.scalar(random.Random(seed)), gen.scalar(random.Random(seed))
        log = gen.brief(x)
        h.seen(log)
        one(h, x, snap, log)
    for n in (1022, 1023, 1024, 1025, 4096):
        for c in ("a", "é", "\ud800"):
            x = c * n
            one(h, x, c * n, f"{c!r} * {n}")
            one(h, [x, x, {x: x}], (lambda y: [y, y, {y: y}])(c * n), f"{c!r} * {n}, shared")
            h.seen((n, c))
        b = b"b" * n
        one(h, [b, [b], b], [b, [b], b], f"bytes of {n}")


def arrays(h):
    rng = h.rng
    for _ in range(h.n(1500, 20000)):
        if h.time_left() < 30:
            break
        seed = rng.randrange(1 << 60)
        x, snap = gen.array(random.Random(seed)), gen.array(random.Random(seed))
        log = gen.brief(x)
        h.seen((str(x.dtype), x.shape, x.strides), log)
        one(h, x, snap, log)
        with h.guard("C01.no_error", log):
            y = [x, x]
            z = deserialize(*serialize(y))
            h.check(gen.diff(y, z) is None, "C01.round_trip", ("twice", log), gen.diff(y, z))


def sharing(h):
    """all small graphs of lists, dicts and tuples"""
    kinds = ["list", "dict", "dictkey"]
    n = 3
    count = 0
    for edges in itertools.product(range(2), repeat=n * n):
        for ks in itertools.product("LD", repeat=n):
            if not h.thorough and count % 3:
                count += 1
                continue
            count += 1

            def build():
                nodes = [[] if k == "L" else {} for k in ks]
                for i in range(n):
                    for j in range(n):
                        if edges[i * n + j]:
                            if ks[i] == "L":
                                nodes[i] += [j, nodes[j]]
                            else:
                                nodes[i][j] = nodes[j]
                return nodes[0] if count % 2 else nodes

            log = f"graph {edges} of {ks}{'' if count % 2 else ', all nodes'}"
            h.seen(log)
            x = build()
            one(h, x, build(), log)
            if len(h.failures) >= 6:
                return
    # the same with subclasses
    for t in range(h.n(300, 6000)):
        seed = h.rng.randrange(1 << 60)

        def build(seed=seed):
            r = random.Random(seed)
            kinds = [r.choice([list, dict, gen.LS, gen.LS, gen.DS, collections.OrderedDict, collections.defaultdict]) for _ in range(r.randrange(1, 5))]
            nodes = [k() if k is not collections.defaultdict else k(list) for k in kinds]
            for _ in range(r.randrange(1, 9)):
                i, j = r.randrange(len(nodes)), r.randrange(len(nodes))
                v = r.choice([nodes[j], [nodes[j]], {"x": nodes[j]}, 7, "s" * 2000])
                if isinstance(nodes[i], list):
                    nodes[i].append(v)
                else:
                    nodes[i][r.choice(["a", 1, ("t",), "k" * 1500])] = v
            return nodes if r.random() < 0.3 else nodes[0]

        log = f"subclasses {seed}: {gen.brief(build())}"
        h.seen(log, log)
        one(h, build(), build(), log)
        if len(h.failures) >= 6:
            return
    # tuples around and inside
    for t in range(h.n(400, 4000)):
        rng = random.Random(h.rng.randrange(1 << 60))
        seed = rng.randrange(1 << 60)

        def build(seed=seed):
            r = random.Random(seed)
            items = [[], {}, (1, 2), "s" * 2000, (), [0], {"a": 1}]
            for _ in range(8):
                k = r.randrange(4)
                pick = [r.choice(items) for _ in range(r.randrange(4))]
                items.append(pick if k == 0 else tuple(pick) if k == 1 else dict(enumerate(pick)) if k == 2 else gen.P(pick, r.choice(items)))
            return r.choice(items[7:])

        x = build()
        log = gen.brief(x)
        h.seen(log)
        one(h, x, build(), log)


def large(h):
    """many parts, deep nesting, the last of many references"""
    for n in (50, 99, 100, 101, 1000, h.n(3000, 30000)):

        def build():
            a = {"shared": [1]}
            return [[i, a, (i, a)] for i in range(n)] + [a]

        h.seen(("many", n))
        one(h, build(), build(), f"{n} references to one dict")

        def deep():
            x = root = []
            for i in range(n):
                y = [] if i % 2 else {}
                if isinstance(x, list):
                    x.append(y)
                else:
                    x["k"] = y
                x = y
            return root

        if n <= 1000:
            h.seen(("deep", n))
            x = deep()
            with h.guard("C01.no_error", f"nested {n} deep"):
                y = deserialize(*serialize(x))
                d = gen.diff(x, y)
                h.check(d is None, "C01.round_trip", f"nested {n} deep", d)


PARTS = [scalars, arrays, random_, sharing, large]
