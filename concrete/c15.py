"""C15: actor methods return tuples of plain values, coroutines, futures, tasks, awaitable objects and async generators in all kinds of order, with all completion orders (by permuting how long each waits) and errors; through local and remote references. Non-trivial: pattern of kinds, completion order and outcome."""

import asyncio
import itertools

import xoscar as mo
from util import pool, remote, spin


class Err(Exception):
    pass


class Aw:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Marker:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Marker and o.n == self.n

    def __hash__(self):
        return self.n

    def __repr__(self):
        return f"Marker({self.n})"


async def after(delay, value, err=None):
    for _ in range(delay):
        await asyncio.sleep(0)
    if err is not None:
        raise err
    return value


class Any:
    """equal to everything"""

    def __eq__(self, o):
        return True

    __hash__ = None


class Odd:
    """cannot be compared"""

    def __eq__(self, o):
        raise TypeError("not comparable")

    __hash__ = None


class A(mo.Actor):
    async def agen(self, delay, value, err=None):
        x = yield after(delay, value, err)
        raise mo.Return(x)

    def item(self, kind, i, delay, err):
        v = ("value", i)
        e = Err(i) if err else None
        if kind == "coro":
            return after(delay, v, e)
        if kind == "task":
            return asyncio.ensure_future(after(delay, v, e))
        if kind == "future":
            f = asyncio.get_running_loop().create_future()

            def done():
                if not f.done():
                    f.set_exception(e) if e else f.set_result(v)

            t = asyncio.ensure_future(after(delay, None))
            t.add_done_callback(lambda _: done())
            return f
        if kind == "aw":
            return Aw(after(delay, v, e))
        if kind == "agen":
            return self.agen(delay, v, e)
        if kind == "none":
            return None
        if kind == "list":
            return [i]
        if kind == "nested":
            return (i, "plain tuple", None)
        return Marker(i % 2)

    def mk(self, spec):
        return tuple(self.item(k, i, d, e) for i, (k, d, e) in enumerate(spec))

    def sync_tuple(self, spec):
        return self.mk(spec)

    async def async_tuple(self, spec):
        await asyncio.sleep(0)
        return self.mk(spec)

    def single(self, spec):
        return self.mk(spec)[0]

    async def coro_tuple_of(self, spec):
        return after(2, self.mk(spec)) if all(k in PLAIN for k, _, _ in spec) else self.mk(spec)

    async def agen_method(self, yields, log, stop):
        for y in yields:
            try:
                x = yield self.mk([y])[0] if y[0] != "tuple" else self.mk(y[1])
                log.append(("value", x))
            except Err as e:
                log.append(("error", e.args))
        if stop == "return":
            raise mo.Return(("returned", len(yields)))
        if stop == "raise":
            raise Err("end")

    async def run_agen(self, yields, stop):
        log = []
        try:
            r = await self._handle(self.agen_method(yields, log, stop))
        except Err as e:
            r = ("raised", e.args)
        return r, log


PLAIN = ("plain", "none", "list", "nested")
AWAIT = ("coro", "task", "future", "aw", "agen")


def expect(spec):
    out = []
    for i, (k, d, e) in enumerate(spec):
        if k in AWAIT:
            out.append(("value", i))
        else:
            out.append({"none": None, "list": [i], "nested": (i, "plain tuple", None), "plain": Marker(i % 2)}[k])
    return tuple(out)


def specs(h):
    """tuples of length <= 3 exhaustively over a reduced alphabet, longer ones at random"""
    kinds = ["plain", "coro", "agen", "future"]
    for n in range(0, 4):
        for ks in itertools.product(kinds, repeat=n):
            yield [(k, 0, False) for k in ks]
    for n in range(2, 5):
        for perm in itertools.permutations(range(n)):
            yield [(h.rng.choice(AWAIT), 1 + 2 * p, False) for p in perm]
    for _ in range(h.n(150, 1500)):
        n = h.rng.randrange(1, 9)
        yield [
            (h.rng.choice(PLAIN) if h.rng.random() < 0.4 else h.rng.choice(AWAIT), h.rng.randrange(6), h.rng.random() < 0.08)
            for _ in range(n)
        ]


def tuples(h):
    allspecs = list(specs(h))

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(A, address=p.external_address, uid=b"a")
            refs = {"local": ref, "remote": remote(ref)}
            for i, spec in enumerate(allspecs):
                if h.time_left() < 20:
                    break
                for how, r in refs.items():
                    meth = ("sync_tuple", "async_tuple")[i % 2]
                    h.seen((how, tuple((k, e) for k, d, e in spec), tuple(d for k, d, e in spec if k in AWAIT)), (how, meth, spec))
                    errs = [j for j, (k, d, e) in enumerate(spec) if e and k in AWAIT]
                    try:
                        got = await asyncio.wait_for(getattr(r, meth)(spec), 10)
                    except asyncio.TimeoutError:
                        h.fail("C15.tuple: the call ends", (how, meth, spec))
                        continue
                    except Err as e:
                        h.check(bool(errs) and e.args[0] in errs, "C15.tuple: only errors of awaitables are raised", (how, meth, spec), repr(e))
                        continue
                    except Exception as e:
                        h.fail("C15.tuple: no other error", (how, meth, spec), f"{type(e).__name__}: {e}")
                        continue
                    h.check(not errs, "C15.tuple: an error of an awaitable is raised", (how, meth, spec), f"returned {got!r}")
                    if not errs:
                        h.check(got == expect(spec) and type(got) is tuple, "C15.tuple: every awaitable replaced in place", (how, meth, spec), f"returned {got!r}, expected {expect(spec)!r}")

    h.arun(main, "C15.tuple: no hang", "tuples of awaitables", timeout=150)


def singles(h):
    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(A, address=p.external_address, uid=b"a")
            for how, r in {"local": ref, "remote": remote(ref)}.items():
                for kind in AWAIT + PLAIN:
                    for delay, err in itertools.product((0, 3), (False, True)):
                        spec = [(kind, delay, err)]
                        h.seen((how, kind, delay, err))
                        try:
                            got = await asyncio.wait_for(r.single(spec), 10)
                        except Err as e:
                            h.check(err and kind in AWAIT and e.args == (0,), "C15.single: only its own error is raised", (how, spec), repr(e))
                            continue
                        except Exception as e:
                            h.fail("C15.single: no other error", (how, spec), f"{type(e).__name__}: {e}")
                            continue
                        h.check(not (err and kind in AWAIT), "C15.single: error raised", (how, spec), repr(got))
                        h.check(got == expect(spec)[0], "C15.single: value of the awaitable", (how, spec), repr(got))

    h.arun(main, "C15.single: no hang", "single awaitables", timeout=60)


def duplicates(h):
    """the same task or future several times, equal plain values next to awaitables"""

    class D(mo.Actor):
        async def f(self, pattern):
            t = [asyncio.ensure_future(after(j % 3, ("t", j))) for j in range(3)]
            return tuple(t[x] if x in (0, 1, 2) else Any() if x == 5 else Odd() if x == 6 else Marker(x % 2) for x in pattern)

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(D, address=p.external_address, uid=b"d")
            for n in range(1, 5):
                for pattern in itertools.chain(itertools.product((0, 1, 7, 8), repeat=n), itertools.product((0, 1, 5, 6), repeat=n) if n < 4 else ()):
                    h.seen(pattern)
                    want = tuple(("t", x) if x in (0, 1, 2) else Marker(x % 2) for x in pattern)
                    try:
                        got = await asyncio.wait_for(ref.f(pattern), 10)
                    except Exception as e:
                        h.fail("C15.duplicates: no error", pattern, f"{type(e).__name__}: {e}")
                        continue
                    if 5 in pattern or 6 in pattern:
                        ok = type(got) is tuple and len(got) == n and all(
                            type(g) is {5: Any, 6: Odd}[x] if x > 4 else type(g) is tuple and g == ("t", x) for g, x in zip(got, pattern))
                        h.check(ok, "C15.duplicates: each position its own value", pattern, f"{[type(g).__name__ for g in got]}")
                        continue
                    h.check(got == want, "C15.duplicates: each position its own value", pattern, repr(got))

    h.arun(main, "C15.duplicates: no hang", "duplicates", timeout=60)


def generators(h):
    """what an async-generator method receives at each yield"""

    class G(mo.Actor):
        def __init__(self):
            self.log = None
            self.helper = A()

        async def run(self, yields, stop):
            self.log = log = []
            for y in yields:
                try:
                    x = yield (A.mk(self, y[1]) if y[0] == "tuple" else A.item(self, *y))
                    log.append(("value", x))
                except Err as e:
                    log.append(("error", e.args))
            if stop == "return":
                raise mo.Return(("returned", len(yields)))
            if stop == "raise":
                raise Err("end")

        item = A.item
        agen = A.agen

        def get_log(self):
            return self.log

    def y_expect(y):
        if y[0] == "tuple":
            bad = [i for i, (k, d, e) in enumerate(y[1]) if e and k in AWAIT]
            return None if bad else ("value", expect(y[1]))
        k, i, d, e = y
        if e and k in AWAIT:
            return ("error", (i,))
        v = {"none": None, "list": [i], "nested": (i, "plain tuple", None), "plain": Marker(i % 2)}.get(k, ("value", i))
        return ("value", v)

    def gen_yields(n):
        out = []
        for i in range(n):
            if h.rng.random() < 0.3:
                spec = [(h.rng.choice(PLAIN + AWAIT), h.rng.randrange(4), h.rng.random() < 0.1) for _ in range(h.rng.randrange(1, 4))]
                out.append(("tuple", spec))
            else:
                out.append((h.rng.choice(PLAIN + AWAIT), i, h.rng.randrange(4), h.rng.random() < 0.25))
        return out

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(G, address=p.external_address, uid=b"g")
            for j in range(h.n(120, 1000)):
                yields = gen_yields(h.rng.randrange(0, 6))
                stop = h.rng.choice(["return", "raise", "end"])
                r = (ref, remote(ref))[j % 2]
                h.seen((tuple(y[0] for y in yields), stop, j % 2), yields)
                inp = (("local", "remote")[j % 2], yields, stop)
                try:
                    got = ("returned", await asyncio.wait_for(r.run(yields, stop), 10))
                except Err as e:
                    got = ("raised", e.args)
                except Exception as e:
                    h.fail("C15.generator: no other error", inp, f"{type(e).__name__}: {e}")
                    continue
                want = {"return": ("returned", ("returned", len(yields))), "raise": ("raised", ("end",)), "end": ("returned", None)}[stop]
                h.check(got == want, "C15.generator: result of the method", inp, repr(got))
                log = await ref.get_log()
                ok = len(log) == len(yields)
                for y, l in zip(yields, log):
                    w = y_expect(y)
                    ok = ok and (l == w if w is not None else l[0] == "error")
                h.check(ok, "C15.generator: receives the outcome of what it yielded", inp, repr(log))

    h.arun(main, "C15.generator: no hang", "async generators", timeout=100)


PARTS = [singles, duplicates, tuples, generators]
