"""C07: batches of 0 to 8 delayed calls (positional, keyword, defaults, mixed) on synchronous and asynchronous extensible methods with, without and with only a batch implementation, through local and remote references, compared with the single calls; the arguments the implementations receive are recorded. Non-trivial: method, reference, argument shapes, errors."""

import asyncio

import xoscar as mo
from util import pool, remote, spin


class Err(Exception):
    pass


def val(a, b=7, *, c=None):
    return ("r", a, b, c)


SEEN = []


def norm(args, kwargs):
    return (tuple(args), tuple(sorted(kwargs.items())))


class A(mo.Actor):
    @mo.extensible
    def s_plain(self, a, b=7, *, c=None):
        SEEN.append(("single", norm((a, b), {"c": c})))
        if a == "bad":
            raise Err(a, b)
        return val(a, b, c=c)

    @mo.extensible
    async def a_plain(self, a, b=7, *, c=None):
        SEEN.append(("single", norm((a, b), {"c": c})))
        await spin(hash((a, b, c)) % 5)
        if a == "bad":
            raise Err(a, b)
        return val(a, b, c=c)

    @mo.extensible
    def s_batch(self, a, b=7, *, c=None):
        return self.s_plain(a, b, c=c)

    @s_batch.batch
    def s_batch(self, args_list, kwargs_list):
        SEEN.append(("batch", [norm(a, k) for a, k in zip(args_list, kwargs_list)], len(args_list), len(kwargs_list)))
        return [self._one(a, k) for a, k in zip(args_list, kwargs_list)]

    @mo.extensible
    async def a_batch(self, a, b=7, *, c=None):
        return await self.a_plain(a, b, c=c)

    @a_batch.batch
    async def a_batch(self, args_list, kwargs_list):
        SEEN.append(("batch", [norm(a, k) for a, k in zip(args_list, kwargs_list)], len(args_list), len(kwargs_list)))
        await asyncio.sleep(0)
        return [self._one(a, k) for a, k in zip(args_list, kwargs_list)]

    @mo.extensible
    def s_only(self, a, b=7, *, c=None):
        raise NotImplementedError

    @s_only.batch
    def s_only(self, args_list, kwargs_list):
        SEEN.append(("batch", [norm(a, k) for a, k in zip(args_list, kwargs_list)], len(args_list), len(kwargs_list)))
        return [self._one(a, k) for a, k in zip(args_list, kwargs_list)]

    @mo.extensible
    async def a_only(self, a, b=7, *, c=None):
        raise NotImplementedError

    @a_only.batch
    async def a_only(self, args_list, kwargs_list):
        SEEN.append(("batch", [norm(a, k) for a, k in zip(args_list, kwargs_list)], len(args_list), len(kwargs_list)))
        await asyncio.sleep(0)
        return [self._one(a, k) for a, k in zip(args_list, kwargs_list)]

    def _one(self, a, k):
        r = val(*a, **k)
        if r[1] == "bad":
            raise Err(*r[1:3])
        return r


METHODS = ["s_plain", "a_plain", "s_batch", "a_batch", "s_only", "a_only"]


def gen_call(rng, bad):
    a = "bad" if rng.random() < bad else rng.choice([0, 1, 2, 3, None, "x", (1, 2)])
    k = rng.randrange(5)
    c = rng.choice([0, 5, None])
    b = rng.randrange(4)
    return [((a,), {}), ((a, b), {}), ((a,), {"b": b}), ((a, b), {"c": c}), ((), {"a": a, "c": c})][k]


async def settle(x):
    try:
        return ("ok", await asyncio.wait_for(x, 10))
    except asyncio.TimeoutError:
        return ("hang",)
    except Exception as e:
        return ("err", [c.__name__ for c in type(e).__mro__ if c in (Err, NotImplementedError)], e.args)


def batches(h):
    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(A, address=p.external_address, uid=b"a")
            refs = {"local": ref, "remote": remote(ref)}
            for j in range(h.n(900, 9000)):
                if h.time_left() < 20:
                    break
                l = ("local", "remote")[j % 2]
                name = METHODS[(j // 2) % len(METHODS)]
                n = h.rng.choice([0, 1, 1, 2, 2, 3, 5, 8])
                kw_ok = h.rng.random() < 0.6
                calls = [gen_call(h.rng, 0.08) for _ in range(n)]
                if not kw_ok:
                    calls = [(tuple(val(*a, **k)[1:3]), {}) for a, k in calls]
                inp = (l, name, calls)
                h.seen((l, name, n, tuple((len(a), tuple(k)) for a, k in calls), any(val(*a, **k)[1] == "bad" for a, k in calls)), inp)
                m = getattr(refs[l], name)
                SEEN.clear()
                got = await settle(m.batch(*[m.delay(*a, **k) for a, k in calls]))
                seen = list(SEEN)
                want = [val(*a, **k) for a, k in calls]
                bad = [w for w in want if w[1] == "bad"]
                if bad:
                    h.check(got[0] == "err" and "Err" in got[1] and got[2] in [(w[1], w[2]) for w in bad],
                            "C07.batch: an error of a call is raised", inp, repr(got))
                else:
                    h.check(got[0] == "ok" and list(got[1]) == want, "C07.batch: results of the single calls in order", inp, f"{got!r} instead of {want!r}")
                b = [s for s in seen if s[0] == "batch"]
                if name.endswith(("_batch", "_only")):
                    h.check(len(b) <= 1, "C07.batch: implementation called at most once", inp, repr(seen))
                    if n >= 2:
                        h.check(len(b) == 1 and len(seen) == 1, "C07.batch: implementation used", inp, repr(seen))
                    if b:
                        h.check(b[0][1] == [norm(a, k) for a, k in calls] and b[0][2] == n == b[0][3], "C07.batch: all arguments in order", inp, repr(b))
                elif not bad:
                    want_seen = [("single", norm((w[1], w[2]), {"c": w[3]})) for w in want]
                    h.check(sorted(map(repr, seen)) == sorted(map(repr, want_seen)), "C07.batch: every call made once", inp, repr(seen))

    h.arun(main, "C07.batch: no hang", "batches", timeout=150)


def singles(h):
    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(A, address=p.external_address, uid=b"a")
            for l, r in {"local": ref, "remote": remote(ref)}.items():
                for name in METHODS:
                    for j in range(h.n(12, 60)):
                        a, k = gen_call(h.rng, 0.15)
                        inp = (l, name, a, k)
                        h.seen((l, name, len(a), tuple(k), val(*a, **k)[1] == "bad"))
                        SEEN.clear()
                        got = await settle(getattr(r, name)(*a, **k))
                        w = val(*a, **k)
                        if w[1] == "bad":
                            h.check(got[0] == "err" and "Err" in got[1] and got[2] == (w[1], w[2]), "C07.single: error raised", inp, repr(got))
                        else:
                            h.check(got == ("ok", w), "C07.single: result", inp, repr(got))
                        if name.endswith("_only"):
                            h.check(SEEN == [("batch", [norm(a, k)], 1, 1)], "C07.single: answered by the batch implementation", inp, repr(SEEN))
                        elif name.endswith("_batch"):
                            h.check(len(SEEN) == 1, "C07.single: one implementation called once", inp, repr(SEEN))

    h.arun(main, "C07.single: no hang", "singles", timeout=60)


class Plain(mo.Actor):
    """no implementation at all / falls back after errors"""

    @mo.extensible
    async def a_none(self, a):
        raise NotImplementedError

    @mo.extensible
    def s_none(self, a):
        raise NotImplementedError

    @mo.extensible
    async def other(self, a):
        return a


def refused(h):
    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(Plain, address=p.external_address, uid=b"a")
            rem = remote(ref)
            for l, r in {"local": ref, "remote": rem}.items():
                for name in ("a_none", "s_none"):
                    h.seen((l, name))
                    got = await settle(getattr(r, name)(1))
                    h.check(got[0] == "err" and "NotImplementedError" in got[1], "C07.none: no implementation is an error", (l, name), repr(got))
            for n in range(1, 4):
                for pos in range(n + 1):
                    ds = [rem.other.delay(i) for i in range(n)]
                    ds.insert(pos, rem.a_none.delay(0))
                    inp = ("mixed", n, pos)
                    h.seen(inp)
                    for meth in ("other", "a_none"):
                        try:
                            got = ("ok", await asyncio.wait_for(getattr(rem, meth).batch(*ds), 10))
                        except ValueError:
                            got = "refused"
                        except Exception as e:
                            got = repr(e)
                        h.check(got == "refused", "C07.mixed: refused", inp, repr(got))

    h.arun(main, "C07.refused: no hang", "refused", timeout=60)


def tells(h):
    """a batch that is only told runs as well"""

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(A, address=p.external_address, uid=b"a")
            for l, r in {"local": ref, "remote": remote(ref)}.items():
                for name in METHODS:
                    for n in (0, 1, 3):
                        SEEN.clear()
                        m = getattr(r, name)
                        h.seen((l, name, n))
                        x = m.batch(*[m.delay(i) for i in range(n)], send=False)
                        x = await asyncio.wait_for(x, 10)
                        if asyncio.isfuture(x):
                            await asyncio.wait_for(x, 10)
                        await spin(60)
                        total = sum(s[2] if s[0] == "batch" else 1 for s in SEEN)
                        h.check(total == n, "C07.tell: every call made", (l, name, n), repr(SEEN))

    h.arun(main, "C07.tell: no hang", "tells", timeout=60)


def direct(h):
    """the decorator outside of actors: delays of a bound method"""

    class Obj:
        s_plain = A.__dict__["s_plain"]
        a_plain = A.__dict__["a_plain"]
        s_batch = A.__dict__["s_batch"]
        a_batch = A.__dict__["a_batch"]
        s_only = A.__dict__["s_only"]
        a_only = A.__dict__["a_only"]
        _one = A._one

    async def main():
        o = Obj()
        for name in METHODS:
            for j in range(h.n(40, 200)):
                calls = [gen_call(h.rng, 0) for _ in range(h.rng.choice([0, 1, 2, 3, 6]))]
                inp = ("direct", name, calls)
                h.seen((name, tuple((len(a), tuple(k)) for a, k in calls)))
                m = getattr(o, name)
                SEEN.clear()
                r = m.batch(*[m.delay(*a, **k) for a, k in calls])
                got = ("ok", r) if isinstance(r, list) else await settle(r)
                h.check(got[0] == "ok" and list(got[1]) == [val(*a, **k) for a, k in calls], "C07.direct: results of the single calls", inp, repr(got))

    h.arun(main, "C07.direct: no hang", "direct", timeout=60)


PARTS = [singles, direct, refused, tells, batches]
