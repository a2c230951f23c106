"""C06: random schedules of calls of every form (direct, tell, batch; local and remote reference; outcome return, error, cancellation, yield, returned awaitables) on instrumented actors that record who is inside; plus directed cases for every way a method can end, for no_lock methods and stateless actors. Non-trivial: multiset of forms and outcomes and cancellation points of a schedule."""

import asyncio

import xoscar as mo
from xoscar.core import NO_LOCK_ATTRIBUTE_HINT
from util import pool, remote, spin


class Err(Exception):
    pass


class Base:
    """records overlapping segments"""

    def __init__(self):
        self.inside = []
        self.overlaps = []
        self.n_run = 0
        self.gates = {}

    def enter(self, who):
        if self.inside:
            self.overlaps.append((tuple(self.inside), who))
        self.inside.append(who)
        self.n_run += 1

    def leave(self, who):
        self.inside.remove(who)

    def gate(self, name):
        if name not in self.gates:
            self.gates[name] = asyncio.Event()
        return self.gates[name]

    async def seg(self, who, steps):
        self.enter(who)
        try:
            for s in range(steps):
                await asyncio.sleep(0)
        finally:
            self.leave(who)

    async def m(self, who, steps, outcome="return"):
        await self.seg(who, steps)
        if outcome == "raise":
            raise Err(who)
        if outcome == "cancelled":
            raise asyncio.CancelledError
        return who

    def sync(self, who, steps=0, outcome="return"):
        self.enter(who)
        self.leave(who)
        if outcome == "raise":
            raise Err(who)
        return who

    async def awaitables(self, who, steps, outcome="return"):
        await self.seg(who, steps)
        return tuple(self.outside(who, steps, outcome) for _ in range(2))

    async def outside(self, who, steps, outcome):
        for _ in range(steps):
            await asyncio.sleep(0)
        if outcome == "raise":
            raise Err(who)
        return who

    async def gen(self, who, steps, outcome="return"):
        for i in range(2):
            await self.seg(f"{who}/{i}", steps)
            try:
                x = yield self.outside(who, steps, outcome)
            except Err:
                await self.seg(f"{who}/e{i}", steps)
        await self.seg(f"{who}/last", steps)
        raise mo.Return(who)

    @mo.extensible
    async def ext(self, who, steps, outcome="return"):
        await self.seg(who, steps)
        if outcome == "raise":
            raise Err(who)
        return who

    @ext.batch
    async def ext(self, args_list, kwargs_list):
        out = []
        self.enter("batch")
        try:
            for a in args_list:
                await asyncio.sleep(0)
                if len(a) > 2 and a[2] == "raise":
                    raise Err(a[0])
                out.append(a[0])
        finally:
            self.leave("batch")
        return out

    @mo.extensible
    def sext(self, who, steps=0, outcome="return"):
        return self.sync(who, steps, outcome)

    async def hold(self, name, how="return"):
        """stays inside until the gate opens"""
        self.enter("hold " + name)
        try:
            await self.gate(name).wait()
        finally:
            self.leave("hold " + name)
        if how == "raise":
            raise Err(name)
        return name

    @mo.extensible
    async def hold_ext(self, name, how="return"):
        return await self.hold(name, how)

    @hold_ext.batch
    async def hold_ext(self, args_list, kwargs_list):
        await self.hold(args_list[0][0], args_list[0][1])
        return [a[0] for a in args_list]

    async def hold_gen(self, name, how="return"):
        """does not hold the lock while the yielded awaitable is pending"""
        self.enter("gen " + name)
        self.leave("gen " + name)
        try:
            yield self.gate(name).wait()
        finally:
            self.enter("gen end " + name)
            self.leave("gen end " + name)
        raise mo.Return(name)

    async def hold_result(self, name, how="return"):
        return self.gate(name).wait(), 1

    def hold_result_sync(self, name, how="return"):
        return asyncio.ensure_future(self.gate(name).wait())

    @mo.no_lock
    async def free(self, x=None):
        await asyncio.sleep(0)
        return "free"

    @mo.no_lock
    def free_sync(self, x=None):
        return "free"

    @mo.no_lock
    async def free_gate(self, name):
        await self.gate(name).wait()
        return name

    @mo.extensible
    @mo.no_lock
    async def free_ext(self, x=None):
        await asyncio.sleep(0)
        return "free"

    @free_ext.batch
    @mo.no_lock
    async def free_ext(self, a, k):
        await asyncio.sleep(0)
        return ["free"] * len(a)


class A(mo.Actor, Base):
    def __init__(self):
        Base.__init__(self)


class S(mo.StatelessActor, Base):
    def __init__(self):
        Base.__init__(self)


REG = {}


class Reg(A):
    async def __post_create__(self):
        REG["a"] = self


class RegNo(A):
    """a class that says explicitly that its methods take the lock"""

    async def __post_create__(self):
        REG["no"] = self


setattr(RegNo, NO_LOCK_ATTRIBUTE_HINT, False)


class SReg(S):
    async def __post_create__(self):
        REG["s"] = self


async def settle(x):
    try:
        return ("ok", await x)
    except asyncio.CancelledError:
        return ("cancelled",)
    except Exception as e:
        return ("err", type(e).__name__, e)


def start(ref, rem, form, who, steps, outcome):
    """a task that makes the call"""

    async def go():
        kind, *loc = form.split("@")
        r = rem if loc == ["remote"] else ref
        if kind.startswith("tell "):
            return await getattr(r, kind[5:]).tell(who, steps, outcome)
        if kind.startswith("batch "):
            m = getattr(r, kind[6:])
            return await m.batch(m.delay(f"{who}a", steps, outcome), m.delay(f"{who}b", steps, outcome))
        return await getattr(r, kind)(who, steps, outcome)

    return asyncio.ensure_future(settle(go()))


FORMS = [f"{k}@{l}" for k in ("m", "sync", "awaitables", "gen", "ext", "sext", "tell m", "tell gen", "batch ext", "batch sext") for l in ("local", "remote")]


def schedules(h):
    async def main():
        async with pool(0) as p:
            refs = [await mo.create_actor(c, address=p.external_address, uid=u) for c, u in ((Reg, b"a"), (RegNo, b"no"))]
            for j in range(h.n(250, 2500)):
                ref = refs[j % 5 == 4]
                rem = remote(ref)
                a = REG["no" if j % 5 == 4 else "a"]
                if h.time_left() < 30:
                    break
                calls, log = [], []
                n = h.rng.randrange(2, 9)
                for i in range(n):
                    form = h.rng.choice(FORMS)
                    outcome = h.rng.choice(["return", "return", "raise"] + (["cancelled"] if form.startswith("m@") else []))
                    steps = h.rng.randrange(0, 4)
                    gap = h.rng.randrange(0, 3)
                    cancel = h.rng.randrange(0, 12) if h.rng.random() < 0.2 else None
                    calls.append((form, steps, outcome, gap, cancel))
                h.seen(tuple(sorted((c[0], c[2], c[4] is not None) for c in calls)), calls)
                a.overlaps.clear()
                tasks = []
                for i, (form, steps, outcome, gap, cancel) in enumerate(calls):
                    t = start(ref, rem, form, f"c{i}", steps, outcome)
                    tasks.append(t)
                    if cancel is not None:
                        asyncio.get_running_loop().call_later(0.0005 * cancel, t.cancel)
                    await spin(gap)
                done, pend = await asyncio.wait(tasks, timeout=15)
                h.check(not pend, "C06.schedule: all calls end", calls, f"{len(pend)} calls still waiting")
                h.check(not a.overlaps, "C06.schedule: no two methods overlap", calls, repr(a.overlaps))
                if pend:
                    return
                ok = await asyncio.wait_for(settle(ref.m("probe", 0)), 5)
                h.check(ok == ("ok", "probe"), "C06.schedule: the lock is free afterwards", calls, repr(ok))
                if ok != ("ok", "probe"):
                    return

    h.arun(main, "C06.schedule: no hang", "random schedules", timeout=200)


HOLDERS = ["hold", "hold_ext", "batch hold_ext", "tell hold"]


async def call_form(r, form, *args):
    if form.startswith("batch "):
        m = getattr(r, form[6:])
        return await m.batch(m.delay(*args), m.delay(*args))
    if form.startswith("tell "):
        return await getattr(r, form[5:]).tell(*args)
    return await getattr(r, form)(*args)


def directed(h):
    """for every way a method holds the lock and ends: others wait until then, and not longer"""

    async def main():
        async with pool(0) as p:
            for cls, key in ((Reg, "a"), (SReg, "s")):
                ref = await mo.create_actor(cls, address=p.external_address, uid=key.encode())
                obj = REG[key]
                refs = {"local": ref, "remote": remote(ref)}
                n = 0
                for l1, r1 in refs.items():
                    for l2, r2 in refs.items():
                        for holder in HOLDERS:
                            for how in ("return", "raise", "cancel"):
                                for other in ("m", "sync", "ext", "batch ext", "gen", "awaitables"):
                                    if holder.startswith("tell") and how == "cancel":
                                        continue
                                    n += 1
                                    g = f"g{n}"
                                    inp = (cls.__name__, l1, holder, how, l2, other)
                                    h.seen(inp, inp)
                                    obj.overlaps.clear()
                                    t1 = asyncio.ensure_future(settle(call_form(r1, holder, g, "raise" if how == "raise" else "return")))
                                    await wait_until(lambda: any(g in x for x in obj.inside))
                                    if not h.check(any(g in x for x in obj.inside), "C06.directed: a call on an idle actor starts", inp, repr(obj.inside)):
                                        obj.gate(g).set()
                                        return
                                    before = obj.n_run
                                    t2 = asyncio.ensure_future(settle(call_form(r2, other, "w", 1)))
                                    await wait_until(lambda: t2.done(), 0.05 if key == "s" else 0.004)
                                    if key == "a":
                                        h.check(obj.n_run == before and not t2.done(), "C06.directed: waits while another method runs", inp, repr(obj.inside))
                                        fr = await asyncio.wait_for(settle(r2.free()), 5)
                                        h.check(fr == ("ok", "free"), "C06.directed: no_lock does not wait", inp, repr(fr))
                                    else:
                                        h.check(t2.done(), "C06.directed: stateless actors do not wait", inp, repr(obj.inside))
                                    if how == "cancel":
                                        t1.cancel()
                                    else:
                                        obj.gate(g).set()
                                    d, pend = await asyncio.wait([t1, t2], timeout=5)
                                    h.check(not pend, "C06.directed: lock released when the method ended", inp, f"still waiting: {len(pend)}")
                                    if key == "a":
                                        h.check(not obj.overlaps, "C06.directed: no overlap", inp, repr(obj.overlaps))
                                    obj.gate(g).set()
                                    if pend:
                                        return

    h.arun(main, "C06.directed: no hang", "directed", timeout=150)


async def wait_until(f, limit=2.0):
    end = asyncio.get_running_loop().time() + limit
    while not f() and asyncio.get_running_loop().time() < end:
        await asyncio.sleep(0)
    return f()


def not_held(h):
    """the lock is not held while a yielded awaitable or a returned one is pending"""

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(Reg, address=p.external_address, uid=b"a")
            obj = REG["a"]
            refs = {"local": ref, "remote": remote(ref)}
            n = 0
            for l1, r1 in refs.items():
                for form in ("hold_gen", "hold_result", "hold_result_sync", "free_gate", "tell hold_gen"):
                    for l2, r2 in refs.items():
                        for other in ("m", "sync", "ext", "batch ext", "gen", "awaitables"):
                            n += 1
                            g = f"n{n}"
                            inp = (l1, form, l2, other)
                            h.seen(inp, inp)
                            t1 = asyncio.ensure_future(settle(call_form(r1, form, g)))
                            await spin(15)
                            got = await settle(asyncio.wait_for(call_form(r2, other, "w", 1), 5))
                            h.check(got[0] == "ok", "C06.not held: others run meanwhile", inp, repr(got))
                            obj.gate(g).set()
                            got = await settle(asyncio.wait_for(t1, 5))
                            h.check(got[0] == "ok", "C06.not held: the first call ends", inp, repr(got))

    h.arun(main, "C06.not held: no hang", "yielding", timeout=60)


def no_lock_forms(h):
    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(Reg, address=p.external_address, uid=b"a")
            obj = REG["a"]
            for l, r in {"local": ref, "remote": remote(ref)}.items():
                for form in ("free", "free_sync", "free_ext", "batch free_ext"):
                    for queue in (0, 1, 3):
                        inp = (l, form, f"{queue} calls queued")
                        h.seen(inp, inp)
                        g = repr(inp)
                        t1 = asyncio.ensure_future(settle(ref.hold(g)))
                        await wait_until(lambda: bool(obj.inside))
                        ts = [asyncio.ensure_future(settle(r.m(f"q{i}", 1))) for i in range(queue)]
                        await spin(5)
                        got = await settle(asyncio.wait_for(call_form(r, form, 1), 5))
                        want = ["free", "free"] if form.startswith("batch") else "free"
                        h.check(got == ("ok", want), "C06.no_lock: does not wait for the lock", inp, repr(got))
                        obj.gate(g).set()
                        res = await asyncio.wait_for(asyncio.gather(t1, *ts), 5)
                        h.check(all(x[0] == "ok" for x in res), "C06.no_lock: others unaffected", inp, repr(res))

    h.arun(main, "C06.no_lock: no hang", "no_lock", timeout=60)


def cancel_waiting(h):
    """a call cancelled while it waits for the lock never runs and does not disturb the lock"""

    async def main():
        async with pool(0) as p:
            ref = await mo.create_actor(Reg, address=p.external_address, uid=b"a")
            obj = REG["a"]
            for l, r in {"local": ref, "remote": remote(ref)}.items():
                for form in ("m", "ext", "batch ext", "gen", "awaitables"):
                    inp = (l, form)
                    h.seen(inp, inp)
                    g = repr(inp)
                    obj.overlaps.clear()
                    t1 = asyncio.ensure_future(settle(ref.hold(g)))
                    await wait_until(lambda: bool(obj.inside))
                    before = obj.n_run
                    t2 = asyncio.ensure_future(settle(call_form(r, form, "x", 2)))
                    t3 = asyncio.ensure_future(settle(call_form(r, form, "y", 2)))
                    await spin(30)
                    t2.cancel()
                    got = await asyncio.wait_for(t2, 5)
                    h.check(got == ("cancelled",), "C06.cancel waiting: reported as cancelled", inp, repr(got))
                    h.check(obj.n_run == before and not t3.done(), "C06.cancel waiting: others still wait", inp, repr(obj.inside))
                    obj.gate(g).set()
                    res = await asyncio.wait_for(asyncio.gather(t1, t3), 5)
                    h.check(all(x[0] == "ok" for x in res), "C06.cancel waiting: others run", inp, repr(res))
                    h.check(not obj.overlaps, "C06.cancel waiting: no overlap", inp, repr(obj.overlaps))

    h.arun(main, "C06.cancel waiting: no hang", "cancel", timeout=60)


PARTS = [not_held, no_lock_forms, cancel_waiting, directed, schedules]
