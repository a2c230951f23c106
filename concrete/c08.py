"""C08: random histories (8 to 40 steps) of creations (to the main pool, to sub pools directly, by index, address, with failing constructors and post-create hooks, with ids in use), destructions (through local and remote references, through the main pool and sub pools, of unknown actors, with failing pre-destroy hooks), calls, and sub pools appended and removed, on in-process pools with 0 to 3 sub pools; after each step every id is looked up through the main pool and at every pool and compared with the actors that exist. Overlapping creations of one id. Non-trivial: (step, outcome, state)."""

import asyncio
import itertools

import xoscar as mo
from util import pool, remote, spin
from xoscar.backends.allocate_strategy import AddressSpecified, MainPool, ProcessIndex, RandomSubPool
from xoscar.core import ActorRef
from xoscar.errors import ActorAlreadyExist, ActorNotExist


class Boom(Exception):
    pass


class A(mo.Actor):
    n = itertools.count()

    def __init__(self, fail=None, wait=0):
        if fail == "init":
            raise Boom("init")
        self.fail = fail
        self.wait = wait
        self.token = next(A.n)

    async def __post_create__(self):
        await super().__post_create__()
        await spin(self.wait)
        if self.fail == "post":
            raise Boom("post")
        if self.fail == "post_base":
            raise asyncio.CancelledError()

    async def __pre_destroy__(self):
        await spin(self.wait)
        if self.fail == "pre":
            raise Boom("pre")

    def whoami(self):
        return (self.address, self.uid, self.token)

    def set_fail(self, f):
        self.fail = f


class B(A):
    pass


async def outcome(coro):
    try:
        return "ok", await coro
    except (Boom, ActorAlreadyExist, ActorNotExist, asyncio.CancelledError) as e:
        # the class is a subclass made for the message, text and arguments are C09
        for c in (Boom, ActorAlreadyExist, ActorNotExist, asyncio.CancelledError):
            if isinstance(e, c):
                return c, e


async def verify(h, p, live, uids, log):
    """every id through the main pool and at each pool"""
    main = p.external_address
    addrs = [main] + list(p.sub_processes)
    for u in uids:
        b = u.encode()
        homes = [a for (a, x) in live if x == b]
        r = ActorRef(main, b)
        has = await mo.has_actor(r)
        h.check(has == bool(homes), "C08.has_actor", log, f"has_actor({u}) through the main pool: {has}, lives at {homes}")
        k, x = await outcome(mo.actor_ref(address=main, uid=u))
        if homes:
            if h.check(k == "ok", "C08.actor_ref", log, f"actor_ref({u}): {x!r}, lives at {homes}"):
                h.check(x.address in homes and x.uid == b, "C08.actor_ref", log, f"actor_ref({u}) = {x!r}, lives at {homes}")
                if main in homes:
                    h.check(x.address == main, "C08.actor_ref", log, f"{u}: {x!r}, lives at the address asked for")
        else:
            h.check(k is ActorNotExist, "C08.actor_ref", log, f"actor_ref({u}) = {x!r} though it does not exist")
        for a in addrs[1:]:
            has = await mo.has_actor(ActorRef(a, b))
            h.check(has == ((a, b) in live), "C08.has_actor", log, f"has_actor({u}) at {a}: {has}, lives at {homes}")
            if (a, b) in live:
                k, x = await outcome(mo.actor_ref(address=a, uid=u))
                h.check(k == "ok" and x.address == a, "C08.actor_ref", log, f"actor_ref({u}) at {a}: {x!r}")
            if not homes:
                k, x = await outcome(mo.actor_ref(address=a, uid=u))
                h.check(k is ActorNotExist, "C08.actor_ref", log, f"actor_ref({u}) at {a} = {x!r} though it does not exist")
        for a in homes:
            k, x = await outcome(ActorRef(a, b).whoami())
            h.check(k == "ok" and x[:2] == (a, b) and x[2] == live[(a, b)], "C08.instance", log, f"{u} at {a}: {x!r}, want token {live[(a, b)]}")


async def history(h, p, rng, log, steps, reuse):
    live = {}  # (address, id) -> token
    uids = ["a", "b", "c", "d"]
    main = p.external_address

    def addrs():
        return [main] + list(p.sub_processes)

    for step in range(steps):
        r = rng.random()
        state = len(live)
        if r < 0.45:
            u = rng.choice(uids)
            b = u.encode()
            fail = rng.choice([None, None, None, "init", "post", "pre"])
            cls = rng.choice([A, B])
            way = rng.choice(["at", "main", "index", "spec", "sub"])
            i = rng.randrange(len(addrs()))
            kw = {}
            want = addrs()[i]
            if way == "at":
                kw["address"] = want
            else:
                kw["address"] = main
                if way == "main":
                    kw["allocate_strategy"] = MainPool()
                    want = main
                elif way == "index":
                    kw["allocate_strategy"] = ProcessIndex(i)
                elif way == "spec":
                    kw["allocate_strategy"] = AddressSpecified(want)
                elif len(addrs()) > 1:
                    kw["allocate_strategy"] = RandomSubPool()
                    want = None
                else:
                    want = main
            taken = [a for (a, x) in live if x == b]
            if not reuse and taken and want is not None and want not in taken:
                # the same id at several addresses only in some of the histories
                continue
            if want is None and taken:
                continue
            uid = rng.choice([u, b])
            log.append(("create", u, way, want, fail, cls.__name__))
            k, x = await outcome(mo.create_actor(cls, fail, rng.randrange(3), uid=uid, **kw))
            h.seen(("create", way, fail, bool(taken), str(k), state, step), log[-1])
            if want is not None and (want, b) in live:
                # the check for the id may come before or after the constructor ran
                h.check(k is ActorAlreadyExist or (k is Boom and fail == "init"), "C08.already_exist", log, f"{x!r}")
            elif fail in ("init", "post"):
                h.check(k is Boom, "C08.failing_creation", log, f"{x!r}")
            elif h.check(k == "ok", "C08.creation", log, f"{x!r}"):
                h.check(x.uid == b and (want is None or x.address == want), "C08.creation", log, f"{x!r}")
                live[(x.address, b)] = (await ActorRef(x.address, x.uid).whoami())[2]
        elif r < 0.7:
            # destroy, existing or not
            if live and rng.random() < 0.7:
                a, b = rng.choice(list(live))
            else:
                a, b = rng.choice(addrs()), rng.choice(uids).encode()
            homes = [x for (x, y) in live if y == b]
            via = a
            if len(homes) == 1 and rng.random() < 0.4:
                via = main  # through the main pool, by id
            pre = None
            if homes and rng.random() < 0.2:
                t = a if a in homes else homes[0]
                await ActorRef(t, b).set_fail("pre")
            target = via if (via, b) in live else (homes[0] if via == main and homes else None)
            if target is not None:
                # the hook fails?
                if rng.random() < 0.8:
                    await ActorRef(target, b).set_fail(None)
                    pre = None
                else:
                    await ActorRef(target, b).set_fail("pre")
                    pre = "pre"
            log.append(("destroy", b, "at", a, "through", via, pre))
            ref = ActorRef(via, b)
            k, x = await outcome(mo.destroy_actor(ref))
            h.seen(("destroy", target is None, pre, via == main, str(k), state, step), log[-1])
            if target is None:
                h.check(k is ActorNotExist, "C08.not_exist", log, f"destroying an actor that does not exist: {x!r}")
            elif pre:
                h.check(k is Boom, "C08.failing_destruction", log, f"{x!r}")
            else:
                if h.check(k == "ok", "C08.destruction", log, f"{x!r}"):
                    del live[(target, b)]
        elif r < 0.85:
            # call
            a, b = rng.choice(addrs()), rng.choice(uids).encode()
            if live and rng.random() < 0.5:
                a, b = rng.choice(list(live))
            homes = [x for (x, y) in live if y == b]
            log.append(("call", b, a))
            k, x = await outcome(ActorRef(a, b).whoami())
            h.seen(("call", (a, b) in live, a == main, bool(homes), state, step))
            if (a, b) in live:
                h.check(k == "ok" and x == (a, b, live[(a, b)]), "C08.call", log, f"{x!r}")
            elif a == main and homes:
                # calls to the main pool are passed on to the pool where the actor lives
                h.check(k == "ok" and x[0] in homes and x[2] == live[(x[0], b)], "C08.call", log, f"{x!r}")
            else:
                h.check(k is ActorNotExist, "C08.not_exist", log, f"calling an actor that does not exist: {x!r}")
        elif r < 0.9 and len(addrs()) < 5:
            log.append("append_sub_pool")
            a = await p.append_sub_pool()
            h.seen(("append", state, step))
            h.check(a in p.sub_processes, "C08.append", log, "")
        elif r < 0.94 and len(addrs()) > 1:
            a = rng.choice(list(p.sub_processes))
            log.append(("remove_sub_pool", a))
            await p.remove_sub_pool(a, timeout=2)
            h.seen(("remove", state, step))
            for k in [k for k in live if k[0] == a]:
                del live[k]
        elif r < 0.97:
            # several creations of one id at one pool at the same time: exactly one wins
            u = rng.choice(uids)
            b = u.encode()
            a = rng.choice(addrs())
            if any(x == b for (_, x) in live):
                continue
            fails = [rng.choice([None, None, "post"]) for _ in range(rng.randrange(2, 5))]
            log.append(("create at the same time", u, a, fails))
            res = await asyncio.gather(
                *(outcome(mo.create_actor(A, f, rng.randrange(4), uid=u, address=rng.choice([a, main]), allocate_strategy=AddressSpecified(a)) if rng.random() < 0.0 else mo.create_actor(A, f, rng.randrange(4), uid=u, address=a)) for f in fails)
            )
            ok = [x for k, x in res if k == "ok"]
            h.seen(("race", tuple(fails), len(ok)), log[-1])
            h.check(len(ok) <= 1, "C08.one_winner", log, f"{res}")
            h.check(all(k in ("ok", ActorAlreadyExist) or (k is Boom and f == "post") for (k, _), f in zip(res, fails)), "C08.one_winner", log, f"{res}")
            if all(f is None for f in fails):
                h.check(len(ok) == 1, "C08.one_winner", log, f"{res}")
            for x in ok:
                live[(a, b)] = (await ActorRef(a, b).whoami())[2]
        else:
            # many actors with generated ids
            n = rng.randrange(1, 4)
            a = rng.choice(addrs())
            log.append(("create without id", n, a))
            refs = [await mo.create_actor(A, address=a) for _ in range(n)]
            h.seen(("generated", n))
            h.check(len({x.uid for x in refs}) == n, "C08.generated_ids", log, f"{refs}")
            for x in refs:
                h.check(await mo.has_actor(ActorRef(main, x.uid)), "C08.has_actor", log, f"{x!r}")
                await mo.destroy_actor(x)
                h.check(not await mo.has_actor(ActorRef(main, x.uid)), "C08.has_actor", log, f"{x!r} destroyed")
        await verify(h, p, live, uids, log)
        if len(h.failures) > 6:
            return


def histories(h):
    rng = h.rng
    for case in range(h.n(40, 500)):
        if h.time_left() < 40 or len(h.failures) > 6:
            break
        n = case % 4
        log = [f"{n} sub pools"]

        async def main():
            async with pool(n) as p:
                await history(h, p, rng, log, rng.randrange(8, 40), reuse=case % 3 == 0)

        h.arun(main, "C08.history", log, timeout=60)


def locals_(h):
    """local references and local calls see the same actors"""
    async def main():
        async with pool(1) as p:
            log = []
            for a in [p.external_address, *p.sub_processes]:
                ref = await mo.create_actor(A, uid="loc", address=a)
                h.seen(("local", a == p.external_address))
                h.check(await mo.has_actor(ref), "C08.has_actor", log, f"{ref!r}")
                await mo.destroy_actor(ref)
                h.check(not await mo.has_actor(ref), "C08.has_actor", log, f"{ref!r} destroyed")
                k, x = await outcome(mo.actor_ref(address=a, uid="loc"))
                h.check(k is ActorNotExist, "C08.actor_ref", log, f"{x!r}")
                k, x = await outcome(mo.destroy_actor(ref))
                h.check(k is ActorNotExist, "C08.not_exist", log, f"{x!r}")
                k, x = await outcome(remote(ref).whoami())
                h.check(k is ActorNotExist, "C08.not_exist", log, f"{x!r}")

    h.arun(main, "C08.local", "one sub pool", timeout=30)


PARTS = [histories, locals_]
