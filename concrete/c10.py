"""C10: every strategy on configurations of 1 to 6 pools with labels from a small set and on arbitrary tables of allocated actors (complete up to 3 pools, random above), compared with the addresses it denotes; random histories of concurrent and failing creations and destructions under IdleLabel and the other strategies on running in-process pools, observing where the actors live. Non-trivial: distinct configuration, table and strategy, or history."""

import asyncio
import itertools

import xoscar as mo
from util import pool, remote, spin
from xoscar.backends.allocate_strategy import (
    AddressSpecified,
    IdleLabel,
    MainPool,
    ProcessIndex,
    Random,
    RandomLabel,
    RandomSubPool,
)
from xoscar.backends.config import ActorPoolConfig
from xoscar.errors import NoIdleSlot


def conf(labels, multi=False):
    c = ActorPoolConfig()
    addrs = []
    for i, l in enumerate(labels):
        a = f"h:{100 + i}"
        c.add_pool_conf(1000 - i * 7, l, f"dummy://{i}", [a, a + "0"] if multi else a)
        addrs.append(a)
    return c, addrs


def strategies(h):
    """get_allocated_address on its own"""
    rng = h.rng
    cases = [ls for n in range(1, 4) for ls in itertools.product([None, "a", "b"], repeat=n)]
    cases += [tuple(rng.choice([None, "a", "b", "c"]) for _ in range(rng.randrange(4, 7))) for _ in range(h.n(60, 1500))]
    for labels in cases:
        c, addrs = conf(labels, multi=rng.random() < 0.3)
        alloc = {a: {} for a in addrs}
        with h.guard("C10.strategies", labels):
            h.seen(("s", labels), labels)
            got = AddressSpecified("somewhere:9").get_allocated_address(c, alloc)
            h.check(got == "somewhere:9", "C10.address_specified", labels, got)
            got = MainPool().get_allocated_address(c, alloc)
            h.check(got == addrs[0], "C10.main_pool", labels, got)
            for i in range(len(addrs)):
                got = ProcessIndex(i).get_allocated_address(c, alloc)
                h.check(got == addrs[i], "C10.process_index", (labels, i), got)
            for bad in (len(addrs), len(addrs) + 3):
                try:
                    got = ProcessIndex(bad).get_allocated_address(c, alloc)
                    h.fail("C10.process_index", (labels, bad), f"{got} for an index that does not exist")
                except IndexError:
                    pass
            s = {Random().get_allocated_address(c, alloc) for _ in range(80)}
            h.check(s <= set(addrs), "C10.random", labels, f"{s}")
            if len(addrs) > 1:
                s = {RandomSubPool().get_allocated_address(c, alloc) for _ in range(40)}
                h.check(s <= set(addrs[1:]), "C10.random_sub_pool", labels, f"{s}")
            for l in ("a", "b", "zz"):
                ok = {a for a, x in zip(addrs, labels) if x == l}
                for _ in range(12):
                    try:
                        got = RandomLabel(l).get_allocated_address(c, alloc)
                    except IndexError:
                        h.check(not ok, "C10.random_label", (labels, l), "no address though there is one")
                        break
                    h.check(got in ok, "C10.random_label", (labels, l), got)


def spread(h):
    """each pool a random strategy may choose can be chosen"""
    c, addrs = conf([None, "a", "b", "a"])
    with h.guard("C10.spread", addrs):
        for st, ok in ((Random(), addrs), (RandomSubPool(), addrs[1:]), (RandomLabel("a"), [addrs[1], addrs[3]])):
            s = {st.get_allocated_address(c, {}) for _ in range(400)}
            h.seen(type(st).__name__)
            h.check(s == set(ok), "C10.random_covers", (type(st).__name__, ok), f"{s}")


def idle_tables(h):
    """IdleLabel on arbitrary tables of allocated actors"""
    rng = h.rng
    sts = [
        lambda: IdleLabel("a", "m"),
        lambda: IdleLabel("a", "n"),
        lambda: IdleLabel("b", "m"),
        lambda: IdleLabel(None, "m"),
        lambda: RandomLabel("a"),
        lambda: MainPool(),
        lambda: AddressSpecified("h:100"),
        lambda: ProcessIndex(1),
    ]

    def one(labels, occ, ask):
        c, addrs = conf(labels)
        alloc = {a: {object(): (sts[k](), None) for k in ks} for a, ks in zip(addrs, occ)}
        if rng.random() < 0.2:
            alloc = {a: t for a, t in alloc.items() if t}  # pools without an entry
        before = {a: list(t.items()) for a, t in alloc.items()}
        st = sts[ask]()
        lab, mark = [("a", "m"), ("a", "n"), ("b", "m")][ask]
        idle = [a for a, l, ks in zip(addrs, labels, occ) if l == lab and ask not in ks]
        inp = (labels, [[(type(sts[k]()).__name__, k) for k in ks] for ks in occ], lab, mark)
        with h.guard("C10.idle", inp):
            h.seen((labels, occ, ask), inp)
            try:
                got = st.get_allocated_address(c, alloc)
                h.check(got in idle, "C10.idle_label", inp, f"{got}, idle: {idle}")
            except NoIdleSlot:
                h.check(not idle, "C10.idle_label", inp, f"NoIdleSlot though {idle} are idle")
            after = {a: list(t.items()) for a, t in alloc.items()}
            h.check(before == after, "C10.idle_frame", inp, "the table was changed")

    small = [(), (0,), (1,), (2,), (4,), (0, 1), (1, 0), (5, 0)]
    for n in (1, 2):
        for labels in itertools.product([None, "a", "b"], repeat=n):
            for occ in itertools.product(small, repeat=n):
                for ask in range(3):
                    one(labels, occ, ask)
    for _ in range(h.n(3000, 60000)):
        n = rng.randrange(3, 7)
        labels = tuple(rng.choice([None, "a", "a", "b"]) for _ in range(n))
        occ = tuple(tuple(rng.choice(range(8)) for _ in range(rng.randrange(0, 4))) for _ in range(n))
        one(labels, occ, rng.randrange(3))


def equality(h):
    """IdleLabel strategies are equal exactly if label and mark are"""
    vals = [None, "None", "a", "b", "", 1, "1", ("x",), "('x',)"]
    with h.guard("C10.equality", vals):
        for a in itertools.product(vals, repeat=2):
            for b in itertools.product(vals, repeat=2):
                x, y = IdleLabel(*a), IdleLabel(*b)
                h.seen((a, b))
                h.check((x == y) == (a == b), "C10.idle_equality", (a, b), "")
                h.check(a != b or hash(x) == hash(y), "C10.idle_equality", (a, b), "hash")
            h.check(not (IdleLabel(*a) == RandomLabel(a[0])), "C10.idle_equality", a, "equal to another strategy")


EV = {}


class Boom(Exception):
    pass


class A(mo.StatelessActor):
    def __init__(self, fail=None, wait=0):
        if fail == "init":
            raise Boom("init")
        self.fail = fail
        self.wait = wait

    async def __post_create__(self):
        await spin(self.wait)
        if self.fail == "post":
            raise Boom("post")

    async def where(self):
        return self.address


def histories(h):
    """where actors are created on a running pool, with creations that overlap and fail"""
    rng = h.rng
    for case in range(h.n(14, 150)):
        if h.time_left() < 30:
            break
        n = rng.randrange(1, 5)
        labels = ["main"] + [rng.choice(["a", "b"]) for _ in range(n)]
        log = [labels]

        async def main():
            async with pool(n, labels=labels) as p:
                addrs = [p.external_address] + list(p.sub_processes)
                h.check(addrs == p._config.get_external_addresses(), "C10.pools_in_order", log, f"{addrs}")
                live = {}  # ref -> (label, mark) or None
                counter = itertools.count()

                async def create(st, key, fail, wait):
                    try:
                        return await mo.create_actor(
                            A, fail=fail, wait=wait, uid=f"u{next(counter)}", address=p.external_address, allocate_strategy=st
                        )
                    except (NoIdleSlot, Boom) as e:
                        return e

                for step in range(rng.randrange(3, 14)):
                    r = rng.random()
                    if r < 0.7:
                        # a burst of creations, most with the same label and mark
                        batch = []
                        for _ in range(rng.randrange(1, 6)):
                            l, m = rng.choice(["a", "a", "b"]), rng.choice(["m", "m", "n"])
                            k = rng.random()
                            if k < 0.8:
                                batch.append((IdleLabel(l, m), (l, m), rng.choice([None, None, None, "init", "post"]), rng.randrange(6)))
                            elif k < 0.85:
                                i = rng.randrange(n + 1)
                                batch.append((ProcessIndex(i), ("idx", i), None, 1))
                            elif k < 0.9:
                                batch.append((MainPool(), ("idx", 0), None, 1))
                            elif k < 0.95:
                                i = rng.randrange(n + 1)
                                batch.append((AddressSpecified(addrs[i]), ("idx", i), None, 1))
                            elif l in labels:
                                batch.append((RandomLabel(l), ("label", l), None, 1))
                            else:
                                batch.append((RandomSubPool(), ("sub", 0), None, 1))
                        log.append(("create", [(type(b[0]).__name__, *b[1:]) for b in batch]))
                        before = {}
                        for ref, k in live.items():
                            before[(ref.address, k)] = before.get((ref.address, k), 0) + 1
                        res = await asyncio.gather(*(create(*b) for b in batch))
                        new = {}
                        for (st, key, fail, wait), x in zip(batch, res):
                            if isinstance(st, IdleLabel):
                                slots = [a for a, l in zip(addrs, labels) if l == key[0]]
                                if isinstance(x, NoIdleSlot):
                                    # every slot was taken by a live actor or by another creation of the burst
                                    taken = sum((a, key) in before for a in slots)
                                    rivals = sum(b[1] == key for b in batch) - 1
                                    h.check(taken + rivals >= len(slots), "C10.uses_idle", log, f"NoIdleSlot for {key} with {len(slots)} pools, {taken} taken and {rivals} others being created")
                                    if fail is None and all(b[2] is None for b in batch if b[1] == key):
                                        ok = sum(1 for b, y in zip(batch, res) if b[1] == key and not isinstance(y, Exception))
                                        h.check(taken + ok == len(slots), "C10.uses_idle", log, f"NoIdleSlot for {key}: {taken} taken, {ok} created, {len(slots)} pools")
                                elif isinstance(x, Boom):
                                    h.check(fail is not None, "C10.created", log, repr(x))
                                else:
                                    h.check(fail is None, "C10.created", log, "created though the constructor fails")
                                    h.check(x.address in slots, "C10.idle_label", log, f"{key} created at {x.address}, not in {slots}")
                                    h.check((x.address, key) not in before and (x.address, key) not in new, "C10.one_per_slot", log, f"second live {key} at {x.address}")
                                    new[(x.address, key)] = 1
                                    live[x] = key
                            else:
                                if isinstance(x, Exception):
                                    h.fail("C10.created", log, repr(x))
                                    continue
                                live[x] = None
                                if key[0] == "idx":
                                    h.check(x.address == addrs[key[1]], "C10.address", log, f"{key}: {x.address}")
                                elif key[0] == "label":
                                    h.check(labels[addrs.index(x.address)] == key[1], "C10.random_label", log, f"{key}: {x.address}")
                                else:
                                    h.check(x.address in addrs[1:], "C10.random_sub_pool", log, x.address)
                            if not isinstance(x, Exception):
                                w = await x.where()
                                h.check(w == x.address, "C10.lives_there", log, f"{w} != {x.address}")
                        h.seen(("burst", tuple(labels), tuple(sorted(str(b[1:]) for b in batch)), tuple(sorted(map(str, before)))), log[-1])
                    elif live:
                        ref = rng.choice(list(live))
                        log.append(("destroy", ref.address, live[ref]))
                        await mo.destroy_actor(remote(ref) if rng.random() < 0.5 else ref)
                        del live[ref]
                # in the end each slot that is free can be taken, and no other
                for l in ("a", "b"):
                    slots = [a for a, x in zip(addrs, labels) if x == l]
                    free = [a for a in slots if not any(k == (l, "m") and r.address == a for r, k in live.items())]
                    log.append(("fill", l, len(free)))
                    got = []
                    for _ in free:
                        x = await create(IdleLabel(l, "m"), None, None, 0)
                        got.append(getattr(x, "address", repr(x)))
                    h.check(sorted(got) == sorted(free), "C10.slots_become_idle", log, f"{got}, free were {free}")
                    x = await create(IdleLabel(l, "m"), None, None, 0)
                    h.check(isinstance(x, NoIdleSlot), "C10.no_idle_slot", log, f"{x!r}")
                    h.seen(("fill", l, len(slots), len(free)))

        h.arun(main, "C10.history", log, timeout=60)


def subpool_creations(h):
    """creations sent to a sub pool directly, and specified addresses, count as well"""
    async def main():
        async with pool(2, labels=["main", "a", "a"]) as p:
            addrs = list(p.sub_processes)
            log = []
            for a in [p.external_address] + addrs:
                ref = await mo.create_actor(A, uid="x" + a, address=a)
                h.seen(("direct", a == p.external_address))
                h.check(ref.address == a and await ref.where() == a, "C10.address", a, f"{ref.address}")
            # actors without IdleLabel do not take slots
            got = []
            for i in range(2):
                r = await mo.create_actor(A, uid=f"i{i}", address=p.external_address, allocate_strategy=IdleLabel("a", "m"))
                got.append(r.address)
            h.seen("slots")
            h.check(sorted(got) == sorted(addrs), "C10.idle_label", log, f"{got}")

    h.arun(main, "C10.direct", "creations at given addresses", timeout=30)


PARTS = [strategies, spread, idle_tables, equality, histories, subpool_creations]
