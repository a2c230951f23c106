"""C14: main pools with 1 to 3 sub pools (in this process, lost on demand; some cases with real processes that are killed) with random histories of creations and destructions before, during and after one or several losses (one sub pool twice, two at once, while recovering, with a failing restart or callback) for each recovery mode; which actors exist and how often each was constructed, the calls of the callbacks, restarts and waiters are compared with the history. Non-trivial: (mode, history)."""

import asyncio
import os

import xoscar as mo
from util import spin
from xoscar.backends.pool import create_actor_pool
from xoscar.backends.test.pool import TestMainActorPool, TestSubActorPool
from xoscar.core import ActorRef
from xoscar.errors import ActorNotExist

MADE = []  # (case, sub pool object, id, args) of every construction


class A(mo.StatelessActor):
    def __init__(self, case, *args, **kw):
        self.args = (case, args, kw)

    async def __post_create__(self):
        MADE.append((self.args[0], self.uid, self.args, type(self).__name__, self.address))
        n = self.args[2].get("slow", 0)
        await spin(n)
        hook = HOOKS.pop(self.args[0], None)
        if hook is not None:
            await hook(self.uid.decode())

    def get(self):
        return self.args[1:], type(self).__name__


HOOKS = {}


class B(A):
    pass


class FakeProc:
    def __init__(self, pool):
        self.pool = pool
        self.alive = True


class LosePool(TestMainActorPool):
    """sub pools are in this process, and can be lost"""

    def setup(self):
        self.starts = []
        self.fail_starts = {}
        self.log = []

    @classmethod
    async def start_sub_pool(cls, actor_pool_config, process_index, start_python=None):
        cur = CURRENT.get(id(actor_pool_config))
        address = actor_pool_config.get_pool_config(process_index)["external_address"][0]
        if cur is not None:
            cur.starts.append(address)
            if cur.fail_starts.get(address, 0) > 0:
                cur.fail_starts[address] -= 1
                await asyncio.sleep(0)
                raise OSError("cannot start")
        p = await TestSubActorPool.create({"actor_pool_config": actor_pool_config, "process_index": process_index, "main_pool_pid": 0})
        await p.start()
        actor_pool_config.reset_pool_external_address(process_index, [p.external_address])
        if cur is not None and cur.during is not None:
            await cur.during(address)
        return FakeProc(p), actor_pool_config.get_pool_config(process_index)["external_address"]

    async def is_sub_pool_alive(self, process):
        await asyncio.sleep(0)
        return process.alive

    async def kill_sub_pool(self, process, force=False):
        if process.alive:
            await lose(process)


CURRENT = {}


async def lose(proc):
    proc.alive = False
    p = proc.pool
    for s in list(p._servers):
        await s.stop()
    p._actors.clear()
    await TestSubActorPool.stop(p)


class Callbacks:
    def __init__(self, raises=None):
        self.log = []
        self.raises = raises

    def down(self, pool, address):
        self.log.append(("down", address))
        if self.raises == "down":
            raise ValueError("callback")

    def recover(self, pool, address):
        self.log.append(("recovered", address))
        if self.raises == "recover":
            raise ValueError("callback")


async def settled(pool, procs, auto, timeout=6):
    """until every lost sub pool has been noticed and recovered"""
    for _ in range(int(timeout / 0.05)):
        await asyncio.sleep(0.05)
        if auto and all(pool.sub_processes[a] is not pr and pool.sub_processes[a].alive for a, pr in procs):
            break
    # what comes after the restart
    await asyncio.sleep(0.7 if auto else 1.2)


async def scenario(h, case, rng, mode, n_sub, variant):
    cb = Callbacks()
    pool = await create_actor_pool(
        "127.0.0.1", pool_cls=LosePool, n_process=n_sub, auto_recover=mode, on_process_down=cb.down, on_process_recover=cb.recover
    )
    LosePool.setup(pool)
    pool.during = None
    CURRENT[id(pool._config)] = pool
    main = pool.external_address
    subs = list(pool.sub_processes)
    live = {}  # (id, address) -> (class, args, kwargs)
    hist = []
    log = dict(mode=mode, sub_pools=n_sub, variant=variant, history=hist)
    mark = len(MADE)

    async def create(address=None):
        uid = f"{case}-{len(hist)}"
        cls = rng.choice([A, B])
        args = tuple(rng.randrange(100) for _ in range(rng.randrange(3)))
        kw = {"k": [1, rng.randrange(9)]} if rng.random() < 0.5 else {}
        st = rng.choice([None, "sub", "addr"]) if address is None else "addr"
        if st == "sub":
            ref = await mo.create_actor(cls, case, *args, uid=uid, address=main, allocate_strategy=mo.allocate_strategy.RandomSubPool(), **kw)
        else:
            a = address or (rng.choice(subs) if st == "addr" else main)
            ref = await mo.create_actor(cls, case, *args, uid=uid, address=a, **kw)
        live[uid] = (ref.address, cls.__name__, args, kw)
        hist.append(f"create {uid} {cls.__name__}{args}{kw} at {('main' if ref.address == main else subs.index(ref.address))}")
        return ref

    async def destroy(uid):
        await mo.destroy_actor(await mo.actor_ref(uid=uid, address=main))
        hist.append(f"destroy {uid}")
        live.pop(uid)

    async def some(n):
        for _ in range(n):
            if live and rng.random() < 0.3:
                await destroy(rng.choice(sorted(live)))
            else:
                await create()

    made_expected = {}
    try:
        await some(rng.randrange(2, 9))
        rounds = 2 if variant == "twice" else 1
        expected_log = {a: 0 for a in subs}
        for r in range(rounds):
            lost = [rng.choice(subs)]
            if variant == "two" and n_sub > 1:
                lost = rng.sample(subs, 2)
            if variant == "callback raises":
                cb.raises = rng.choice(["down", "recover"])
            if variant == "restart fails":
                pool.fail_starts[lost[0]] = 1
            before = dict(live)
            mark = len(MADE)
            starts0 = list(pool.starts)
            late = []
            undecided = []
            if variant == "during" and mode:

                async def during(address, lost=lost):
                    pool.during = None
                    # the new process is there; the main pool does not know yet
                    uid = f"{case}-during{r}"
                    late.append(asyncio.ensure_future(mo.create_actor(A, case, 7, uid=uid, address=address, slow=300)))
                    live[uid] = (address, "A", (7,), {"slow": 300})
                    hist.append(f"create {uid} while {subs.index(address)} is restarted")
                    await spin(60)

                pool.during = during
            if variant == "destroy during" and mode == "actor":
                while len([v for v in live.values() if v[0] == lost[0]]) < 3:
                    await create(lost[0])
                before = dict(live)
                mark = len(MADE)

                async def hook(first, lost=lost, mark=mark):
                    made = {m[1].decode() for m in MADE[mark:] if m[0] == case}
                    left = [u for u, v in live.items() if v[0] == lost[0] and u not in made]
                    if not left:
                        return
                    uid = rng.choice(left)
                    hist.append(f"destroy {uid} while {first} is created again")
                    try:
                        await mo.destroy_actor(ActorRef(rng.choice([main, lost[0]]), uid.encode()))
                    except ActorNotExist:
                        pass
                    undecided.append((uid, lost[0]))
                    live.pop(uid, None)

                HOOKS[case] = hook
            procs = [(a, pool.sub_processes[a]) for a in lost]
            waiters = []
            if mode:
                waiters = [asyncio.ensure_future(mo.wait_actor_pool_recovered(a, main)) for a in lost for _ in range(2)]
                await spin(10)
            for a, pr in procs:
                hist.append(f"lose {subs.index(a)}")
                await lose(pr)
            await settled(pool, procs, mode, 6)
            if late:
                done, nd = await asyncio.wait(late, timeout=5)
                for t in late:
                    h.check(t.done() and t.exception() is None, "C14.creation_during", log, f"{t!r}")
            for a in lost:
                expected_log[a] += 1
            for w in waiters:
                h.check(w.done() and w.exception() is None, "C14.waiters", log, f"{w!r}")
                w.cancel()
            # callbacks
            for a in subs:
                got = [e for e, x in cb.log if x == a]
                one = ["down", "recovered"] if mode else ["down"]
                if variant == "callback raises" and a in lost:
                    h.check(got.count("down") == 1 and got.count("recovered") <= 1, "C14.callbacks", log, f"sub pool {subs.index(a)}: {got}")
                else:
                    h.check(got == one * expected_log[a], "C14.callbacks", log, f"sub pool {subs.index(a)}: {got}")
            # restarts
            for a in subs:
                n = pool.starts.count(a) - starts0.count(a)
                want = (1 if mode else 0) if a in lost else 0
                if variant == "restart fails" and a in lost and mode:
                    want = 2
                h.check(n == want, "C14.restarted_once", log, f"sub pool {subs.index(a)} was started {n} times")
            # what exists
            if mode != "actor":
                for uid in [u for u, v in before.items() if v[0] in lost]:
                    live.pop(uid, None)
                    try:
                        ref = await mo.actor_ref(uid=uid, address=main)
                        h.fail("C14.forgotten", log, f"{uid} is found: {ref!r}")
                    except ActorNotExist:
                        h.check(True, "C14.forgotten", log)
            made = {}
            for m in MADE[mark:]:
                if m[0] == case:
                    made[m[1].decode()] = made.get(m[1].decode(), 0) + 1
            for uid, v in before.items():
                if uid in [u for u, _ in undecided]:
                    # known exactly if it lives
                    try:
                        await mo.actor_ref(uid=uid, address=main)
                        known = True
                    except ActorNotExist:
                        known = False
                    try:
                        await ActorRef(v[0], uid.encode()).get()
                        lives = True
                    except ActorNotExist:
                        lives = False
                    h.check(known == lives, "C14.only_not_destroyed", log, f"{uid}: the main pool {'knows' if known else 'does not know'} it, it {'lives' if lives else 'does not live'}")
                elif v[0] in lost:
                    want = 1 if mode == "actor" else 0
                    h.check(made.get(uid, 0) == want, "C14.created_once", log, f"{uid} was created {made.get(uid, 0)} times again")
                else:
                    h.check(made.get(uid, 0) == 0, "C14.created_once", log, f"{uid} of another pool was created again")
            extra = set(made) - set(before) - {f"{case}-during{r}"}
            h.check(not extra, "C14.only_not_destroyed", log, f"{extra} came back")
            if late:
                h.check(made.get(f"{case}-during{r}") == 1, "C14.created_once", log, f"{case}-during{r} was created {made.get(f'{case}-during{r}')} times")
            ok_subs = subs if mode else [s for s in subs if s not in lost]
            for uid, (a, c, args, kw) in live.items():
                ref = await mo.actor_ref(uid=uid, address=main)
                h.check(ref.address == a, "C14.same_place", log, f"{uid} at {ref.address}, not {a}")
                got = await asyncio.wait_for(ref.get(), 5)
                h.check(got == ((args, kw), c), "C14.same_actor", log, f"{uid}: {got}")
            # the pool goes on
            if mode:
                for a in lost:
                    ref = await asyncio.wait_for(create(a), 5)
                    h.check(ref.address == a, "C14.goes_on", log, f"{ref!r}")
                if live and mode == "actor":
                    await destroy(rng.choice(sorted(live)))
                cb.raises = None
            else:
                subs_left = [s for s in subs if s not in lost]
                others = subs_left[:1]
                for a in others:
                    ref = await asyncio.wait_for(create(a), 5)
                # the others are still monitored
                if others:
                    pr = pool.sub_processes[others[0]]
                    await lose(pr)
                    hist.append(f"lose {subs.index(others[0])}")
                    await asyncio.sleep(1.2)
                    h.check(cb.log.count(("down", others[0])) == 1, "C14.monitoring", log, f"{cb.log}")
            if variant == "twice":
                await some(rng.randrange(1, 4)) if mode else None
                if not mode:
                    break
        if mode and variant in ("callback raises", "restart fails") and n_sub > 1:
            # the others are still monitored
            a = rng.choice(subs)
            pr = pool.sub_processes[a]
            n0 = [e for e, x in cb.log if x == a]
            await lose(pr)
            hist.append(f"lose {subs.index(a)}")
            await settled(pool, [(a, pr)], mode)
            n1 = [e for e, x in cb.log if x == a]
            h.check(n1 == n0 + ["down", "recovered"], "C14.monitoring", log, f"{cb.log}")
    finally:
        CURRENT.pop(id(pool._config), None)
        try:
            await asyncio.wait_for(pool.stop(), 10)
        except asyncio.TimeoutError:
            pass
    h.seen((mode, variant, n_sub, repr(hist)), log)


VARIANTS = ["one", "two", "twice", "callback raises", "restart fails", "during", "destroy during"]


def losses(h):
    import random

    async def main():
        cases = []
        for variant in VARIANTS:
            for mode in ("actor", "process", False):
                if mode != "actor" and variant == "destroy during":
                    continue
                if mode is False and variant in ("restart fails", "during"):
                    continue
                for n in (1, 2, 3):
                    if variant == "two" and n == 1:
                        continue
                    cases.append((mode, n, variant))
        cases = cases * h.n(2, 20)
        h.rng.shuffle(cases)
        k = 0
        size = 24
        while cases and h.time_left() > 60 and len(h.failures) < 6:
            batch, cases = cases[:size], cases[size:]
            ts = []
            for mode, n, variant in batch:
                k += 1
                ts.append(asyncio.ensure_future(scenario(h, f"c{k}", random.Random(f"{h.seed}/{k}/{h.tier}"), mode, n, variant)))
            done, nd = await asyncio.wait(ts, timeout=60)
            for t, c in zip(ts, batch):
                if t in nd:
                    t.cancel()
                    h.fail("C14.no_hang", c, f"{t.get_stack()!r}")
                elif t.exception() is not None:
                    raise t.exception()

    h.arun(main, "C14.no_error", "losses", timeout=220)


def processes(h):
    """real processes that are killed"""
    script = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c14_procs.py")
    import json
    import signal
    import subprocess
    import sys

    procs = [
        (mode, subprocess.Popen([sys.executable, script, mode], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True))
        for mode in ("actor", "process", "False")
    ]
    for mode, p in procs:
        try:
            stdout, stderr = p.communicate(timeout=100)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            h.error(f"processes {mode}: timeout")
            continue
        out = [l for l in stdout.splitlines() if l.startswith("RESULT ")]
        if not out:
            h.error(f"processes {mode}: {stdout[-500:]} {stderr[-1500:]}")
            continue
        d = json.loads(out[-1][7:])
        log = f"real processes, auto_recover={mode}"
        h.seen(log, log)
        for name, ok, msg in d:
            h.check(ok, name, log, msg)


PARTS = [processes, losses]
