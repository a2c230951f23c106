"""C12: router lookups on random tables (local addresses, mapping, proxies by address, host and wildcard, chains and cycles) against the specified precedence, with recording fake clients for the default scheme, and random histories of lookups, closings, added, removed and remapped routers, including concurrent lookups; the proxy announced by the pool for its actors in real in-process pools. Non-trivial: distinct (rule that applies, table) and histories."""

import asyncio
import itertools

from util import pool, remote, spin
from xoscar.backends.communication.base import Client
from xoscar.backends.communication.core import register_client
from xoscar.backends.router import Router

HOSTS = ["h0", "h1", "h2"]
ADDRS = [f"{h}:{p}" for h in HOSTS for p in (1, 2)]


class FakeClient(Client):
    scheme = None
    made = []

    def __init__(self, dest, local, kw):
        super().__init__(local, dest, None)
        self.kw = kw
        self.is_closed = False

    @staticmethod
    async def connect(dest_address, local_address=None, **kw):
        await asyncio.sleep(0)
        c = FakeClient(dest_address, local_address, kw)
        FakeClient.made.append(c)
        return c

    @property
    def closed(self):
        return self.is_closed

    async def close(self):
        self.is_closed = True


class FakeDummyClient(FakeClient):
    scheme = "dummy"

    @staticmethod
    async def connect(dest_address, local_address=None, **kw):
        await asyncio.sleep(0)
        c = FakeDummyClient(dest_address, local_address, kw)
        FakeClient.made.append(c)
        return c


class fakes:
    """the clients of the default and the in-process scheme are recorded instead of connected"""

    def __enter__(self):
        from xoscar.backends.communication import get_client_type

        self.old = [get_client_type("h:1"), get_client_type("dummy://0")]
        register_client(FakeClient)
        register_client(FakeDummyClient)
        FakeClient.made = []

    def __exit__(self, *_):
        for c in self.old:
            register_client(c)


# ---------------------------------------------------------------- specification
def host(a):
    return a.split(":", 1)[0]


def proxy_of(conf, a):
    for k in (a, host(a), "*"):
        x = conf.get(k)
        if x and x != a:
            return x
    return None


def proxies_of(conf, a):
    out = []
    while True:
        p = proxy_of(conf, a)
        if not p or p in out:
            return out or None
        out.append(p)
        a = p


def destination(ext, local, local_addr, mapping, conf, addr, announced):
    """(address to connect to, rule)"""
    if addr in local:
        return local_addr[addr], "local"
    if mapping.get(addr) is not None:
        return mapping[addr], "mapped"
    if announced:
        last = announced[-1]
        p = proxy_of(conf, last)
        return (p, "announced, behind another") if p else (last, "announced")
    p = proxy_of(conf, addr)
    if p and p != (ext[0] if ext else None):
        return p, "proxy"
    return addr, "itself"


def gen_tables(rng):
    ext = rng.sample(ADDRS, rng.randrange(0, 3))
    mapping = {a: rng.choice([f"dummy://{i}", f"h9:{i}", None]) for i, a in enumerate(rng.sample(ADDRS, rng.randrange(0, 4)))}
    keys = ADDRS + HOSTS + ["*"] * 3
    conf = {rng.choice(keys): rng.choice(ADDRS + ["p:1", "p:2", "p:3"]) for _ in range(rng.choice([0, 1, 2, 3, 5]))}
    if rng.random() < 0.3:
        conf["p:1"] = "p:2"
    if rng.random() < 0.2:
        conf["p:2"] = "p:1"
    return ext, mapping, conf


def proxies(h):
    """get_proxy and get_proxies"""
    rng = h.rng
    for case in range(h.n(6000, 80000)):
        _, _, conf = gen_tables(rng)
        r = Router([], None, proxy_config=dict(conf))
        for a in rng.sample(ADDRS, 2) + ["p:1", "h0"]:
            with h.guard("C12.proxies", (conf, a), limit=10):
                w = proxy_of(conf, a)
                g = r.get_proxy(a)
                ws = proxies_of(conf, a)
                h.seen((w is None, len(ws or ()), a, tuple(conf.items())), (conf, a))
                h.check(g == w, "C12.proxy_precedence", (conf, a), f"{g}, want {w}")
                gs = r.get_proxies(a)
                h.check(gs == ws, "C12.proxy_chain", (conf, a), f"{gs}, want {ws}")


def lookups(h):
    """where a client connects to"""
    rng = h.rng

    async def main():
        for case in range(h.n(4000, 40000)):
            ext, mapping, conf = gen_tables(rng)
            la = "dummy://77"
            a = rng.choice(ADDRS)
            ann = rng.choice([None, None, [], ["p:1"], ["p:1", "p:2"], ["p:3", "h0:1"], [rng.choice(ADDRS)]])
            inp = dict(local=ext, mapping=mapping, proxy=conf, address=a, announced=ann)
            r = Router(list(ext), la, dict(mapping), proxy_config=dict(conf))
            FakeClient.made = []
            want, rule = destination(ext, set(ext), {x: la for x in ext}, mapping, conf, a, ann)
            c = await r.get_client(a, from_who="me", proxy_addresses=ann)
            h.seen((rule, tuple(ext), tuple(mapping.items()), tuple(conf.items()), a), inp)
            h.check(c.dest_address == want, f"C12.destination", inp, f"connected to {c.dest_address}, want {want} ({rule})")
            h.check(len(FakeClient.made) == 1, "C12.one_connection", inp, f"{len(FakeClient.made)}")
            h.check(r.external_address == (ext[0] if ext else None), "C12.external_address", inp, "")
            h.check(
                r.get_internal_address(a) == (la if a in ext else mapping.get(a)), "C12.internal_address", inp, f"{r.get_internal_address(a)}"
            )
            h.check(c.local_address == (ext[0] if ext else None), "C12.local_address", inp, f"{c.local_address}")

    with fakes():
        h.arun(main, "C12.lookups", "lookups", timeout=100)


def histories(h):
    """caching over any history"""
    rng = h.rng

    async def one(log):
        ext, mapping, conf = gen_tables(rng)
        la = "dummy://77"
        local = {x: la for x in ext}
        r = Router(list(ext), la, dict(mapping), proxy_config=dict(conf))
        ext, mapping, conf = list(ext), dict(mapping), dict(conf)
        log.append(("router", list(ext), dict(mapping), dict(conf)))
        cache = {}  # key -> client that a cached lookup has to return while it is open
        added = []
        for step in range(rng.randrange(3, 25)):
            k = rng.random()
            if k < 0.55:
                n = rng.choice([1, 1, 1, 2, 4])
                batch = []
                for _ in range(n):
                    a, who = rng.choice(ADDRS[:4]), rng.choice(["me", "you", None])
                    ann = rng.choice([None, None, [], ["p:1"], ["p:1", "p:2"], ["p:2", "p:1"]])
                    cached = rng.random() < 0.85
                    batch.append((a, who, ann, cached))
                log.append(("get_client", batch))
                res = await asyncio.gather(*(r.get_client(a, from_who=w, cached=c, proxy_addresses=p) for a, w, p, c in batch))
                fresh = {}
                for (a, who, ann, cached), c in zip(batch, res):
                    key = (a, who, tuple(ann or ()))
                    want, rule = destination(ext, local, local, mapping, conf, a, ann)
                    h.check(c.dest_address == want, "C12.current_state", log, f"{a} via {ann}: connected to {c.dest_address}, want {want} ({rule})")
                    h.check(not c.closed, "C12.open", log, f"client for {a} is closed")
                    old = cache.get(key)
                    h.seen((rule, cached, None if old is None else old.closed, n, key), log[-1])
                    if cached:
                        if old is not None and not old.closed:
                            h.check(c is old, "C12.cached", log, f"another client for {key}")
                        elif key in fresh:
                            h.check(c is fresh[key], "C12.cached", log, f"concurrent lookups of {key} made two clients")
                        for k2, c2 in list(cache.items()) + list(fresh.items()):
                            h.check(c is not c2 or k2 == key, "C12.not_shared", log, f"client of {k2} returned for {key}")
                        fresh[key] = c
                    else:
                        h.check(all(c is not x for x in list(cache.values()) + list(fresh.values())), "C12.not_cached", log, f"{key}: a shared client though not cached")
                cache.update(fresh)
            elif k < 0.7 and cache:
                key = rng.choice(list(cache))
                log.append(("close", key))
                await cache[key].close()
            elif k < 0.8:
                e2, m2, c2 = gen_tables(rng)
                # an address the first router has already is not added twice by the callers
                e2 = [a for a in e2 if a not in ext]
                r2 = Router(list(e2), "dummy://88", dict(m2), proxy_config=dict(c2))
                log.append(("add_router", e2, m2, c2))
                r.add_router(r2)
                ext += e2
                local.update({x: "dummy://88" for x in e2})
                mapping.update(m2)
                conf.update(c2)
                cache = {}
                added.append((r2, e2, m2))
            elif k < 0.9 and added:
                r2, e2, m2 = added.pop(rng.randrange(len(added)))
                log.append(("remove_router", e2, m2))
                r.remove_router(r2)
                ext = [a for a in ext if a not in e2]
                for x in e2:
                    local.pop(x, None)
                for x in m2:
                    mapping.pop(x, None)
                cache = {}
            else:
                mapping = {a: f"dummy://{rng.randrange(9)}" for a in rng.sample(ADDRS, rng.randrange(0, 4))}
                log.append(("set_mapping", mapping))
                r.set_mapping(dict(mapping))
                # the tables of routers added before are replaced as well
                added = [(x, e, {k: v for k, v in m.items()}) for x, e, m in added]
                cache = {}

    async def main():
        for case in range(h.n(1200, 15000)):
            log = []
            await one(log)
            if len(h.failures) > 3 or h.time_left() < 30:
                return

    with fakes():
        h.arun(main, "C12.histories", "histories", timeout=150)


def real_pools(h):
    """addresses inside the process are reached in the process, and closed clients are replaced"""
    import xoscar as mo
    from xoscar.core import ActorRef

    class A(mo.Actor):
        async def f(self, x):
            return (self.uid, x)

    async def main():
        async with pool(2) as p:
            refs = []
            for i in range(3):
                refs.append(await mo.create_actor(A, uid=f"a{i}", address=p.external_address, allocate_strategy=mo.allocate_strategy.ProcessIndex(i)))
            r = Router.get_instance()
            me = object()
            for k in range(6):
                ref = refs[k % 3]
                c = await r.get_client(ref.address, from_who=me)
                h.seen(("real", k))
                h.check("dummy" in c.dest_address, "C12.local", ref.address, c.dest_address)
                c2 = await r.get_client(ref.address, from_who=me)
                h.check(c2 is c, "C12.cached", ref.address, "")
                await c.close()
                c3 = await r.get_client(ref.address, from_who=me)
                h.check(c3 is not c and not c3.closed, "C12.open", ref.address, "closed client returned")
                got = await ActorRef(ref.address, ref.uid).f(k)
                h.check(got == (ref.uid, k), "C12.reaches", ref.address, f"{got}")

    h.arun(main, "C12.real", "in-process pool", timeout=30)


PARTS = [proxies, lookups, histories, real_pools]
