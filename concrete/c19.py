"""C19: pairs of references over a pool of addresses, ids (text and bytes) and proxies, in every mixture of local and remote, compared before and after pickling, copying and serialization rounds; buffer and file references likewise; fix-up of addresses over all pairs of address forms. Non-trivial: pair of reference forms or address forms."""

import asyncio
import copy
import itertools
import pickle

import cloudpickle
import xoscar as mo
from util import pool, remote
from xoscar.core import ActorRef, BufferRef, FileObjectRef, LocalActorRef, create_actor_ref, create_local_actor_ref
from xoscar._utils import create_actor_ref as make_ref, to_binary, to_str
from xoscar.serialization import deserialize, serialize
from xoscar.utils import fix_all_zero_ip


def rounds():
    return {
        "none": lambda x: x,
        "pickle": lambda x: pickle.loads(pickle.dumps(x)),
        "pickle2": lambda x: pickle.loads(pickle.dumps(x, 2)),
        "cloudpickle": lambda x: cloudpickle.loads(cloudpickle.dumps(x)),
        "serialize": lambda x: deserialize(*serialize(x)),
        "serialize in a tuple": lambda x: deserialize(*serialize((1, [x], {"k": x})))[1][0],
        "three rounds": lambda x: pickle.loads(pickle.dumps(deserialize(*serialize(pickle.loads(pickle.dumps(x)))))),
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
    }


ADDRS = ["127.0.0.1:1", "127.0.0.1:2", "", "unixsocket:///1", "a" * 300, "0.0.0.0:1"]
UIDS = [b"u", "u", "v", b"v", "", b"", "é", "é".encode(), "long" * 50, b"\xff\xfe", b"12", "12"]
PROX = [None, [], ["p:1"], ["p:1", "q:2"]]


def enc(u):
    return u.encode() if isinstance(u, str) else u


def actor_refs(h):
    refs = [(a, enc(u), p, ActorRef(a, u, p)) for a in ADDRS for u in UIDS for p in PROX]
    small = refs[:: h.n(5, 1)]
    for (a, u, p, x), (b, v, q, y) in itertools.product(small, small):
        same = a == b and u == v
        h.seen((a == b, u == v, p == q))
        h.check((x == y) is same and (x != y) is (not same), "C19.ActorRef: equal exactly if address and id are equal", ((a, u, p), (b, v, q)), f"== gives {x == y}, != gives {x != y}")
        if same:
            h.check(hash(x) == hash(y), "C19.ActorRef: equal references have equal hashes", ((a, u, p), (b, v, q)))
    for (a, u, p, x), (n, f) in itertools.product(refs, rounds().items()):
        h.seen((a, u, p, n))
        with h.guard("C19.ActorRef round", (a, u, p, n)):
            y = f(x)
            h.check(y == x and hash(y) == hash(x) and y.address == a and y.uid == u, "C19.ActorRef: identity kept", (a, u, p, n), f"{y!r}")
            h.check((y.proxy_addresses or None) == (p or None), "C19.ActorRef: proxies kept", (a, u, p, n), repr(y.proxy_addresses))
    for x, other in itertools.product([r[3] for r in refs[:6]], [None, 1, "x", ("127.0.0.1:1", b"u"), BufferRef("127.0.0.1:1", b"u"), object()]):
        h.check(not (x == other) and x != other, "C19.ActorRef: differs from anything else", (x, other))


class A(mo.Actor):
    async def my_ref(self):
        return self.ref()

    async def give(self, x):
        return x

    async def describe(self, x):
        return type(x).__name__, x.address, x.uid, x.proxy_addresses, x == self.ref()


def local_refs(h):
    async def main():
        async with pool(1) as p:
            sub = list(p.sub_processes)[0]
            refs = {}
            for addr in (p.external_address, sub):
                for uid in (b"a", "b", "é", b"\xff"):
                    refs[(addr, enc(uid))] = await mo.create_actor(A, address=addr, uid=uid)
            forms = []
            for (addr, uid), r in refs.items():
                loc = create_local_actor_ref(addr, uid)
                forms.append((addr, uid, "given", r))
                forms.append((addr, uid, "remote", ActorRef(addr, uid)))
                if loc is not None:
                    forms.append((addr, uid, "local", loc))
                forms.append((addr, uid, "core.create_actor_ref", create_actor_ref(addr, uid)))
                forms.append((addr, uid, "proxied", ActorRef(addr, uid, ["p:1"])))
                forms.append((addr, uid, "looked up", await mo.actor_ref(addr, uid)))
                forms.append((addr, uid, "looked up by ref", await mo.actor_ref(ActorRef(addr, uid))))
                forms.append((addr, uid, "of the actor", await r.my_ref()))
                for n, f in rounds().items():
                    forms.append((addr, uid, f"local after {n}", f(loc if loc is not None else r)) if n not in ("copy", "deepcopy") else (addr, uid, "remote", ActorRef(addr, uid)))
            h.check(any(isinstance(f[3], LocalActorRef) for f in forms), "C19.local: local references exist", "-")
            for (a, u, n, x), (b, v, m, y) in itertools.product(forms, forms):
                same = (a, u) == (b, v)
                h.seen((n, m, a == b, u == v))
                h.check((x == y) is same, "C19.local: equal exactly if address and id are equal", ((a, u, n), (b, v, m)), f"{x!r} == {y!r} gives {x == y}")
                if same:
                    h.check(hash(x) == hash(y) and {x: 1}.get(y) == 1, "C19.local: equal hashes", ((a, u, n), (b, v, m)))
            for (a, u), r in refs.items():
                for via in (r, remote(r)):
                    got = await via.give(r)
                    h.check(got == r and hash(got) == hash(r), "C19.local: passed through a call", (a, u), repr(got))
                    d = await via.describe(ActorRef(a, u, None))
                    h.check(d[1:3] == (a, u) and d[4], "C19.local: passed as an argument", (a, u), repr(d))
                    d = await via.describe(ActorRef("else:1", u, ["p:1", "q:2"]))
                    h.check(tuple(d) == ("ActorRef", "else:1", u, ["p:1", "q:2"], False), "C19.local: proxies kept as an argument", (a, u), repr(d))

    h.arun(main, "C19.local: no hang", "local references", timeout=60)


def make_refs(h):
    for a, u, p in itertools.product(ADDRS[:3] + [b"127.0.0.1:1"], UIDS, PROX):
        t = a.decode() if isinstance(a, bytes) else a
        forms = {
            "positional": lambda: make_ref(a, u, p),
            "keywords": lambda: make_ref(address=a, uid=u, proxy_addresses=p),
            "uid positional": lambda: make_ref(u, address=a, proxy_addresses=p),
            "existing": lambda: make_ref(ActorRef(t, u, p)),
        }
        if a in ("", b""):
            continue
        for n, f in forms.items():
            h.seen((a, u, p, n))
            with h.guard("C19.create_actor_ref", (a, u, p, n)):
                r = f()
                h.check(r == ActorRef(t, u) and hash(r) == hash(ActorRef(t, u)) and r.uid == enc(u), "C19.create_actor_ref: same reference for text and bytes", (a, u, p, n), repr(r))
                h.check((r.proxy_addresses or None) == (p or None), "C19.create_actor_ref: proxies kept", (a, u, p, n), repr(r.proxy_addresses))
    for f in (lambda: make_ref("a:1", None), lambda: make_ref(address="a:1")):
        try:
            f()
            h.fail("C19.create_actor_ref: refuses a missing id", "no uid")
        except ValueError:
            pass
    for s in ["", "abc", "é", "x" * 100]:
        h.check(to_binary(s) == s.encode() and to_binary(s.encode()) == s.encode() and to_str(s.encode()) == s and to_str(s) == s, "C19.to_binary/to_str", s)
        h.check(type(to_binary(s)) is bytes and type(to_str(s.encode())) is str, "C19.to_binary/to_str: types", s)
    h.check(to_binary(None) is None and to_str(None) is None, "C19.to_binary/to_str: None", "None")


class Buf(bytearray):
    pass


def buffer_refs(h):
    for cls, get in ((BufferRef, "get_buffer"), (FileObjectRef, "get_local_file_object")):
        objs = {}
        for i, (a, u) in enumerate(itertools.product(["x:1", "y:2", ""], [b"1", b"2", b"", b"\xff" * 32])):
            b = Buf(b"%d" % i)
            objs[(a, u)] = (b, cls.create(b, a, u))
        for (k1, (b1, r1)), (k2, (b2, r2)) in itertools.product(objs.items(), objs.items()):
            for n, f in rounds().items():
                h.seen((cls.__name__, k1 == k2, n))
                with h.guard(f"C19.{cls.__name__}", (k1, k2, n)):
                    y = f(r2)
                    h.check((r1 == y) is (k1 == k2), f"C19.{cls.__name__}: equal exactly if address and id are equal", (k1, k2, n), f"{r1!r} {y!r}")
                    if k1 == k2:
                        h.check(hash(r1) == hash(y), f"C19.{cls.__name__}: equal hashes", (k1, n))
                    h.check((y.address, y.uid) == k2, f"C19.{cls.__name__}: fields kept", (k2, n), repr(y))
                    h.check(getattr(cls, get)(y) is b2, f"C19.{cls.__name__}: lookup returns the registered object", (k2, n))
                    h.check(getattr(cls, get)(cls(*k2)) is b2, f"C19.{cls.__name__}: lookup by a rebuilt reference", (k2, n))
        try:
            getattr(cls, get)(cls("x:1", b"unknown"))
            h.fail(f"C19.{cls.__name__}: unknown reference is an error", "unknown")
        except KeyError:
            pass
        h.check(BufferRef("x:1", b"1") != FileObjectRef("x:1", b"1") and BufferRef("x:1", b"1") != ActorRef("x:1", b"1"), "C19: kinds of references differ", "-")


V4 = ["0.0.0.0", "127.0.0.1", "192.168.0.1", "10.0.0.0", "100.0.0.0", "0.0.0.1", "host", "0.0.0.0.example.org"]
V6 = ["::", "::1", "2001:db8:1:0:0:ab9:C0A8:102", "0:0:0:0:0:0:0:0", "::0", "fe80::0", "1::"]
PORTS = ["1", "0", "80", "5678", "65535"]


def is_zero(host):
    return host == "0.0.0.0" or (":" in host and all(c in "0:" for c in host))


def zero_ip(h):
    hosts = V4 + V6
    schemes = ["", "ucx://"]
    for rh, ch in itertools.product(hosts, hosts):
        for rp, cp in itertools.product(PORTS[:3], PORTS[1:4]):
            for rs, cs in (("", ""), ("ucx://", "ucx://")):
                r, c = f"{rs}{rh}:{rp}", f"{cs}{ch}:{cp}"
                if is_zero(rh) and not is_zero(ch):
                    want = f"{cs}{ch}:{rp}"
                else:
                    want = r
                h.seen((rh, ch, rs))
                with h.guard("C19.fix_all_zero_ip", (r, c)):
                    got = fix_all_zero_ip(r, c)
                    h.check(got == want, "C19.fix_all_zero_ip: wildcard replaced by the host, port kept, others left alone", (r, c), f"{got!r} instead of {want!r}")


PARTS = [actor_refs, make_refs, buffer_refs, zero_ip, local_refs]
