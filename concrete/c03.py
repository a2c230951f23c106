"""C03: every kind of message with random fields (nested forwards up to depth 5) is serialized and deserialized by the compiled code; a case is non-trivial by its kind, nesting and the set of fields that are not default."""

import itertools

from xoscar.backends import message as M
from xoscar.core import ActorRef
from xoscar.serialization import deserialize, serialize

KINDS = {
    "ControlMessage": ["address", "control_message_type", "content"],
    "ResultMessage": ["result"],
    "ErrorMessage": ["address", "pid", "error_type", "error", "traceback"],
    "CreateActorMessage": ["actor_cls", "actor_id", "args", "kwargs", "allocate_strategy", "from_main"],
    "DestroyActorMessage": ["actor_ref", "from_main"],
    "HasActorMessage": ["actor_ref"],
    "ActorRefMessage": ["actor_ref"],
    "SendMessage": ["actor_ref", "content"],
    "TellMessage": ["actor_ref", "content"],
    "CancelMessage": ["address", "cancel_message_id"],
    "CopyToBuffersMessage": ["content"],
    "CopyToFileObjectsMessage": ["content"],
    "ForwardMessage": ["address", "raw_message"],
}


class Some:
    def __init__(self, n=0):
        self.n = n

    def __eq__(self, o):
        return type(o) is Some and o.n == self.n

    def __repr__(self):
        return f"Some({self.n})"


class Boom(Exception):
    pass


def boom(what):
    how = sum(what.encode()) % 5
    if how == 1:
        raise Boom(what) from ValueError("a cause of it")
    if how == 2:
        try:
            raise KeyError("handled")
        except KeyError:
            raise Boom(what)
    if how == 3:
        try:
            raise KeyError("hidden")
        except KeyError:
            raise Boom(what) from None
    if how == 4:
        raise Boom(what) from Boom("another")
    raise Boom(what)


class Unloadable:
    def __init__(self, what="x"):
        self.what = what

    def __reduce__(self):
        return boom, (self.what,)


def payload(rng, depth=2):
    k = rng.randrange(12)
    if depth and k == 0:
        return [payload(rng, depth - 1) for _ in range(rng.randrange(4))]
    if depth and k == 1:
        return {f"k{i}": payload(rng, depth - 1) for i in range(rng.randrange(4))}
    if depth and k == 2:
        return tuple(payload(rng, depth - 1) for _ in range(rng.randrange(4)))
    return rng.choice([None, 0, -1, 2**70, 1.5, "", "text" * rng.randrange(1, 300), b"", b"bytes\0" * 20, True, Some(3), ("m", 0, (1,), {}), []])


def value(rng, f, depth):
    if f == "address":
        return rng.choice(["127.0.0.1:%d" % rng.randrange(9999), "unixsocket:///a/b", "", "dummy://7"])
    if f == "control_message_type":
        return rng.choice(list(M.ControlMessageType))
    if f == "pid":
        return rng.choice([0, 1, 12345, -1, 2**31 - 1])
    if f == "error_type":
        return rng.choice([ValueError, Boom, KeyError])
    if f == "error":
        return rng.choice([ValueError("v", 1), Boom(), KeyError("k"), RuntimeError("é")])
    if f == "traceback":
        return None
    if f == "actor_cls":
        return rng.choice([Some, dict, Boom])
    if f == "actor_id" or f == "cancel_message_id":
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 32])))
    if f == "args":
        return tuple(payload(rng) for _ in range(rng.randrange(3)))
    if f == "kwargs":
        return {f"a{i}": payload(rng) for i in range(rng.randrange(3))}
    if f == "allocate_strategy":
        return rng.choice([None, Some(9)])
    if f == "from_main":
        return rng.choice([True, False])
    if f == "actor_ref":
        return ActorRef("host%d:%d" % (rng.randrange(5), rng.randrange(99)), b"uid%d" % rng.randrange(99),
                        rng.choice([None, [], ["p1:1"], ["p1:1", "p2:2", "p3:3"]]))
    if f == "raw_message":
        return make(rng, rng.choice(list(KINDS)) if depth else "SendMessage", depth - 1)
    return payload(rng)


def make(rng, kind, depth=3, sparse=False):
    kw = {f: value(rng, f, depth) for f in KINDS[kind] if f in ("actor_ref", "raw_message") or not (sparse and rng.random() < 0.5)}
    m = getattr(M, kind)(message_id=bytes(rng.randrange(256) for _ in range(32)), **kw)
    if rng.random() < 0.7:
        m.message_trace = [Some(i) for i in range(rng.randrange(3))]
    if rng.random() < 0.7:
        m.profiling_context = rng.choice([Some(77), "prof", {"t": 1}])
    return m


def err_eq(a, b):
    return type(a) is type(b) and a.args == b.args


def diff(a, b, path=""):
    """first field that differs"""
    if type(a) is not type(b):
        return f"{path}: kind {type(a).__name__} became {type(b).__name__}"
    for f in ["message_id", "protocol", "message_trace", "profiling_context", "message_type"] + KINDS[type(a).__name__]:
        x, y = getattr(a, f), getattr(b, f)
        if f == "raw_message":
            d = diff(x, y, path + ".raw_message")
            if d:
                return d
        elif f == "actor_ref":
            if (x.address, x.uid, x.proxy_addresses) != (y.address, y.uid, y.proxy_addresses):
                return f"{path}.actor_ref: {(x.address, x.uid, x.proxy_addresses)!r} became {(y.address, y.uid, y.proxy_addresses)!r}"
        elif isinstance(x, BaseException):
            if not err_eq(x, y):
                return f"{path}.{f}: {x!r} became {y!r}"
        elif x != y or type(x) is not type(y):
            return f"{path}.{f}: {x!r} became {y!r}"
    return None


def desc(m):
    s = {f: getattr(m, f) for f in ["message_id", "message_trace", "profiling_context"] + KINDS[type(m).__name__] if f != "raw_message"}
    if isinstance(m, M.ForwardMessage):
        s["raw_message"] = desc(m.raw_message)
    return (type(m).__name__, s)


def chain(m):
    return type(m).__name__ + ("/" + chain(m.raw_message) if isinstance(m, M.ForwardMessage) else "")


def roundtrip(h):
    for i in range(h.n(60, 600)):
        for kind in KINDS:
            m = make(h.rng, kind, depth=4, sparse=i % 3 == 0)
            d = desc(m)
            with h.guard("C03.roundtrip", d):
                out = deserialize(*serialize(m))
                h.seen((chain(m), m.message_trace is None, m.profiling_context is None), d)
                r = diff(m, out, kind)
                h.check(r is None, "C03.roundtrip: same kind and fields", d, r or "")


def traceback_kept(h):
    def f(n):
        if n:
            return f(n - 1)
        raise Boom("deep")

    for n in range(5):
        try:
            f(n)
        except Boom as e:
            m = M.ErrorMessage(b"i" * 32, "a:1", 5, Boom, e, e.__traceback__)
        for wrap in (False, True):
            x = M.ForwardMessage(b"o" * 32, "b:2", m) if wrap else m
            with h.guard("C03.traceback", (n, wrap)):
                out = deserialize(*serialize(x))
                out = out.raw_message if wrap else out
                h.seen((n, wrap))
                names = []
                tb = out.traceback
                while tb is not None:
                    names.append(tb.tb_frame.f_code.co_name)
                    tb = tb.tb_next
                h.check(names[-(n + 1):] == ["f"] * (n + 1), "C03.traceback kept", (n, wrap), repr(names))


def failing_payload(h):
    where = {
        "ControlMessage": ["content"], "ResultMessage": ["result"], "ErrorMessage": ["error"], "SendMessage": ["content"],
        "TellMessage": ["content"], "CreateActorMessage": ["args", "kwargs"], "CopyToBuffersMessage": ["content"], "CopyToFileObjectsMessage": ["content"],
    }
    shapes = [lambda u: u, lambda u: [1, u], lambda u: {"a": {"b": [u]}}, lambda u: (("x",), u, "y"), lambda u: [[], {}, [u, u]]]
    for kind, fs in where.items():
        for f, (si, sh), fwd in itertools.product(fs, enumerate(shapes), range(3)):
            m = make(h.rng, kind)
            u = Unloadable(f"{kind}.{f} {h.rng.randrange(10**6)}")
            if f == "args":
                m.args = (1, sh(u))
            elif f == "kwargs":
                m.kwargs = {"k": sh(u)}
            else:
                setattr(m, f, sh(u))
            top = m
            for _ in range(fwd):
                top = M.ForwardMessage(bytes(h.rng.randrange(256) for _ in range(32)), "x:1", top)
            d = (kind, f, f"shape {si}", f"forwarded {fwd} times")
            h.seen(d, d)
            with h.guard("C03.failing payload", d):
                parts = serialize(top)
                try:
                    deserialize(*parts)
                    h.fail("C03.failing payload: error raised", d, "no error")
                except M.DeserializeMessageFailed as e:
                    h.check(e.message_id == top.message_id, "C03.failing payload: id of the message", d, f"{e.message_id!r} instead of {top.message_id!r}")
                    h.check(isinstance(e.__cause__, Boom) and e.__cause__.args == (u.what,), "C03.failing payload: original error is the cause", d, repr(e.__cause__))
                except Boom as e:
                    h.fail("C03.failing payload: error carries the id", d, repr(e))


PARTS = [roundtrip, traceback_kept, failing_payload]
