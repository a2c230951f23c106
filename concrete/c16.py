"""C16: random histories (6 to 60 steps) of registrations, replacements, removals and lookups on type dispatchers over a class lattice with multiple inheritance, plain and named types, tuples of types and names of types resolved on first use; every lookup is compared with the resolution computed from the registrations in force. Non-trivial: distinct (kind of answer, steps, registrations)."""

import collections
import itertools

from xoscar._utils import NamedType, TypeDispatcher


class B0: ...
class B1(B0): ...
class B2(B0): ...
class B3(B1, B2): ...
class B4(B2): ...
class B5(B3, B4): ...
class Meta(type): ...
class B6(B5, metaclass=Meta): ...
class L(list): ...
class LL(L, B1): ...
class S(str): ...


class Lazy0: ...
class Lazy1(Lazy0): ...
class Lazy2(Lazy1): ...


PLAIN = [object, B0, B1, B2, B3, B4, B5, B6, L, LL, list, S, str, int, bool]
NAMES = ["n1", "n2", None, 3]


def resolve(reg, t):
    """the specification: t itself, else the nearest class, the name first at each class"""
    if t in reg:
        return reg[t]
    if isinstance(t, NamedType):
        for c in t.type_.__mro__:
            for k in (NamedType(t.name, c), c):
                if k in reg:
                    return reg[k]
        return None
    for c in t.__mro__:
        if c in reg:
            return reg[c]
    return None


def handler(i):
    def h(*a, **k):
        return (i, a, tuple(sorted(k.items())))

    h.i = i
    return h


def lookup(d, t):
    try:
        return d.get_handler(t)
    except KeyError:
        return None


def histories(h):
    """any history of registrations, removals and lookups"""
    rng = h.rng
    for case in range(h.n(2500, 30000)):
        if h.time_left() < 20:
            break
        d = TypeDispatcher()
        reg = {}
        log = []
        named = rng.random() < 0.6
        universe = rng.sample(PLAIN, rng.randrange(2, len(PLAIN) + 1))

        def key():
            t = rng.choice(universe)
            if named and rng.random() < 0.5:
                return NamedType(rng.choice(NAMES), t)
            return t

        with h.guard("C16.history", log):
            for step in range(rng.randrange(6, 60)):
                r = rng.random()
                if r < 0.3:
                    k = key() if rng.random() < 0.8 else tuple(key() for _ in range(rng.randrange(0, 4)))
                    f = handler(step)
                    log.append(("register", k, step))
                    d.register(k, f)
                    for kk in [k] if not isinstance(k, tuple) or isinstance(k, NamedType) else k:
                        reg[kk] = f
                elif r < 0.45:
                    k = key() if rng.random() < 0.7 else tuple(key() for _ in range(rng.randrange(0, 3)))
                    if reg and rng.random() < 0.6:
                        k = rng.choice(list(reg))
                    log.append(("unregister", k))
                    d.unregister(k)
                    for kk in [k] if not isinstance(k, tuple) or isinstance(k, NamedType) else k:
                        reg.pop(kk, None)
                elif r < 0.9:
                    t = key()
                    log.append(("get_handler", t))
                    want = resolve(reg, t)
                    got = lookup(d, t)
                    h.seen(
                        (
                            "none" if want is None else ("own" if t in reg else "inherited"),
                            isinstance(t, NamedType),
                            len(log),
                            len(reg),
                        ),
                        (t, len(log)),
                    )
                    if not h.check(
                        got is want,
                        "C16.most_specific",
                        log,
                        f"handler registered at step {getattr(got, 'i', None)} found, want the one of step {getattr(want, 'i', None)}",
                    ):
                        break
                else:
                    t = rng.choice([B0, B3, B5, LL, bool, S, L])
                    obj = t()
                    log.append(("call", t))
                    want = resolve(reg, t)
                    try:
                        got = d(obj, 1, k=2)
                    except KeyError:
                        got = None
                    ok = (
                        want is None
                        if got is None
                        else want is not None and got[0] == want.i and got[1][0] is obj and got[1][1:] == (1,) and got[2] == (("k", 2),)
                    )
                    h.seen(("call", want is None, len(log)))
                    if not h.check(ok, "C16.call_dispatches_type_of_object", log, f"{got!r}, want {getattr(want, 'i', None)}"):
                        break


def lazy(h):
    """handlers registered by the name of a type serve the type and its subclasses once it is looked up"""
    me = __name__
    rng = h.rng
    for case in range(h.n(400, 4000)):
        d = TypeDispatcher()
        log = []
        f_obj, f_lazy, f_other = handler("object"), handler("lazy"), handler("other")
        with h.guard("C16.lazy", log):
            order = [("register", object, f_obj), ("register", f"{me}.Lazy1", f_lazy), ("register", B0, f_other)]
            rng.shuffle(order)
            # once looked up, removal by name is not specified: no lookups before it
            removal = rng.random() < 0.5
            if removal:
                order.append(("unregister", f"{me}.Lazy1", None))
            done = {}
            for op, k, f in order:
                log.append((op, k))
                if op == "register":
                    if not removal and rng.random() < 0.5:
                        # a lookup before
                        t = rng.choice([B5, B2])
                        log.append(("get_handler", t))
                        lookup(d, t)
                    d.register(k, f)
                    done[k] = f
                elif k in done:
                    d.unregister(k)
                    done.pop(k)
            ts = [Lazy0, Lazy1, Lazy2, B5, list]
            rng.shuffle(ts)
            if rng.random() < 0.3:
                log.append("reload_all_lazy_handlers")
                TypeDispatcher.reload_all_lazy_handlers()
            for t in ts:
                want = f_other if t is B5 else (done.get(f"{me}.Lazy1", f_obj) if t in (Lazy1, Lazy2) else f_obj)
                got = lookup(d, t)
                h.seen((t.__name__, want.i, tuple(map(str, log))), log)
                h.check(got is want, "C16.lazy_names", (log, t), f"{getattr(got, 'i', None)}, want {want.i}")
            # the type itself is registered again or removed, its names have been used
            f_new = handler("new")
            again = rng.random() < 0.5
            if again:
                log.append(("register", Lazy1, f_new))
                d.register(Lazy1, f_new)
            else:
                log.append(("unregister", Lazy1))
                d.unregister(Lazy1)
            ts = [Lazy0, Lazy1, Lazy2, type("Lazy3", (Lazy2,), {}), B5, S]
            rng.shuffle(ts)
            for t in ts:
                log.append(("get_handler", t))
                want = f_other if t is B5 else (f_new if again and issubclass(t, Lazy1) else f_obj)
                got = lookup(d, t)
                h.check(got is want, "C16.lazy_names", (log, t), f"{getattr(got, 'i', None)}, want {want.i}")


def independent(h):
    """dispatchers do not influence each other"""
    rng = h.rng
    for case in range(h.n(200, 2000)):
        ds = [TypeDispatcher() for _ in range(3)]
        regs = [{} for _ in ds]
        log = []
        with h.guard("C16.independent", log):
            for step in range(30):
                i = rng.randrange(3)
                t = rng.choice(PLAIN)
                if rng.random() < 0.5:
                    f = handler(step)
                    ds[i].register(t, f)
                    regs[i][t] = f
                    log.append((i, "register", t))
                else:
                    log.append((i, "get_handler", t))
                    want = resolve(regs[i], t)
                    h.seen((i, step, want is None))
                    h.check(lookup(ds[i], t) is want, "C16.most_specific", log, "")


def real_dispatchers(h):
    """registration for a class in the serialization takes precedence over its base"""
    import xoscar.serialization as xs
    from xoscar.serialization.core import PickleSerializer, Serializer, deserialize, serialize

    class Base:
        def __init__(self, v=None):
            self.v = v

    class Sub(Base):
        pass

    class Ser(Serializer):
        tag = "base"

        def serial(self, obj, context):
            return (self.tag, obj.v, type(obj).__name__), [], True

        def deserial(self, serialized, context, subs):
            return serialized

    class SubSer(Ser):
        tag = "sub"

    try:
        with h.guard("C16.serializers", "register for base, look up sub, register for sub, unregister"):
            def one(x):
                return deserialize(*serialize(x))

            Ser.register(Base)
            h.seen(1)
            h.check(one(Sub(1)) == ("base", 1, "Sub"), "C16.serializers", "Sub with Base registered", "")
            SubSer.register(Sub)
            h.seen(2)
            h.check(one(Sub(2)) == ("sub", 2, "Sub"), "C16.serializers", "Sub with Sub registered after a lookup", "")
            h.seen(3)
            h.check(one(Base(3)) == ("base", 3, "Base"), "C16.serializers", "Base", "")
            SubSer.unregister(Sub)
            h.seen(4)
            h.check(one(Sub(4)) == ("base", 4, "Sub"), "C16.serializers", "Sub after its removal", "")
    finally:
        try:
            SubSer.unregister(Sub)
            Ser.unregister(Base)
        except Exception:
            pass


PARTS = [histories, lazy, independent, real_dispatchers]
