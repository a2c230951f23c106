"""What calls of references hand on: cases that several properties depend on."""

import asyncio

from .base import *  # noqa: F401,F403

K = "xoscar.core"


class Context(Host):
    """records what is sent"""

    def __init__(self, error=None):
        self.got, self.error = [], error

    def m_send(self, vm, a, k):
        d = {"wait_response": True, "profiling_context": None, **dict(zip(("actor_ref", "message", "wait_response", "profiling_context"), a)), **k}
        out = vm.opaque("outcome")
        self.got.append((d, out))

        def run(vm):
            d["awaited"] = True
            if self.error is not None:
                raise PyExc(self.error)
            return out

        return Awaitable(run, "send")

    def m_destroy_actor(self, vm, a, k):
        self.got.append(("destroy", list(a), k))
        return "destruction"


def context_is(vm, ctx):
    vm.overrides.setdefault(K, {})["get_context"] = Stub(lambda vm, a, k: ctx, "get_context")


def carries(vm, m, name, args, kwargs):
    """the message is a plain call of this method with these arguments"""
    if not isinstance(m, tuple) or len(m) != 4:
        return False
    default = vm.lookup(K, "CALL_METHOD_DEFAULT")
    kw = dict(m[3].items) if isinstance(m[3], VDict) else m[3]
    pos = vm.concrete_list(m[2]) if not isinstance(m[2], tuple) else list(m[2])
    return m[0] is name and same(vm, m[1], default) is not False and len(pos) == len(args) and all(p is q for p, q in zip(pos, args)) and isinstance(kw, dict) and kw.keys() == kwargs.keys() and all(kw[k] is kwargs[k] for k in kwargs)


def remote_calls(vm):
    ctx = Context()
    context_is(vm, ctx)
    name, ref = vm.opaque("method", "str"), new(vm, K, "ActorRef", address=vm.opaque("address", "str"), uid=vm.opaque("uid", "bytes"))
    x, y = vm.opaque("argument"), vm.opaque("named argument")
    opts = vm.choose(2, "options") == 1
    prof = vm.opaque("profiling")
    m = vm.call(vm.lookup(K, "ActorRefMethod"), [ref, name], {})
    if opts:
        plain = m
        m = vm.call(vm.getattr(m, "options"), [], {"profiling_context": prof})
        vm.prove("options make another method", m is not plain)
    how = ["__call__", "send", "tell", "delay"][vm.choose(4, "how")]
    r = vm.call(m if how == "__call__" else vm.getattr(m, how), [x], {"key": y})
    vm.cover(how)
    if how == "delay":
        vm.prove("nothing is sent", not ctx.got)
        vm.prove("the call with its arguments", carries(vm, vm.getattr(r, "arguments"), name, [x], {"key": y}))
        return
    vm.prove("one message is sent", len(ctx.got) == 1)
    d, out = ctx.got[0]
    vm.prove("to this actor", d["actor_ref"] is ref)
    vm.prove("with the call and its arguments", carries(vm, d["message"], name, [x], {"key": y}))
    vm.prove("answered exactly if it is no tell", vm.truth(d["wait_response"]) == (how != "tell"))
    vm.prove("with its options", d["profiling_context"] is (prof if opts else None))
    vm.prove("its outcome", vm.await_(r) is out)


def plain_options(vm):
    """options of one use are not those of the next"""
    ctx = Context()
    context_is(vm, ctx)
    ref = new(vm, K, "ActorRef", address=vm.opaque("address", "str"), uid=vm.opaque("uid", "bytes"))
    m = vm.call(vm.lookup(K, "ActorRefMethod"), [ref, vm.opaque("method", "str")], {})
    a, b = vm.opaque("profiling"), vm.opaque("other profiling")
    ma = vm.call(vm.getattr(m, "options"), [], {"profiling_context": a})
    mb = vm.call(vm.getattr(m, "options"), [], {"profiling_context": b})
    for f in (m, ma, mb):
        vm.call(vm.getattr(f, "send"), [], {})
    vm.cover("sent")
    vm.prove("every use has its own options", [d["profiling_context"] for d, _ in ctx.got] == [None, a, b])


def tell_later(vm):
    """tell_delay: told once, after the delay"""
    local = vm.choose(2, "local") == 1
    fails = vm.choose(3, "told, connection refused, fails")
    ignore = vm.choose(2, "failing connections are ignored") == 1
    error = None
    if fails == 1:
        error = ConnectionRefusedError()
    elif fails == 2:
        error = SExc("error", Exception)
        error.known.append((ConnectionRefusedError, False))
    ctx = Context(error)
    context_is(vm, ctx)
    log, tasks = [], []
    delay = vm.opaque("delay")

    def sleep(vm, a, k):
        def run(vm):
            log.append(("sleep", a[0]))

        return Awaitable(run, "sleep")

    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(sleep, "sleep")
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: (tasks.append(a[0]), "task")[1], "create_task")
    name, x, y = vm.opaque("method", "str"), vm.opaque("argument"), vm.opaque("named argument")
    if local:
        told = []

        def tell(vm, a, k):
            told.append((list(a[1:]), dict(k)))

            def run(vm):
                vm.prove("after the delay", log == [("sleep", delay)])
                log.append("told")
                if error is not None:
                    raise PyExc(error)

            return Awaitable(run, "tell")

        vm.contracts[f"{K}:LocalActorRefMethod.tell"] = tell
        m = new(vm, K, "LocalActorRefMethod", _method_name=name, _local_actor_ref=vm.opaque("local reference"))
    else:
        ref = new(vm, K, "ActorRef", address=vm.opaque("address", "str"), uid=vm.opaque("uid", "bytes"))
        m = vm.call(vm.lookup(K, "ActorRefMethod"), [ref, name], {})
    kw = {"key": y, "delay": delay}
    if vm.choose(2, "ignore given"):
        kw["ignore_conn_fail"] = ignore
    else:
        ignore = True
    r = vm.call(vm.getattr(m, "tell_delay"), [x], kw)
    vm.prove("a task", r == "task" and len(tasks) == 1 and not log and not ctx.got)
    _, e = attempt(vm, lambda: vm.await_(tasks[0]))
    vm.prove("after the delay", log[:1] == [("sleep", delay)])
    if local:
        vm.cover("local")
        vm.prove("told once, with its arguments", len(told) == 1 and len(told[0][0]) == 1 and told[0][0][0] is x and told[0][1].keys() == {"key"} and told[0][1]["key"] is y)
        vm.prove("its outcome", e is error)
        return
    vm.cover("remote")
    vm.prove("told once", len(ctx.got) == 1)
    d, _ = ctx.got[0]
    vm.prove("with its arguments, without an answer", d["actor_ref"] is ref and carries(vm, d["message"], name, [x], {"key": y}) and not vm.truth(d["wait_response"]) and d.get("awaited", False))
    if fails == 0 or fails == 1 and ignore:
        vm.prove("no error", e is None, f"{e!r}")
    else:
        vm.prove("the error", e is error)


class Methods(Host):
    """the methods of a reference that are known, by name"""

    def __init__(self, known):
        self.known, self.put = known, []

    def vm_getitem(self, vm, k):
        for n, m in self.put:
            if n is k:
                return m
        if self.known is not None:
            return self.known
        raise PyExc(KeyError("method"))

    def m_get(self, vm, a, k):
        for n, m in self.put:
            if n is a[0]:
                return m
        return self.known if self.known is not None else (a[1] if len(a) > 1 else None)

    def vm_contains(self, vm, k):
        return self.known is not None or any(n is k for n, _ in self.put)

    def vm_setitem(self, vm, k, v):
        self.put.append((k, v))

    def m_clear(self, vm, a, k):
        self.put.append("cleared")


def names(vm):
    """an attribute of a remote reference is the method of this name of this actor"""
    known = vm.opaque("method known") if vm.choose(2, "known") == 1 else None
    name = ["method", "__xoscar_next__", "__xoscar_destroy_generator__"][vm.choose(3, "name")]
    ms = Methods(known)
    ref = new(vm, K, "ActorRef", address=vm.opaque("address", "str"), uid=vm.opaque("uid", "bytes"), _methods=ms)
    r, e = attempt(vm, lambda: call(vm, ref, "__getattr__", name))
    vm.prove("no error", e is None, f"{e!r}")
    if known is not None:
        vm.cover("known")
        vm.prove("the method that is known", r is known and not ms.put)
        return
    vm.cover("new")
    vm.prove("a method of this actor of this name", isinstance(r, IObj) and r.cls is vm.lookup(K, "ActorRefMethod") and r.attrs.get("ref") is ref and r.attrs.get("method_name") == name)
    vm.prove("which is kept", ms.put in ([], [(name, r)]))


def destroyed(vm):
    ctx = Context()
    context_is(vm, ctx)
    ref = new(vm, K, "ActorRef", address=vm.opaque("address", "str"), uid=vm.opaque("uid", "bytes"))
    r = call(vm, ref, "destroy")
    vm.cover("asked")
    vm.prove("this actor is destroyed", ctx.got == [("destroy", [ref], {})] and r == "destruction")


def local_delay(vm):
    """delay of a local reference: that of the method of the actor"""
    x, y, out = vm.opaque("argument"), vm.opaque("named argument"), vm.opaque("delayed")
    got = []

    class Method(Host):
        def m_delay(self, vm, a, k):
            got.append((list(a), dict(k)))
            return out

    vm.contracts[f"{K}:LocalActorRefMethod._get_referent"] = lambda vm, a, k: (vm.opaque("actor"), Method())
    m = new(vm, K, "LocalActorRefMethod", _method_name=vm.opaque("method", "str"), _local_actor_ref=vm.opaque("local reference"))
    m2 = vm.call(vm.getattr(m, "options"), [], {"profiling_context": vm.opaque("profiling")}) if vm.choose(2, "options") else m
    r = vm.call(vm.getattr(m2, "delay"), [x], {"key": y})
    vm.cover("delayed")
    vm.prove("the call with its arguments", r is out and got == [([x], {"key": y})])


def local_ref(vm):
    there = vm.choose(2, "actor") == 1
    a, u = vm.opaque("address", "str"), vm.opaque("uid", "bytes")
    actor = vm.opaque("actor")
    vm.assume(actor.t != vm.term(None))
    made = []

    def find(vm, args, k):
        vm.prove("at this address, with this id", args[0] is a and args[1] is u)
        return actor if there else None

    def make(vm, args, k):
        made.append(args[-1])
        return "local reference"

    vm.contracts[f"{K}:_get_local_actor"] = find
    vm.contracts[f"{K}:LocalActorRef"] = make
    r = vm.call(vm.lookup(K, "create_local_actor_ref"), [a, u], {})
    vm.cover("there" if there else "not there")
    vm.prove("a reference to the actor, if there is one", r == "local reference" and made == [actor] if there else r is None and not made)


R_ = f"{K}:ActorRefMethod"
L_ = f"{K}:LocalActorRefMethod"
CALLS = [
    Case("calls of remote references", [f"{R_}.__call__", f"{R_}.send", f"{R_}.tell", f"{R_}.delay", f"{R_}.options", f"{R_}.__init__"], remote_calls, covers=["__call__", "send", "tell", "delay"], need=20),
    Case("options of calls", [f"{R_}.options"], plain_options, covers=["sent"], need=1),
    Case("methods of remote references", [f"{K}:ActorRef.__getattr__"], names, covers=["known", "new"], need=8),
]
LATER = [Case("told later", [f"{R_}.tell_delay", f"{L_}.tell_delay"], tell_later, covers=["local", "remote"], need=40)]
DELAYED = [Case("delayed calls of local references", [f"{L_}.delay", f"{L_}.options"], local_delay, covers=["delayed"], need=2)]
DESTROYED = [Case("destroyed by its reference", [f"{K}:ActorRef.destroy"], destroyed, covers=["asked"], need=1)]
LOCAL = [Case("reference to a local actor", [f"{K}:create_local_actor_ref"], local_ref, covers=["there", "not there"], need=3)]
CASES = CALLS + LATER + DELAYED + DESTROYED + LOCAL
ASSUMPTIONS = []
