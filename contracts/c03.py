"""C03: every message kind is restored with all its fields."""

from .base import *  # noqa: F401,F403

M = "xoscar.backends.message"
BASE = ["message_id", "protocol", "message_trace", "profiling_context"]
# fields a user of a message relies on (constructor parameters), besides the base ones
KINDS = {
    "ControlMessage": ["address", "control_message_type", "content"],
    "ResultMessage": ["result"],
    "ErrorMessage": ["address", "pid", "error_type", "error", "traceback"],
    "CreateActorMessage": ["actor_cls", "actor_id", "args", "kwargs", "allocate_strategy", "from_main"],
    "DestroyActorMessage": ["actor_ref", "from_main"],
    "HasActorMessage": ["actor_ref"],
    "ActorRefMessage": ["actor_ref"],
    "SendMessage": ["actor_ref", "content"],
    "TellMessage": ["actor_ref", "content"],
    "CancelMessage": ["address", "cancel_message_id"],
    "CopyToBuffersMessage": ["content"],
    "CopyToFileObjectsMessage": ["content"],
    "ForwardMessage": ["address", "raw_message"],
}


def mk(vm, kind):
    """an arbitrary message of the kind: every field symbolic"""
    c = vm.lookup(M, kind)
    o = vm.call(c, [], {}) if kind else None
    for f in BASE + KINDS[kind]:
        if f == "protocol":
            vm.setattr(o, f, 0)
        elif f == "actor_ref":
            ref = vm.call(vm.lookup("xoscar.core", "ActorRef"),
                          [vm.opaque("addr", "str"), vm.opaque("uid", "bytes"), vm.opaque("proxies", "list")], {})
            vm.setattr(o, f, ref)
        elif f == "raw_message":
            pass
        else:
            vm.setattr(o, f, vm.opaque(f))
    return o


def fields_equal(vm, a, b, kind):
    cs = []
    for f in BASE + KINDS[kind]:
        x, y = vm.getattr(a, f), vm.getattr(b, f)
        if f == "actor_ref":
            for g in ("address", "uid", "proxy_addresses"):
                cs.append((f"{f}.{g}", same(vm, vm.getattr(x, g), vm.getattr(y, g))))
        elif f == "raw_message":
            continue
        else:
            cs.append((f, same(vm, x, y)))
    return cs


def roundtrip(vm, msg):
    ser = vm.call(vm.lookup(M, "MessageSerializer"), [], {})
    t, subs, final = vm.concrete_list(call(vm, ser, "serial", msg, VDict()))
    vm.prove("payload is left to the serializers of its parts", not vm.truth(final))
    # the framework passes the tuple on and the payload parts in their order
    return t, call(vm, ser, "deserial", t, VDict(), subs)


def kind_case(kind):
    def body(vm):
        msg = mk(vm, kind)
        before = {f: vm.getattr(msg, f) for f in BASE + KINDS[kind]}
        _, out = roundtrip(vm, msg)
        vm.cover("round trip done")
        vm.prove("same kind", isinstance(out, IObj) and out.cls is vm.lookup(M, kind), f"{out!r}")
        for f, c in fields_equal(vm, msg, out, kind):
            vm.prove(f"field {f} restored", c)
        vm.prove("sender's message unchanged", conj([same(vm, v, vm.getattr(msg, f)) for f, v in before.items() if f not in ("actor_ref",)]))

    return Case(kind, [f"{M}:{kind}.serial", f"{M}:{kind}.deserial_members", f"{M}:MessageSerializer.serial", f"{M}:MessageSerializer.deserial"],
                body, covers=["round trip done"], need=5)


def forward_case(inner):
    """forward of a message of a given kind"""

    def body(vm):
        msg = mk(vm, "ForwardMessage")
        raw = mk(vm, inner)
        if inner == "ForwardMessage":
            vm.setattr(raw, "raw_message", mk(vm, "SendMessage"))
        vm.setattr(msg, "raw_message", raw)
        _, out = roundtrip(vm, msg)
        vm.cover("round trip done")
        vm.prove("same kind", out.cls is vm.lookup(M, "ForwardMessage"))
        for f, c in fields_equal(vm, msg, out, "ForwardMessage"):
            vm.prove(f"field {f} restored", c)
        r2 = vm.getattr(out, "raw_message")
        vm.prove("same inner kind", isinstance(r2, IObj) and r2.cls is vm.lookup(M, inner))
        for f, c in fields_equal(vm, raw, r2, inner):
            vm.prove(f"inner field {f} restored", c)
        if inner == "ForwardMessage":
            for f, c in fields_equal(vm, vm.getattr(raw, "raw_message"), vm.getattr(r2, "raw_message"), "SendMessage"):
                vm.prove(f"innermost field {f} restored", c)

    return Case("forward of " + inner, [f"{M}:ForwardMessage.serial", f"{M}:ForwardMessage.deserial_members"], body, covers=["round trip done"], need=8)


def any_forward(vm):
    """forward of an arbitrary message, given by the contract of serial:
    a tuple that starts with the type value of its class; deserial_members of the
    inner class must be called with exactly that tuple and the payload"""
    msg = mk(vm, "ForwardMessage")
    table = vm.lookup(M, "_message_type_to_message_cls")
    n = vm.choose(len(table.items), "inner kind")
    tv, cls = table.items[n]
    tail, stail = vm.opaque("rest of inner tuple"), vm.opaque("payload of inner message")
    got = []

    class Raw(Host):
        def m_serial(self, vm, a, k):
            return vm.call(vm.lookup(M, "_MessageSerialItem"), [ATuple([tv], tail), ATuple([], stail)], {})

    vm.setattr(msg, "raw_message", Raw())
    fwd = vm.lookup(M, "ForwardMessage")
    out = IObj(fwd)
    real = fwd.ns["deserial_members"]
    for k in list(KINDS) + ["_MessageBase"]:
        c = vm.lookup(M, k)
        f = c.ns.get("deserial_members")
        if f is None or k == "_MessageBase":
            continue

        def contract(vm, a, kw, f=f):
            if a[0] is out:
                return vm.call_func(f, a, kw)
            got.append(tuple(a))

        vm.contracts[f.qualname] = contract
    it = call(vm, msg, "serial")
    vm.call_func(real, [out, vm.getattr(it, "serialized"), vm.getattr(it, "subs")], {})
    vm.cover("inner message restored")
    vm.prove("inner message restored once", len(got) == 1)
    o, t, s = got[0]
    vm.prove("restored by the class of its type", isinstance(o, IObj) and o.cls is cls)
    vm.prove("from its own tuple", isinstance(t, ATuple) and len(t.prefix) == 1 and t.prefix[0] == tv and t.tail is tail)
    vm.prove("with its own payload", isinstance(s, ATuple) and s.prefix == () and s.tail is stail)
    vm.prove("and is the inner message of the result", vm.getattr(out, "raw_message") is o)
    for f, c in fields_equal(vm, msg, out, "ForwardMessage"):
        vm.prove(f"field {f} restored", c)


def failing(kind):
    def body(vm):
        msg = mk(vm, kind)
        if kind == "ForwardMessage":
            vm.setattr(msg, "raw_message", mk(vm, "SendMessage"))
        ser = vm.call(vm.lookup(M, "MessageSerializer"), [], {})
        t, subs, _ = vm.concrete_list(call(vm, ser, "serial", msg, VDict()))
        e = SExc("cause", BaseException)
        r = call(vm, ser, "on_deserial_error", t, VDict(), VList(), vm.fresh_int("error_index", 0), e)
        vm.cover("error reported")
        vm.prove("failure is a DeserializeMessageFailed", isinstance(r, IObj) and r.cls is vm.lookup(M, "DeserializeMessageFailed"), f"{r!r}")
        vm.prove("it carries the id of the message", same(vm, vm.getattr(r, "message_id"), vm.getattr(msg, "message_id")))
        vm.prove("its cause is the original error", r.attrs.get("__cause__") is e)

    return Case("failed payload of " + kind, [f"{M}:MessageSerializer.on_deserial_error"], body, covers=["error reported"], need=3)


def kinds_registered(vm):
    """every kind has its own type value and its class is found by it"""
    table = vm.lookup(M, "_message_type_to_message_cls")
    enum = vm.lookup(M, "MessageType")
    members = [v for v in enum.ns.values() if isinstance(v, IEnum)]
    vm.cover("table read")
    vm.prove("type values are distinct", len({m.value for m in members}) == len(members))
    for k in KINDS:
        c = vm.lookup(M, k)
        mt, _ = c.lookup("message_type")
        e = vm.dict_find(table, mt.value)
        vm.prove(f"{k} is found by its type", e is not None and e[1] is c)
    vm.prove("no other class in the table", len(table.items) == len(KINDS))


CASES = [kind_case(k) for k in KINDS if k != "ForwardMessage"]
CASES += [forward_case(k) for k in KINDS]
CASES += [Case("forward of an arbitrary message", [f"{M}:ForwardMessage.serial", f"{M}:ForwardMessage.deserial_members"], any_forward, covers=["inner message restored"], need=8)]
CASES += [failing(k) for k in KINDS]
CASES += [Case("message kinds", [f"{M}:MessageSerializer.deserial"], kinds_registered, covers=["table read"], need=13)]

ASSUMPTIONS = [
    "the serialization framework passes the tuple of serial() on unchanged and restores the payload parts in order (C01)",
    "message protocol is 0 (anything else is refused by an assertion of the code)",
    "pickling of the flat header restores enum members, strings, bytes and lists",
]
