"""C20: metrics and profiling report what was recorded."""

from .base import *  # noqa: F401,F403
from . import c05

B = "xoscar.metrics.backends.metric"
C = "xoscar.metrics.backends.console.console_metric"
A = "xoscar.metrics.api"
P = "xoscar.profiling"


class Clock:
    """time never goes back"""

    def __init__(self, vm):
        self.now = z3.Real("start")
        for n in ("time.time", "time.monotonic", "time.perf_counter"):
            vm.stubs[n] = Stub(lambda vm, a, k: self.tick(vm), n)
        self.reads = []

    def tick(self, vm):
        t = vm.fresh_real("now")
        vm.assume(t.t >= self.now)
        self.now = t.t
        self.reads.append(t.t)
        return t


class Values(Host):
    """a list of recorded values: their number and sum"""

    def __init__(self, n, s):
        self.n, self.s = n, s

    def m_append(self, vm, a, k):
        self.n, self.s = self.n + 1, self.s + num(vm, a[0])

    def m_clear(self, vm, a, k):
        self.n, self.s = z3.IntVal(0), z3.RealVal(0)

    def vm_delitem(self, vm, k):
        """of a prefix: the values that remain are some of them"""
        if not (isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1)):
            raise Unsupported("removal of recorded values")
        if k.stop is None or vm.branch(num(vm, k.stop) >= self.n):
            self.m_clear(vm, [], {})
        elif vm.branch(num(vm, k.stop) >= 0):
            self.n, self.s = self.n - num(vm, k.stop), vm.fresh_real("sum of the rest").t
        else:
            raise Unsupported("removal of recorded values")

    def vm_setitem(self, vm, k, v):
        if not (isinstance(v, VList) and not v.items):
            raise Unsupported("assignment to recorded values")
        self.vm_delitem(vm, k)

    def vm_len(self, vm):
        return SInt(self.n)

    def vm_sum(self, vm):
        return SInt(self.s)

    def vm_truth(self, vm):
        return SBool(self.n > 0)


def recorder(vm, out):
    def rec(vm, a, k):
        a = list(a) + [k.get("value", 1.0), k.get("tags")][len(a) - 1:]
        out.append((a[1], a[2]))

    vm.contracts[f"{B}:AbstractMetric._record"] = rec


def metric(vm, kind):
    m = vm.call(vm.lookup(B, "Abstract" + kind), ["name", "description", ()], {})
    return m, vm.fresh_real("value"), vm.opaque("tags")


def reported(vm, out, value, tags, what):
    vm.prove("reported once", len(out) == 1, f"{out}")
    if out:
        vm.prove(what, num_eq(vm, out[-1][0], value))
        vm.prove("with the tags of the record", out[-1][1] is tags)


def counter(vm):
    out = []
    recorder(vm, out)
    m, v, tags = metric(vm, "Counter")
    vm.prove("starts at zero", num_eq(vm, vm.getattr(m, "_count"), z3.IntVal(0))) if "_count" in m.attrs else None
    s = vm.fresh_real("sum of all values so far")
    havoc(vm, m, _count=s)
    call(vm, m, "record", v, tags)
    vm.cover("recorded")
    reported(vm, out, s.t + v.t, tags, "the sum of all values is reported")
    vm.prove("the sum is kept", num_eq(vm, vm.getattr(m, "_count"), s.t + v.t))


def gauge(vm):
    out = []
    recorder(vm, out)
    m, v, tags = metric(vm, "Gauge")
    call(vm, m, "record", vm.fresh_real("older"), tags)
    out.clear()
    call(vm, m, "record", v, tags)
    vm.cover("recorded")
    reported(vm, out, v.t, tags, "the last value is reported")


def default_value(vm):
    for kind in ("Counter", "Gauge"):
        out = []
        recorder(vm, out)
        m, _, _ = metric(vm, kind)
        call(vm, m, "record")
        vm.prove("a record without value counts one", len(out) == 1 and z3.is_true(z3.simplify(num_eq(vm, out[0][0], z3.IntVal(1)))), f"{out}")
    vm.cover("recorded")


def meter(vm):
    out = []
    recorder(vm, out)
    clock = Clock(vm)
    m, v, tags = metric(vm, "Meter")
    vm.prove("starts empty", conj([num_eq(vm, m.attrs.get("_count"), z3.IntVal(0)), num_eq(vm, m.attrs.get("_last_time"), clock.now)]))
    s, last = vm.fresh_real("sum since the last report"), vm.fresh_real("time of the last report")
    vm.assume(last.t >= clock.now)
    clock.now = last.t
    havoc(vm, m, _count=s, _last_time=last)
    clock.reads.clear()
    call(vm, m, "record", v, tags)
    vm.prove("one look at the clock", len(clock.reads) == 1)
    now = clock.reads[-1]
    past = now - last.t
    due = z3.Or(s.t + v.t >= vm.lookup(B, "_THRESHOLD"), past >= 1)
    if out:
        vm.cover("reported")
        vm.prove("reported only at a threshold", due)
        vm.prove("reported once", len(out) == 1)
        # at no measurable time the rate is taken over a nanosecond
        vm.prove("the sum divided by the elapsed time is reported",
                 z3.Implies(past >= z3.RealVal("1/100000000"), num_eq(vm, out[0][0], (s.t + v.t) / past)))
        vm.prove("with the tags of the record", out[0][1] is tags)
        vm.prove("and the next interval starts empty", conj([num_eq(vm, m.attrs["_count"], z3.IntVal(0)), num_eq(vm, m.attrs["_last_time"], now)]))
    else:
        vm.cover("not reported")
        vm.prove("not reported only below the thresholds", z3.Not(due))
        vm.prove("the sum is kept", conj([num_eq(vm, m.attrs["_count"], s.t + v.t), num_eq(vm, m.attrs["_last_time"], last.t)]))


def histogram(vm):
    out = []
    recorder(vm, out)
    clock = Clock(vm)
    m, v, tags = metric(vm, "Histogram")
    vm.prove("starts empty", vm.length(m.attrs["_data"]) == 0 if "_data" in m.attrs else False)
    vm.prove("at the time it was made", num_eq(vm, m.attrs.get("_last_time"), clock.now))
    n, s, last = vm.fresh_int("values since the last report", 0), vm.fresh_real("their sum"), vm.fresh_real("time of the last report")
    vm.assume(last.t >= clock.now)
    clock.now = last.t
    data = Values(n.t, s.t)
    havoc(vm, m, _data=data, _last_time=last)
    clock.reads.clear()
    _, e = attempt(vm, lambda: call(vm, m, "record", v, tags))
    vm.prove("recording never fails", e is None, f"{e!r}")
    vm.prove("one look at the clock", len(clock.reads) == 1)
    now = clock.reads[-1]
    due = z3.Or(n.t + 1 >= vm.lookup(B, "_THRESHOLD"), now - last.t >= 1)
    d = m.attrs["_data"]
    size = lambda: num(vm, vm.length(d))
    total = lambda: d.s if isinstance(d, Values) else num(vm, vm.call(vm.builtins["sum"], [d], {}))
    if out:
        vm.cover("reported")
        vm.prove("reported only at a threshold", due)
        vm.prove("reported once", len(out) == 1)
        vm.prove("the mean of the values is reported", num_eq(vm, out[0][0], (s.t + v.t) / z3.ToReal(n.t + 1)))
        vm.prove("with the tags of the record", out[0][1] is tags)
        vm.prove("and the next interval starts empty", conj([size() == 0, num_eq(vm, m.attrs["_last_time"], now)]))
    else:
        vm.cover("not reported")
        vm.prove("not reported only below the thresholds", z3.Not(due))
        vm.prove("all values are kept", conj([size() == n.t + 1, total() == s.t + v.t, num_eq(vm, m.attrs["_last_time"], last.t)]))


def console(vm):
    """what is recorded is what the console metric shows"""
    kinds = ("Counter", "Gauge", "Meter", "Histogram")
    kind = kinds[vm.choose(4, "kind")]
    Clock(vm)
    m = vm.call(vm.lookup(C, kind), ["name", "description", ("a",)], {})
    vm.prove("it is a metric of its kind", vm.lookup(B, "Abstract" + kind) in m.cls.mro and vm.getattr(m, "type") == kind)
    vm.prove("zero before the first report", num_eq(vm, vm.getattr(m, "value"), z3.IntVal(0)))
    v = vm.fresh_real("reported value")
    call(vm, m, "_record", vm.fresh_real("older"), vm.opaque("tags"))
    call(vm, m, "_record", v, vm.opaque("tags"))
    vm.cover("shown")
    vm.prove("the last reported value is shown", num_eq(vm, vm.getattr(m, "value"), v.t))


def wrapper(vm):
    """a metric made before the backend is initialized records as one made after"""
    kinds = ("Counter", "Gauge", "Meter", "Histogram")
    kind = kinds[vm.choose(4, "kind")]
    vm.stubs["weakref.WeakSet"] = Stub(lambda vm, a, k: VSet(), "WeakSet")
    made, recs = [], []

    class Real(Host):
        def __init__(self, args):
            self.args = args

        def m_record(self, vm, a, k):
            recs.append((self, a[0] if a else k.get("value", 1), a[1] if len(a) > 1 else k.get("tags")))

        def p_value(self, vm):
            return ("value of", self)

    def factory(name):
        def f(vm, a, k):
            made.append((name, Real(tuple(a))))
            return made[-1][1]

        return Stub(f, name)

    class Backend(Host):
        pass

    for n in kinds:
        setattr(Backend, "p_" + n, (lambda s: lambda self, vm: s)(factory(n)))
    vm.overrides.setdefault(A, {})["_backends_cls"] = VDict([["console", Backend()], ["prometheus", vm.opaque("prometheus")]])
    name, desc, keys = "name", "description", ("k",)
    made_before = vm.choose(2, "made before the backend is initialized") == 1
    init = vm.lookup(A, "init_metrics")
    make = lambda: vm.call(vm.getattr(vm.lookup(A, "Metrics"), kind.lower()), [name, desc, keys], {})
    if made_before:
        m = make()
        vm.prove("no metric of the backend exists yet", not made)
        call(vm, m, "record", vm.fresh_real("lost"), None)
        vm.call(init, [], {})
    else:
        vm.call(init, [], {})
        m = make()
    vm.prove("one metric of the backend is made", len(made) == 1)
    if len(made) != 1:
        return
    k2, real = made[0]
    vm.prove("of its kind", k2 == kind, k2)
    vm.prove("with its name, description and tag keys", real.args == (name, desc, keys), f"{real.args}")
    v, tags = vm.fresh_real("value"), vm.opaque("tags")
    call(vm, m, "record", v, tags)
    vm.cover("recorded before" if made_before else "recorded after")
    vm.prove("a record goes to it once", len(recs) == 1 and recs[0][0] is real and recs[0][2] is tags and recs[0][1] is v, f"{recs}")
    vm.prove("its value is shown", vm.getattr(m, "value") == ("value of", real))
    # initialized again: nothing changes
    vm.call(init, [], {})
    call(vm, m, "record", v, tags)
    vm.prove("initializing again changes nothing", len(recs) == 2 and recs[1][0] is real and len(made) == 1)
    # shut down: metrics are made without a backend again
    vm.call(vm.lookup(A, "shutdown_metrics"), [], {})
    m2 = make()
    call(vm, m2, "record", v, tags)
    vm.prove("a metric made after the shutdown waits for the next backend", len(made) == 1 and len(recs) == 2)
    vm.call(init, [], {})
    call(vm, m2, "record", v, tags)
    vm.prove("and has it then", len(recs) == 3 and recs[2][0] in [x[1] for x in made[1:]] and recs[2][1] is v and recs[2][2] is tags)


# ---------------------------------------------------------------- profiling
class Counts(Host):
    """collections.Counter with arbitrary counts so far"""

    def __init__(self, vm):
        self.f = z3.Function("count so far", U, z3.IntSort())
        self.new = []

    def vm_getitem(self, vm, k):
        for kk, v in reversed(self.new):
            if vm.truth(vm.eq(kk, k)):
                return v
        return SInt(self.f(vm.term(k)))

    def vm_setitem(self, vm, k, v):
        self.new.append((k, v))

    def m_get(self, vm, a, k):
        return self.vm_getitem(vm, a[0])

    def m_update(self, vm, a, k):
        for x in vm.concrete_list(a[0]):
            self.vm_setitem(vm, x, SInt(num(vm, self.vm_getitem(vm, x)) + 1))


class Heap(Host):
    """a heap: its size, and the operations on it"""

    def __init__(self, n):
        self.n = n
        self.ops = []

    def vm_len(self, vm):
        return SInt(self.n)

    def vm_truth(self, vm):
        return SBool(self.n > 0)


def heap_stubs(vm):
    def op(name, dn):
        def f(vm, a, k):
            if not isinstance(a[0], Heap):
                raise Unsupported("heap operation")
            a[0].ops.append((name, a[1] if len(a) > 1 else None))
            a[0].n = a[0].n + dn
            return vm.opaque("heap item")

        vm.stubs["heapq." + name] = Stub(f, name)

    op("heappush", 1)
    op("heappushpop", 0)
    op("heapreplace", 0)
    op("heappop", -1)


def message(vm, kind="SendMessage"):
    method = vm.opaque("method", "str")
    content = (method, vm.opaque("batch"), vm.opaque("args"), vm.opaque("kwargs"))
    ref = vm.call(vm.lookup("xoscar.core", "ActorRef"), [vm.opaque("address", "str"), vm.opaque("uid", "bytes")], {})
    msg = vm.call(vm.lookup("xoscar.backends.message", kind), [], {})
    vm.setattr(msg, "actor_ref", ref)
    vm.setattr(msg, "content", content)
    return msg, ref, content


class Options(Host):
    def __init__(self, thr):
        self.thr = thr

    def p_slow_calls_duration_threshold(self, vm):
        return self.thr

    def p_debug_interval_seconds(self, vm):
        return None


def collect(vm):
    vm.stubs["collections.Counter"] = Stub(lambda vm, a, k: VDict(), "Counter")
    heap_stubs(vm)
    thr, dur = vm.fresh_int("threshold"), vm.fresh_real("duration")
    st = vm.call(vm.lookup(P, "_CallStats"), [Options(thr)], {})
    counts, n = Counts(vm), vm.fresh_int("slow calls so far", 0, 10)
    heap = Heap(n.t)
    havoc(vm, st, _call_counter=counts, _slow_calls=heap)
    msg, ref, content = message(vm)
    _, e = attempt(vm, lambda: call(vm, st, "collect", msg, dur))
    vm.prove("never fails", e is None, f"{e!r}")
    vm.cover("collected")
    key = (vm.getattr(ref, "uid"), content[0])
    after = num(vm, counts.vm_getitem(vm, key))
    vm.prove("the call is counted once", after == counts.f(vm.term(key)) + 1)
    other = (vm.opaque("other uid", "bytes"), vm.opaque("other method", "str"))
    vm.assume(vm.term(other) != vm.term(key))
    vm.prove("no other method is counted", num(vm, counts.vm_getitem(vm, other)) == counts.f(vm.term(other)))
    slow = dur.t >= thr.t
    if heap.ops:
        vm.cover("slow")
        vm.prove("kept as slow only at the threshold", slow)
        vm.prove("entered once", len([o for o in heap.ops if o[0] in ("heappush", "heappushpop", "heapreplace")]) == 1)
        o, item = heap.ops[0]
        vm.prove("at most ten are kept, and all of the first ten", heap.n == z3.If(n.t < 10, n.t + 1, 10))
        # heappushpop drops the least of the ten and the new one (lemma "ten slowest");
        # heapreplace would drop the least of the ten even if the new one is faster
        ops = [x[0] for x in heap.ops]
        vm.prove("the fastest is dropped", ops in (["heappush"], ["heappushpop"], ["heappush", "heappop"]), f"{ops}")
        vm.prove("ordered by duration", num_eq(vm, vm.getitem(item, 0), dur.t))
        items = vm.concrete_list(item)
        for what, x in (("uid", vm.getattr(ref, "uid")), ("address", vm.getattr(ref, "address")), ("content", content)):
            vm.prove(f"with the {what} of the call", any(y is x for y in items))
        # calls of equal duration are never compared by their arguments
        vm.setattr(st, "_slow_calls", Heap(z3.IntVal(0)))
        heap2 = st.attrs["_slow_calls"]
        call(vm, st, "collect", msg, dur)
        item2 = vm.concrete_list(heap2.ops[0][1])
        a, b = items[1], item2[1]
        vm.prove("ties are decided by a number of each call", isinstance(a, int) and isinstance(b, int) and a != b, f"{a} {b}")
    else:
        vm.cover("fast")
        vm.prove("dropped only below the threshold", z3.Not(slow))


def ten_slowest(vm):
    """lemma: S holds the slowest of history H; S + x without its least element holds the slowest of H + x"""
    E = z3.DeclareSort("Call")
    d = z3.Function("duration", E, z3.RealSort())
    S, H = z3.Function("S", E, z3.BoolSort()), z3.Function("H", E, z3.BoolSort())
    x, r, y, s = z3.Consts("x r y s", E)
    S2 = lambda e: z3.And(z3.Or(S(e), e == x), e != r)
    H2 = lambda e: z3.Or(H(e), e == x)
    vm.assume(z3.ForAll([s], z3.Implies(S(s), H(s))))
    vm.assume(z3.ForAll([s, y], z3.Implies(z3.And(S(s), H(y), z3.Not(S(y))), d(y) <= d(s))))
    vm.assume(z3.Not(H(x)))
    vm.assume(z3.Or(S(r), r == x))
    vm.assume(z3.ForAll([s], z3.Implies(z3.Or(S(s), s == x), d(r) <= d(s))))
    vm.cover("lemma")
    a, b = z3.Consts("a b", E)
    vm.prove("what is kept is part of the history", z3.Implies(S2(a), H2(a)))
    vm.prove("nothing slower was dropped", z3.Implies(z3.And(S2(a), H2(b), z3.Not(S2(b))), d(b) <= d(a)))


def report(vm):
    """what is reported of the slow calls: the slowest of equal calls, slowest first"""
    vm.stubs["collections.Counter"] = Stub(lambda vm, a, k: VDict(), "Counter")
    st = vm.call(vm.lookup(P, "_CallStats"), [Options(vm.fresh_int("threshold"))], {})
    asked = []

    class MC(Host):
        def m_most_common(self, vm, a, k):
            asked.append(a[0] if a else k.get("n"))
            return VList([((b"u1", "m1"), 5), ((b"u2", "m2"), 3)])

    ds = [vm.fresh_real("duration") for _ in range(3)]
    content = ("m", False, (1,), {})
    content2 = ("m2", False, (1,), {})
    which = [vm.choose(2, "same call") for _ in ds]
    # the items as the code itself enters them
    heap_stubs(vm)
    items = []
    for d, w in zip(ds, which):
        h = Heap(z3.IntVal(0))
        havoc(vm, st, _slow_calls=h, _call_counter=Counts(vm))
        msg, ref, _ = message(vm)
        vm.setattr(ref, "uid", b"uid")
        vm.setattr(ref, "address", "addr")
        vm.setattr(msg, "content", ("m2" if w else "m", False, (1,), VDict()))
        vm.assume(d.t >= z3.Int("threshold!0"))
        call(vm, st, "collect", msg, d)
        items.append(h.ops[0][1])
    havoc(vm, st, _slow_calls=VList(items), _call_counter=MC())
    r = call(vm, st, "to_dict")
    vm.cover("reported")
    vm.prove("ten most frequent methods", asked == [10])
    most = vm.getitem(r, "most_calls")
    vm.prove("with their counts", [tuple(e) for e in most.items] == [("u1.m1", 5), ("u2.m2", 3)], f"{most}")
    slow = vm.getitem(r, "slow_calls")
    vm.prove("every call is listed once", len(slow.items) == len(set(which)))
    best = lambda w: [d.t for d, x in zip(ds, which) if x == w]
    longest = []
    for w in sorted(set(which)):
        t = best(w)[0]
        for u in best(w)[1:]:
            t = z3.If(u > t, u, t)
        longest.append(t)
    got = [num(vm, v) for _, v in slow.items]
    if len(got) == len(longest):
        vm.prove("with its longest duration", z3.Or(conj([g == t for g, t in zip(got, longest)]), conj([g == t for g, t in zip(got, reversed(longest))])))
        if len(got) == 2:
            vm.prove("slowest first", got[0] >= got[1])


def tasks(vm):
    """a call is counted once for every active task, and for no task that was popped"""
    vm.stubs["collections.Counter"] = Stub(lambda vm, a, k: VDict(), "Counter")
    pd = vm.call(vm.lookup(P, "_ProfilingData"), [], {})
    got = []
    vm.contracts[f"{P}:_CallStats.collect"] = lambda vm, a, k: got.append(tuple(a))
    vm.contracts[f"{P}:_CallStats.to_dict"] = lambda vm, a, k: VDict([["most_calls", ("stats of", a[0])], ["slow_calls", VDict()]])
    vm.overrides.setdefault(P, {})["_ProfilingOptions"] = Stub(lambda vm, a, k: Options(vm.fresh_int("threshold")), "options")
    n = vm.choose(4, "number of tasks")
    for i in range(n):
        call(vm, pd, "init", f"t{i}")
    kinds = ["SendMessage", "TellMessage", "ControlMessage", "HasActorMessage"]
    kind = kinds[vm.choose(len(kinds), "kind of message")]
    counted = kind in ("SendMessage", "TellMessage")
    msg = message(vm, kind)[0] if counted else vm.call(vm.lookup("xoscar.backends.message", kind), [], {})
    dur = vm.fresh_real("duration")
    call(vm, pd, "collect_actor_call", msg, dur)
    vm.cover("collected")
    vm.prove("counted once for each active task", len(got) == (n if counted else 0) and len({id(g[0]) for g in got}) == len(got))
    vm.prove("with the message and its duration", all(g[1] is msg and g[2] is dur for g in got))
    if not n:
        vm.prove("a task that is not active has no data", call(vm, pd, "pop", "t0") is None)
        return
    if counted:
        j = vm.choose(n, "popped task")
        of = [g[0] for g in got]
        r = call(vm, pd, "pop", f"t{j}")
        vm.prove("a popped task reports its own statistics", isinstance(r, VDict) and vm.getitem(r, "most_calls") == ("stats of", of[j]))
        got.clear()
        call(vm, pd, "collect_actor_call", msg, dur)
        vm.prove("a popped task is no longer recorded", [id(g[0]) for g in got] == [id(o) for i, o in enumerate(of) if i != j])
        vm.prove("and is gone", call(vm, pd, "pop", f"t{j}") is None)


def data(vm):
    """what is recorded for a task is what the task reports: single values, sums and nested tables"""
    vm.stubs["collections.Counter"] = Stub(lambda vm, a, k: VDict(), "Counter")
    pd = vm.call(vm.lookup(P, "_ProfilingData"), [], {})
    vm.contracts[f"{P}:_CallStats.to_dict"] = lambda vm, a, k: VDict([["most_calls", VDict()], ["slow_calls", VDict()]])
    vm.overrides.setdefault(P, {})["_ProfilingOptions"] = Stub(lambda vm, a, k: Options(vm.fresh_int("threshold")), "options")
    task, other, nobody = vm.opaque("task", "str"), vm.opaque("other task", "str"), vm.opaque("unknown task", "str")
    vm.assume(z3.And(task.t != other.t, task.t != nobody.t, other.t != nobody.t))
    call(vm, pd, "init", task)
    call(vm, pd, "init", other)
    section = ["general", "serialization"][vm.choose(2, "section")]
    depth = vm.choose(3, "depth")
    tables = [vm.opaque(f"table {i}", "str") for i in range(depth)]
    key, key2 = vm.opaque("key", "str"), vm.opaque("other key", "str")
    vm.assume(key.t != key2.t)
    x, y, z = vm.fresh_real("value"), vm.fresh_real("increment"), vm.fresh_real("second increment")
    whole = vm.choose(2, "looked up at once") == 1

    def at(t, tables=tables):
        """operator at a table; tables are looked up once they are there, and nested before"""
        o = vm.getitem(pd, (t, section))
        for k in tables:
            o = call(vm, o, "nest", k)
        if whole:
            o = vm.getitem(pd, (t, section) + tuple(tables))
        return o

    def empty(o):
        return z3.And(as_z3(call(vm, o, "empty")), num(vm, vm.length(call(vm, o, "values"))) == 0)

    vm.prove("empty before anything is recorded", empty(at(task)))
    how = ["set", "inc", "set and inc"][vm.choose(3, "how")]
    if "set" in how:
        call(vm, at(task), "set", key, vm.fresh_real("older"))
        call(vm, at(task), "set", key, x)
    if "inc" in how:
        call(vm, at(task), "inc", key, y)
        call(vm, at(task), "inc", key, z)
    want = {"set": x.t, "inc": y.t + z.t, "set and inc": x.t + y.t + z.t}[how]
    call(vm, at(task), "inc", key2, y)
    # of tasks nobody knows nothing is recorded
    for dead in (at(nobody), vm.getitem(pd, (task, "no section")), vm.getitem(pd, nobody)):
        call(vm, dead, "set", key, x)
        call(vm, dead, "inc", key, x)
        call(vm, call(vm, dead, "nest", key), "inc", key, x)
        vm.prove("of what does not exist nothing is recorded", empty(dead))
    vm.cover(how)
    vals = vm.concrete_list(call(vm, at(task), "values"))
    vm.prove("the values can be read", len(vals) == 2 and z3.And(num_eq(vm, vals[0], want), num_eq(vm, vals[1], y.t)))
    vm.prove("and are no longer empty", z3.Not(as_z3(call(vm, at(task), "empty"))))
    vm.prove("other tasks have nothing", empty(at(other)))
    rs, e = attempt(vm, lambda: [call(vm, pd, "pop", t) for t in (task, other, nobody)])
    vm.prove("reading never fails", e is None, f"{e!r}")
    if e is not None:
        return
    r, o, n = rs
    vm.prove("an unknown task reports nothing", n is None)
    tab, tab2 = vm.getitem(r, section), vm.getitem(o, section)
    for k in tables:
        tab = vm.getitem(tab, k)
    vm.prove("what was recorded is reported", z3.And(num_eq(vm, vm.getitem(tab, key), want), num_eq(vm, vm.getitem(tab, key2), y.t)))
    vm.prove("and nothing else", num(vm, vm.length(tab)) == 2)
    rest = "serialization" if section == "general" else "general"
    vm.prove("the other section is empty", num(vm, vm.length(vm.getitem(r, rest))) == 0)
    vm.prove("of the other task nothing", num(vm, vm.length(vm.getitem(o, rest))) == 0)


def misuse(vm):
    """a value cannot be used as a table"""
    pd = new(vm, P, "_ProfilingData", _data=VDict([["t", VDict([["general", VDict([["k", vm.fresh_real("value")]])]])]]))
    o = vm.getitem(pd, ("t", "general"))
    r, e = attempt(vm, lambda: call(vm, o, "nest", "k"))
    vm.prove("a value is no table", exc_is(vm, e, TypeError), f"{r} {e!r}")
    vm.cover("refused")


def options(vm):
    """options are taken from the argument, then from the environment, then the default"""
    name, kind, default = [("debug_interval_seconds", float, None), ("slow_calls_duration_threshold", int, 1)][vm.choose(2, "option")]
    given, env = vm.choose(2, "given") == 1, vm.choose(2, "in the environment") == 1
    x, y = vm.fresh_int("argument"), vm.fresh_int("from the environment")
    asked = []

    class Env(Host):
        def m_get(self, vm, a, k):
            asked.append(a[0])
            return y if env else (a[1] if len(a) > 1 else None)

        def vm_contains(self, vm, k):
            asked.append(k)
            return env

        def vm_getitem(self, vm, k):
            asked.append(k)
            if not env:
                raise PyExc(KeyError(k))
            return y

    vm.stubs["os.environ"] = Env()
    D = vm.lookup(P, "_ProfilingOptionDescriptor")
    d = vm.call(D, [kind], {"default": default})
    call(vm, d, "set_name", name)
    owner = new(vm, P, "_ProfilingOptions", _options=VDict([[name, x]] if given else []))
    r, e = attempt(vm, lambda: call(vm, d, "__get__", owner, owner.cls))
    vm.prove("no error", e is None, f"{e!r}")
    want = x if given else y if env else default
    vm.prove("argument before environment before default", r is None if want is None else num_eq(vm, r, num(vm, want)), f"{r}")
    vm.prove("the variable is named after the option", all(n == "XOSCAR_PROFILING_" + name.upper() for n in asked), f"{asked}")
    vm.cover("asked")


def invalid(vm):
    O = vm.lookup(P, "_ProfilingOptions")
    kind = vm.choose(4, "options")
    arg = [None, True, False, 5][kind]
    o = IObj(O)
    _, e = attempt(vm, lambda: call(vm, o, "__init__", arg))
    if kind < 3:
        vm.prove("no options at all", e is None and isinstance(vm.getattr(o, "_options"), VDict) and not vm.getattr(o, "_options").items, f"{e!r}")
    else:
        vm.prove("refused", exc_is(vm, e, ValueError))
    vm.cover("made")


CASES = [
    Case("recorded data", [f"{P}:_ProfilingData.__getitem__", f"{P}:ProfilingDataOperator.set", f"{P}:ProfilingDataOperator.inc", f"{P}:ProfilingDataOperator.nest",
                           f"{P}:ProfilingDataOperator.values", f"{P}:ProfilingDataOperator.empty", f"{P}:DummyOperator"], data, covers=["set", "inc", "set and inc"], need=40),
    Case("values are no tables", [f"{P}:ProfilingDataOperator.nest"], misuse, covers=["refused"], need=1),
    Case("options", [f"{P}:_ProfilingOptionDescriptor.__get__", f"{P}:_ProfilingOptionDescriptor.set_name"], options, covers=["asked"], need=8),
    Case("invalid options", [f"{P}:_ProfilingOptions.__init__"], invalid, covers=["made"], need=4),
    Case("counter", [f"{B}:AbstractCounter.record"], counter, covers=["recorded"], need=4),
    Case("gauge", [f"{B}:AbstractGauge.record"], gauge, covers=["recorded"], need=3),
    Case("default value", [f"{B}:AbstractCounter.record", f"{B}:AbstractGauge.record"], default_value, covers=["recorded"], need=2),
    Case("meter", [f"{B}:AbstractMeter.record"], meter, covers=["reported", "not reported"], need=8, assumed=["time.time"]),
    Case("histogram", [f"{B}:AbstractHistogram.record"], histogram, covers=["reported", "not reported"], need=8, assumed=["time.time"]),
    Case("console", [f"{C}:SimpleMetric.update", f"{C}:ConsoleMetricMixin._record"], console, covers=["shown"], need=4),
    Case("made before the backend", [f"{A}:_MetricWrapper.record", f"{A}:init_metrics", f"{A}:gen_metric"], wrapper,
         covers=["recorded before", "recorded after"], need=8, assumed=["weakref.WeakSet"]),
    Case("call statistics", [f"{P}:_CallStats.collect"], collect, covers=["collected", "slow", "fast"], need=8,
         assumed=["heapq.heappush", "heapq.heappushpop", "collections.Counter"]),
    Case("ten slowest", [f"{P}:_CallStats.collect"], ten_slowest, covers=["lemma"], need=2),
    Case("report", [f"{P}:_CallStats.to_dict"], report, covers=["reported"], need=4, bounded="three slow calls of two kinds", assumed=["Counter.most_common"]),
    Case("active tasks", [f"{P}:_ProfilingData.init", f"{P}:_ProfilingData.pop", f"{P}:_ProfilingData.collect_actor_call"], tasks, covers=["collected"], need=6,
         bounded="up to three active tasks"),
    *[c for c in c05.CASES if c.name in ("call", "call with buffers")],
]

ASSUMPTIONS = [
    "machine floats are treated as real numbers",
    "the clock never goes back",
    "heapq keeps a heap: heappush adds, heappushpop adds and removes the least",
    "collections.Counter starts at zero and most_common(n) gives the n largest counts",
]
