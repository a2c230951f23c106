"""C20: random sequences (1 to 60 records, and thousands at the threshold) of values (integers, floats, negative, zero), times (a fake clock) and tags on every kind of metric, made before and after the backend is initialized, initialized again and shut down; what is handed to the backend is compared with the recorded history. Random histories of profiling with up to 4 tasks begun and popped, up to 80 calls with equal and different durations, arguments and messages of other kinds, against recomputed counts and slowest calls. Non-trivial: distinct sequences."""

import asyncio
import collections
import contextlib
import math
import time

import xoscar.metrics.api as api
import xoscar.metrics.backends.metric as metric
from xoscar.backends.message import ControlMessage, ControlMessageType, HasActorMessage, SendMessage, TellMessage
from xoscar.core import ActorRef
from xoscar.metrics.api import Metrics, init_metrics, shutdown_metrics
from xoscar.profiling import ProfilingData

CLOCKS = [time.time, time.monotonic, time.perf_counter]
KINDS = ["Counter", "Gauge", "Meter", "Histogram"]


class FakeClock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now


@contextlib.contextmanager
def clock():
    fake = FakeClock()
    saved = []
    for mod in (time, metric):
        for k, v in list(vars(mod).items()):
            if any(v is c for c in CLOCKS):
                saved.append((mod, k, v))
                setattr(mod, k, fake)
    try:
        yield fake
    finally:
        for mod, k, v in saved:
            setattr(mod, k, v)


class Model:
    """what has to be reported"""

    def __init__(self, kind, now):
        self.kind = kind
        self.sum, self.n, self.last = 0, 0, now
        self.values = []

    def record(self, v, now):
        """the reported value or None"""
        if self.kind == "Gauge":
            return v
        self.sum += v
        self.n += 1
        if self.kind == "Counter":
            return self.sum
        past = now - self.last
        many = self.sum if self.kind == "Meter" else self.n
        if many >= 2000 or past >= 1:
            r = self.sum / past if self.kind == "Meter" else self.sum / self.n
            self.sum, self.n, self.last = 0, 0, now
            return r
        return None


def spy(kind):
    class Fake(getattr(metric, f"Abstract{kind}")):
        def _init(self):
            self.out = []

        def _record(self, value=1, tags=None):
            self.out.append((value, tags))

    return Fake


def near(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def steps(rng):
    n = rng.randrange(1, 60)
    out = []
    for _ in range(n):
        v = rng.choice([1, 0, 2, -1, 1000, 1999, 2000, 0.5, -2.25, rng.randrange(-50, 3000), rng.random()])
        # never exactly at a threshold that rounding could miss
        dt = rng.choice([0.001, 0.001, 0.01, 0.23, 0.61, 1.5, 3.1])
        tags = rng.choice([None, None, {}, {"a": "b"}, {"a": "c", "b": "d"}])
        out.append((v, dt, tags, rng.random() < 0.15))
    return out


def metrics(h):
    """what each kind reports"""
    rng = h.rng
    for i in range(h.n(3000, 40000)):
        if h.time_left() < 60:
            return
        kind = rng.choice(KINDS)
        seq = steps(rng)
        h.seen((kind, tuple((v, dt) for v, dt, _, _ in seq)), (kind, seq[:4]))
        log = (kind, [(v, dt) for v, dt, _, _ in seq])
        with h.guard("C20.metric", log), clock() as c:
            m = spy(kind)("name", "desc", ("a", "b"))
            model = Model(kind, c.now)
            want = []
            for v, dt, tags, dflt in seq:
                c.now += dt
                if dflt:
                    v, tags = 1, None
                    m.record()
                else:
                    given = None if tags is None else dict(tags)
                    m.record(v, given)
                r = model.record(v, c.now)
                if r is not None:
                    want.append((r, tags))
            ok = len(want) == len(m.out) and all(near(a[0], b[0]) and (a[1] or None) == (b[1] or None) for a, b in zip(want, m.out))
            h.check(ok, "C20.metric", log, f"reported {m.out}, has to be {want}")
            h.check(m.type == kind and m.name == "name" and m.description == "desc" and m.tag_keys == ("a", "b"), "C20.metric.attributes", log)
    for kind in KINDS:
        for v in (1, 2):
            # the threshold of values, without the time
            h.seen((kind, "threshold", v))
            with h.guard("C20.threshold", (kind, v)), clock() as c:
                m = spy(kind)("name")
                model = Model(kind, c.now)
                want = []
                for _ in range(4500):
                    c.now += 0.0001
                    m.record(v)
                    r = model.record(v, c.now)
                    if r is not None:
                        want.append(r)
                h.check(len(want) == len(m.out) and all(near(a, b[0]) for a, b in zip(want, m.out)), "C20.threshold", (kind, v), f"{len(m.out)} reports, has to be {len(want)}; first {m.out[:2]} and {want[:2]}")


@contextlib.contextmanager
def fresh():
    shutdown_metrics()
    try:
        yield
    finally:
        shutdown_metrics()


def backends(h):
    """metrics made before and after the initialization"""
    rng = h.rng
    for i in range(h.n(600, 8000)):
        if h.time_left() < 40:
            return
        log = []
        with h.guard("C20.backend", log), clock() as c, fresh():
            ms = []  # metric, model or None before, reported
            inited = False
            for j in range(rng.randrange(4, 60)):
                op = rng.choice(["new", "init", "record", "record", "record", "record"])
                c.now += rng.choice([0.001, 0.1, 0.6, 1.5])
                if op == "new" and len(ms) < 6:
                    kind = rng.choice(KINDS)
                    m = getattr(Metrics, kind.lower())(f"m{i}_{len(ms)}", "d", ("t",))
                    ms.append([m, kind, Model(kind, c.now) if inited else None, 0])
                    log.append(("new", kind))
                    h.check(m.type == kind and m.name == f"m{i}_{len(ms) - 1}" and m.tag_keys == ("t",), "C20.backend.attributes", log)
                elif op == "init" and (rng.random() < 0.5 or j > 8):
                    init_metrics(rng.choice([None, "console", "console"]))
                    log.append(("init",))
                    if not inited:
                        for e in ms:
                            e[2] = Model(e[1], c.now)
                    inited = True
                elif op == "record" and ms:
                    k = rng.randrange(len(ms))
                    e = ms[k]
                    v = rng.choice([1, 5, 0, 2.5, -3, 2500])
                    e[0].record(v, rng.choice([None, {"t": "x"}]))
                    log.append(("record", k, v, round(c.now, 3)))
                    if e[2] is not None:
                        r = e[2].record(v, c.now)
                        if r is not None:
                            e[3] = r
                for k, e in enumerate(ms):
                    if e[2] is not None and not near(e[0].value, e[3]):
                        h.fail("C20.backend", log, f"metric {k} has {e[0].value}, has to be {e[3]}")
                        break
                else:
                    continue
                break
            h.check(True, "C20.backend", log)
            h.seen(tuple(log), log[:6])
    with h.guard("C20.backend.unknown", "nobackend"), fresh():
        try:
            init_metrics("nobackend")
            h.fail("C20.backend.unknown", "nobackend", "accepted")
        except NotImplementedError:
            h.check(True, "C20.backend.unknown", "nobackend")


def name_of(address, uid, method, args, kwargs):
    return f"[{address}]{uid}.{method}(args={args}, kwargs={kwargs})"


def verify(h, log, r, calls, threshold, general):
    count = collections.Counter(f"{c[0]}.{c[1]}" for c in calls)
    most = list(r["most_calls"].items())
    h.check(len(most) == min(10, len(count)) and all(count.get(k) == v for k, v in most), "C20.most_calls", log, f"{most}, has to be of {count}")
    h.check([v for _, v in most] == sorted(count.values(), reverse=True)[:10], "C20.most_calls", log, f"{most}, has to be of {count}")
    slow = [c for c in calls if c[5] >= threshold]
    slow.sort(key=lambda c: -c[5])
    best = {}
    for c in slow:
        best.setdefault(name_of(c[2], *c[:2], *c[3:5]), c[5])
    got = list(r["slow_calls"].items())
    cut = slow[9][5] if len(slow) >= 10 else -1
    h.check([d for _, d in got] == sorted((d for _, d in got), reverse=True), "C20.slow_calls.order", log, f"{got}")
    h.check(all(best.get(k) == d and d >= cut for k, d in got), "C20.slow_calls", log, f"{got}, has to be of {best}")
    h.check(all(k in r["slow_calls"] for k, d in best.items() if d > cut), "C20.slow_calls", log, f"{got}, has to be of {best}")
    if len(best) == len(slow):
        h.check([d for _, d in got] == [c[5] for c in slow[:10]], "C20.slow_calls", log, f"{got}, has to be of {slow[:12]}")
    h.check(r["general"] == general, "C20.data", log, f"{r['general']} != {general}")


def profiling(h):
    """histories of profiling"""
    rng = h.rng
    for i in range(h.n(1500, 20000)):
        if h.time_left() < 20:
            return
        log = []
        tasks = {}
        distinct = rng.random() < 0.5
        few = rng.random() < 0.5
        with h.guard("C20.profiling", log):
            try:
                for j in range(rng.randrange(5, 80)):
                    op = rng.random()
                    t = f"t{rng.randrange(4)}"
                    if op < 0.08:
                        thr = rng.choice([None, 0, 1, 3])
                        opts = rng.choice([None, True]) if thr is None else {"slow_calls_duration_threshold": thr}
                        ProfilingData.init(t, opts)
                        tasks[t] = (1 if thr is None else thr, [], {})
                        log.append(("init", t, opts))
                    elif op < 0.12:
                        r = ProfilingData.pop(t)
                        log.append(("pop", t))
                        if t in tasks:
                            thr, calls, general = tasks.pop(t)
                            verify(h, log, r, calls, thr, general)
                        else:
                            h.check(r is None, "C20.pop_unknown", log, f"{r!r}")
                    elif op < 0.2:
                        k, v = rng.choice("ab"), rng.randrange(5)
                        o = ProfilingData[t, "general"]
                        if rng.random() < 0.5:
                            o.inc(k, v)
                            if t in tasks:
                                tasks[t][2][k] = tasks[t][2].get(k, 0) + v
                        else:
                            o.set(k, v)
                            if t in tasks:
                                tasks[t][2][k] = v
                        log.append(("data", t, k, v))
                        if t in tasks:
                            h.check(not o.empty() and sorted(o.values()) == sorted(tasks[t][2].values()), "C20.data", log)
                        else:
                            h.check(o.empty() and list(o.values()) == [], "C20.data", log)
                    else:
                        uid = rng.choice(["u1", "u2", "ü3"]) if few else f"u{rng.randrange(20)}"
                        meth = rng.choice(["m", "n"]) if few else f"m{rng.randrange(3)}"
                        adr = rng.choice(["a:1", "b:2"])
                        args = (j,) if distinct else rng.choice([(), (1,), ({"a": 1},), (None, "x")])
                        kw = rng.choice([{}, {"k": 1}, {"k": None}])
                        d = rng.choice([0, 0.5, 0.99, 1, 1, 2, 2, 3, rng.randrange(30), rng.random() * 10])
                        ref = ActorRef(adr, uid.encode())
                        kind = rng.randrange(8)
                        if kind == 0:
                            m = HasActorMessage(b"id", ref)
                        elif kind == 1:
                            m = ControlMessage(b"id", adr, ControlMessageType.stop, None)
                        else:
                            cls = SendMessage if kind < 6 else TellMessage
                            m = cls(b"id", ref, (meth, 0, args, kw))
                            for e in tasks.values():
                                e[1].append((uid, meth, adr, args, kw, d))
                            log.append((cls.__name__, uid, meth, adr, args, kw, d))
                        ProfilingData.collect_actor_call(m, d)
                for t in list(tasks):
                    r = ProfilingData.pop(t)
                    log.append(("pop", t))
                    thr, calls, general = tasks.pop(t)
                    verify(h, log, r, calls, thr, general)
                    h.check(ProfilingData.pop(t) is None, "C20.pop_unknown", log)
            finally:
                for t in range(4):
                    ProfilingData.pop(f"t{t}")
        h.seen(tuple(map(repr, log)), log[:5])


def failing_reports(h):
    """a report that fails is made up for by the next one, with all the values since the last"""
    rng = h.rng
    for i in range(h.n(60, 600)):
        if h.time_left() < 40:
            return
        kind = ["Meter", "Histogram", "Counter"][i % 3]
        before, failures = rng.choice([0, 1, 1999, 2500]), rng.choice([1, 2, 700])
        log = (kind, f"{before} records, then {failures} reports fail")
        h.seen(log, log)
        with h.guard("C20.failing_report", log), clock() as c:
            m = spy(kind)("name", "desc", ("a", "b"))
            c.now += 0.5
            n, total, last, broken = 0, 0, c.now - 0.5, 0
            plain = m._record

            def failing(value=1, tags=None):
                raise OSError("the backend is not there")

            for j in range(before + failures + 4100):
                v = rng.randrange(1, 9)
                n, total = n + 1, total + v
                many = total if kind == "Meter" else n
                due = kind == "Counter" or many >= 2000
                fails = due and broken < failures
                m._record = failing if fails else plain
                m.out.clear()
                try:
                    m.record(v)
                except OSError:
                    broken += 1
                if due and not fails:
                    want = total if kind == "Counter" else total / n if kind == "Histogram" else total / (c.now - last)
                    ok = len(m.out) == 1 and near(m.out[0][0], want)
                    if not ok or j == 0:
                        h.check(ok, "C20.failing_report", log, f"record {j}: {m.out} instead of {want}")
                    if not ok:
                        break
                    if kind != "Counter":
                        n, total, last = 0, 0, c.now
                        c.now += 0.25
                elif m.out:
                    h.fail("C20.failing_report", log, f"record {j}: {m.out} although it is not due")
                    break


PARTS = [metrics, backends, profiling, failing_reports]
