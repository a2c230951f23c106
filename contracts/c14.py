"""C14: a recovered sub pool gets back exactly its actors.

The main pool has any number of sub pools, any number of actors is allocated at each.  One
round of the monitor is proved for an arbitrary sub pool.
"""

from .base import *  # noqa: F401,F403
from . import context as asking
from . import pools
from .c08 import message, is_msg, answered

P = "xoscar.backends.pool"
I = "xoscar.backends.indigen.pool"
MSG = "xoscar.backends.message"
Z = z3.IntSort()
REF = z3.Function("reference of entry", Z, U)
CREATED = z3.Function("created by", Z, U)
THERE = z3.Function("still allocated", U, z3.BoolSort())
ADDRESS = z3.Function("address of process", Z, U)
PROCESS = z3.Function("process", Z, U)


def setup(vm):
    vm.stubs["os.getpid"] = Stub(lambda vm, a, k: vm.fresh_int("pid", 1), "getpid")
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: a[0], "create_task")


def both(vm, name, f):
    for c in (f"{P}:MainActorPoolBase", f"{I}:MainActorPool"):
        vm.contracts[f"{c}.{name}"] = f


class Entries(Host):
    """the actors allocated at the address when it is recovered, in any number; while others
    are created again actors may be destroyed and new ones may come"""

    def __init__(self, vm):
        self.n = vm.fresh_int("entries", 0).t
        self.begun = False
        self.round = None

    def vm_contains(self, vm, x):
        return SBool(THERE(vm.term(x)))

    def vm_seq(self, vm):
        s = SSeq("references", self.n, lambda i: SVal(REF(i), "reference"))
        s.entries = lambda i: i
        return s

    def m_items(self, vm, a, k):
        s = SSeq("entries", self.n, lambda i: (SVal(REF(i), "reference"), (vm.opaque("strategy"), SVal(CREATED(i), "message"))))
        return s

    def m_copy(self, vm, a, k):
        return self

    def m_get(self, vm, a, k):
        ref = a[0]
        if vm.branch(SBool(THERE(vm.term(ref)))):
            return self.vm_getitem(vm, ref)
        return a[1] if len(a) > 1 else None

    def vm_getitem(self, vm, k):
        i = vm.fresh_int("entry").t
        vm.assume(z3.And(i >= 0, i < self.n, REF(i) == vm.term(k)))
        if self.round is not None:
            # references are distinct keys
            vm.assume(z3.Implies(vm.term(k) == REF(self.round), i == self.round))
        return (vm.opaque("strategy"), SVal(CREATED(i), "message"))


def recover(vm):
    mode = ["actor", "process"][vm.choose(2, "what is recovered")]
    address = vm.opaque("address", "str")
    process, old = vm.opaque("new process"), vm.opaque("old process")
    index = vm.opaque("index", "index")
    entries = Entries(vm)
    procs = Map(vm, "processes")
    vm.assume(procs.has(address.t))
    g = procs.graph()
    log, state = [], {"round": None}

    class Config(Host):
        def m_get_process_index(self, vm, a, k):
            vm.prove("the index of this pool", vm.term(a[0]) == address.t)
            return index

    class Table(Host):
        def vm_getitem(self, vm, k):
            vm.prove("the actors of this address", vm.term(k) == address.t)
            return entries

        def m_get(self, vm, a, k):
            return self.vm_getitem(vm, a[0])

    config = Config()
    p = new(vm, I, "MainActorPool", _config=config, sub_processes=procs, _allocated_actors=Table(), _auto_recover=mode, external_address=vm.opaque("own address", "str"))

    def start(vm, a, k):
        args = [x for x in a if not isinstance(x, (IObj, IClass))] + list(k.values())

        def run(vm):
            vm.prove("the process is started with the configuration of this pool", args[:2] == [config, index])
            log.append("started")
            return (process, VList([address]))

        return Awaitable(run, "start")

    def ready(vm, a, k):
        tasks = vm.concrete_list(a[-1])

        def run(vm):
            rs = [vm.await_(t) for t in tasks]
            log.append("ready")
            return (VList([r[0] for r in rs]), VList([r[1] for r in rs]))

        return Awaitable(run, "ready")

    both(vm, "start_sub_pool", start)
    both(vm, "wait_sub_pools_ready", ready)

    def call_(vm, a, k):
        def run(vm):
            vm.prove("actors are created when the process is there", "ready" in log)
            h = procs.graph()
            vm.prove("and known by its new process", z3.And(h[0](address.t), h[1](address.t) == process.t))
            vm.prove("at their address", vm.term(a[1]) == address.t)
            state.setdefault("sent", []).append(a[2])
            return vm.opaque("reply")

        return Awaitable(run, "call")

    vm.contracts[f"{P}:AbstractActorPool.call"] = call_

    def sel(vm, st, fr, it):
        return it.name in ("entries", "references")

    def havoc_(vm, fr, it, i):
        state["round"], state["sent"] = i, []
        entries.round = i

    def inv(vm, fr, it, i):
        r = state["round"]
        if r is not None and "checked" not in state:
            state["checked"] = True
            sent = state["sent"]
            there = THERE(REF(r))
            vm.prove("an actor is created again exactly if it was not destroyed", z3.BoolVal(len(sent) == 1) == there if len(sent) < 2 else z3.BoolVal(False))
            for m in sent[:1]:
                vm.prove("by the message that has created it", vm.term(m) == CREATED(r))
            vm.cover("created again" if sent else "destroyed meanwhile")
        return []

    vm.loops.append(LoopSpec("actors", sel, havoc_, inv))
    r, e = attempt(vm, lambda: acall(vm, p, "recover_sub_pool", address))
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("the process is started once", log == ["started", "ready"])
    h = procs.graph()
    vm.prove("the address has the new process", z3.And(h[0](address.t), h[1](address.t) == process.t))
    vm.prove("other processes stay", same_map(vm, h, g, [address.t]))
    vm.cover(mode)
    if mode == "actor":
        vm.prove("all actors are looked at", z3.BoolVal(False) if state["round"] is None else state["round"] == entries.n)
        vm.prove("no actor is created twice", not state["sent"])
    else:
        vm.prove("no actor is created again", "sent" not in state)


def lost(vm):
    mode = ["actor", "process", False][vm.choose(3, "what is recovered")]
    address = vm.opaque("address", "str")
    table = Map(vm, "table")
    vm.assume(table.has(address.t))
    put = []

    class Table(Host):
        def vm_setitem(self, vm, k, v):
            put.append((k, v))

        def vm_getitem(self, vm, k):
            vm.prove("of this address", vm.term(k) == address.t)

            class Inner(Host):
                def m_clear(self, vm, a, kw):
                    put.append((k, VDict()))

            return Inner()

    p = new(vm, P, "MainActorPoolBase", _auto_recover=mode, _allocated_actors=Table())
    call(vm, p, "process_sub_pool_lost", address)
    vm.cover(str(mode))
    if mode == "actor":
        vm.prove("actors that will be created again stay known", not put)
    else:
        vm.prove("the actors of this address are forgotten", len(put) == 1 and vm.term(put[0][0]) == address.t)
        vm.prove("and the address stays known", len(put) == 1 and isinstance(put[0][1], VDict) and not put[0][1].items)


class Event(Host):
    """asyncio.Event; others may set it while somebody waits for it"""

    def __init__(self, is_set=False):
        self.flag, self.waited, self.sets = is_set, 0, 0

    def m_set(self, vm, a, k):
        self.flag = True
        self.sets += 1

    def m_is_set(self, vm, a, k):
        return self.flag

    def m_wait(self, vm, a, k):
        def run(vm):
            self.waited += 1
            self.flag = True
            return True

        return Awaitable(run, "wait")


def monitor(vm):
    address, process = None, None
    mode = ["actor", "process", False][vm.choose(3, "what is recovered")]
    n = vm.fresh_int("sub pools", 0).t
    log, state = [], {}
    stopped = {"n": 0}

    class Stopped(Host):
        def m_is_set(self, vm, a, k):
            stopped["n"] += 1
            return SBool(z3.Bool(f"stopped {stopped['n']}"))

    class Procs(Host):
        """the sub pools and their processes; pools may be removed and recovered meanwhile"""

        def m_items(self, vm, a, k):
            s = SSeq("sub pools", n, lambda i: (SVal(ADDRESS(i), "str"), SVal(PROCESS(i), "process")))
            return s

        def vm_seq(self, vm):
            return SSeq("addresses", n, lambda i: SVal(ADDRESS(i), "str"))

        def m_copy(self, vm, a, k):
            return self

        def current(self, vm, t):
            i = state["round"]
            vm.prove("the process of this address", t == ADDRESS(i))
            return SVal(PROCESS(i), "process")

        def vm_getitem(self, vm, k):
            t = vm.term(k)
            if state.get("removed"):
                raise PyExc(KeyError(k))
            return self.current(vm, t)

        def m_get(self, vm, a, k):
            t = vm.term(a[0])
            if state.get("removed"):
                return None
            return self.current(vm, t)

        def vm_contains(self, vm, k):
            return not state.get("removed")

    class Events(Host):
        def vm_contains(self, vm, k):
            vm.prove("the event of this address", vm.term(k) == ADDRESS(state["round"]))
            return state["event"] is not None

        def m_pop(self, vm, a, k):
            vm.prove("the event of this address", vm.term(a[0]) == ADDRESS(state["round"]))
            e = state["event"]
            if e is None:
                if len(a) < 2:
                    raise PyExc(KeyError("event"))
                return a[1]
            state["event"] = None
            return e

        def m_get(self, vm, a, k):
            return state["event"] if state["event"] is not None else (a[1] if len(a) > 1 else None)

        def vm_getitem(self, vm, k):
            return state["event"]

    def callback(name):
        class Callback(Host):
            def vm_call(self, vm, a, k):
                vm.prove("callbacks get the pool and the address", len(a) == 2 and a[0] is p and vm.term(a[1]) == ADDRESS(state["round"]))
                log.append(name)
                if state["fails"] == name:
                    raise PyExc(state["error"])

        return Callback()

    have = vm.choose(2, "callbacks") == 1
    losses = Map(vm, "lost processes", wrap=lambda t: SVal(t, "process"))
    p = new(vm, P, "MainActorPoolBase", _stopped=Stopped(), sub_processes=Procs(), _recover_events=Events(), _lost_processes=losses, _auto_recover=mode,
            _on_process_down=callback("down") if have else None, _on_process_recover=callback("recovered") if have else None)

    def alive(vm, a, k):
        def run(vm):
            vm.prove("the process of this pool is looked at", vm.term(a[1]) == PROCESS(state["round"]))
            log.append("alive?")
            return state["alive"]

        return Awaitable(run, "alive")

    def lost_(vm, a, k):
        vm.prove("this pool is lost", vm.term(a[1]) == ADDRESS(state["round"]))
        log.append("lost")

    def recover_(vm, a, k):
        def run(vm):
            vm.prove("this pool is recovered", vm.term(a[1]) == ADDRESS(state["round"]))
            log.append("recover")
            if state["fails"] == "recover":
                raise PyExc(state["error"])

        return Awaitable(run, "recover")

    both(vm, "is_sub_pool_alive", alive)
    both(vm, "process_sub_pool_lost", lost_)
    both(vm, "recover_sub_pool", recover_)

    def sleep(vm, a, k):
        def run(vm):
            if vm.choose(2, "cancelled") == 1:
                state["cancelled"] = True
                raise PyExc(__import__("asyncio").CancelledError())

        return Awaitable(run, "sleep")

    vm.stubs["asyncio.sleep"] = vm.stubs["asyncio.tasks.sleep"] = Stub(sleep, "sleep")

    def sel(vm, st, fr, it):
        return it.name in ("sub pools", "addresses")

    def havoc_(vm, fr, it, i):
        # an arbitrary round
        del log[:]
        state.clear()
        state["round"] = i
        if vm.path is None:
            return
        if z3.is_true(z3.simplify(i == n)):
            return
        state["alive"] = vm.choose(2, "alive") == 1
        state["removed"] = vm.choose(2, "removed meanwhile") == 1
        state["event"] = state["was"] = Event() if vm.choose(2, "somebody waits") else None
        state["fails"] = [None, "down", "recover", "recovered"][vm.choose(4, "what fails")]
        err = SExc("failure", Exception)
        err.known.append((__import__("asyncio").CancelledError, False))
        state["error"] = err
        losses.has, losses.val = (lambda f, g: ((lambda k: f(k)), (lambda k: g(k))))(z3.Function(vm.fresh_name("lost"), U, z3.BoolSort()), z3.Function(vm.fresh_name("lost process"), U, U))
        a, q = ADDRESS(i), PROCESS(i)
        state["first"] = z3.Not(z3.And(losses.has(a), losses.val(a) == q))
        vm.assume(q != vm.term(None))

    def inv(vm, fr, it, i):
        if "round" in state and "alive" in state and "checked" not in state:
            state["checked"] = True
            judge(vm)
        return []

    def judge(vm):
        got = [x for x in log if x != "alive?"]
        i = state["round"]
        if state["removed"]:
            vm.cover("removed")
            vm.prove("a pool that was removed is left alone", not got)
            return
        dead = not state["alive"]
        downs = got.count("down")
        fails = state["fails"]
        if dead:
            if have:
                vm.prove("a loss is reported once", z3.BoolVal(downs == 1) == state["first"] if downs < 2 else z3.BoolVal(False))
            failed = fails == "down" and downs
            want = (["down"] if downs else [])
            if not failed:
                want.append("lost")
                if mode:
                    want.append("recover")
                    if fails != "recover" and have:
                        want.append("recovered")
            vm.prove("reported, forgotten, recovered and reported as recovered, in this order", got == want, f"{got} {want}")
            a = ADDRESS(i)
            vm.prove("the loss is not reported again", z3.And(losses.has(a), losses.val(a) == PROCESS(i)))
            vm.cover("lost" if not failed else "callback fails")
            ok = not (failed or fails == "recover" and mode or fails == "recovered" and mode and have)
        else:
            vm.cover("alive")
            vm.prove("nothing happens to a pool that is alive", not got)
            ok = True
        was = state["was"]
        if was is not None and ok:
            vm.cover("waiters released")
            vm.prove("waiters are released once", was.sets == 1 and state["event"] is None)
        if was is not None and dead and mode and fails == "recover" and "recover" in got:
            vm.prove("not before the pool is recovered", was.sets == 0)

    vm.loops.append(LoopSpec("sub pools", sel, havoc_, inv))

    def whole(vm, fr):
        if "round" in state:
            vm.prove("all sub pools are looked at", state["round"] == n)
        return []

    vm.loops.append(WhileSpec("monitor", lambda vm, st, fr: True, lambda vm, fr: state.clear(), whole))
    r, e = attempt(vm, lambda: acall(vm, p, "monitor_sub_pools"))
    vm.prove("failures do not end the monitor", e is None, f"{e!r}")
    vm.cover("ended")
    vm.prove("it ends only when the pool has stopped or it is cancelled", z3.BoolVal(True) if state.get("cancelled") else z3.Bool(f"stopped {stopped['n']}"))


def waiting(vm):
    mode = ["actor", "process", False][vm.choose(3, "what is recovered")]
    address, own = vm.opaque("address", "str"), vm.opaque("own address", "str")
    vm.assume(address.t != own.t)
    there = vm.choose(2, "somebody waits already") == 1
    event = Event() if there else None
    made = []

    class Events(Host):
        def vm_contains(self, vm, k):
            return event is not None or bool(made)

        def vm_setitem(self, vm, k, v):
            vm.prove("the event of this address", vm.term(k) == address.t)
            vm.prove("events others wait for stay", not there)
            made.append(v)

        def m_get(self, vm, a, k):
            return event or (made[-1] if made else None)

        def vm_getitem(self, vm, k):
            if event is None and not made:
                raise PyExc(KeyError(k))
            return event or made[-1]

        def m_setdefault(self, vm, a, k):
            if event is None and not made:
                made.append(a[1])
            return event or made[-1]

    vm.stubs["asyncio.Event"] = vm.stubs["asyncio.locks.Event"] = Stub(lambda vm, a, k: Event(), "Event")
    T = vm.lookup(MSG, "ControlMessageType")
    p = new(vm, P, "MainActorPoolBase", external_address=own, _recover_events=Events(), _auto_recover=mode)
    msg = message(vm, "ControlMessage", address, vm.getattr(T, "wait_pool_recovered"), None)
    r, e = attempt(vm, lambda: acall(vm, p, "handle_control_command", msg))
    vm.prove("an answer", e is None, f"{e!r}")
    vm.prove("to the request", answered(vm, r, msg))
    if mode or there:
        vm.cover("waits")
        used = event or (made[0] if made else None)
        vm.prove("one event is used by all who wait", len(made) == (0 if there else 1))
        vm.prove("the answer comes after the recovery", used is not None and used.waited == 1)
    else:
        vm.cover("nothing to wait for")
        vm.prove("no event without recovery", not made)


def appended(vm):
    """an appended pool is monitored; one that could not be started is forgotten"""
    from .c08 import pool

    p, own = pool(vm, "MainActorPool", I)
    fails = vm.choose(2, "fails to start") == 1
    address, process, index = vm.opaque("address", "str"), vm.opaque("process"), vm.opaque("index")
    log = []
    given = vm.opaque("given address", "str", truth=True) if vm.choose(2, "address given") else None
    internal = vm.opaque("given internal", "str", truth=True) if given is not None else None
    loop = [None, True, False][vm.choose(3, "loop")]
    last_loop = vm.opaque("loop of the last pool")
    logging = vm.opaque("logging", truth=True) if given is not None else None
    last_logging = vm.opaque("logging of the last pool")
    python = vm.opaque("python")
    last = []
    indexes = SSeq("indexes", vm.fresh_int("pools", 1).t, lambda i: SVal(z3.Function("index", Z, U)(i)))

    class Config(Host):
        def __init__(self):
            self.adds, self.resets, self.removes = [], [], []

        def m_as_dict(self, vm, a, k):
            class Pools(Host):
                def vm_getitem(self, vm, k):
                    last.append(k)
                    return VDict([["logging_conf", last_logging], ["use_uvloop", last_loop]])

            return VDict([["pools", Pools()]])

        def m_get_process_indexes(self, vm, a, k):
            return indexes

        def m_add_pool_conf(self, vm, a, k):
            names = ["process_index", "label", "internal_address", "external_address", "env", "modules", "suspend_sigint", "use_uvloop", "logging_conf", "kwargs"]
            self.adds.append({**dict(zip(names, a)), **k})
            log.append("configured")

        def m_reset_pool_external_address(self, vm, a, k):
            self.resets.append(tuple(a))
            log.append("address")

        def m_remove_pool_config(self, vm, a, k):
            self.removes.append(a[0])

    config = Config()
    p.attrs["_config"] = config
    label, env, modules, kwargs = (vm.opaque(x, x) for x in ("label", "env", "modules", "kwargs"))
    vm.contracts[f"{P}:MainActorPoolBase.process_index_gen"] = vm.contracts[f"{I}:MainActorPool.process_index_gen"] = lambda vm, a, k: Next(index)
    both(vm, "gen_internal_address", lambda vm, a, k: inside)

    def external(vm, a, k):
        a = [x for x in a if not isinstance(x, IClass)]
        vm.prove("addresses are made of that of the main pool", vm.term(a[0]) == own.t)
        return VList([vm.opaque("main", "str"), made])

    both(vm, "get_external_addresses", external)
    made = vm.opaque("generated", "str", truth=True)
    inside = vm.opaque("internal", "str", truth=True)

    def start(vm, a, k):
        args = [x for x in a if not isinstance(x, IClass)]

        def run(vm):
            vm.prove("started with the configuration of the new pool", config.adds != [] and (args[0] is config or isinstance(args[0], IObj) and args[0] is p) and index in args and args[-1] is python)
            if fails:
                raise PyExc(SExc("cannot start", BaseException))
            log.append("started")
            return (process, VList([address]))

        return Awaitable(run, "start")

    both(vm, "_create_sub_pool_from_parent", start)
    both(vm, "start_sub_pool", start)

    def attach(vm, a, k):
        vm.prove("the new process is attached at its address", vm.term(a[1]) == address.t and a[2] is process)
        log.append("attached")

    both(vm, "attach_sub_process", attach)

    def begin(vm, a, k):
        def run(vm):
            vm.prove("when it is attached", "attached" in log)
            log.append("monitored")

        return Awaitable(run, "monitor")

    both(vm, "start_monitor", begin)

    def control(vm, a, k):
        T = vm.lookup(MSG, "ControlMessageType")
        vm.prove("the other pools get the configuration", vm.getattr(a[1], "control_message_type") is vm.getattr(T, "sync_config") and vm.getattr(a[1], "content") is config and config.resets != [])
        log.append("synchronized")
        return Awaitable(lambda vm: None, "control")

    both(vm, "handle_control_command", control)
    ids = lambda vm, a, k: vm.opaque("new id", "bytes")
    for m in ("xoscar._utils", "xoscar.utils", MSG):
        vm.contracts[f"{m}:new_message_id"] = ids
    r, e = attempt(vm, lambda: acall(vm, p, "append_sub_pool", label, external_address=given, internal_address=internal, env=env, modules=modules, use_uvloop=loop, logging_conf=logging, start_python=python, kwargs=kwargs))
    vm.prove("one pool is configured", len(config.adds) == 1)
    if len(config.adds) == 1:
        c = config.adds[0]
        vm.prove("under the new index with its label, environment and modules", c.get("process_index") is index and c.get("label") is label and c.get("env") is env and c.get("modules") is modules and c.get("kwargs") is kwargs)
        vm.prove("at the address that is given, or made for it", c.get("external_address") is (given or made) and c.get("internal_address") is (internal or inside))
        vm.prove("what is not given is as for the last pool", c.get("use_uvloop") is (last_loop if loop is None else loop) and c.get("logging_conf") is (logging or last_logging))
        vm.prove("the last one of them", conj([same(vm, x, indexes.elem(indexes.length - 1)) for x in last]))
    if fails:
        vm.cover("failed")
        vm.prove("the failure is raised", e is not None)
        vm.prove("a pool that could not be started is not configured any more", config.removes == [index])
        vm.prove("nor attached", "attached" not in log)
        return
    vm.cover("appended")
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("the address is the one where it listens", config.resets == [(index, address)] and r is address)
    vm.prove("it is attached, monitored and made known", log.count("attached") == 1 and "monitored" in log and log.count("synchronized") == 1 and not config.removes)


class Next(Host):
    def __init__(self, v):
        self.v = v

    def m___next__(self, vm, a, k):
        return self.v


def begin(vm):
    """the monitor runs once, as soon as there are sub pools"""
    running = vm.choose(2, "running") == 1
    task = vm.opaque("task") if running else None
    if running:
        vm.assume(task.t != vm.term(None))
    some = vm.choose(2, "sub pools") == 1

    class Procs(Host):
        def vm_truth(self, vm):
            return some

        def vm_len(self, vm):
            return SInt(z3.IntVal(1 if some else 0))

    made = []
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: made.append(a[0]) or vm.opaque("monitor task"), "create_task")
    run = Awaitable(lambda vm: None, "monitor")
    both(vm, "monitor_sub_pools", lambda vm, a, k: run)
    p = new(vm, P, "MainActorPoolBase", _monitor_task=task, sub_processes=Procs())
    acall(vm, p, "start_monitor")
    vm.cover("started" if made else "not started")
    vm.prove("started exactly if there are sub pools and it does not run", (made == [run]) == (some and not running) and len(made) < 2)
    vm.prove("and remembered", p.attrs["_monitor_task"] is task if not made else p.attrs["_monitor_task"] is not None)


C, D = f"{P}:MainActorPoolBase", f"{I}:MainActorPool"
CASES = [
    Case("recovery", [f"{D}.recover_sub_pool"], recover, setup, covers=["actor", "process", "actors: body reached", "created again", "destroyed meanwhile"], need=12),
    Case("loss", [f"{C}.process_sub_pool_lost"], lost, setup, covers=["actor", "process", "False"], need=4),
    Case("monitor", [f"{C}.monitor_sub_pools"], monitor, setup, covers=["monitor: body reached", "sub pools: body reached", "lost", "alive", "removed", "callback fails", "waiters released", "ended"], need=50),
    Case("waiting for recovery", [f"{C}.handle_control_command"], waiting, setup, covers=["waits", "nothing to wait for"], need=10),
    Case("appended pools", [f"{D}.append_sub_pool"], appended, setup, covers=["appended", "failed"], need=10),
    Case("start of the monitor", [f"{C}.start_monitor"], begin, setup, covers=["started", "not started"], need=4),
    *pools.LIVE,
    *pools.MADE,
    *asking.RECOVERED,
    *asking.HANDED["wait_actor_pool_recovered"],
]

ASSUMPTIONS = [
    "is_sub_pool_alive tells whether the process of a pool runs; a process that is started gets the address of the one it replaces",
    "a pool is not removed while it is being recovered itself",
    "what is allocated is known with the message that has created it (C08, C10), and creating an actor by it gives the actor its class, id and arguments (C08, C03)",
]
