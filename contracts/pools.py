"""Making and stopping pools: cases that several properties depend on.

The configuration is seen through its contract (C11); a pool is made of it with its own
entries, all sub pools are started, made known and watched, for any number of them.
"""

from .base import *  # noqa: F401,F403

P = "xoscar.backends.pool"
I = "xoscar.backends.indigen.pool"
MSG = "xoscar.backends.message"
Z = z3.IntSort()
BASE, MAIN, SUB, INDIGEN = f"{P}:AbstractActorPool", f"{P}:MainActorPoolBase", f"{P}:SubActorPoolBase", f"{I}:MainActorPool"


def every(vm, name, f, classes=("AbstractActorPool", "ActorPoolBase", "MainActorPoolBase", "SubActorPoolBase")):
    for c in classes:
        vm.contracts[f"{P}:{c}.{name}"] = f
    if "MainActorPoolBase" in classes:
        vm.contracts[f"{I}:MainActorPool.{name}"] = f


def args(a):
    """positional arguments without the class or the pool"""
    return [x for x in a if not isinstance(x, IClass)]


# ---------------------------------------------------------------- processes of sub pools


def alive(vm):
    dead = vm.choose(2, "ended") == 1
    code = vm.fresh_int("return code") if dead else None

    class Process(Host):
        def p_returncode(self, vm):
            return code

    p = new(vm, I, "MainActorPool")
    r = acall(vm, p, "is_sub_pool_alive", Process())
    vm.cover("ended" if dead else "running")
    vm.prove("a process is alive until it has a return code, whichever", vm.truth(r) == (not dead))


def ready(vm):
    n = vm.fresh_int("tasks", 0).t
    PR, AD = z3.Function("process of", Z, U), z3.Function("addresses of", Z, U)
    fails = vm.choose(2, "fails") == 1
    bad = vm.fresh_int("failing").t
    vm.assume(z3.And(0 <= bad, bad < n) if fails else bad == -1)
    at = [None]

    def task(i):
        def run(vm):
            if vm.branch(i == bad):
                at[0] = "failed"
                raise PyExc(SExc("cannot start", BaseException))
            return (SVal(PR(i), "process"), SVal(AD(i), "addresses"))

        return Awaitable(run, "task")

    tasks = SSeq("tasks", n, task)
    seq = lambda f, i: SSeq("collected", i, lambda k: SVal(f(k)))

    def havoc_(vm, fr, it, i):
        vm.assume(z3.Or(bad == -1, i <= bad))
        ls = fr.locals
        if "processes" not in ls or "ext_addresses" not in ls:
            raise Unsupported("results are collected in another way")
        ls["processes"], ls["ext_addresses"] = seq(PR, i), seq(AD, i)
        if "error" in ls and ls["error"] is None:
            ls["error"] = None
        for x in ("process", "address"):
            if x in ls:
                ls[x] = vm.opaque(x)

    def inv(vm, fr, it, i):
        out = []
        for x, f in (("processes", PR), ("ext_addresses", AD)):
            s = fr.locals.get(x)
            if isinstance(s, VList):
                out.append((f"{x} so far", i == len(s.items)))
                continue
            k = vm.fresh_int("k").t
            vm.assume(z3.And(0 <= k, k < i))
            out.append((f"{x} so far", z3.And(s.length == i, vm.term(s.elem(k)) == f(k))))
        return out

    vm.loops.append(LoopSpec("tasks", lambda vm, st, fr, it: it is tasks or getattr(it, "name", "") == "tasks", havoc_, inv, keeps=("error",)))
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(vm.lookup(I, "MainActorPool"), "wait_sub_pools_ready"), [tasks], {})))
    if at[0]:
        vm.cover("failed")
        vm.prove("a pool that cannot be started is an error", e is not None)
        return
    if fails:
        raise Unsupported("the failing task was not reached")
    vm.cover("ready")
    vm.prove("no error", e is None, f"{e!r}")
    k = vm.fresh_int("any").t
    vm.assume(z3.And(0 <= k, k < n))
    at_ = lambda s: s if isinstance(s, SSeq) else None
    vm.prove("the processes and addresses in the order of the pools", isinstance(r, tuple) and len(r) == 2 and all(at_(x) for x in r)
             and z3.And(r[0].length == n, r[1].length == n, vm.term(r[0].elem(k)) == PR(k), vm.term(r[1].elem(k)) == AD(k)))


def start_pool(vm):
    conf, index, python = vm.opaque("configuration"), vm.opaque("index"), vm.opaque("python")
    got, out = [], vm.opaque("process and addresses")
    every(vm, "_create_sub_pool_from_parent", lambda vm, a, k: (got.append({**dict(zip(("actor_pool_config", "process_index", "start_python"), args(a))), **k}), Awaitable(lambda vm: out))[1])
    r = vm.await_(vm.call(vm.getattr(vm.lookup(I, "MainActorPool"), "start_sub_pool"), [conf, index, python], {}))
    vm.cover("started")
    vm.prove("started once, with its configuration and index", got == [{"actor_pool_config": conf, "process_index": index, "start_python": python}])
    vm.prove("the process and its addresses are given back", r is out)


# ---------------------------------------------------------------- addresses


class Text(Host):
    """text put together of parts"""

    def __init__(self, *parts):
        self.parts = []
        for p in parts:
            for q in p.parts if isinstance(p, Text) else [p]:
                if isinstance(q, str) and self.parts and isinstance(self.parts[-1], str):
                    self.parts[-1] += q
                elif q != "" or not isinstance(q, str):
                    self.parts.append(q)

    def vm_fstr(self, vm, parts):
        return Text(*parts)

    def vm_str(self, vm):
        return self

    def vm_binop(self, vm, op, b):
        return Text(self, b)

    def vm_rbinop(self, vm, op, a):
        return Text(a, self)

    def vm_type(self, vm):
        return str

    def vm_truth(self, vm):
        return True


def equal(vm, x, *parts):
    """x is this text"""
    y = Text(*parts)
    if not isinstance(x, Text) or len(x.parts) != len(y.parts):
        return z3.BoolVal(False)
    return conj([as_z3(p == q) if isinstance(p, str) or isinstance(q, str) else same(vm, p, q) for p, q in zip(x.parts, y.parts)])


def addresses(vm):
    """the main pool gets the first address, sub pools the others in order"""
    n = vm.fresh_int("sub pools", 0).t
    has_ports, with_port = vm.choose(2, "ports given") == 1, vm.choose(2, "the address has a port") == 1
    schemes = vm.choose(3, "schemes: not given, given, empty")
    m = vm.fresh_int("ports", 1).t
    PORT, NAMED, SCHEME = z3.Function("port", Z, Z), z3.Function("has a scheme", Z, z3.BoolSort()), {}
    host, main = Text(vm.opaque("host", "str")), vm.fresh_int("main port", 0)

    class Number(Text):
        def vm_int(self, vm, a, k):
            return main

    class Address(Text):
        def vm_contains(self, vm, x):
            if x != ":":
                raise Unsupported("in address")
            return with_port

        def m_rsplit(self, vm, a, k):
            if list(a) != [":", 1]:
                raise Unsupported("rsplit")
            return VList([host, Number(vm.opaque("digits"))] if with_port else [host])

        def m_rpartition(self, vm, a, k):
            if list(a) != [":"]:
                raise Unsupported("rpartition")
            return (host, ":", Number(vm.opaque("digits"))) if with_port else ("", "", host)

    def scheme(i):
        key = z3.simplify(z3.IntVal(i) if isinstance(i, int) else i)
        if not vm.branch(NAMED(key)):
            return None
        return Text(SVal(z3.Function("scheme", Z, U)(key), "str"))

    address = Address(host) if not with_port else Address(vm.opaque("host and port", "str"))
    ports = SSeq("ports", m, lambda i: SInt(PORT(i))) if has_ports else None
    kinds = [None, SSeq("schemes", n + 1, scheme), VList([])][schemes]
    vm.stubs["itertools.repeat"] = Stub(lambda vm, a, k: SSeq("repeat", n + 2, lambda i: a[0]), "repeat")
    cls = vm.lookup(I, "MainActorPool")
    given = {x: y for x, y in (("ports", ports), ("schemes", kinds)) if y is not None or vm.choose(2, f"{x} left out or None")}
    r, e = attempt(vm, lambda: vm.call(vm.getattr(cls, "get_external_addresses"), [address], {"n_process": SInt(n), **given}))
    right = (m == n if with_port else m == n + 1) if has_ports else z3.BoolVal(True)
    if e is not None:
        vm.cover("refused")
        vm.prove("refused only if the ports are not as many as the pools", z3.Not(right))
        vm.prove("with a ValueError", exc_is(vm, e, ValueError), f"{e!r}")
        return
    vm.prove("ports must be as many as pools that have none yet", right)
    if not isinstance(r, (SSeq, VList)) or isinstance(r, VList):
        raise Unsupported("addresses are not made one by one")
    vm.cover("made")
    vm.prove("one address for every pool", r.length == n + 1)
    i = vm.fresh_int("pool").t
    vm.assume(z3.And(0 <= i, i <= n))
    first = vm.branch(i == 0)
    if with_port and first:
        port = main
    elif has_ports:
        port = SInt(PORT(i - 1 if with_port else i))
    else:
        port = 0
    pre = scheme(i) if schemes == 1 else None
    x = r.elem(i)
    want = ([pre, "://"] if pre is not None else []) + [host, ":"]
    if isinstance(x, str) or not isinstance(x, Text):
        vm.prove("an address is a text of scheme, host and port", False)
        return
    got = Text(*[str(p) if isinstance(p, int) else p for p in x.parts])
    alike = lambda port: equal(vm, got, *want, port if not isinstance(port, int) else str(port))
    vm.prove("the scheme, the host and the port of the pool", alike(port))


def internal(vm):
    """internal addresses differ if indexes differ"""
    a, b = vm.fresh_int("index", 0), vm.fresh_int("another index", 0)
    cls = vm.lookup(I, "MainActorPool")
    x, y = (vm.call(vm.getattr(cls, "gen_internal_address"), [Index(vm, i), vm.opaque("external")], {}) for i in (a, b))
    vm.cover("made")
    ok = isinstance(x, Text) and isinstance(y, Text)
    vm.prove("made of the index", ok and conj([z3.BoolVal(len([p for p in x.parts if not isinstance(p, str)]) == 1)]))
    if ok:
        px, py = x.parts, y.parts
        vm.prove("a socket file of the pool", isinstance(px[0], str) and px[0].startswith("unixsocket:///"))
        vm.prove("indexes that differ give addresses that differ", len(px) == len(py) and z3.Implies(conj([p == q if isinstance(p, str) else same(vm, p, q) for p, q in zip(px, py)]), a.t == b.t))


def Index(vm, i):
    return Text(i)


# ---------------------------------------------------------------- a pool made of its configuration


class Config(Host):
    """the configuration of any number of pools, by its contract (C11)"""

    def __init__(self, vm):
        self.n = vm.fresh_int("pools", 1).t
        self.INDEX, self.EXT = z3.Function("index of pool", Z, U), z3.Function("addresses of pool", U, U)
        self.mapping, self.comm, self.proxy = vm.opaque("mapping"), vm.opaque("comm"), vm.opaque("proxies")
        self.log = []
        self.confs = {}
        self.FIRST, self.INT, self.LABEL, self.ENV, self.MODULES = (z3.Function(x, U, U) for x in ("first address", "internal", "label of", "env of", "modules of"))
        self.LEN = z3.Function("number of addresses of", U, Z)
        self.ADDR = z3.Function("address of pool", U, Z, U)
        self.known = z3.Function("has pool", U, z3.BoolSort())

    def conf(self, vm, t):
        key = z3.simplify(t).get_id()
        if key not in self.confs:
            vm.assume(self.LEN(t) >= 1)
            ext = SSeq("addresses", self.LEN(t), lambda k: SVal(z3.simplify(self.ADDR(t, k)), "str"))
            self.confs[key] = (t, VDict([["label", SVal(self.LABEL(t))], ["internal_address", SVal(self.INT(t), "str")], ["external_address", ext], ["env", SVal(self.ENV(t))],
                                         ["modules", None], ["suspend_sigint", None], ["use_uvloop", None], ["logging_conf", None], ["kwargs", VDict()]]))
        return self.confs[key][1]

    def m_get_pool_config(self, vm, a, k):
        return self.conf(vm, vm.term(a[0]))

    def m_get_process_indexes(self, vm, a, k):
        return SSeq("indexes", self.n, lambda i: SVal(z3.simplify(self.INDEX(i)), "index"))

    def p_external_to_internal_address_map(self, vm):
        self.log.append("mapping")
        return self.mapping

    def p_n_pool(self, vm):
        return SInt(self.n)

    def m_get_comm_config(self, vm, a, k):
        return self.comm

    def m_get_proxy_config(self, vm, a, k):
        return self.proxy


def routers(vm):
    """calls of the constructor of Router"""
    made = []
    names = ("external_addresses", "local_address", "mapping", "comm_config", "proxy_config")

    class R(Host):
        def vm_call(self, vm, a, k):
            made.append({**dict(zip(names, a)), **k})
            made[-1]["router"] = r = vm.opaque("router")
            return r

    vm.overrides.setdefault(P, {})["Router"] = R()
    LOCAL = z3.Function("local address", U, U)
    local = lambda vm, a, k: SVal(LOCAL(vm.term(a[0])), "str")
    vm.contracts["xoscar.backends.communication.dummy:gen_local_address"] = local
    vm.overrides[P]["gen_local_address"] = Stub(local, "gen_local_address")
    return made, LOCAL


def names_of(r):
    ks = list(r)
    return ks


def parse(vm):
    """what a pool is made of: its own entries of the configuration"""
    which = ["sub", "main"][vm.choose(2, "pool")]
    config, index = Config(vm), vm.opaque("index", "index")
    made, LOCAL = routers(vm)
    given = VDict([["actor_pool_config", config], ["process_index", index]])
    pid, down, back = vm.opaque("pid"), vm.opaque("on down"), vm.opaque("on recover")
    some = vm.choose(2, "options given") == 1
    mode = vm.opaque("auto recover")
    if some and which == "sub":
        given.items.append(["main_pool_pid", pid])
    if some and which == "main":
        given.items += [["auto_recover", mode], ["on_process_down", down], ["on_process_recover", back]]
    kw = VDict()
    cls = vm.lookup(*((I, "MainActorPool") if which == "main" else (P, "SubActorPoolBase")))
    r, e = attempt(vm, lambda: vm.call(vm.getattr(cls, "_parse_config"), [given, kw], {}))
    vm.cover(which)
    vm.prove("no error", e is None, f"{e!r}")
    if e is not None:
        return
    r = r if isinstance(r, VDict) else kw
    g = {k: v for k, v in r.items}
    c = config.conf(vm, index.t)
    own = {k: v for k, v in c.items}
    vm.prove("the configuration and the index of the pool", g.get("config") is config and g.get("process_index") is index)
    vm.prove("its label, environment and internal address", g.get("label") is own["label"] and g.get("env") is own["env"] and g.get("internal_address") is own["internal_address"])
    vm.prove("its first external address", same(vm, g.get("external_address"), own["external_address"].elem(0)))
    vm.prove("one router", len(made) == 1 and g.get("router") is made[0]["router"])
    if len(made) == 1:
        m = made[0]
        vals = list(m.values())
        vm.prove("for its external addresses", m.get("external_addresses", vals[0]) is own["external_address"])
        vm.prove("its local address", vm.term(vals[1]) == LOCAL(index.t))
        vm.prove("and the addresses, options and proxies that are configured", config.mapping in vals and m.get("comm_config") is config.comm and m.get("proxy_config") is config.proxy)
    if which == "main":
        vm.prove("what is said of recovery", (g.get("auto_recover") is mode and g.get("on_process_down") is down and g.get("on_process_recover") is back) if some
                 else (g.get("auto_recover") == "actor" and g.get("on_process_down") is None and g.get("on_process_recover") is None))
    else:
        vm.prove("the process of the main pool", g.get("main_pool_pid") is (pid if some else None))
        vm.prove("the main pool is that of the first index", vm.term(g.get("main_address")) == config.ADDR(config.INDEX(0), 0))
    vm.prove("nothing else", set(g) == {"config", "process_index", "label", "env", "internal_address", "external_address", "router"}
             | ({"auto_recover", "on_process_down", "on_process_recover"} if which == "main" else {"main_address", "main_pool_pid"}))


def surplus(vm):
    config, index = Config(vm), vm.opaque("index", "index")
    routers(vm)
    given = VDict([["actor_pool_config", config], ["process_index", index], ["unknown", 1]])
    r, e = attempt(vm, lambda: vm.call(vm.getattr(vm.lookup(P, "SubActorPoolBase"), "_parse_config"), [given, VDict()], {}))
    vm.cover("refused")
    vm.prove("options that are not known are refused", exc_is(vm, e, TypeError), f"{e!r}")


def sync(vm):
    """a new configuration replaces the old one, and routes follow it"""
    log = []
    config = Config(vm)

    class Own(Host):
        def m_set_mapping(self, vm, a, k):
            log.append(("mapping", a[0]))

    own = Own()

    class Global(Host):
        def m_remove_router(self, vm, a, k):
            vm.prove("its own router is taken out", a[0] is own)
            log.append("out")

        def m_add_router(self, vm, a, k):
            vm.prove("its own router is put back", a[0] is own)
            log.append("in")

    g = Global()

    class R(Host):
        def m_get_instance(self, vm, a, k):
            return g

        def m_get_instance_or_empty(self, vm, a, k):
            return g

    vm.overrides.setdefault(P, {})["Router"] = R()
    cls = ["MainActorPoolBase", "SubActorPoolBase"][vm.choose(2, "pool")]
    p = new(vm, P, cls, _router=own, _config=vm.opaque("old configuration"), external_address=vm.opaque("own", "str"))
    r, e = attempt(vm, lambda: call(vm, p, "_sync_pool_config", config))
    vm.cover("synchronized")
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("the pool has the new configuration", p.attrs["_config"] is config)
    m = [x for x in log if isinstance(x, tuple)]
    vm.prove("its router gets the new addresses", len(m) == 1 and m[0][1] is config.mapping)
    order = [x if isinstance(x, str) else x[0] for x in log]
    vm.prove("routes of the process: without the old addresses, with the new ones", order.count("out") == 1 and order.count("in") == 1 and order == ["out", "mapping", "in"])


def moved_address(vm):
    """servers listen elsewhere than asked for (port 0): the configuration, the pool and its
    router follow"""
    config, index = Config(vm), vm.opaque("index", "index")
    made, LOCAL = routers(vm)
    case = vm.choose(3, "address kept, address moved, internal address is the external one")
    ext, internal, local, found = (vm.opaque(x, "str") for x in ("external", "internal", "local", "where it listens"))
    vm.assume(z3.Distinct(ext.t, internal.t, local.t, found.t))
    if case == 2:
        internal = ext
    conf = config.conf(vm, index.t)
    for kv in conf.items:
        if kv[0] == "external_address":
            kv[1] = VList([ext])
    now = ext if case == 0 else found

    class Server(Host):
        def __init__(self, address):
            self.a = address

        def p_address(self, vm):
            return self.a

    raw = [ext, local] if case == 2 else [ext, internal, local]
    perm = vm.choose(len(raw), "order of the servers")
    raw = raw[perm:] + raw[:perm]
    servers = VList([Server(now if x is ext else x) for x in raw])
    resets = []

    def reset(vm, a, k):
        resets.append(tuple(a))
        for kv in conf.items:
            if kv[0] == "external_address":
                kv[1] = a[1] if isinstance(a[1], VList) else VList([a[1]])

    config.m_reset_pool_external_address = reset
    old_router = vm.opaque("router before")
    kw = VDict([["process_index", index], ["external_address", ext], ["internal_address", internal], ["router", old_router]])
    r, e = attempt(vm, lambda: vm.call(vm.getattr(vm.lookup(P, "ActorPoolBase"), "_update_stored_addresses"), [servers, VList(list(raw)), config, kw], {}))
    vm.note_bounded("a pool with one external address, an internal and a local one")
    vm.cover(["kept", "moved", "both moved"][case])
    vm.prove("no error", e is None, f"{e!r}")
    if e is not None:
        return
    g = {k: v for k, v in kw.items}
    vm.prove("the pool has its servers", g.get("servers") is servers)
    vm.prove("its external address is the one where it listens", vm.term(g["external_address"]) == now.t)
    vm.prove("its internal address too, if it is the same", vm.term(g["internal_address"]) == (found if case == 2 else internal).t)
    vm.prove("the configuration is changed only if the address moved", len(resets) == (0 if case == 0 else 1))
    if case == 0:
        vm.prove("the router stays", g["router"] is old_router or len(made) == 1)
        return
    vm.prove("the configuration gets the new address of this pool", resets[0][0] is index and isinstance(resets[0][1], VList) and len(resets[0][1].items) == 1
             and same(vm, resets[0][1].items[0], found))
    vm.prove("its router is made for the new address", len(made) == 1 and g["router"] is made[0]["router"])
    if len(made) == 1:
        m = list(made[0].values())
        vm.prove("with the new addresses", isinstance(m[0], VList) and len(m[0].items) == 1 and same(vm, m[0].items[0], found))
        vm.prove("its local address, and what is configured", vm.term(m[1]) == LOCAL(index.t) and config.mapping in m and made[0].get("comm_config") is config.comm and made[0].get("proxy_config") is config.proxy)


def servers(vm):
    """one server for every address, of the type of the address, with its options"""
    n = vm.choose(4, "addresses")
    vm.note_bounded("up to three addresses of a pool")
    addrs = [vm.opaque(f"address {i}", "str") for i in range(n)]
    for i in range(n):
        for j in range(i):
            vm.assume(addrs[i].t != addrs[j].t)
    handler, config = vm.opaque("handler"), vm.opaque("options")
    made, types = [], []
    fails = vm.choose(n + 1, "which fails")

    class Type(Host):
        def __init__(self, a):
            self.a = a

        def m_parse_config(self, vm, a, k):
            vm.prove("a server gets the options that are configured", a[0] is config)
            return VDict([["option", self.a]])

        def m_create(self, vm, a, k):
            d = {x: y for x, y in a[0].items}
            made.append(d)
            k = len(made)
            vm.prove("a server listens where it should, with its options", d.get("address") is self.a and d.get("option") is self.a and d.get("handle_channel") is handler)

            def run(vm):
                if fails == k:
                    raise PyExc(SExc("address in use", OSError))
                return Made(self.a)

            return Awaitable(run, "server")

    class Made(Host):
        def __init__(self, a):
            self.a = a

    class Task(Host):
        def __init__(self, aw):
            self.aw, self.done, self.r = aw, False, None

        def vm_await(self, vm):
            if not self.done:
                self.r = vm.await_(self.aw)
                self.done = True
            return self.r

        def m_result(self, vm, a, k):
            if not self.done:
                raise PyExc(SExc("not done", RuntimeError))
            return self.r

    def gather(vm, a, k):
        return Awaitable(lambda vm: VList([vm.await_(x) for x in a]), "gather")

    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: Task(a[0]), "create_task")
    vm.stubs["asyncio.gather"] = Stub(gather, "gather")
    vm.overrides.setdefault(P, {})["get_server_type"] = Stub(lambda vm, a, k: Type(a[0]), "get_server_type")
    cls = vm.lookup(P, "ActorPoolBase")
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(cls, "_create_servers"), [VList(list(addrs)), handler, config], {})))
    if fails:
        vm.cover("failed")
        vm.prove("a server that cannot listen is an error", exc_is(vm, e, OSError), f"{e!r}")
        return
    vm.cover("listening")
    vm.prove("no error", e is None, f"{e!r}")
    vm.prove("the servers in the order of the addresses", isinstance(r, VList) and [getattr(x, "a", None) for x in r.items] == addrs)


def make(vm):
    """a pool is made of its parts: servers first, then it is known where they listen, then
    others can route to it"""
    config, index = Config(vm), vm.opaque("index", "index")
    log = []
    ext, inner, LOCAL = vm.opaque("external", "str"), vm.opaque("internal", "str", truth=True), z3.Function("local address", U, U)
    local = SVal(LOCAL(index.t), "str")
    vm.assume(z3.Distinct(ext.t, inner.t, local.t))
    has = vm.choose(2, "internal address") == 1
    conf = config.conf(vm, index.t)
    modules = ["a", "b"][: vm.choose(3, "modules")]
    for kv in conf.items:
        if kv[0] == "external_address":
            kv[1] = VList([ext])
        if kv[0] == "modules":
            kv[1] = VList(list(modules)) if modules else None
    vm.note_bounded("a pool with one external address and up to two modules")
    router, server_list, found = vm.opaque("router"), vm.opaque("servers"), vm.opaque("where it listens", "str")
    given = VDict([["actor_pool_config", config], ["process_index", index]])

    def parse(vm, a, k):
        a = args(a)
        vm.prove("its options are not lost to the caller", a[0] is not given)
        for x, y in (("config", config), ("process_index", index), ("external_address", ext), ("internal_address", inner if has else None), ("router", vm.opaque("first router"))):
            vm.setitem(a[1], x, y)
        a[0].items.clear()
        return a[1]

    every(vm, "_parse_config", parse)

    def create(vm, a, k):
        a = args(a)
        xs = vm.concrete_list(a[0])
        log.append("servers")
        want = [ext, local] + ([inner] if has else [])
        vm.prove("it listens at its external, its internal and its local address", len(xs) == len(want) and conj([z3.Or(*[vm.term(x) == w.t for x in xs]) for w in want]))
        vm.prove("with the options that are configured", a[2] is config.comm)
        create.handler, create.addresses = a[1], a[0]
        return Awaitable(lambda vm: server_list, "servers")

    every(vm, "_create_servers", create)

    def update(vm, a, k):
        a = args(a)
        log.append("addresses")
        vm.prove("where they listen is kept", a[0] is server_list and a[2] is config and (a[1] is create.addresses or conj([same(vm, x, y) for x, y in zip(vm.concrete_list(a[1]), vm.concrete_list(create.addresses))])))
        vm.setitem(a[3], "router", router)
        vm.setitem(a[3], "servers", server_list)

    every(vm, "_update_stored_addresses", update)

    def globally(vm, a, k):
        log.append("router")
        vm.prove("the process routes by the router with the addresses where it listens", args(a)[0] is router)

    every(vm, "_set_global_router", globally)
    vm.overrides.setdefault(P, {})["gen_local_address"] = Stub(lambda vm, a, k: SVal(LOCAL(vm.term(a[0])), "str"), "gen_local_address")
    vm.overrides[P]["__import__"] = Stub(lambda vm, a, k: log.append(("import", a[0])), "__import__")
    for x in ("globals", "locals"):
        vm.overrides[P][x] = Stub(lambda vm, a, k: VDict(), x)

    class Nothing(Host):
        def vm_call(self, vm, a, k):
            return self

        def m___enter__(self, vm, a, k):
            return self

        def m___exit__(self, vm, a, k):
            return None

    class Types(Host):
        def m_reload_all_lazy_handlers(self, vm, a, k):
            log.append("lazy")

    vm.overrides[P]["_disable_log_temporally"] = Nothing()
    vm.overrides[P]["TypeDispatcher"] = Types()
    made = []

    def init(vm, a, k):
        o = a[0]
        o.attrs["made of"] = dict(k)
        log.append("pool")
        made.append(o)

    every(vm, "__init__", init)
    seen = []
    every(vm, "on_new_channel", lambda vm, a, k: seen.append(tuple(a)) or vm.opaque("handled"))
    cls = vm.lookup(P, "ActorPoolBase")
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(cls, "create"), [given], {})))
    vm.cover("made")
    vm.prove("no error", e is None, f"{e!r}")
    if e is not None:
        return
    vm.prove("one pool, of these parts", made == [r] and r.attrs["made of"].get("servers") is server_list and r.attrs["made of"].get("router") is router and r.attrs["made of"].get("process_index") is index)
    vm.prove("modules are imported, in order, before anything is received", [x[1] for x in log if isinstance(x, tuple)] == modules and (not modules or log.index(("import", modules[-1])) < log.index("servers")))
    rest = [x for x in log if not isinstance(x, tuple) and x != "lazy"]
    vm.prove("routes come after the addresses are known", rest == ["servers", "addresses", "router", "pool"])
    ch = vm.opaque("channel")
    vm.call(create.handler, [ch], {})
    vm.prove("channels go to the pool", len(seen) == 1 and seen[0][0] is r and seen[0][1] is ch)


# ---------------------------------------------------------------- main pools


def main_make(vm):
    """a main pool starts a process for every other pool of the configuration, puts down
    where each listens, watches each under its address, and tells all of them the outcome"""
    config = Config(vm)
    n = config.n
    given_index = vm.choose(2, "index given") == 1
    main = SVal(config.INDEX(0), "index")
    TASK, PR, AD = z3.Function("task for", U, U), z3.Function("process of", Z, U), z3.Function("listens at", Z, U)
    before, after = z3.Function("address before", Z, U), z3.Function("address after", Z, U)
    moved = vm.choose(2, "some address changes") == 1
    log = []
    now = {"start": None, "reset": None, "attach": None}

    def fact(i):
        """indexes are those of different pools"""
        vm.assume(z3.Implies(z3.And(0 < i, i < n), config.INDEX(i) != config.INDEX(0)))

    indexes = SSeq("indexes", n, lambda i: (fact(i if not isinstance(i, int) else z3.IntVal(i)), SVal(z3.simplify(config.INDEX(i)), "index"))[1])
    config.m_get_process_indexes = lambda vm, a, k: indexes

    def externals(vm, a, k):
        f = after if "made" in log else before
        s = SSeq("external addresses", n, lambda i: SVal(z3.simplify(f(i)), "str"))
        s.f = f
        return s

    config.m_get_external_addresses = externals

    class Set(Host):
        def __init__(self, f):
            self.f = f

        def vm_len(self, vm):
            return SInt(n)

        def vm_eq(self, vm, o):
            if not isinstance(o, Set):
                raise Unsupported("comparison of a set of addresses")
            return SBool(z3.BoolVal(self.f is o.f or not moved))

    def make_set(vm, a, k):
        if not a or not hasattr(a[0], "f"):
            raise Unsupported("set of something else than the addresses")
        return Set(a[0].f)

    vm.overrides.setdefault(P, {})["set"] = Stub(make_set, "set")

    class Start(Host):
        pass

    started = []

    def start(vm, a, k):
        d = {**dict(zip(("actor_pool_config", "process_index", "start_python"), args(a))), **k}
        vm.prove("a sub pool is started with the configuration", d["actor_pool_config"] is config)
        s = Start()
        s.index = d["process_index"]
        if now["start"] is not None:
            vm.prove("each pool but the main one is started", z3.And(now["start"] > 0, vm.term(s.index) == config.INDEX(now["start"])))
        return s

    every(vm, "start_sub_pool", start)

    def create_task(vm, a, k):
        if not isinstance(a[0], Start):
            raise Unsupported("task of something else")
        started.append(a[0].index)
        return SVal(TASK(vm.term(a[0].index)), "task")

    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(create_task, "create_task")
    vm.stubs["asyncio.sleep"] = Stub(lambda vm, a, k: Awaitable(lambda vm: None, "sleep"), "sleep")
    count = lambda i: z3.If(i > 1, i - 1, 0)
    lists = {"tasks": lambda k: SVal(TASK(config.INDEX(k + 1)), "task"), "subpool_process_idxes": lambda k: SVal(config.INDEX(k + 1), "index")}

    def havoc_start(vm, fr, it, i):
        fact(i)
        for x, f in lists.items():
            if x not in fr.locals:
                raise Unsupported("what is started is collected in another way")
            fr.locals[x] = SSeq(x, count(i), f)
        if "create_pool_task" in fr.locals:
            fr.locals["create_pool_task"] = vm.opaque("a task")
        started.clear()
        now["start"] = i

    def inv_start(vm, fr, it, i):
        out = []
        if now["start"] is not None and "ready" not in log:
            vm.prove("started once, the main pool not", len(started) == 1 if vm.branch(i > 1) else not started)
        for x, f in lists.items():
            s = fr.locals.get(x)
            if isinstance(s, VList):
                out.append((f"{x} so far", count(i) == len(s.items)))
            else:
                k = vm.fresh_int("k").t
                vm.assume(z3.And(0 <= k, k < count(i)))
                fact(k + 1)
                out.append((f"{x} so far", z3.And(s.length == count(i), vm.term(s.elem(k)) == vm.term(f(k)))))
        return out

    vm.loops.append(LoopSpec("start", lambda vm, st, fr, it: it is indexes, havoc_start, inv_start))

    def wait(vm, a, k):
        t = args(a)[0]
        log.append("ready")
        length = z3.IntVal(len(t.items)) if isinstance(t, VList) else t.length
        vm.prove("all other pools are started, and waited for", length == n - 1)
        if not isinstance(t, VList):
            k = vm.fresh_int("k").t
            vm.assume(z3.And(0 <= k, k < n - 1))
            vm.prove("in the order of the configuration", vm.term(t.elem(k)) == TASK(config.INDEX(k + 1)))
        return Awaitable(lambda vm: (SSeq("processes", n - 1, lambda k: SVal(PR(k + 1), "process")), SSeq("ready addresses", n - 1, lambda k: SVal(AD(k + 1)))), "ready")

    every(vm, "wait_sub_pools_ready", wait)
    resets, attached, told = [], [], []

    def reset(vm, a, k):
        if now["reset"] is not None:
            j = now["reset"] + 1
            vm.prove("what is put down is where this pool listens", z3.And(vm.term(a[0]) == config.INDEX(j), vm.term(a[1]) == AD(j)))
        resets.append(a)

    config.m_reset_pool_external_address = reset

    def havoc_reset(vm, fr, it, i):
        resets.clear()
        now["reset"] = i
        for x in ("process_index", "ext_address"):
            if x in fr.locals:
                fr.locals[x] = vm.opaque(x)

    seen = {"reset": False, "attach": False}

    class Rounds(LoopSpec):
        def __init__(self, key, *a, **k):
            super().__init__(*a, **k)
            self.key = key

        def run(self, vm, st, fr, it):
            seen[self.key] = True
            vm.prove(f"{self.name}: all of them", it.length == n - 1)
            return super().run(vm, st, fr, it)

    def once(got, key):
        return lambda vm, fr, it, i: [] if now[key] is None else [("once in every round", len(got) == 1)]

    vm.loops.append(Rounds("reset", "addresses", lambda vm, st, fr, it: "ready addresses" in it.name and "processes" not in it.name, havoc_reset, once(resets, "reset")))

    class Pool(Host):
        def __init__(self):
            self.own = vm.opaque("own address", "str")

        def p_external_address(self, vm):
            return self.own

        def m_attach_sub_process(self, vm, a, k):
            if now["attach"] is not None:
                j = now["attach"] + 1
                vm.prove("a process is attached at the address of its pool", z3.And(vm.term(a[0]) == after(j), vm.term(a[1]) == PR(j)))
            attached.append((a[0], a[1]))

        def m_handle_control_command(self, vm, a, k):
            T = vm.lookup(MSG, "ControlMessageType")
            m = a[0]
            vm.prove("all pools get the configuration, from the main pool", vm.getattr(m, "control_message_type") is vm.getattr(T, "sync_config") and vm.getattr(m, "content") is config
                     and vm.getattr(m, "address") is self.own)
            told.append(m)
            return Awaitable(lambda vm: None, "control")

    pool = Pool()

    def havoc_attach(vm, fr, it, i):
        attached.clear()
        now["attach"] = i
        for x in ("addr", "proc"):
            if x in fr.locals:
                fr.locals[x] = vm.opaque(x)

    vm.loops.append(Rounds("attach", "attach", lambda vm, st, fr, it: "processes" in it.name, havoc_attach, once(attached, "attach")))

    def make(vm, a, k):
        d = {x: y for x, y in args(a)[0].items}
        vm.prove("the main pool is made when the others are ready", "ready" in log and (not given_index or True))
        vm.prove("under its index, of the configuration", d.get("actor_pool_config") is config and vm.term(d.get("process_index")) == config.INDEX(0) and d.get("auto_recover") == "process")
        log.append("made")
        return Awaitable(lambda vm: pool, "pool")

    vm.contracts[f"{P}:ActorPoolBase.create"] = make
    ids = lambda vm, a, k: vm.opaque("new id", "bytes")
    for m in ("xoscar._utils", "xoscar.utils", MSG):
        vm.contracts[f"{m}:new_message_id"] = ids
    given = VDict([["actor_pool_config", config], ["auto_recover", "process"]] + ([["process_index", main]] if given_index else []))
    was = [list(x) for x in given.items]
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(vm.lookup(P, "MainActorPoolBase"), "create"), [given], {})))
    vm.cover("made")
    vm.prove("no error", e is None, f"{e!r}")
    if e is not None:
        return
    vm.prove("the pool is given back", r is pool)
    vm.prove("others listen: put down and watched", z3.Or(n == 1, z3.BoolVal(seen["reset"] and seen["attach"])))
    vm.prove("the options of the caller stay", given.items == was)
    vm.prove("if an address moved, all pools are told", (len(told) == 1) if moved else len(told) <= 1)


# ---------------------------------------------------------------- the end of pools


def stop_one(vm):
    """a sub pool that is stopped gets the chance to stop itself, and its process ends"""
    force = vm.choose(2, "force") == 1
    how = 0 if force else vm.choose(4, "stops itself, hangs, connection is lost, server closed")
    limit = vm.opaque("timeout") if vm.choose(2, "timeout given") else None
    if limit is not None:
        vm.assume(limit.t != vm.term(None))
    address, process = vm.opaque("address", "str"), vm.opaque("process")
    log = []

    def kill(vm, a, k):
        d = {**dict(zip(("process", "force"), args(a)[1:])), **k}
        vm.prove("it is the process of this pool", d["process"] is process)
        log.append(("kill", bool(d.get("force", False))))
        return Awaitable(lambda vm: None, "kill")

    every(vm, "kill_sub_pool", kill)

    def ask(vm, a, k):
        dest, m = args(a)[-2:]
        T = vm.lookup(MSG, "ControlMessageType")
        vm.prove("the pool is asked to stop", vm.term(dest) == address.t and vm.getattr(m, "control_message_type") is vm.getattr(T, "stop") and vm.term(vm.getattr(m, "address")) == address.t)

        def run(vm):
            log.append("asked")
            if how >= 2:
                raise PyExc(SExc("lost", ConnectionError) if how == 2 else vm.call(vm.lookup("xoscar.errors", "ServerClosed"), [], {}))

        return Awaitable(run, "ask")

    every(vm, "call", ask)
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: a[0], "create_task")

    def wait_for(vm, a, k):
        t = a[1] if len(a) > 1 else k.get("timeout")
        vm.prove("it is not waited for without end", t is not None and (limit is None or t is limit))

        def run(vm):
            if how == 1:
                log.append("asked")
                raise PyExc(asyncio_timeout(vm))
            return vm.await_(a[0])

        return Awaitable(run, "wait_for")

    vm.stubs["asyncio.wait_for"] = Stub(wait_for, "wait_for")
    ids = lambda vm, a, k: vm.opaque("new id", "bytes")
    for m in ("xoscar._utils", "xoscar.utils", MSG):
        vm.contracts[f"{m}:new_message_id"] = ids
    p = new(vm, I, "MainActorPool", external_address=vm.opaque("own", "str"))
    r, e = attempt(vm, lambda: acall(vm, p, "stop_sub_pool", address, process, limit, force=force))
    vm.cover(["stops itself", "hangs", "lost", "closed"][how] if not force else "forced")
    vm.prove("no error", e is None, f"{e!r}")
    kills = [x for x in log if isinstance(x, tuple)]
    vm.prove("the process is ended once", len(kills) == 1)
    if len(kills) == 1:
        vm.prove("by force if asked for, or if it does not stop itself", kills[0][1] == (force or how > 0))
    vm.prove("it is asked first, unless forced", force or log[:1] == ["asked"])


def asyncio_timeout(vm):
    import asyncio

    return SExc("timeout", asyncio.TimeoutError)



LIVE = [
    Case("liveness of a process", [f"{INDIGEN}.is_sub_pool_alive"], alive, covers=["ended", "running"], need=2),
    Case("pools ready", [f"{INDIGEN}.wait_sub_pools_ready"], ready, covers=["ready", "failed", "tasks: body reached"], need=6),
    Case("start of a pool", [f"{INDIGEN}.start_sub_pool"], start_pool, covers=["started"], need=2),
]
CONFIGURED = [
    Case("addresses of pools", [f"{INDIGEN}.get_external_addresses"], addresses, covers=["made", "refused"], need=12),
    Case("internal addresses", [f"{INDIGEN}.gen_internal_address"], internal, covers=["made"], need=3),
    Case("what a pool is made of", [f"{BASE}._parse_config", f"{MAIN}._parse_config", f"{SUB}._parse_config"], parse, covers=["main", "sub"], need=30),
    Case("unknown options", [f"{BASE}._parse_config"], surplus, covers=["refused"], need=1),
    Case("new configuration in use", [f"{BASE}._sync_pool_config"], sync, covers=["synchronized"], need=5),
    Case("where servers listen", [f"{P}:ActorPoolBase._update_stored_addresses"], moved_address, covers=["kept", "moved", "both moved"], need=30),
    Case("servers", [f"{P}:ActorPoolBase._create_servers"], servers, covers=["listening", "failed"], need=10),
    Case("pool", [f"{P}:ActorPoolBase.create"], make, covers=["made"], need=20),
]
MADE = [
    Case("main pool", [f"{MAIN}.create"], main_make, covers=["made", "start: body reached", "addresses: body reached", "attach: body reached"], need=30),
    Case("a sub pool is stopped", [f"{MAIN}.stop_sub_pool"], stop_one, covers=["stops itself", "hangs", "lost", "closed", "forced"], need=30),
]
CASES = LIVE + CONFIGURED + MADE
ASSUMPTIONS = []
