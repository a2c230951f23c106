"""C11: pool configuration keeps addresses, indexes and mapping consistent.

A configuration has any number of pools with any number of addresses each.  The invariant
says that the mapping and the pools agree: OWNER(a) and PLACE(a) are the pool and the place
in its list of a mapped address a.
"""

from .base import *  # noqa: F401,F403
from . import context as asking
from . import pools, c08, c14

M = "xoscar.backends.config"
Z = z3.IntSort()
ADDR = z3.Function("address", U, Z, U)
N = z3.Function("number of addresses", U, Z)
INT = z3.Function("internal address", U, U)
LABEL = z3.Function("label", U, U)
OWNER = z3.Function("owner of", U, U)
PLACE = z3.Function("place of", U, Z)
NEW = z3.Function("new address", Z, U)
NEWPLACE = z3.Function("place of new address", U, Z)
RANK = z3.Function("rank", Z, Z)
POS = z3.Function("position", Z, Z)


def text(t):
    return SVal(z3.simplify(t), "str")


class Pools(Map):
    """the configured pools; what is changed of a pool stays changed"""

    def __init__(self, vm):
        super().__init__(vm, "pools", keywrap=lambda t: SVal(t, "index"))
        self.seen = []
        self.vm = vm
        self.wrap = lambda v: v

    def conf(self, t):
        for k, c in self.seen:
            if k.eq(t):
                return c
        c = VDict([["label", SVal(LABEL(t), "optional")], ["internal_address", text(INT(t))],
                   ["external_address", SSeq("addresses", N(t), lambda k: text(ADDR(t, k)))],
                   ["env", None], ["modules", None], ["suspend_sigint", False], ["use_uvloop", False], ["logging_conf", None], ["kwargs", VDict()]])
        self.seen.append((t, c))
        return c

    def find(self, vm, k):
        t = vm.term(k)
        for kk, c in self.added():
            if kk.eq(t):
                return c
        if not vm.branch(self.has(t)):
            return None
        return self.conf(t)

    def added(self):
        return getattr(self, "new", [])

    def vm_setitem(self, vm, k, v):
        t, h = vm.term(k), self.has
        self.changed = True
        self.new = self.added() + [(t, v)]
        self.has = lambda k: z3.Or(k == t, h(k))

    def _pairs(self, vm, f):
        s = self.vm_seq(vm)

        def elem(i):
            x = s.elem(i)
            return f(x, self.conf(vm.term(x)))

        r = SSeq("pools", s.length, elem)
        r.map = self
        return r

    def m_values(self, vm, a, k):
        return self._pairs(vm, lambda x, c: c)

    def m_items(self, vm, a, k):
        return self._pairs(vm, lambda x, c: (x, c))


class Conf:
    pass


def config(vm):
    """any configuration that satisfies the invariant"""
    c = Conf()
    c.obj = vm.call(vm.lookup(M, "ActorPoolConfig"), [], {})
    c.pools, c.map = Pools(vm), Map(vm, "mapping", wrap=text, keywrap=text)
    d = c.obj.attrs.get("_conf")
    if not isinstance(d, VDict) or {k for k, _ in d.items} != {"pools", "mapping", "metrics", "comm", "proxy"}:
        raise Unsupported("the configuration is kept in another way")
    for kv in d.items:
        if kv[0] == "pools":
            kv[1] = c.pools
        elif kv[0] == "mapping":
            kv[1] = c.map
    c.d = d
    c.p0, c.m0 = c.pools.graph(), c.map.graph()
    return c


def listed(t, k):
    return z3.And(0 <= k, k < N(t))


def mapped(vm, c, x):
    """the invariant at a mapped address"""
    o = OWNER(x)
    vm.assume(z3.Implies(c.m0[0](x), z3.And(c.p0[0](o), listed(o, PLACE(x)), ADDR(o, PLACE(x)) == x, c.m0[1](x) == INT(o))))


def configured(vm, c, i, k):
    """the invariant at an address of a configured pool"""
    x = ADDR(i, k)
    vm.assume(z3.Implies(z3.And(c.p0[0](i), listed(i, k)), z3.And(c.m0[0](x), OWNER(x) == i, PLACE(x) == k, c.m0[1](x) == INT(i))))
    vm.assume(z3.Implies(c.p0[0](i), N(i) >= 1))


def new_addresses(vm, c, one, owner=None):
    """addresses that are given: a text or a list; none belongs to another pool"""
    n = z3.IntVal(1) if one else vm.fresh_int("new addresses", 1).t
    at = lambda k: text(NEW(k))
    arg = at(0) if one else SSeq("new addresses", n, at)

    def facts(x):
        """about an address"""
        isnew = z3.And(0 <= NEWPLACE(x), NEWPLACE(x) < n, NEW(NEWPLACE(x)) == x)
        vm.assume(z3.Implies(isnew, z3.Or(z3.Not(c.m0[0](x)), OWNER(x) == owner if owner is not None else z3.BoolVal(False))))
        return isnew

    def at_place(k):
        vm.assume(z3.Implies(z3.And(0 <= k, k < n), NEWPLACE(NEW(k)) == k))

    return arg, n, facts, at_place


def agree(vm, c, addr, size, internal, touched, owner, place):
    """the invariant of the new state, at an arbitrary address and an arbitrary pool"""
    pools, m = c.d.items[0][1], graph(vm, [v for k, v in c.d.items if k == "mapping"][0])
    p = c.pools.graph()
    x = z3.Const(vm.fresh_name("any address"), U)
    mapped(vm, c, x)
    for f in touched:
        f(x, z3.IntVal(0))
    o, k = owner(x), place(x)
    vm.prove("every mapped address is one of a configured pool", z3.Implies(m[0](x), z3.And(p[0](o), 0 <= k, k < size(o), addr(o, k) == x)))
    vm.prove("and mapped to its internal address", z3.Implies(m[0](x), m[1](x) == internal(o)))
    i, k = z3.Const(vm.fresh_name("any pool"), U), vm.fresh_int("any place").t
    vm.assume(z3.And(p[0](i), 0 <= k, k < size(i)))
    configured(vm, c, i, k)
    y = addr(i, k)
    mapped(vm, c, y)
    for f in touched:
        f(y, k)
        f(y, z3.IntVal(0))
    vm.prove("every address of a configured pool is mapped", m[0](y))
    vm.prove("to the internal address of its pool", m[1](y) == internal(i))


def loops(vm, c, idx, n, isnew, at_place, internal, funcs):
    """the loops that map new addresses and those that remove old ones"""
    old = [c.m0]

    def state(vm, fr):
        m = [v for k, v in c.d.items if k == "mapping"][0]
        if not isinstance(m, Map):
            raise Unsupported("the mapping is kept in another way")
        return m

    def adding(i):
        was = old[0]
        return (lambda t: z3.Or(was[0](t), z3.And(isnew(t), NEWPLACE(t) < i))), (lambda t: z3.If(z3.And(isnew(t), NEWPLACE(t) < i), internal(), was[1](t)))

    def removing(i):
        was = c.m0
        return (lambda t: z3.And(was[0](t), z3.Not(z3.And(OWNER(t) == idx, PLACE(t) < i)))), was[1]

    def havoc_(f):
        def g(vm, fr, it, i):
            if f is removing:
                configured(vm, c, idx, i)
                if "internal_address" in fr.locals:
                    fr.locals["internal_address"] = text(moved(i))
            else:
                # what the loop before this one has left
                pass
            m = state(vm, fr)
            m.has, m.val = f(i)
            m.changed = True

        return g

    def moved(i):
        t = INT(idx)
        return z3.If(z3.And(c.m0[0](t), OWNER(t) == idx, 0 <= PLACE(t), PLACE(t) < i), NEW(0), t)

    c.moved = moved

    def inv(f):
        def g(vm, fr, it, i):
            m = state(vm, fr)
            t = z3.Const(vm.fresh_name("any key"), U)
            h, v = f(i)
            mapped(vm, c, t)
            isnew(t)
            last = i - 1
            if f is adding:
                at_place(last)
            else:
                configured(vm, c, idx, last)
                mapped(vm, c, INT(idx))
            out = [("the mapping is up to date so far", z3.And(m.has(t) == h(t), z3.Implies(h(t), m.val(t) == v(t))))]
            if f is removing and "internal_address" in fr.locals:
                out.append(("an internal address that is reset moves with it", vm.term(fr.locals["internal_address"]) == moved(i)))
            return out

        return g

    mine = lambda fr: any(fr.func.qualname.endswith(x) for x in funcs)
    is_new = lambda it: isinstance(it, SSeq) and it.name == "new addresses"
    is_old = lambda it: isinstance(it, SSeq) and it.name == "addresses"

    class Adding(LoopSpec):
        def run(self, vm, st, fr, it):
            m = state(vm, fr)
            old[0] = m.graph()
            return super().run(vm, st, fr, it)

    vm.loops.append(Adding("new addresses", lambda vm, st, fr, it: mine(fr) and is_new(it), havoc_(adding), inv(adding)))
    vm.loops.append(LoopSpec("old addresses", lambda vm, st, fr, it: mine(fr) and is_old(it), havoc_(removing), inv(removing)))


def pool_list(vm, c):
    """what the configuration lists of a pool after a change"""
    return {k: v for k, v in c.pools.seen}


def add(vm):
    c = config(vm)
    idx = vm.opaque("index", "index")
    vm.assume(z3.Not(c.p0[0](idx.t)))
    one = vm.choose(2, "one address") == 1
    arg, n, isnew, at_place = new_addresses(vm, c, one)
    internal, label = vm.opaque("internal", "str"), vm.opaque("label", "optional")
    loops(vm, c, idx.t, n, isnew, at_place, lambda: internal.t, ["add_pool_conf"])
    env, kwargs = vm.opaque("env"), vm.opaque("kwargs", "dict", truth=True)
    call(vm, c.obj, "add_pool_conf", idx, label, internal, arg, env, kwargs=kwargs)
    vm.cover("one" if one else "several")
    new = c.pools.added()
    vm.prove("one pool is added, under its index", len(new) == 1 and new[0][0].eq(idx.t))
    if len(new) != 1 or not isinstance(new[0][1], VDict):
        return
    g = {k: v for k, v in new[0][1].items}
    ext = g.get("external_address")
    if isinstance(ext, VList):
        ext = SSeq("list", z3.IntVal(len(ext.items)), lambda k, items=ext.items: items[0])
    vm.prove("with its label, internal address, environment and options", g.get("label") is label and g.get("internal_address") is internal and g.get("env") is env and g.get("kwargs") is kwargs)
    k = vm.fresh_int("place").t
    vm.assume(z3.And(0 <= k, k < n))
    at_place(k)
    vm.prove("and its addresses in order", z3.And(ext.length == n, vm.term(ext.elem(z3.IntVal(0) if one else k)) == NEW(z3.IntVal(0) if one else k)))
    other = z3.Const("another pool", U)
    vm.prove("other pools stay", z3.Implies(other != idx.t, c.pools.has(other) == c.p0[0](other)))
    is_idx = lambda o: o == idx.t
    agree(vm, c, lambda o, k: z3.If(is_idx(o), NEW(k), ADDR(o, k)), lambda o: z3.If(is_idx(o), n, N(o)), lambda o: z3.If(is_idx(o), internal.t, INT(o)),
          [lambda y, k: isnew(y), lambda y, k: at_place(k)],
          lambda x: z3.If(isnew(x), idx.t, OWNER(x)), lambda x: z3.If(isnew(x), NEWPLACE(x), PLACE(x)))


def remove(vm):
    c = config(vm)
    idx = vm.opaque("index", "index")
    there = vm.choose(2, "configured") == 1
    vm.assume(c.p0[0](idx.t) == there)
    configured(vm, c, idx.t, z3.IntVal(0))
    loops(vm, c, idx.t, z3.IntVal(0), lambda x: z3.BoolVal(False), lambda k: None, None, ["remove_pool_config"])
    r, e = attempt(vm, lambda: call(vm, c.obj, "remove_pool_config", idx))
    if not there:
        vm.cover("refused")
        vm.prove("removing a pool that is not configured is an error", e is not None)
        vm.prove("and changes nothing", conj([same_map(vm, c.map.graph(), c.m0), z3.BoolVal(not c.pools.changed)]))
        return
    vm.cover("removed")
    vm.prove("no error", e is None, f"{e!r}")
    other = z3.Const("a pool", U)
    vm.prove("exactly this pool is gone", c.pools.has(other) == z3.And(c.p0[0](other), other != idx.t))
    agree(vm, c, ADDR, N, INT, [], OWNER, PLACE)


def reset(vm):
    c = config(vm)
    idx = vm.opaque("index", "index")
    vm.assume(c.p0[0](idx.t))
    configured(vm, c, idx.t, z3.IntVal(0))
    one = vm.choose(2, "one address") == 1
    arg, n, isnew, at_place = new_addresses(vm, c, one, idx.t)
    loops(vm, c, idx.t, n, isnew, at_place, lambda: c.moved(N(idx.t)), ["reset_pool_external_address"])
    call(vm, c.obj, "reset_pool_external_address", idx, arg)
    vm.cover("one" if one else "several")
    conf = dict((k, v) for k, v in c.pools.seen)
    mine = [v for k, v in c.pools.seen if k.eq(idx.t)]
    if len(mine) != 1 or c.pools.added():
        raise Unsupported("the pool is replaced by another one")
    g = {k: v for k, v in mine[0].items}
    ext = g["external_address"]
    if isinstance(ext, VList):
        items = ext.items
        vm.prove("the new address", len(items) == 1 and one and vm.term(items[0]).eq(NEW(z3.IntVal(0))))
    else:
        k = vm.fresh_int("place").t
        vm.assume(z3.And(0 <= k, k < n))
        at_place(k)
        vm.prove("the new addresses in order", z3.And(ext.length == n, vm.term(ext.elem(k)) == NEW(k)))
    vm.prove("the label and the number of pools stay", z3.And(vm.term(g["label"]) == LABEL(idx.t), z3.BoolVal(not c.pools.changed)))
    internal = vm.term(g["internal_address"])
    mapped(vm, c, INT(idx.t))
    own = z3.And(c.m0[0](INT(idx.t)), OWNER(INT(idx.t)) == idx.t)
    vm.prove("the internal address stays, unless it was one of the addresses that are replaced", internal == z3.If(own, NEW(0), INT(idx.t)))
    is_idx = lambda o: o == idx.t
    agree(vm, c, lambda o, k: z3.If(is_idx(o), NEW(k), ADDR(o, k)), lambda o: z3.If(is_idx(o), n, N(o)), lambda o: z3.If(is_idx(o), internal, INT(o)),
          [lambda y, k: isnew(y), lambda y, k: at_place(k), lambda y, k: mapped(vm, c, INT(idx.t))],
          lambda x: z3.If(isnew(x), idx.t, OWNER(x)), lambda x: z3.If(isnew(x), NEWPLACE(x), PLACE(x)))


def find_index(vm):
    c = config(vm)
    x = vm.opaque("address", "str")
    mapped(vm, c, x.t)
    c.pools.at_key(vm, OWNER(x.t))
    met = lambda i: z3.Implies(c.m0[0](x.t), c.pools.place_(OWNER(x.t)) >= i)
    j = z3.Int("j")

    def sel(vm, st, fr, it):
        return fr.func.qualname.endswith("get_process_index") and getattr(it, "map", None) is c.pools

    def inv(vm, fr, it, i):
        c.pools.at_place(vm, i - 1)
        configured(vm, c, c.pools.key_(i - 1), PLACE(x.t))
        return [("no pool so far has this address", met(i))]

    vm.loops.append(LoopSpec("search", sel, lambda vm, fr, it, i: vm.assume(met(i)), inv))
    r, e = attempt(vm, lambda: call(vm, c.obj, "get_process_index", x))
    if e is not None:
        vm.cover("unknown")
        vm.prove("refused only if no pool has this address", z3.Not(c.m0[0](x.t)))
        vm.prove("with a ValueError", exc_is(vm, e, ValueError))
        return
    vm.cover("found")
    t = vm.term(r)
    w = vm.fresh_int("its place").t
    vm.prove("the pool found is configured", c.p0[0](t))
    k = z3.Int("k")
    vm.prove("and has this address", z3.Exists([k], z3.And(listed(t, k), ADDR(t, k) == x.t)))


def by_label(vm):
    c = config(vm)
    how = vm.choose(2, "label given")
    label = vm.opaque("label", "label") if how else None
    if how:
        vm.assume(label.t != vm.term(None))
    wanted = lambda i: z3.BoolVal(True) if not how else LABEL(c.pools.key_(i)) == label.t
    n = c.pools.size
    first = lambda i: ADDR(c.pools.key_(i), 0)

    def facts(i):
        c.pools.at_place(vm, i)
        configured(vm, c, c.pools.key_(i), z3.IntVal(0))
        vm.assume(z3.Implies(z3.And(0 <= i, i < n), z3.And(RANK(i + 1) == RANK(i) + z3.If(wanted(i), 1, 0), 0 <= RANK(i), RANK(i) <= i)))
        vm.assume(z3.Implies(z3.And(0 <= i, i < n, wanted(i)), z3.And(POS(RANK(i)) == i, RANK(i) < RANK(n))))

    def kth(i, k):
        vm.assume(z3.Implies(z3.And(0 <= k, 0 <= i, i <= n), (k < RANK(i)) == z3.And(k < RANK(n), POS(k) < i)))
        vm.assume(z3.Implies(z3.And(0 <= k, k < RANK(n)), z3.And(0 <= POS(k), POS(k) < n, wanted(POS(k)), RANK(POS(k)) == k)))

    vm.assume(RANK(0) == 0)
    vm.assume(z3.And(RANK(n) >= 0, RANK(n) <= n))

    def sel(vm, st, fr, it):
        return fr.func.qualname.endswith("get_external_addresses") and getattr(it, "map", None) is c.pools

    def havoc_(vm, fr, it, i):
        if "result" not in fr.locals:
            raise Unsupported("the result is collected in another way")
        facts(i)
        fr.locals["result"] = SSeq("result", RANK(i), lambda k: text(first(POS(k))))

    def inv(vm, fr, it, i):
        r = fr.locals.get("result")
        if isinstance(r, VList):
            return [("empty at first", RANK(i) == len(r.items))]
        k = vm.fresh_int("k").t
        kth(i, k)
        kth(i - 1, k)
        facts(i - 1)
        out = [("as many as match so far", r.length == RANK(i))]
        if vm.branch(z3.And(0 <= k, k < RANK(i))):
            out.append(("the first address of each", vm.term(r.elem(k)) == first(POS(k))))
        return out

    vm.loops.append(LoopSpec("labels", sel, havoc_, inv))
    r = call(vm, c.obj, "get_external_addresses", label) if how else call(vm, c.obj, "get_external_addresses")
    if isinstance(r, VList):
        raise Unsupported("a list of a fixed length")
    vm.cover("label" if how else "all")
    k, j = vm.fresh_int("any place").t, vm.fresh_int("any pool").t
    place, pos = getattr(r, "place", None), None
    if place is None:
        # collected by the loop
        kth(n, k)
        vm.assume(z3.And(0 <= k, k < r.length))
        facts(POS(k))
        vm.prove("every address listed is the first one of a pool with this label", z3.And(0 <= POS(k), POS(k) < n, wanted(POS(k)), vm.term(r.elem(k)) == first(POS(k))))
        vm.assume(z3.And(0 <= j, j < n))
        facts(j)
        kth(n, RANK(j))
        if vm.branch(wanted(j)):
            vm.prove("every pool with this label is listed", z3.And(0 <= RANK(j), RANK(j) < r.length, vm.term(r.elem(RANK(j))) == first(j)))
        k2 = vm.fresh_int("a later place").t
        vm.assume(z3.And(k < k2, k2 < r.length))
        kth(POS(k), k2)
        kth(n, k2)
        vm.prove("in the order of the pools", POS(k) <= POS(k2))
    else:
        raise Unsupported("a filtered list")


def queries(vm):
    c = config(vm)
    idx = vm.opaque("index", "index")
    vm.assume(c.p0[0](idx.t))
    configured(vm, c, idx.t, z3.IntVal(0))
    vm.cover("asked")
    vm.prove("the external address of a pool is its first one", vm.term(call(vm, c.obj, "get_external_address", idx)) == ADDR(idx.t, 0))
    p = call(vm, c.obj, "get_pool_config", idx)
    vm.prove("a pool is found by its index", p is c.pools.conf(idx.t))
    l = call(vm, c.obj, "get_process_indexes")
    k = vm.fresh_int("k").t
    vm.assume(z3.And(0 <= k, k < c.pools.size))
    vm.prove("the indexes are those of the pools in the order of insertion", z3.And(l.length == c.pools.size, vm.term(l.elem(k)) == c.pools.key_(k)) if isinstance(l, SSeq) else False)
    vm.prove("the mapping is that of the configuration", vm.getattr(c.obj, "external_to_internal_address_map") is c.map)
    vm.prove("the configuration as a dict is the configuration", call(vm, c.obj, "as_dict") is c.d)


def fresh(vm):
    given = vm.choose(3, "nothing, empty, with pools")
    pools = VDict([["i", "pool"]])
    d = [None, VDict(), VDict([["pools", pools], ["comm", "comm"]])][given]
    c = vm.call(vm.lookup(M, "ActorPoolConfig"), [] if d is None else [d], {})
    vm.cover("made")
    a = {k: v for k, v in call(vm, c, "as_dict").items}
    vm.prove("what is given is kept", given != 2 or a.get("pools") is pools and a.get("comm") == "comm")
    vm.prove("what is missing is empty", all(isinstance(a.get(k), VDict) and not a[k].items for k in ("pools", "mapping", "metrics", "comm", "proxy") if given != 2 or k not in ("pools", "comm")))
    vm.prove("a given dict is used", d is None or call(vm, c, "as_dict") is d)
    n = vm.getattr(c, "n_pool")
    vm.prove("the number of pools", n == (1 if given == 2 else 0))


def tables(vm):
    c = config(vm)
    for name, get, put in (("comm", "get_comm_config", "add_comm_config"), ("proxy", "get_proxy_config", "add_proxy_config"), ("metrics", "get_metric_configs", "add_metric_configs")):
        old, new = Map(vm, "old " + name), Map(vm, "new " + name)
        for kv in c.d.items:
            if kv[0] == name:
                kv[1] = old
        g0, g1 = old.graph(), new.graph()
        call(vm, c.obj, put, None)
        vm.prove("nothing is added without a table", conj([same_map(vm, graph(vm, call(vm, c.obj, get)), g0)]))
        call(vm, c.obj, put, new)
        x = z3.Const(vm.fresh_name("any key"), U)
        g = graph(vm, call(vm, c.obj, get))
        vm.prove("new entries go before old ones", z3.And(g[0](x) == z3.Or(g0[0](x), g1[0](x)), z3.Implies(g[0](x), g[1](x) == z3.If(g1[0](x), g1[1](x), g0[1](x)))))
        vm.prove("the added table is not changed", same_map(vm, new.graph(), g1))
    k = vm.opaque("address", "str")
    g = graph(vm, call(vm, c.obj, "get_proxy_config"))
    if vm.branch(g[0](k.t)):
        call(vm, c.obj, "remove_proxy", k)
        h = graph(vm, call(vm, c.obj, "get_proxy_config"))
        vm.cover("proxy removed")
        vm.prove("the proxy is gone", z3.Not(h[0](k.t)))
        vm.prove("others stay", same_map(vm, h, g, [k.t]))
    vm.prove("pools and mapping are not touched", not c.pools.changed and not c.map.changed)


def indexes(vm):
    """the generator of process indexes is injective in the process and the count"""
    P = "xoscar.backends.pool"
    pid, got = [vm.fresh_int("pid", 1) for _ in range(2)], []
    count = [vm.fresh_int("count", 0) for _ in range(2)]
    for i in range(2):
        vm.assume(count[i].t < 65536)

        class Count(Host):
            def vm_iter(self, vm):
                return [count[i]]

        cls = vm.lookup(P, "MainActorPoolBase")
        vm.stubs["os.getpid"] = Stub(lambda vm, a, k: pid[i], "getpid")
        cls.ns["_process_index_gen"] = Count()
        g = vm.call(vm.getattr(cls, "process_index_gen"), [vm.opaque("address", "str")], {})
        got += vm.run_gen(g)
    vm.cover("generated")
    vm.prove("one index for one count", len(got) == 2)
    a, b = num(vm, got[0]), num(vm, got[1])
    vm.prove("indexes of different processes, or of different counts, do not coincide", z3.Implies(a == b, z3.And(pid[0].t == pid[1].t, count[0].t == count[1].t)))


C = f"{M}:ActorPoolConfig"
CASES = [
    Case("add", [f"{C}.add_pool_conf"], add, covers=["one", "several", "new addresses: body reached"], need=14),
    Case("remove", [f"{C}.remove_pool_config"], remove, covers=["removed", "refused", "old addresses: body reached"], need=8),
    Case("reset", [f"{C}.reset_pool_external_address"], reset, covers=["one", "several", "new addresses: body reached", "old addresses: body reached"], need=14),
    Case("index of an address", [f"{C}.get_process_index"], find_index, covers=["found", "unknown", "search: body reached"], need=5),
    Case("addresses with a label", [f"{C}.get_external_addresses"], by_label, covers=["label", "all", "labels: body reached"], need=8),
    Case("queries", [f"{C}.get_external_address", f"{C}.get_pool_config", f"{C}.get_process_indexes", f"{C}.external_to_internal_address_map", f"{C}.as_dict"], queries, covers=["asked"], need=5),
    Case("new configuration", [f"{C}.__init__", f"{C}.n_pool"], fresh, covers=["made"], need=9),
    Case("other tables", [f"{C}.add_comm_config", f"{C}.add_proxy_config", f"{C}.add_metric_configs", f"{C}.remove_proxy", f"{C}.get_comm_config", f"{C}.get_proxy_config", f"{C}.get_metric_configs"], tables,
         covers=["proxy removed"], need=10),
    Case("process indexes", ["xoscar.backends.pool:MainActorPoolBase.process_index_gen"], indexes, covers=["generated"], need=2),
    *pools.CONFIGURED,
    pools.MADE[0],
    *[c for c in c08.CASES + c14.CASES if c.name in ("removed pools", "appended pools")],
    *asking.CONFIGURATION,
    *asking.HANDED["get_pool_config"],
]

ASSUMPTIONS = [
    "pools are added under new indexes, with at least one address, none of which another pool has; so are the addresses of a reset",
    "process ids of processes that exist at the same time differ; fewer than 65536 indexes per process",
]
