"""C12: routing picks the right address, proxy and live client.

Mappings and proxy tables are arbitrary dicts; addresses are arbitrary texts.
"""

from .base import *  # noqa: F401,F403
from . import context as asking
from . import pools

M = "xoscar.backends.router"
HOST = z3.Function("host of", U, U)
TYPE = z3.Function("client type of", U, U)
TRUE = z3.Function("truthy", U, z3.BoolSort())
LOCAL = z3.Function("as text", U, U)


def text(vm, t):
    """an address"""

    def split(vm, a, k):
        if a and a[0] == ":" and len(a) == 2 and a[1] == 1:
            return VList([text(vm, HOST(t)), SVal(z3.Function("port of", U, U)(t), "str")])
        raise Unsupported("another way to take an address apart")

    def rsplit(vm, a, k):
        # the part before the last colon is that before the first one (assumption on hosts)
        return split(vm, a, k)

    def part(vm, a, k):
        return (text(vm, HOST(t)), ":", SVal(z3.Function("port of", U, U)(t), "str"))

    return SVal(z3.simplify(t), "str", split=Stub(split, "split"), rsplit=Stub(rsplit, "rsplit"), partition=Stub(part, "partition"))


def addr(vm, name="address"):
    a = vm.opaque(name, "str")
    vm.assume(z3.And(TRUE(a.t), a.t != vm.term("*"), a.t != vm.term(None)))
    return text(vm, a.t)


def addr_map(vm, name):
    """dict from addresses to addresses"""
    m = Map(vm, name, wrap=lambda t: text(vm, t), keywrap=lambda t: text(vm, t))
    return m


def nonempty(vm, m, *keys):
    """addresses in mappings are not None (in-process and internal addresses)"""
    for k in keys:
        vm.assume(z3.Implies(m.has(k), m.val(k) != vm.term(None)))


def router(vm, **kw):
    r = vm.call(vm.lookup(M, "Router"), [VList(), None], {})
    r.own = [addr(vm, "own address") for _ in range(kw.get("own", vm.choose(2, "own address")))]
    r.L, r.Mp, r.P = addr_map(vm, "local mapping"), addr_map(vm, "mapping"), addr_map(vm, "proxies")
    havoc(vm, r, _curr_external_addresses=VList(r.own), _local_mapping=r.L, _mapping=r.Mp, _proxy_config=r.P)
    r.l0, r.m0, r.p0 = r.L.graph(), r.Mp.graph(), r.P.graph()
    return r


def proxy_spec(vm, P, a):
    """(there is a proxy for a, which)"""
    star = vm.term("*")
    ok = lambda k: z3.And(P[0](k), TRUE(P[1](k)), P[1](k) != vm.term(None), P[1](k) != a)
    return z3.Or(ok(a), ok(HOST(a)), ok(star)), z3.If(ok(a), P[1](a), z3.If(ok(HOST(a)), P[1](HOST(a)), P[1](star)))


def get_proxy(vm):
    r = router(vm, own=0)
    a = addr(vm)
    for k in (a.t, HOST(a.t), vm.term("*")):
        nonempty(vm, r.P, k)
    res = call(vm, r, "get_proxy", a)
    some, which = proxy_spec(vm, r.p0, a.t)
    if res is None:
        vm.cover("none")
        vm.prove("no proxy only if none applies", z3.Not(some))
    else:
        vm.cover("proxy")
        vm.prove("a proxy only if one applies", some)
        vm.prove("the address itself goes before its host, its host before the wildcard", vm.term(res) == which)


NEXT = z3.Function("proxy of", U, U)
HAS = z3.Function("has a proxy", U, z3.BoolSort())


def chain(vm):
    """the chain of proxies"""
    r = router(vm, own=0)
    a0 = addr(vm)

    def contract(vm, a, k):
        t = vm.term(a[-1])
        if vm.branch(HAS(t)):
            vm.assume(TRUE(NEXT(t)))
            return SVal(NEXT(t), "str", truth=True)
        return None

    vm.contracts[f"{M}:Router.get_proxy"] = contract
    j, k = z3.Ints("j k")
    C = z3.Function(vm.fresh_name("chain"), z3.IntSort(), U)

    def links(n, last, c=C):
        prev = lambda i: z3.If(i == 0, a0.t, c(i - 1))
        return [
            ("every proxy is the proxy of the one before", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(HAS(prev(j)), c(j) == NEXT(prev(j)))))),
            ("the search goes on from the last one", last == prev(n)),
            # a chain of distinct configured proxies is at most as long as there are proxies
            # configured: the loop ends
            ("no proxy is listed twice", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), c(j) != c(k)))),
        ]

    state = {}

    def havoc_(vm, fr):
        loc = fr.locals
        if not {"proxies", "from_addr"} <= set(loc):
            raise Unsupported("the state of the loop is kept in another way")
        n = vm.fresh_int("proxies", 0).t
        loc["proxies"] = SSeq("proxies", n, lambda i: SVal(C(i), "str"))
        last = vm.opaque("last", "str")
        loc["from_addr"] = last
        for _, c in links(n, last.t):
            vm.assume(c)
        vm.assume(last.t == z3.If(n == 0, a0.t, C(n - 1)))
        vm.assume(z3.Implies(n > 0, z3.And(HAS(a0.t), C(0) == NEXT(a0.t))))
        state["n"] = n

    def inv(vm, fr):
        loc = fr.locals
        p = loc.get("proxies")
        if isinstance(p, VList):
            return [("starts at the address", len(p.items) == 0 and loc["from_addr"] is a0)]
        if not isinstance(p, SSeq):
            raise Unsupported("the state of the loop is kept in another way")
        n = state["n"]
        grown = vm.branch(p.length == n + 1)
        if not grown:
            return [("one proxy more in every round", False)]
        new = vm.term(p.elem(n))
        c = lambda i: z3.If(i == n, new, C(i))
        i = vm.fresh_int("i").t
        vm.assume(z3.And(0 <= i, i < n))
        return links(n + 1, vm.term(loc["from_addr"]), c) + [("the proxies found before stay", vm.term(p.elem(i)) == C(i))]

    vm.loops.append(WhileSpec("chain", lambda vm, st, fr: fr.func.qualname.endswith("get_proxies"), havoc_, inv))
    res = call(vm, r, "get_proxies", a0)
    n = state.get("n")
    if res is None:
        vm.cover("none")
        vm.prove("no list only if there is no proxy", z3.Not(HAS(a0.t)))
    else:
        vm.cover("chain")
        vm.prove("the list is the chain", isinstance(res, SSeq) and n is not None and z3.is_true(z3.simplify(res.length == n)))
        vm.prove("which is not empty", n > 0)
        last = C(n - 1)
        vm.prove("it ends where there is no further proxy or the chain repeats itself",
                 z3.Or(z3.Not(HAS(last)), z3.Exists([j], z3.And(0 <= j, j < n, C(j) == NEXT(last)))))


class Cl(Host):
    def __init__(self, closed=False):
        self.is_closed = closed

    def p_closed(self, vm):
        return self.is_closed


class TypeOf_(Host):
    def __init__(self, vm, t, made, config):
        self.t, self.made, self.config = t, made, config
        self.term_ = t

    def vm_eq(self, vm, o):
        return isinstance(o, TypeOf_) and SBool(self.t == o.t)

    def m_parse_config(self, vm, a, k):
        return self.config

    def m_connect(self, vm, a, k):
        def run(vm):
            self.made.append((self.t, list(a), dict(k)))
            if vm.choose(2, "connecting fails"):
                raise PyExc(self.err)
            return self.client

        return Awaitable(run, "connect")


def clients(vm, r):
    made = []
    config = VDict([["x", vm.opaque("option")]]) if vm.choose(2, "the client type has options") else None
    client, err = Cl(), SExc("connection error", BaseException)

    def type_of(vm, a, k):
        t = TypeOf_(vm, TYPE(vm.term(a[0])), made, config)
        t.client, t.err = client, err
        return t

    vm.overrides.setdefault(M, {})["get_client_type"] = Stub(type_of, "get_client_type")
    return made, config, client, err


class Lock(Host):
    def __init__(self, log):
        self.log = log

    def m___aenter__(self, vm, a, k):
        return Awaitable(lambda vm: self.log.append("lock"), "lock")

    def m___aexit__(self, vm, a, k):
        return Awaitable(lambda vm: self.log.append("unlock"), "unlock")


class Local(Host):
    """threading.local(): what this thread has stored"""

    def __init__(self, **kw):
        self.d = kw

    def vm_getattr(self, vm, n):
        if n in self.d:
            return self.d[n]
        raise PyExc(AttributeError(n))

    def vm_hasattr(self, vm, n):
        return n in self.d

    def vm_setattr(self, vm, n, v):
        self.d[n] = v


def base(vm):
    vm.stubs["threading.local"] = Stub(lambda vm, a, k: Local(), "local")
    vm.stubs["asyncio.Lock"] = Stub(lambda vm, a, k: Lock([]), "Lock")


def announced(vm, how):
    """the proxies that were announced: (argument, last one)"""
    last = addr(vm, "last proxy")
    if how < 2:
        return (None, VList())[how], last
    as_tuple, first = vm.opaque("proxies", "tuple"), addr(vm, "first proxy")
    vm.assume(as_tuple.t != vm.term(None))

    def item(vm, k):
        if k == -1:
            return last
        if k == 0:
            return first
        raise Unsupported("another proxy")

    return vm.opaque("list of proxies", "list", truth=True, getitem=item, as_tuple=as_tuple), last


def fresh_cache(vm, r):
    log = []
    havoc(vm, r, _cache_local=Local(lock=Lock(log)))
    return log


def destination(vm):
    """where a new client goes"""
    r = router(vm)
    ext, who = addr(vm, "external address"), vm.opaque("caller")
    made, config, fresh, err = clients(vm, r)
    for m in (r.L, r.Mp):
        nonempty(vm, m, ext.t)
    how = vm.choose(3, "proxies: not given, none, some")
    given, last = announced(vm, how)
    for a in (ext.t, last.t):
        for k in (a, HOST(a), vm.term("*")):
            nonempty(vm, r.P, k)
    log = fresh_cache(vm, r)
    extra = vm.opaque("option of the caller")
    res, e = attempt(vm, lambda: acall(vm, r, "get_client", ext, from_who=who, proxy_addresses=given, option=extra))
    vm.prove("lookups of one thread take turns, and end their turn", log == ["lock", "unlock"], f"{log}")
    vm.prove("one connection is made", len(made) == 1, f"{made}")
    if len(made) != 1:
        return
    t, a, k = made[0]
    own = r.own[0].t if r.own else vm.term(None)
    some_l, p_l = proxy_spec(vm, r.p0, last.t)
    some_e, p_e = proxy_spec(vm, r.p0, ext.t)
    by_proxy = z3.If(some_l, p_l, last.t) if how == 2 else z3.If(z3.And(some_e, p_e != own), p_e, ext.t)
    want = z3.If(r.l0[0](ext.t), r.l0[1](ext.t), z3.If(r.m0[0](ext.t), r.m0[1](ext.t), by_proxy))
    vm.cover("by proxy" if how == 2 else "by table")
    dest = a[0] if a else k.get("dest_address")
    vm.prove("to the in-process address, else the mapped one, else the proxy that applies, else the address itself", vm.term(dest) == want)
    vm.prove("with a client of the kind for that address", t == TYPE(vm.term(dest)))
    vm.prove("with the options", k.get("option") is extra and (k.get("config") is config))
    vm.prove("from the own address", k.get("local_address") is (r.own[0] if r.own else None))
    if e is None:
        vm.cover("connected")
        vm.prove("the new client is returned", res is fresh)
    else:
        vm.cover("failed")
        vm.prove("the error of the connection is raised", e is err)


def cache(vm):
    """two lookups: the second one gets the client of the first exactly if it is for the same
    address, caller and proxies, is meant to be cached, and is still open"""
    r = router(vm, own=0)
    empty = addr_map(vm, "empty")
    havoc(vm, r, _local_mapping=VDict(), _mapping=VDict(), _proxy_config=VDict())
    ext, who = addr(vm, "external address"), vm.opaque("caller")
    made, config, fresh, err = clients(vm, r)
    log = fresh_cache(vm, r)
    first = [ext, who] + list(announced(vm, 2 * vm.choose(2, "proxies")))
    second = list(first)
    differs = vm.choose(4, "the second lookup differs in: nothing, address, caller, proxies")
    if differs == 1:
        second[0] = addr(vm, "other address")
    elif differs == 2:
        second[1] = vm.opaque("other caller")
    elif differs == 3:
        second[2:] = announced(vm, 2)
    if differs in (1, 2):
        vm.assume(first[differs - 1].t != second[differs - 1].t)
    if differs == 3 and first[2] is not None:
        vm.assume(first[2].facets["as_tuple"].t != second[2].facets["as_tuple"].t)
    c1, c2 = vm.choose(2, "first is cached") == 1, vm.choose(2, "second is cached") == 1

    def go(x, cached):
        return attempt(vm, lambda: acall(vm, r, "get_client", x[0], from_who=x[1], cached=cached, proxy_addresses=x[2]))

    res1, e1 = go(first, c1)
    vm.prove("an empty cache answers nothing", len(made) == 1 and (e1 is None) == (res1 is fresh))
    if e1 is None and vm.choose(2, "closed meanwhile"):
        fresh.is_closed = True
        open_ = False
    else:
        open_ = e1 is None
    old, fresh2 = fresh, Cl()
    later = []

    def type_of(vm, a, k):
        t = TypeOf_(vm, TYPE(vm.term(a[0])), later, config)
        t.client, t.err = fresh2, err
        return t

    vm.overrides[M]["get_client_type"] = Stub(type_of, "get_client_type")
    res2, e2 = go(second, c2)
    if open_ and c1 and c2 and differs == 0:
        vm.cover("cached")
        vm.prove("an open client for the same address, caller and proxies is used again", e2 is None and res2 is old and not later)
    else:
        vm.cover("new")
        vm.prove("any other lookup makes a client of its own", len(later) == 1 and (e2 is err or res2 is fresh2))
        if e2 is None and c2:
            res3, e3 = go(second, True)
            vm.cover("again")
            vm.prove("which is used from then on", e3 is None and res3 is fresh2 and len(later) == 1)
            if open_ and c1 and differs:
                res4, e4 = go(first, True)
                vm.prove("without disturbing the other one", e4 is None and res4 is old and len(later) == 1)
    vm.prove("lookups of one thread take turns", log == ["lock", "unlock"] * (len(log) // 2))


def via_type(vm):
    r = router(vm)
    ext, who = addr(vm, "external address"), vm.opaque("caller")
    made, config, fresh, err = clients(vm, r)
    for m in (r.L, r.Mp):
        nonempty(vm, m, ext.t)
    own = z3.Or(*[ext.t == o.t for o in r.own]) if r.own else z3.BoolVal(False)
    # what is local is mapped locally
    for o in r.own:
        vm.assume(r.l0[0](o.t))
    want = TypeOf_(vm, vm.opaque("client type", "type").t, made, config)
    want.client, want.err = fresh, err
    there = vm.choose(3, "cached client: none, open, closed")
    mine = Cl(there == 2) if there else None
    log = []
    havoc(vm, r, _cache_local=Local(lock=Lock(log)))
    if there:
        # the state after a lookup that made this client
        was, want.client = want.client, mine
        acall_ = attempt(vm, lambda: acall(vm, r, "get_client_via_type", ext, want, from_who=who))
        if acall_[1] is not None:
            raise Infeasible()
        want.client = was
        made.clear()
        log.clear()
    cached = vm.choose(2, "from the cache") == 1
    res, e = attempt(vm, lambda: acall(vm, r, "get_client_via_type", ext, want, from_who=who, cached=cached))
    vm.prove("lookups of one thread take turns, and end their turn", log == ["lock", "unlock"], f"{log}")
    if cached and there == 1:
        vm.cover("cached")
        vm.prove("an open client of the cache is returned", e is None and res is mine and not made)
        return
    possible = z3.Or(TYPE(ext.t) == want.t, z3.And(own, TYPE(r.l0[1](ext.t)) == want.t), z3.And(r.m0[0](ext.t), TYPE(r.m0[1](ext.t)) == want.t))
    if not made:
        vm.cover("refused")
        vm.prove("refused only if no address of the pool is of this kind", z3.Not(possible))
        vm.prove("with a ValueError", exc_is(vm, e, ValueError))
        return
    vm.cover("connected")
    t, a, k = made[0]
    dest = vm.term(a[0])
    vm.prove("to an address of the pool", z3.Or(dest == ext.t, z3.And(own, dest == r.l0[1](ext.t)), z3.And(r.m0[0](ext.t), dest == r.m0[1](ext.t))))
    vm.prove("of this kind", z3.And(TYPE(dest) == want.t, t == want.t))
    if e is None:
        vm.prove("the new client is returned", res is fresh)
        if cached:
            n = len(made)
            r3, e3 = attempt(vm, lambda: acall(vm, r, "get_client_via_type", ext, want, from_who=who))
            vm.prove("and used again", e3 is None and r3 is fresh and len(made) == n)
    else:
        vm.prove("the error of the connection is raised", e is err)


def changes(vm):
    """lookups after a change of the router reflect the current state"""
    how = ["add", "remove", "map"][vm.choose(3, "change")]
    r = router(vm, own=1)
    other = router(vm, own=1)
    old = Local(cache=VDict([["key", Cl()]]), lock=Lock([]))
    havoc(vm, r, _cache_local=old)
    x = addr(vm, "any address")
    for m in (r.L, r.Mp, other.L, other.Mp, r.P, other.P):
        nonempty(vm, m, x.t)
    what = {}

    def sel(which):
        return lambda vm, st, fr, it: fr.func.qualname.endswith("remove_router") and getattr(it, "map", None) is which

    def loop(name, mine, theirs, old, attr):
        fact = lambda i: (lambda t: z3.And(old[0](t), z3.Not(z3.And(theirs.has(t), theirs.place_(t) < i))))

        def havoc_(vm, fr, it, i):
            m = r.attrs.get(attr)
            if not isinstance(m, Map):
                raise Unsupported("state kept in another way")
            m.has, m.val, m.changed = fact(i), old[1], True

        def inv(vm, fr, it, i):
            m = r.attrs.get(attr)
            if not isinstance(m, Map):
                raise Unsupported("state kept in another way")
            t = z3.Const(vm.fresh_name("any key"), U)
            theirs.at_key(vm, t)
            theirs.at_place(vm, i - 1)
            g = m.graph()
            return [("exactly the addresses met so far are gone", z3.And(g[0](t) == fact(i)(t), z3.Implies(g[0](t), g[1](t) == old[1](t))))]

        vm.loops.append(LoopSpec(name, sel(theirs), havoc_, inv))

    loop("local addresses", r.L, other.L, r.l0, "_local_mapping")
    loop("mapped addresses", r.Mp, other.Mp, r.m0, "_mapping")
    for m in (other.L, other.Mp):
        m.at_key(vm, x.t)
    if how == "add":
        call(vm, r, "add_router", other)
    elif how == "remove":
        call(vm, r, "remove_router", other)
    else:
        new = addr_map(vm, "new mapping")
        nonempty(vm, new, x.t)
        call(vm, r, "set_mapping", new)
    vm.cover(how)
    vm.prove("clients cached before are forgotten", r.attrs["_cache_local"] is not old and "cache" not in r.attrs["_cache_local"].d)
    vm.prove("the other router is not changed", conj([same_map(vm, other.L.graph(), other.l0), same_map(vm, other.Mp.graph(), other.m0), same_map(vm, other.P.graph(), other.p0)]))
    l, m = (r.l0, r.m0)
    pick = lambda a, b, t: (z3.Or(a[0](t), b[0](t)), z3.If(a[0](t), a[1](t), b[1](t)))
    if how == "add":
        lh, lv = pick(other.l0, l, x.t)
        mh, mv = pick(other.m0, m, x.t)
        ph, pv = pick(other.p0, r.p0, x.t)
    elif how == "remove":
        lh, lv = z3.And(l[0](x.t), z3.Not(other.l0[0](x.t))), l[1](x.t)
        mh, mv = z3.And(m[0](x.t), z3.Not(other.m0[0](x.t))), m[1](x.t)
    else:
        lh, lv = l[0](x.t), l[1](x.t)
        mh, mv = new.has(x.t), new.val(x.t)
    res = call(vm, r, "get_internal_address", x)
    if res is None:
        vm.prove("an address without entry has no internal address", z3.And(z3.Not(lh), z3.Not(mh)))
    else:
        vm.prove("the internal address of the current state, in-process before mapped", z3.And(z3.Or(lh, mh), vm.term(res) == z3.If(lh, lv, mv)))
    if how == "add":
        g = graph(vm, r.attrs["_proxy_config"])
        vm.prove("the proxies of both", z3.And(g[0](x.t) == ph, z3.Implies(ph, g[1](x.t) == pv)))
        vm.prove("the own addresses of both", r.attrs["_curr_external_addresses"].items == r.own + other.own)
    elif how == "remove":
        mine, theirs = r.own[0], other.own[0]
        gone = not r.attrs["_curr_external_addresses"].items
        vm.prove("exactly the own addresses of the other are gone", (mine.t == theirs.t) if gone else mine.t != theirs.t)


def construct(vm):
    """a new router maps its own addresses to the local address"""
    own = SSeq("addresses", vm.fresh_int("addresses", 0).t, lambda i: SVal(z3.Function("own", z3.IntSort(), U)(i), "str"))
    OWN, AT = z3.Function("own", z3.IntSort(), U), z3.Function("place of own", U, z3.IntSort())
    n = own.length
    loc = vm.opaque("local address", "str")
    x = addr(vm, "any address")
    i = z3.Int("i")
    mine = lambda t, k: z3.Exists([i], z3.And(0 <= i, i < k, OWN(i) == t))

    def havoc_(vm, fr, it, k):
        self = fr.locals["self"]
        m = Map(vm, empty=True)
        m.has, m.val = (lambda t: mine(t, k)), (lambda t: loc.t)
        self.attrs["_local_mapping"] = m

    def inv(vm, fr, it, k):
        g = graph(vm, fr.locals["self"].attrs.get("_local_mapping"))
        t = z3.Const("any own key", U)
        return [("the addresses so far are mapped to the local address", z3.And(g[0](t) == mine(t, k), z3.Implies(g[0](t), g[1](t) == loc.t)))]

    vm.loops.append(LoopSpec("own addresses", lambda vm, st, fr, it: fr.func.qualname.endswith("Router.__init__"), havoc_, inv))
    given = vm.choose(2, "tables given") == 1
    m, c, p = addr_map(vm, "mapping"), VDict([["k", "v"]]), VDict([["a", "b"]])
    r = vm.call(vm.lookup(M, "Router"), [own, loc] + ([m, c, p] if given else []), {})
    vm.cover("made")
    g = graph(vm, r.attrs["_local_mapping"])
    vm.prove("exactly the own addresses are in this process", z3.And(g[0](x.t) == mine(x.t, n), z3.Implies(g[0](x.t), g[1](x.t) == loc.t)))
    gm = graph(vm, r.attrs["_mapping"])
    vm.prove("the mapping is the given one", (gm[0](x.t) == m.has(x.t)) if given else z3.Not(gm[0](x.t)))
    vm.prove("so are options and proxies", [r.attrs["_comm_config"].items, r.attrs["_proxy_config"].items] == ([c.items, p.items] if given else [[], []]))
    first = vm.getattr(r, "external_address")
    if vm.branch(n > 0):
        vm.prove("the own address is the first one", vm.term(first) == OWN(0))
    else:
        vm.prove("there is none without addresses", first is None)


CASES = [
    Case("proxy", [f"{M}:Router.get_proxy"], get_proxy, base, covers=["none", "proxy"], need=4),
    Case("chain of proxies", [f"{M}:Router.get_proxies"], chain, base, covers=["none", "chain", "chain: body reached"], need=8),
    Case("destination", [f"{M}:Router.get_client", f"{M}:Router._create_client", f"{M}:Router.get_internal_address", f"{M}:Router.get_proxy", f"{M}:Router._cache", f"{M}:Router._lock"],
         destination, base, covers=["by proxy", "by table", "connected", "failed"], need=60, max_paths=3000),
    Case("cache", [f"{M}:Router.get_client"], cache, base, covers=["cached", "new", "again"], need=60, max_paths=3000),
    Case("client of a kind", [f"{M}:Router.get_client_via_type", f"{M}:Router._get_client_type_to_addresses"], via_type, base, covers=["cached", "refused", "connected"], need=20),
    Case("changes", [f"{M}:Router.add_router", f"{M}:Router.remove_router", f"{M}:Router.set_mapping", f"{M}:Router.get_internal_address"], changes, base, covers=["add", "remove", "map"], need=20),
    Case("new router", [f"{M}:Router.__init__", f"{M}:Router.external_address"], construct, base, covers=["made"], need=6),
    *[c for c in pools.CONFIGURED if c.name in ("what a pool is made of", "new configuration in use", "where servers listen", "pool")],
    *asking.CALLED,
    *asking.ASKED,
]

ASSUMPTIONS = [
    "the host of an address is what is before its first colon (IPv4 addresses and names)",
    "addresses in tables are not None",
    "a list of pairwise different configured proxies is not longer than the number of configured proxies (pigeonhole), thus the search for proxies ends",
    "asyncio.Lock excludes; a thread has its own cache and lock (threading.local)",
]
