"""C10: actors are placed where their allocation strategy says.

A configuration has any number of pools with any labels; any number of actors is allocated
at each address.  Of the configuration only its contract (C11) is used.
"""

from .base import *  # noqa: F401,F403
from . import context as asking

M = "xoscar.backends.allocate_strategy"
P = "xoscar.backends.pool"
MSG = "xoscar.backends.message"
Z = z3.IntSort()
IDX = z3.Function("process index", Z, U)
EXT = z3.Function("external address of", U, U)
ALL = z3.Function("external address", Z, U)
LAB = z3.Function("address with the label", U, Z, U)
SZ = z3.Function("allocated at", U, Z)
IDLE = z3.Function("is idle label strategy", U, Z, z3.BoolSort())
LBL = z3.Function("label of allocated", U, Z, U)
MARK = z3.Function("mark of allocated", U, Z, U)
FULL = z3.Function("occupied", U, z3.BoolSort())
WHO = z3.Function("first occupant", U, Z)


def text(t):
    return SVal(z3.simplify(t), "str")


class Config(Host):
    """contract of ActorPoolConfig: the queries that C11 specifies"""

    def __init__(self, vm):
        self.n = vm.fresh_int("pools", 1).t
        self.count = z3.Function("addresses with the label", U, Z)
        self.vm = vm

    def m_get_process_indexes(self, vm, a, k):
        return SSeq("indexes", self.n, lambda i: SVal(IDX(i), "index"))

    def m_get_external_address(self, vm, a, k):
        return text(EXT(vm.term(a[0])))

    def m_get_pool_config(self, vm, a, k):
        t = vm.term(a[0])
        m = vm.fresh_int("addresses", 1).t
        other = z3.Function(vm.fresh_name("further address"), Z, U)
        return VDict([["external_address", SSeq("addresses", m, lambda i: text(z3.If(i == 0, EXT(t), other(i))))], ["label", vm.opaque("label")]])

    def m_get_external_addresses(self, vm, a, k):
        label = a[0] if a else k.get("label")
        if label is None:
            def elem(i):
                vm.assume(ALL(i) == EXT(IDX(i)))
                return text(ALL(i))

            return SSeq("all addresses", self.n, elem)
        t = vm.term(label)
        vm.assume(self.count(t) >= 0)
        r = SSeq("labelled", self.count(t), lambda i: text(LAB(t, i)))
        r.label = t
        return r


def choice(vm):
    """contract of random.choice: any of the items; refuses an empty sequence"""

    def f(vm, a, k):
        s = vm.sequence(a[0])
        if isinstance(s, (VList, tuple)):
            items = s.items if isinstance(s, VList) else s
            if not items:
                raise PyExc(IndexError("empty"))
            return items[vm.choose(len(items), "chosen")]
        if not vm.branch(s.length > 0):
            raise PyExc(IndexError("empty"))
        return s.elem(vm.fresh_int("chosen", 0, s.length - 1).t)

    vm.stubs["random.choice"] = Stub(f, "choice")


def member(x, at, lo, n):
    k = z3.Int("k")
    return z3.Exists([k], z3.And(lo <= k, k < n, at(k) == x))


def simple(vm):
    c = Config(vm)
    choice(vm)
    made = lambda name, *a: vm.call(vm.lookup(M, name), list(a), {})
    kind = vm.choose(6, "strategy")
    addr, label = vm.opaque("address", "str"), vm.opaque("label", "label")
    vm.assume(label.t != vm.term(None))
    i = vm.fresh_int("process index", 0)
    s = [lambda: made("AddressSpecified", addr), lambda: made("MainPool"), lambda: made("Random"), lambda: made("RandomSubPool"), lambda: made("ProcessIndex", i), lambda: made("RandomLabel", label)][kind]()
    alloc = VDict()
    r, e = attempt(vm, lambda: call(vm, s, "get_allocated_address", c, alloc))
    name = s.cls.name
    vm.cover(name if e is None else "no pool: " + name)
    n = c.n
    t = vm.term(r) if e is None else None
    if kind == 0:
        vm.prove("the given address", e is None and t == addr.t)
    elif kind == 1:
        vm.prove("the main pool", e is None and t == EXT(IDX(0)))
    elif kind == 2:
        vm.prove("any pool", e is None and member(t, lambda k: EXT(IDX(k)), 0, n))
    elif kind == 3:
        vm.prove("a sub pool" if e is None else "refused only without sub pools", member(t, lambda k: EXT(IDX(k)), 1, n) if e is None else n <= 1)
    elif kind == 4:
        vm.prove("the pool at the index" if e is None else "refused only if there is none", z3.And(i.t < n, t == EXT(IDX(i.t))) if e is None else i.t >= n)
    else:
        vm.prove("a pool with the label" if e is None else "refused only if there is none", member(t, lambda k: LAB(label.t, k), 0, c.count(label.t)) if e is None else c.count(label.t) <= 0)
    vm.prove("nothing is allocated by asking", len(alloc.items) == 0)


class Occupants(Host):
    """the actors allocated at an address: key -> (strategy, message)"""

    def __init__(self, vm, t):
        self.t = t

    def m_values(self, vm, a, k):
        t = self.t
        cls = vm.lookup(M, "IdleLabel")

        def elem(i):
            if vm.branch(IDLE(t, i)):
                s = vm.call(cls, [SVal(LBL(t, i)), SVal(MARK(t, i))], {})
            else:
                s = vm.call(vm.lookup(M, "MainPool"), [], {})
            return (s, vm.opaque("message"))

        r = SSeq("occupants", SZ(t), elem)
        r.address = t
        return r

    def m_items(self, vm, a, k):
        v = self.m_values(vm, a, k)
        r = SSeq("occupants", v.length, lambda i: (vm.opaque("key"), v.elem(i)))
        r.address = self.t
        return r

    def vm_truth(self, vm):
        return vm.branch(SZ(self.t) > 0)


class Allocated(Map):
    def find(self, vm, k):
        t = vm.term(k)
        return Occupants(vm, t) if vm.branch(self.has(t)) else None


def idle_label(vm):
    c = Config(vm)
    label, mark = vm.opaque("label", "label"), vm.opaque("mark", "mark")
    vm.assume(label.t != vm.term(None))
    s = vm.call(vm.lookup(M, "IdleLabel"), [label, mark], {})
    alloc = Allocated(vm, "allocated")
    n = c.count(label.t)
    at = lambda i: LAB(label.t, i)
    FREE = z3.Int("first idle")
    vm.assume(z3.And(n >= 0, 0 <= FREE, FREE <= n))
    occ = lambda t, k: z3.And(IDLE(t, k), LBL(t, k) == label.t, MARK(t, k) == mark.t)

    def about(t):
        """the definition of occupied"""
        vm.assume(SZ(t) >= 0)
        vm.assume(z3.Implies(z3.Not(alloc.has(t)), SZ(t) == 0))
        vm.assume(z3.Implies(FULL(t), z3.And(0 <= WHO(t), WHO(t) < SZ(t), occ(t, WHO(t)))))

    def occupant(t, k):
        vm.assume(z3.Implies(z3.And(0 <= k, k < SZ(t), occ(t, k)), z3.And(FULL(t), WHO(t) <= k)))

    def place(i):
        """the definition of the first idle address"""
        about(at(i))
        vm.assume(z3.Implies(z3.And(0 <= i, i < n, z3.Not(FULL(at(i)))), FREE <= i))

    vm.assume(z3.Implies(FREE < n, z3.Not(FULL(at(FREE)))))

    def outer(vm, st, fr, it):
        return getattr(it, "label", None) is not None

    def inner(vm, st, fr, it):
        return getattr(it, "address", None) is not None

    vm.loops.append(LoopSpec("addresses", outer, lambda vm, fr, it, i: [place(i), vm.assume(FREE >= i)], lambda vm, fr, it, i: [place(i - 1), ("no address so far is idle", FREE >= i)][1:]))

    def havoc_(vm, fr, it, k):
        about(it.address)
        occupant(it.address, k)
        vm.assume(z3.Implies(FULL(it.address), WHO(it.address) >= k))
        if "occupied" in fr.locals:
            fr.locals["occupied"] = False

    def inv(vm, fr, it, k):
        about(it.address)
        occupant(it.address, k - 1)
        out = [("no strategy so far is the same", z3.Implies(FULL(it.address), WHO(it.address) >= k))]
        if "occupied" in fr.locals:
            out.append(("not occupied so far", z3.Not(as_z3(fr.locals["occupied"]))))
        return out

    vm.loops.append(LoopSpec("occupants", inner, havoc_, inv))
    r, e = attempt(vm, lambda: call(vm, s, "get_allocated_address", c, alloc))
    j = vm.fresh_int("any place").t
    place(j)
    if e is not None:
        vm.cover("no idle slot")
        vm.prove("refused with NoIdleSlot", vm.isinst(e, vm.lookup("xoscar.errors", "NoIdleSlot")) if isinstance(e, IObj) else exc_is(vm, e, __import__("builtins").Exception) and type(e).__name__ == "NoIdleSlot")
        vm.prove("only if every address with the label is occupied", z3.Implies(z3.And(0 <= j, j < n), FULL(at(j))))
        return
    vm.cover("idle")
    t = vm.term(r)
    about(t)
    vm.prove("an address with the label", member(t, at, 0, n))
    vm.prove("no actor with the same label and mark is there", z3.Not(FULL(t)))
    vm.prove("nothing is allocated by asking", not alloc.changed)


def equality(vm):
    cls = vm.lookup(M, "IdleLabel")
    l, m = [vm.opaque(f"label{i}") for i in range(2)], [vm.opaque(f"mark{i}") for i in range(2)]
    a, b = [vm.call(cls, [l[i], m[i]], {}) for i in range(2)]
    vm.cover("compared")
    vm.prove("equal exactly if label and mark are", as_z3(vm.eq(a, b)) == z3.And(l[0].t == l[1].t, m[0].t == m[1].t))
    for name, args in (("MainPool", []), ("RandomLabel", [l[0]]), ("AddressSpecified", [l[0]])):
        vm.prove(f"not equal to another strategy", z3.Not(as_z3(vm.eq(a, vm.call(vm.lookup(M, name), args, {})))))
    vm.prove("nor to anything else", z3.Not(as_z3(vm.eq(a, "IdleLabel"))))


# ---------------------------------------------------------------- placement by the main pool


class Slots(Host):
    """what is allocated at an address, as far as this creation changes it"""

    def __init__(self, vm, pool, t):
        self.pool, self.t, self.puts, self.dels = pool, t, [], []

    def vm_setitem(self, vm, k, v):
        self.pool.log.append(("put", self, k, v, self.pool.lock.held))
        self.puts.append((k, v))

    def drop(self, vm, k):
        self.pool.log.append(("drop", self, k))
        for i, (kk, v) in enumerate(self.puts):
            if kk is k:
                del self.puts[i]
                return v
        self.dels.append(k)
        return None

    def m_pop(self, vm, a, k):
        return self.drop(vm, a[0])

    def vm_delitem(self, vm, k):
        self.drop(vm, k)

    def m_values(self, vm, a, k):
        raise Unsupported("the entries are looked through")


class Table(Host):
    def __init__(self, vm, pool):
        self.pool, self.slots = pool, []

    def vm_getitem(self, vm, k):
        t = vm.term(k)
        for s in self.slots:
            if s.t.eq(t) or vm.branch(s.t == t):
                return s
        if not vm.branch(self.pool.KNOWN(t)):
            raise PyExc(KeyError(k))
        s = Slots(vm, self.pool, t)
        self.slots.append(s)
        return s


class Lock(Host):
    def __init__(self):
        self.held = False

    def m___enter__(self, vm, a, k):
        vm.prove("the allocation lock is taken once", not self.held)
        self.held = True
        return True

    def m___exit__(self, vm, a, k):
        self.held = False
        return False

    def m_acquire(self, vm, a, k):
        return self.m___enter__(vm, a, k)

    def m_release(self, vm, a, k):
        self.held = False


class Strategy(Host):
    def __init__(self, pool, outcome):
        self.pool, self.outcome = pool, outcome

    def m_get_allocated_address(self, vm, a, k):
        p = self.pool
        vm.prove("the strategy is asked with the configuration and what is allocated", len(a) == 2 and a[0] is p.config and a[1] is p.table)
        p.log.append(("ask", p.lock.held))
        if self.outcome == 0:
            p.error = SExc("no address", Exception)
            raise PyExc(p.error)
        return p.address


class Pool:
    pass


def placement(vm):
    """creation through the main pool: the slot is taken while the lock is held, and given
    back unless an actor was created"""
    p = Pool()
    p.log, p.lock = [], Lock()
    p.KNOWN = z3.Function("known address", U, z3.BoolSort())
    p.config, p.table = vm.opaque("config", "config"), None
    p.table = Table(vm, p)
    p.address = vm.opaque("chosen address", "str")
    own = vm.opaque("own address", "str")
    refused = vm.choose(2, "refused by the strategy")
    strategy = Strategy(p, 1 - refused)
    pool = new(vm, P, "MainActorPoolBase", external_address=own, _config=p.config, _allocated_actors=p.table, _allocation_lock=p.lock)
    kw = {"protocol": 0}
    cls, uid = vm.opaque("class"), vm.opaque("uid", "bytes")
    args, kwargs = vm.opaque("args", "tuple"), vm.opaque("kwargs", "dict")
    msg = vm.call(vm.lookup(MSG, "CreateActorMessage"), [vm.opaque("id", "bytes"), cls, uid, args, kwargs, strategy], kw)
    ref = vm.opaque("reference", "reference")
    outcome = vm.choose(3, "created, refused, broken")
    broken = SExc("broken", BaseException)
    sent = []

    def reply(vm, where, m):
        slots = p.table.slots
        vm.prove("one slot is taken before the actor is created", len(slots) == 1 and len(slots[0].puts) == 1)
        if len(slots) != 1 or len(slots[0].puts) != 1:
            raise Unsupported("slots are kept in another way")
        k, v = slots[0].puts[0]
        vm.prove("it is taken with the strategy of the request", isinstance(v, tuple) and v[0] is strategy)
        vm.prove("at the address of the strategy", slots[0].t == p.address.t)
        vm.prove("the lock is not held while the actor is created", not p.lock.held)
        vm.prove("the actor is created where the slot is", vm.term(where) == p.address.t)
        sent.append(m)
        for f in ("message_id", "actor_cls", "actor_id", "args", "kwargs"):
            vm.prove(f"the pool gets the {f} of the request", same(vm, vm.getattr(m, f), vm.getattr(msg, f)))
        p.key = k
        if outcome == 0:
            return vm.call(vm.lookup(MSG, "ResultMessage"), [vm.getattr(m, "message_id"), ref], {})
        if outcome == 1:
            return new(vm, MSG, "ErrorMessage", message_id=vm.getattr(m, "message_id"))
        raise PyExc(broken)

    def here(vm, a, k):
        return Awaitable(lambda vm: reply(vm, own, a[1]), "create here")

    def there(vm, a, k):
        s = vm.getattr(a[2], "allocate_strategy")
        vm.prove("the sub pool is told to create the actor itself", isinstance(s, IObj) and s.cls.name == "AddressSpecified" and vm.getattr(s, "address") is p.address)
        vm.prove("and that the main pool knows", vm.getattr(a[2], "from_main"))
        vm.prove("it is called at its address", vm.term(a[1]) == p.address.t)
        return Awaitable(lambda vm: reply(vm, a[1], a[2]), "call")

    vm.contracts[f"{P}:ActorPoolBase.create_actor"] = here
    vm.contracts[f"{P}:AbstractActorPool.call"] = there
    result, e = attempt(vm, lambda: acall(vm, pool, "create_actor", msg))
    slots = p.table.slots
    vm.prove("the lock is released", not p.lock.held)
    asked = [x for x in p.log if x[0] == "ask"]
    vm.prove("the strategy is asked once", len(asked) == 1)
    vm.prove("with the lock held", all(x[1] for x in asked))
    puts = [x for x in p.log if x[0] == "put"]
    vm.prove("the slot is taken before the lock is released", all(x[4] for x in puts[:1]))
    left = [kv for s in slots for kv in s.puts]
    vm.prove("no other entry is removed", all(not s.dels for s in slots))
    if refused or not sent:
        vm.cover("refused" if refused else "unknown address")
        vm.prove("nothing is allocated", not left)
        vm.prove("an unknown address is refused", refused == 1 or z3.Not(p.KNOWN(p.address.t)))
        return
    vm.prove("the placeholder is removed", all(k is not p.key for k, _ in left))
    if outcome == 0:
        vm.cover("created here" if sent[0] is msg else "created there")
        vm.prove("created here exactly if the address is that of the main pool", z3.BoolVal(sent[0] is msg) == (p.address.t == own.t))
        vm.prove("the slot is kept by the actor", len(left) == 1 and left[0][0] is ref and isinstance(left[0][1], tuple) and left[0][1][0] is strategy and left[0][1][1] is sent[0])
        vm.prove("it is taken until the actor has it", [x[0] for x in p.log if x[0] in ("put", "drop")] == ["put", "put", "drop"])
        vm.prove("the reply is that of the pool", e is None and vm.getattr(result, "result") is ref)
    else:
        vm.cover("failed" if outcome == 1 else "broken")
        vm.prove("the slot is idle again", not left)


C = f"{P}:MainActorPoolBase"
CASES = [
    Case("strategies", [f"{M}:{x}.get_allocated_address" for x in ("AddressSpecified", "MainPool", "Random", "RandomSubPool", "ProcessIndex", "RandomLabel")], simple,
         covers=["AddressSpecified", "MainPool", "Random", "RandomSubPool", "ProcessIndex", "RandomLabel", "no pool: RandomSubPool", "no pool: ProcessIndex", "no pool: RandomLabel"], need=12),
    Case("idle label", [f"{M}:IdleLabel.get_allocated_address", f"{M}:IdleLabel.__eq__"], idle_label, covers=["idle", "no idle slot", "addresses: body reached", "occupants: body reached"], need=10),
    Case("equality", [f"{M}:IdleLabel.__eq__"], equality, covers=["compared"], need=5),
    Case("placement", [f"{C}.create_actor"], placement, covers=["refused", "unknown address", "created here", "created there", "failed", "broken"], need=60),
    *asking.CREATION,
]

ASSUMPTIONS = [
    "threading.Lock excludes; what is allocated changes only in create_actor, destroy_actor, recovery and the registration of actors of sub pools, of which only creation takes slots",
    "random.choice returns one of the items and refuses an empty sequence",
    "of the configuration its contract is used, which C11 proves",
    "an address names one pool; labels are compared by ==, which is an equivalence",
]
