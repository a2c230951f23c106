"""C02: serialization that is interrupted and resumed gives what plain serialization gives.

The work is described by a tree: a node for every object that is serialized on its own (an
object that occurs again is a leaf of its own, a placeholder).  For a node x, N(x) is the
number of its parts, C(x, k) the k-th of them, POS(x) and END(x) the number of buffers before
and after it, AFTER(x) and DONE(x) the number of steps when it was started and finished.
"""

from .base import *  # noqa: F401,F403

M = "xoscar.serialization.core"
I, B = z3.IntSort(), z3.BoolSort()


class Tree:
    def __init__(self, vm):
        self.root = z3.Const("root", U)
        f = lambda n, *s: z3.Function(n, *s)
        self.N, self.FIN = f("parts", U, I), f("final", U, B)
        self.C, self.PAR, self.IDX = f("part", U, I, U), f("whole", U, U), f("index", U, I)
        self.POS, self.END, self.AFTER, self.DONE = (f(n, U, I) for n in ("buffers before", "buffers after", "steps when started", "steps when done"))
        self.SID, self.OID = f("serializer", U, I), f("number", U, I)
        self.vm = vm
        self.node(self.root)
        vm.assume(z3.And(self.POS(self.root) == 0, self.AFTER(self.root) == 0))

    def inner(self, x):
        return z3.And(z3.Not(self.FIN(x)), self.N(x) > 0)

    def node(self, x):
        """what holds for a node"""
        N, C, POS, END, AFTER, DONE = self.N, self.C, self.POS, self.END, self.AFTER, self.DONE
        last = C(x, N(x) - 1)
        self.vm.assume(z3.And(
            N(x) >= 0, 0 <= POS(x), POS(x) <= END(x), END(x) <= END(self.root), AFTER(x) >= 0, DONE(x) >= AFTER(x),
            z3.Implies(z3.Not(self.inner(x)), z3.And(END(x) == POS(x) + z3.If(self.FIN(x), N(x), 0), DONE(x) == AFTER(x))),
            z3.Implies(self.inner(x), z3.And(END(x) == END(last), DONE(x) == DONE(last) + 1, POS(C(x, 0)) == POS(x), AFTER(C(x, 0)) == AFTER(x) + 1)),
        ))

    def part(self, x, k):
        """what holds for a part of an inner node, and for the one before it"""
        N, C, POS, END, AFTER, DONE = self.N, self.C, self.POS, self.END, self.AFTER, self.DONE
        c = C(x, k)
        self.node(c)
        self.vm.assume(z3.Implies(z3.And(self.inner(x), 0 <= k, k < N(x)), z3.And(self.PAR(c) == x, self.IDX(c) == k, c != self.root)))
        p = C(x, k - 1)
        self.node(p)
        self.vm.assume(z3.Implies(z3.And(self.inner(x), 1 <= k, k < N(x)), z3.And(POS(c) == END(p), AFTER(c) == DONE(p) + 1)))
        self.vm.assume(z3.Implies(z3.And(self.inner(x), 1 <= k, k <= N(x)), z3.And(self.PAR(p) == x, self.IDX(p) == k - 1, p != self.root)))

    def whole(self, x):
        """what holds for a node that is not the root"""
        p = self.PAR(x)
        self.node(p)
        self.part(p, self.IDX(x))
        self.part(p, z3.simplify(self.IDX(x) + 1))
        self.vm.assume(z3.Implies(x != self.root, z3.And(self.inner(p), 0 <= self.IDX(x), self.IDX(x) < self.N(p), self.C(p, self.IDX(x)) == x)))


class Obj(Host):
    """the object at a node"""

    def __init__(self, x):
        self.x = x


class Ser(Host):
    """the tuple for a node: without its parts, or whole"""

    def __init__(self, tree, x, whole, rest=False):
        self.tree, self.x, self.whole, self.rest = tree, x, whole, rest

    def vm_isinst(self, vm, cls):
        return cls is tuple

    def vm_truth(self, vm):
        return True

    def vm_binop(self, vm, op, b):
        import ast

        if not isinstance(op, ast.Add) or self.rest:
            raise Unsupported("operator on a serialized object")
        s = vm.sequence(b)
        vm.prove("the parts are joined to the object they belong to, once", not self.whole)
        x, t = self.x, self.tree
        if isinstance(s, (tuple, VList)):
            items = list(s.items if isinstance(s, VList) else s)
            vm.prove("all parts, in order", z3.And(t.N(x) == len(items), conj([is_part(vm, t, v, x, z3.IntVal(k)) for k, v in enumerate(items)])))
        else:
            vm.prove("all parts", s.length == t.N(x))
            k = vm.fresh_int("any part", 0).t
            vm.assume(k < s.length)
            vm.prove("the parts in order", is_part(vm, t, s.elem(k), x, k))
        return Ser(t, x, True)

    # a reader
    def vm_getitem(self, vm, k):
        t, x = self.tree, self.x
        head = (SInt(t.SID(x)), SInt(t.OID(x)), SInt(t.N(x)), SBool(t.FIN(x)))
        if self.rest:
            raise Unsupported("part of the serialized form")
        if isinstance(k, int) and 0 <= k < 4:
            return head[k]
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("part of a serialized object")
        if k.start in (None, 0) and isinstance(k.stop, int) and 0 <= k.stop <= 4:
            return head[: k.stop]
        if k.start == 4 and k.stop is None and (not self.whole or not vm.branch(t.inner(x))):
            return Ser(t, x, self.whole, True)
        if self.whole and k.start in (None, 0) and isinstance(k.stop, SInt):
            vm.prove("the parts are cut off", z3.And(k.stop.t == -t.N(x), t.inner(x)))
            return Ser(t, x, False)
        if self.whole and k.stop is None and isinstance(k.start, SInt):
            vm.prove("the parts are cut out", z3.And(k.start.t == -t.N(x), t.inner(x)))
            return SSeq("parts", t.N(x), lambda k: Ser(t, t.C(x, k if z3.is_expr(k) else z3.IntVal(k)), True), "tuple")
        raise Unsupported("part of a serialized object")


def is_part(vm, t, v, x, k):
    """v is the k-th part of x, serialized"""
    if not isinstance(v, Ser) or not v.whole:
        return z3.BoolVal(False)
    return v.x == t.C(x, k)


class Done(Host):
    """the first k parts, serialized or restored"""

    def __init__(self, tree, x, k, make, accept):
        self.tree, self.x, self.k, self.make, self.accept = tree, x, k, make, accept

    def vm_len(self, vm):
        return SInt(self.k)

    def vm_truth(self, vm):
        return SBool(self.k > 0)

    def m_append(self, vm, a, k):
        vm.prove("the part that is recorded is the next one", self.accept(a[0], self.tree.C(self.x, self.k)))
        self.k = z3.simplify(self.k + 1)

    def vm_seq(self, vm):
        s = SSeq("parts that are done", self.k, lambda k: self.make(self.tree.C(self.x, k if z3.is_expr(k) else z3.IntVal(k))), "list")
        s.done = self
        return s


class Stack(Host):
    """the open objects: the innermost ones as items, the others by the tree"""

    def __init__(self, tree, x, k, item, state):
        # x: the innermost open object (None: nothing is open), with k parts done
        self.tree, self.item, self.state = tree, item, state
        self.items = [] if x is None else [item(x, k)]
        self.low = None if x is None else x
        self.x, self.k = x, k
        self.popped = 0

    def more(self, vm):
        """an item that is not among those seen"""
        return self.low is not None and vm.branch(self.low != self.tree.root)

    def vm_truth(self, vm):
        return True if self.items else self.more(vm)

    def vm_len(self, vm):
        raise Unsupported("length of the stack")

    def reveal(self, vm):
        if not self.more(vm):
            raise PyExc(IndexError("list index out of range"))
        t, x = self.tree, self.low
        t.whole(x)
        self.items.insert(0, self.item(t.PAR(x), t.IDX(x)))
        self.low = t.PAR(x)

    def vm_getitem(self, vm, k):
        if k != -1:
            raise Unsupported("item inside of the stack")
        if not self.items:
            self.reveal(vm)
        return self.items[-1]

    def m_pop(self, vm, a, k):
        if a and a[0] != -1:
            raise Unsupported("item inside of the stack")
        if not self.items:
            self.reveal(vm)
        self.popped += 1
        return self.items.pop()

    def m_append(self, vm, a, k):
        self.items.append(a[0])

    def now(self, vm):
        """(innermost open object, parts done, conditions for the items), or None when nothing is open"""
        if not self.items:
            if not self.more(vm):
                return None
            self.reveal(vm)
        conds = []
        states = [self.state(vm, o) for o in self.items]
        for (x, k, ok), (y, j, ok2) in zip(states, states[1:]):
            # the one above is the next part of the one below
            self.tree.part(x, k)
            conds.append(z3.And(y == self.tree.C(x, k), k < self.tree.N(x), self.tree.inner(x)))
        for (x, k, ok) in states:
            conds.append(ok)
        conds.append(states[0][0] == self.low)
        return states[-1][0], states[-1][1], conj(conds)


# ------------------------------------------------------------ writing
class Buffers(Host):
    def __init__(self, tree, n):
        self.tree, self.n, self.order = tree, n, []

    def vm_truth(self, vm):
        return SBool(self.n > 0)

    def vm_len(self, vm):
        return SInt(self.n)

    def add(self, vm, b):
        vm.prove("every buffer is recorded in its place", z3.And(b.at == self.n))
        self.n = z3.simplify(self.n + 1)

    def m_extend(self, vm, a, k):
        s = vm.sequence(a[0])
        if isinstance(s, Bufs):
            vm.prove("the buffers of an object are recorded in their place", s.tree.POS(s.x) == self.n)
            self.n = z3.simplify(self.n + s.tree.N(s.x))
            return
        if isinstance(s, VList) and not s.items:
            return
        raise Unsupported("other buffers are recorded")


class Bufs(SSeq):
    """the buffers of a leaf"""

    def __init__(self, tree, x):
        SSeq.__init__(self, "buffers of an object", tree.N(x), lambda i: vm_none(), "list")
        self.tree, self.x = tree, x


def vm_none():
    raise Unsupported("a buffer is looked at")


def parts_of(t, x):
    s = SSeq("parts to do", t.N(x), lambda k: Obj(t.C(x, k if z3.is_expr(k) else z3.IntVal(k))), "list")
    s.of = x
    return s


def writer(vm, t):
    """(make an item, its state)"""
    cls = vm.lookup(M, "_SerialStackItem")

    def item(x, k):
        o = IObj(cls)
        o.attrs.update(serialized=Ser(t, x, False), subs=parts_of(t, x), subs_serialized=Done(t, x, k, lambda y: Ser(t, y, True), lambda v, y: is_ser(v, y)))
        return o

    def state(vm, o):
        h, s, d = (o.attrs.get(k) for k in ("serialized", "subs", "subs_serialized"))
        if not isinstance(h, Ser) or h.whole:
            raise Unsupported("an open object is kept in another way")
        k = d.k if isinstance(d, Done) else z3.IntVal(len(d.items)) if isinstance(d, VList) else None
        if k is None or (isinstance(d, VList) and d.items):
            raise Unsupported("an open object is kept in another way")
        ok = [getattr(s, "of", None) is not None and h.x == s.of, t.inner(h.x)]
        if isinstance(d, Done):
            ok.append(d.x == h.x)
        return h.x, k, conj([c if not isinstance(c, bool) else z3.BoolVal(c) for c in ok])

    return item, state


def is_ser(v, y):
    return z3.And(v.x == y) if isinstance(v, Ser) and v.whole else z3.BoolVal(False)


def single(vm, t, starts, context, holder, which):
    """the contract of _serial_single, for the node that is next"""

    def fn(vm, a, k):
        o = a[0]
        vm.prove("an object of the tree is serialized", isinstance(o, Obj))
        vm.prove("with the context and the ids of this serialization", a[1] is context and a[2] is holder)
        x = o.x
        t.node(x)
        which(vm, x)
        starts.append(x)
        if vm.branch(z3.Not(t.inner(x))):
            subs = VList() if vm.branch(t.N(x) == 0) else Bufs(t, x)
            return (Ser(t, x, True), subs, SBool(t.FIN(x)))
        return (Ser(t, x, False), parts_of(t, x), SBool(t.FIN(x)))

    vm.contracts[f"{M}:_serial_single"] = fn


def head_state(vm, t, fresh_only=False):
    """an arbitrary state between two steps: (innermost open, parts done, what is pending, buffers, steps)"""
    kind = vm.choose(3, "state: just opened / a part is done / all is done")
    if kind == 2:
        t.node(t.root)
        vm.assume(t.inner(t.root))
        return None, None, Ser(t, t.root, True), t.END(t.root), t.DONE(t.root)
    x = z3.Const(vm.fresh_name("innermost"), U)
    t.node(x)
    t.whole(x)
    vm.assume(t.inner(x))
    if kind == 0:
        k = z3.IntVal(0)
        t.part(x, k)
        return x, k, None, t.POS(x), t.AFTER(x)
    k = vm.fresh_int("parts recorded", 0).t
    vm.assume(k < t.N(x))
    t.part(x, k)
    t.part(x, z3.simplify(k + 1))
    z = t.C(x, k)
    return x, k, Ser(t, z, True), t.END(z), t.DONE(z)


def check_state(vm, t, stack, pending, bufs, total):
    """[(name, condition)] that this is a state between two steps"""
    now = stack.now(vm)
    n = num(vm, total)
    if now is None:
        t.node(t.root)
        return [("the root is what is done", is_ser(pending, t.root) if pending is not None else z3.BoolVal(False)),
                ("all buffers are recorded", bufs.n == t.END(t.root)), ("all steps are counted", n == t.DONE(t.root))]
    x, k, ok = now
    t.node(x)
    t.part(x, k)
    t.part(x, z3.simplify(k + 1))
    if pending is None:
        return [("the open objects", ok), ("a new object has no parts yet", k == 0), ("no buffer is lost", bufs.n == t.POS(x)), ("every step is counted", n == t.AFTER(x))]
    z = t.C(x, k)
    return [("the open objects", ok), ("the next part is what is pending", z3.And(k < t.N(x), is_ser(pending, z))),
            ("no buffer is lost", bufs.n == t.END(z)), ("every step is counted", n == t.DONE(z))]


class Overflow(Host):
    pass


def stepping(vm, plain=False):
    """from any state between two steps: the end, or (unless plain) an interruption in another such state"""
    t = Tree(vm)
    item, state = writer(vm, t)
    if plain:
        vm.assume(t.inner(t.root))
        x, k, pending, nbuf, total = t.root, z3.IntVal(0), None, z3.IntVal(0), z3.IntVal(0)
        t.part(x, k)
    else:
        x, k, pending, nbuf, total = head_state(vm, t)
    stack = Stack(t, x, k, item, state)
    bufs = Buffers(t, nbuf)
    context, holder = VDict(), Host()
    limit = z3.IntVal(0) if plain else vm.fresh_int("threshold").t
    starts = []
    f = vm.lookup(M, "_serialize_with_stack")
    names = [p.arg for p in f.node.args.args]
    if len(names) != 7:
        raise Unsupported("the state is passed in another way")
    cur = {"stack": stack, "bufs": bufs}

    def which(vm, y):
        # the object that is started is the one the tree has next
        s = cur["stack"]
        now = s.now(vm)
        vm.prove("an object is started as a part of an open one", now is not None)
        x, k, ok = now
        t.part(x, k)
        vm.prove("objects are started in the order of the tree", z3.And(y == t.C(x, k), k < t.N(x)))

    single(vm, t, starts, context, holder, which)

    def sel(vm, st, fr):
        return fr.func is f

    def havoc_(vm, fr):
        x, k, pending, nbuf, total = head_state(vm, t)
        s = Stack(t, x, k, item, state)
        b = Buffers(t, nbuf)
        n = vm.fresh_int("steps", 0) if plain else SInt(total)
        fr.locals[names[0]], fr.locals[names[1]], fr.locals[names[4]], fr.locals[names[6]] = s, pending, b, n
        cur.update(stack=s, bufs=b, before=total, round=True)
        del starts[:]

    def inv(vm, fr):
        if fr.locals[names[0]] is not cur["stack"] or fr.locals[names[4]] is not cur["bufs"]:
            raise Unsupported("the state is kept in another way")
        r = check_state(vm, t, cur["stack"], fr.locals[names[1]], cur["bufs"], fr.locals[names[6]])
        if plain:
            if "before" in cur:
                vm.cover("step")
            return r[:-1]
        if "before" in cur:
            vm.cover("step")
            vm.prove("one object at most is started in a step", len(starts) <= 1)
            r.append(("a step is made", num(vm, fr.locals[names[6]]) > cur["before"]))
        return r

    vm.loops.append(WhileSpec("steps", sel, havoc_, inv))
    out, e = attempt(vm, lambda: vm.call(f, [stack, pending, context, holder, bufs, SInt(limit), SInt(total)], {}))
    if plain:
        vm.cover("finished")
        vm.prove("nothing fails", e is None, repr(e))
        if e is None:
            (meta, ser), got = out
            vm.prove("the whole object is the result", is_ser(ser, t.root), repr(ser))
            vm.prove("with all buffers", z3.And(got.n == t.END(t.root)) if got is cur["bufs"] else False)
        return
    if e is not None:
        vm.cover("interrupted")
        ok = isinstance(e, IObj) and e.cls is vm.lookup(M, "_SerializeObjectOverflow")
        vm.prove("nothing fails but for an interruption", ok, repr(e))
        if not ok:
            return
        cs, ct = e.attrs.get("cur_serialized"), e.attrs.get("num_total_serialized")
        for name, c in check_state(vm, t, cur["stack"], cs, cur["bufs"], ct):
            # how the state is kept is up to the code: another way is no violation by itself
            vm.prove(f"what an interruption leaves: {name}", c, soft=True)
        vm.prove("an interruption only beyond the threshold", z3.And(limit > 0, num(vm, ct) > limit))
        return
    vm.cover("finished")
    (meta, ser), got = out
    vm.prove("the whole object is the result", is_ser(ser, t.root), repr(ser))
    vm.prove("with all buffers", z3.And(got.n == t.END(t.root)) if got is cur["bufs"] else False)
    if isinstance(meta, VDict) and meta.items:
        vm.cover("number recorded")
        key, v = meta.items[0]
        vm.prove("the number of steps of both phases is recorded", z3.And(num(vm, v) == t.DONE(t.root)) if (len(meta.items), key) == (1, "_N") else False, repr(meta.items))
    else:
        vm.prove("a resumed serialization records its steps", total == 0)


def entry(vm, spawn):
    """plain and spawned serialization: how the steps are started and resumed"""
    t = Tree(vm)
    x = t.root
    obj = Obj(x)
    holders = []

    def new_holder(vm, a, k):
        holders.append(Host())
        return holders[-1]

    vm.contracts[f"{M}:_IdContextHolder"] = new_holder
    given = VDict() if vm.choose(2, "context given") else None
    starts, runs = [], []

    def first(vm, a, k):
        vm.prove("the object is serialized, once", a[0] is obj and not starts)
        starts.append((a[1], a[2]))
        vm.prove("in the context that was given", (a[1] is given) if given is not None else isinstance(a[1], VDict) and not a[1].items)
        vm.prove("with ids of its own", any(a[2] is h for h in holders))
        if vm.branch(z3.Not(t.inner(x))):
            return (Ser(t, x, True), Bufs(t, x), SBool(t.FIN(x)))
        return (Ser(t, x, False), parts_of(t, x), SBool(t.FIN(x)))

    vm.contracts[f"{M}:_serial_single"] = first
    item, state = writer(vm, t)
    OUT = (({}, Ser(t, x, True)), Buffers(t, t.END(x)))
    CUR, NUM = Host(), vm.fresh_int("steps", 1)
    names = ["serial_stack", "serialized", "context", "id_context_holder", "result_bufs_list", "num_overflow", "num_total_serialized"]
    ps = [p.arg for p in vm.lookup(M, "_serialize_with_stack").node.args.args]

    def steps(vm, a, k):
        a = list(a) + [None] * (len(ps) - len(a))
        for n, v in k.items():
            a[ps.index(n)] = v
        stack, pending, ctx, hold, bufs, limit, total = a
        limit = 0 if limit is None else limit
        total = 0 if total is None else total
        vm.prove("the context and the ids stay the same", ctx is starts[0][0] and hold is starts[0][1])
        if not runs:
            ok = isinstance(stack, VList) and len(stack.items) == 1
            vm.prove("the steps start with the object", ok and pending is None and isinstance(bufs, VList) and not bufs.items)
            y, k, c = state(vm, stack.items[0])
            vm.prove("the object has no parts yet", z3.And(y == x, k == 0, c))
            vm.prove("no step is counted yet", num_eq(vm, total, z3.IntVal(0)))
            runs.append((stack, bufs, limit))
            # the limit may interrupt them
            may = vm.int_term(limit) > 0
            if vm.choose(2, "interrupted") and vm.branch(may):
                e = IObj(vm.lookup(M, "_SerializeObjectOverflow"))
                e.attrs.update(cur_serialized=CUR, num_total_serialized=NUM, args=(CUR,))
                raise PyExc(e)
            return OUT
        vm.prove("resumed once", len(runs) == 1)
        vm.prove("resumed with what was left", conj([stack is runs[0][0], bufs is runs[0][1], pending is CUR, total is NUM]))
        vm.prove("not interrupted again", num_eq(vm, limit, z3.IntVal(0)))
        runs.append("resumed")
        return OUT

    vm.contracts[f"{M}:_serialize_with_stack"] = steps
    executor, threshold = vm.opaque("executor"), vm.fresh_int("threshold")
    elsewhere = []

    class Loop(Host):
        def m_run_in_executor(self, vm, a, k):
            def go(vm):
                elsewhere.append(a[0])
                return vm.call(a[1], list(a[2:]), {})

            return Awaitable(go)

    for n in ("get_running_loop", "get_event_loop"):
        vm.stubs[f"asyncio.{n}"] = Stub(lambda vm, a, k: Loop(), n)
    vm.stubs["asyncio.to_thread"] = Stub(lambda vm, a, k: vm.prove("in the executor that was given", False), "to_thread")
    if spawn:
        out, e = attempt(vm, lambda: vm.await_(vm.call(vm.lookup(M, "serialize_with_spawn"), [obj, given], {"spawn_threshold": threshold, "executor": executor})))
    else:
        out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "serialize"), [obj, given], {}))
    vm.prove("nothing fails", e is None, repr(e))
    if vm.branch(z3.Not(t.inner(x))):
        vm.cover("leaf")
        (meta, ser), subs = out
        vm.prove("an object without parts is the result at once", conj([not runs, is_ser(ser, x), isinstance(subs, Bufs)]))
        return
    vm.prove("the result is that of the steps", out is OUT)
    if len(runs) == 2:
        vm.cover("resumed")
        vm.prove("the rest runs in the executor that was given", elsewhere == [executor])
    else:
        vm.cover("straight")
        vm.prove("what is not interrupted is not run elsewhere", not elsewhere)
    if not spawn:
        vm.prove("plain serialization is not interrupted", len(runs) == 1)


# ------------------------------------------------------------ one object
def one(vm):
    """_serial_single: numbers that tell objects apart, and what is written for an object"""
    t_obj, t_ph = z3.Function("address", U, I), None
    IDS = z3.Function("id of object", U, I)
    vm.contracts[f"{M}:_fast_id"] = lambda vm, a, k: SInt(IDS(ident(vm, a[0])))
    known, number = z3.Function("numbered before", I, B), z3.Function("number before", I, I)
    next_id = vm.fresh_int("next number", 0).t

    class D(Host):
        """object ids and their numbers"""

        def __init__(self):
            self.log = []

        def vm_getitem(self, vm, k):
            kt = num(vm, k)
            for a, b in reversed(self.log):
                if vm.branch(kt == a):
                    return SInt(b)
            vm.prove("only numbers that were given are used", known(kt))
            return SInt(number(kt))

        def vm_setitem(self, vm, k, v):
            self.log.append((num(vm, k), num(vm, v)))

        def vm_contains(self, vm, k):
            kt = num(vm, k)
            return SBool(z3.Or(known(kt), *[kt == a for a, _ in self.log]))

        def m_size(self, vm, a, k):
            return vm.fresh_int("size", 0)

    class Holder(Host):
        def __init__(self):
            self.d, self.next = D(), SInt(next_id)

        def p_d(self, vm):
            return self.d

        def p_next_id(self, vm):
            return self.next

        def vm_setattr(self, vm, name, v):
            if name != "next_id":
                raise Unsupported("another field")
            self.next = v

    holder = Holder()
    objs = {}

    def ident(vm, o):
        return objs.setdefault(id(o), (z3.Const(vm.fresh_name("object"), U), o))[0]

    name = vm.opaque("name", "str") if vm.choose(2, "named serializer") else None
    if name is not None:
        vm.assume(vm.term(name) != vm.term(None))
    context = VDict([["serializer", name]] if name is not None else [])
    ph_cls = vm.lookup(M, "Placeholder")
    steps = []

    class Thing(Host):
        """an object of some class"""

        def __init__(self, n):
            self.n = n
            self.cls = vm.opaque(f"class {n}")

        def vm_type(self, vm):
            return self.cls

        def vm_isinst(self, vm, cls):
            return False

    first = Thing(0)
    PID = vm.fresh_int("id in the placeholder", 0).t
    vm.assume(known(PID))

    def placeholder():
        p = IObj(ph_cls)
        p.attrs.update(id=SInt(PID), callbacks=VList())
        return p

    cur = [first]
    RES = {}

    class Serializer_(Host):
        def __init__(self, o):
            self.o = o
            self.sid = vm.fresh_int("serializer", 0)

        def p__serializer_id(self, vm):
            return self.sid

        p_serializer_id = p__serializer_id

        def m_serial(self, vm, a, k):
            vm.prove("an object is given to its own serializer, in this context", a[0] is self.o and a[1] is context)
            steps.append(self.o)
            if not isinstance(self.o, IObj) and not RES.get("round") and len(steps) >= 3:
                # converted elsewhere than in the loop
                vm.note_bounded("at most two conversions before an object is serialized")
            elif not isinstance(self.o, IObj):
                w = vm.choose(3, "serialized / placeholder / other object")
                if w == 1:
                    cur.append(placeholder())
                    return cur[-1]
                if w == 2:
                    cur.append(Thing(len(steps)))
                    return cur[-1]
            n = vm.fresh_int("parts", 0).t
            final = vm.fresh_bool("final")
            if vm.choose(2, "header"):
                RES["head"] = (vm.opaque("a"), vm.opaque("b"))
            else:
                RES["head"] = ()
            RES.update(subs=SSeq("parts", n, lambda i: vm.opaque("part"), "list"), n=n, final=final, ser=self)
            return (RES["head"], RES["subs"], final)

    class Dispatcher(Host):
        def m_get_handler(self, vm, a, k):
            o = cur[-1]
            ty = ph_cls if isinstance(o, IObj) else o.cls
            want = a[0]
            if name is not None:
                ok = isinstance(want, tuple) and len(want) == 2 and want[0] is name and want[1] is ty
            else:
                ok = want is ty
            vm.prove("the serializer of the class of the object, under the name that is asked for", ok, repr(want))
            return Serializer_(o)

    vm.overrides.setdefault(M, {})["_serial_dispatcher"] = Dispatcher()
    vm.overrides[M]["NamedType"] = Stub(lambda vm, a, k: (a[0], a[1]), "NamedType")
    f = vm.lookup(M, "_serial_single")

    def holding(fr):
        """the variables that hold the object that is to be serialized"""
        return [k for k, v in fr.locals.items() if v is cur[-1]]

    def havoc_(vm, fr):
        where = RES["where"]
        o = placeholder() if vm.choose(2, "converted to: another object / placeholder") else Thing(7)
        for k in where:
            fr.locals[k] = o
        cur[:], steps[:] = [o], []
        RES["round"] = True

    def inv(vm, fr):
        RES.setdefault("where", [k for k, v in fr.locals.items() if v is first])
        if not RES["where"]:
            raise Unsupported("the object is kept in another way")
        for k in [k for k in fr.locals if k not in RES["where"] + ["context", "id_context_holder"]]:
            # what a round left behind
            del fr.locals[k]
        return [("the next object is what the last was converted to", all(fr.locals[k] is cur[-1] for k in RES["where"])), ("no number is given meanwhile", not holder.d.log and num(vm, holder.next) == next_id),
                ("a conversion is what is serialized next", len(steps) == len(cur) - 1)]

    vm.loops.append(WhileSpec("conversions", lambda vm, st, fr: fr.func is f, havoc_, inv))
    out, e = attempt(vm, lambda: vm.call(f, [first, context, holder], {}))
    vm.prove("nothing fails", e is None, repr(e))
    if e is not None:
        return
    ser, subs, final = out
    last = cur[-1]
    vm.prove("every object is serialized once", len(steps) == len(cur))
    vm.prove("the parts are those of the serializer", subs is RES["subs"] and final is RES["final"])
    vm.prove("the header holds what the serializer gave", isinstance(ser, tuple) and len(ser) == 4 + len(RES["head"]) and all(a is b for a, b in zip(ser[4:], RES["head"])))
    sid, oid, n, fin = ser[:4]
    vm.prove("and which serializer it was, and how many parts there are", z3.And(num(vm, sid) == RES["ser"].sid.t, num(vm, n) == RES["n"], as_z3(vm.eq(fin, RES["final"]))))
    if isinstance(last, IObj):
        vm.cover("placeholder")
        vm.prove("a placeholder has the number of its object", num(vm, oid) == number(PID))
        vm.prove("no other number is given", not holder.d.log and num(vm, holder.next) == next_id)
    else:
        vm.cover("object")
        key = IDS(ident(vm, last))
        vm.prove("an object gets a number", len(holder.d.log) == 1)
        a, b = holder.d.log[0]
        vm.prove("under its id", z3.And(a == key, b == num(vm, oid)))
        vm.prove("the number was not given before", num(vm, oid) >= next_id)
        vm.prove("and is not given again", num(vm, holder.next) > num(vm, oid))


# ------------------------------------------------------------ reading
class Val(Host):
    """the object restored for a node"""

    def __init__(self, x):
        self.x = x


class Failure(Exception):
    pass


def reader(vm, t):
    cls = vm.lookup(M, "_DeserialStackItem")

    def item(x, k):
        o = IObj(cls)
        o.attrs.update(serialized=Ser(t, x, False), subs=parts_ser(t, x), subs_deserialized=Done(t, x, k, Val, lambda v, y: v.x == y if isinstance(v, Val) else z3.BoolVal(False)))
        return o

    def state(vm, o):
        h, s, d = (o.attrs.get(k) for k in ("serialized", "subs", "subs_deserialized"))
        if not isinstance(h, Ser) or h.whole or not isinstance(s, SSeq):
            raise Unsupported("an open object is kept in another way")
        k = d.k if isinstance(d, Done) else z3.IntVal(len(d.items)) if isinstance(d, VList) else None
        if k is None or (isinstance(d, VList) and d.items):
            raise Unsupported("an open object is kept in another way")
        j = vm.fresh_int("any part", 0).t
        v = s.elem(j)
        ok = [t.inner(h.x), s.length == t.N(h.x), z3.Implies(j < t.N(h.x), v.x == t.C(h.x, j)) if isinstance(v, Ser) and v.whole else z3.BoolVal(False)]
        if isinstance(d, Done):
            ok.append(d.x == h.x)
        return h.x, k, conj(ok)

    return item, state


def parts_ser(t, x):
    return SSeq("parts", t.N(x), lambda k: Ser(t, t.C(x, k if z3.is_expr(k) else z3.IntVal(k)), True), "tuple")


class Given(Host):
    """the buffers that were received"""

    def __init__(self, t):
        self.t = t

    def vm_getitem(self, vm, k):
        if isinstance(k, slice) and k.step is None:
            lo = z3.IntVal(0) if k.start is None else num(vm, k.start)
            hi = self.t.END(self.t.root) if k.stop is None else num(vm, k.stop)
            return Cut(lo, hi)
        raise Unsupported("a single buffer is taken")

    def vm_len(self, vm):
        return SInt(self.t.END(self.t.root))


class Cut(Host):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def reading(vm, failing=True):
    """deserialize: parts before the whole, in the order in which they were written, each with its own buffers"""
    t = Tree(vm)
    item, state = reader(vm, t)
    context = VDict() if vm.choose(2, "context given") else None
    buffers = Given(t)
    f = vm.lookup(M, "deserialize")
    fails = []
    cur = {}
    rewritten = []

    def restore(vm, a, k):
        s, ctx, subs = a
        vm.prove("in the context of this call", (ctx is context) if context is not None else isinstance(ctx, VDict))
        vm.prove("an object of the tree is restored", isinstance(s, Ser) and not s.rest, repr(s))
        x = s.x
        t.node(x)
        if vm.branch(t.inner(x)):
            ok = isinstance(subs, Done) or isinstance(subs, VList)
            if isinstance(subs, VList):
                vm.prove("all parts are restored before the whole", t.N(x) == len(subs.items))
            else:
                vm.prove("all parts are restored before the whole", z3.And(subs.x == x, subs.k == t.N(x)) if ok else False)
            vm.prove("from its own header", not s.whole)
        else:
            if subs is buffers:
                subs = Cut(z3.IntVal(0), t.END(t.root))
            vm.prove("an object gets its own buffers",
                     z3.And(subs.lo == t.POS(x), z3.Implies(t.FIN(x), subs.hi == t.POS(x) + t.N(x)), z3.Implies(z3.Not(t.FIN(x)), subs.hi == subs.lo))
                     if isinstance(subs, Cut) else (t.N(x) == 0 if isinstance(subs, VList) and not subs.items else False), repr(subs))
        which(vm, x)
        if failing and vm.choose(2, "fails"):
            fails.append((x, Failure("fails")))
            raise PyExc(fails[-1][1])
        return Val(x)

    def which(vm, x):
        s = cur.get("stack")
        if s is None:
            vm.prove("a single object is the root", x == t.root)
            return
        now = s.now(vm)
        vm.prove("an object is restored as a part of an open one, or when it is whole", now is not None)
        y, k, ok = now
        t.part(y, k)
        vm.prove("objects are restored in the order of the tree", z3.Or(z3.And(x == y, k == t.N(y)), z3.And(x == t.C(y, k), k < t.N(y))))

    vm.contracts[f"{M}:_deserial_single"] = restore

    class SerializerOf(Host):
        def __init__(self, sid):
            self.sid = sid

        def m_on_deserial_error(self, vm, a, k):
            s, ctx, parts, index, exc = a
            y = s.x if isinstance(s, Ser) else None
            if y is None:
                raise Unsupported("another header")
            vm.prove("a failure is reported to the serializer of the object", z3.And(self.sid == t.SID(y)) if s.rest else False)
            vm.prove("with the part that failed", z3.And(num(vm, index) == cur["failed"][1], y == cur["failed"][0]))
            vm.prove("and the failure", exc is cur["exc"])
            if vm.choose(2, "rewritten"):
                rewritten.append(Failure("rewritten"))
                return rewritten[-1]
            return None

    class Table(Host):
        def vm_getitem(self, vm, k):
            return SerializerOf(num(vm, k))

    vm.overrides.setdefault(M, {})["_deserializers"] = Table()
    names = {}

    def sel(vm, st, fr):
        return fr.func is f

    def roles(vm, fr):
        """the variables that hold the state, told by their values at the start"""
        if names:
            return
        stacks = [k for k, v in fr.locals.items() if isinstance(v, VList) and len(v.items) == 1 and isinstance(v.items[0], IObj) and v.items[0].cls is vm.lookup(M, "_DeserialStackItem")]
        need = ("has_deserialized", "deserialized", "exc_value", "buf_pos")
        if len(stacks) != 1 or any(k not in fr.locals for k in need):
            raise Unsupported("the state is kept in another way")
        names.update(stack=stacks[0], **{k: k for k in need})

    def get(fr, k):
        return fr.locals[names[k]]

    def havoc_(vm, fr):
        kind = vm.choose(5, "state: just opened / a part is restored / a part failed / all is restored / all failed") if failing else (0, 1, 3)[vm.choose(3, "state: just opened / a part is restored / all is restored")]
        t.node(t.root)
        vm.assume(t.inner(t.root))
        exc, has, val = None, False, vm.opaque("old value")
        if kind >= 3:
            x, k = None, None
            pos = t.END(t.root) if kind == 3 else vm.fresh_int("position", 0).t
            if kind == 3:
                has, val = True, Val(t.root)
            else:
                exc = Failure("the failure")
        else:
            x = z3.Const(vm.fresh_name("innermost"), U)
            t.node(x)
            t.whole(x)
            vm.assume(t.inner(x))
            k = vm.fresh_int("parts recorded", 0).t if kind else z3.IntVal(0)
            t.part(x, k)
            t.part(x, z3.simplify(k + 1))
            if kind == 0:
                pos = t.POS(x)
            elif kind == 1:
                vm.assume(k < t.N(x))
                has, val, pos = True, Val(t.C(x, k)), t.END(t.C(x, k))
            else:
                vm.assume(k < t.N(x))
                exc, pos = Failure("the failure"), vm.fresh_int("position", 0).t
        s = Stack(t, x, k, item, state)
        cur.update(stack=s, exc=exc, failed=(x, k), round=True)
        del fails[:], rewritten[:]
        fr.locals[names["stack"]], fr.locals["has_deserialized"], fr.locals["deserialized"], fr.locals["exc_value"], fr.locals["buf_pos"] = s, has, val, exc, SInt(pos)

    def inv(vm, fr):
        roles(vm, fr)
        s = get(fr, "stack")
        if isinstance(s, VList):
            # at the start
            y, k, c = state(vm, s.items[0])
            t.part(y, z3.IntVal(0))
            return [("the root is open", z3.And(y == t.root, k == 0, c)), ("nothing is restored", get(fr, "has_deserialized") is False and get(fr, "exc_value") is None),
                    ("no buffer is taken", num_eq(vm, get(fr, "buf_pos"), z3.IntVal(0)))]
        if s is not cur["stack"]:
            raise Unsupported("the state is kept in another way")
        has, val, exc, pos = get(fr, "has_deserialized"), get(fr, "deserialized"), get(fr, "exc_value"), num(vm, get(fr, "buf_pos"))
        has = vm.truth(has)
        now = s.now(vm)
        vm.cover("step")
        if exc is not None:
            vm.cover("failure passed on")
            want = rewritten[-1] if rewritten else fails[-1][1] if fails else cur["exc"]
            r = [("a failure is passed on, as it was rewritten", exc is want), ("nothing is restored after a failure", not has)]
            if now is not None:
                x, k, ok = now
                t.part(x, k)
                r.append(("the failure is that of the next part", z3.And(ok, k < t.N(x))))
                if fails:
                    r.append(("and of the part that was tried", fails[-1][0] == t.C(x, k)))
            return r
        if cur["exc"] is not None or fails:
            return [("no failure is lost", z3.BoolVal(False))]
        if now is None:
            return [("the root is what is restored", z3.And(val.x == t.root) if has and isinstance(val, Val) else z3.BoolVal(False))]
        x, k, ok = now
        t.node(x)
        t.part(x, k)
        t.part(x, z3.simplify(k + 1))
        if not has:
            return [("the open objects", ok), ("a new object has no parts yet", k == 0), ("no buffer is lost", pos == t.POS(x))]
        z = t.C(x, k)
        return [("the open objects", ok), ("the next part is what was restored", z3.And(k < t.N(x), val.x == z) if isinstance(val, Val) else z3.BoolVal(False)),
                ("no buffer is lost", pos == t.END(z))]

    vm.loops.append(WhileSpec("steps", sel, havoc_, inv))
    out, e = attempt(vm, lambda: vm.call(f, [(VDict(), Ser(t, t.root, True)), buffers] + ([context] if context is not None else []), {}))
    if e is not None:
        vm.cover("failed")
        want = fails[-1][1] if fails and not cur.get("round") else cur.get("exc")
        vm.prove("a failure to restore is raised", want is not None and e is want, repr(e))
        return
    vm.cover("restored")
    vm.prove("the root is the result", out.x == t.root if isinstance(out, Val) else False, repr(out))
    vm.prove("no failure is lost at the end", cur.get("exc") is None and not fails)


def one_back(vm):
    """_deserial_single: objects by their numbers, places that wait for an object get it"""
    sid, oid = vm.fresh_int("serializer", 0), vm.fresh_int("number", 0)
    ph_cls = vm.lookup(M, "Placeholder")
    called = []

    class Value(Host):
        def vm_type(self, vm):
            return vm.opaque("class of the value")

        def vm_isinst(self, vm, cls):
            return False

    def ph(n):
        p = IObj(ph_cls)
        cbs = SSeq("callbacks", vm.fresh_int("places", 0).t, lambda i: Stub(lambda vm, a, k: called.append((i, a)), "callback"), "list") if n else VList()
        p.attrs.update(id=vm.fresh_int("id"), callbacks=cbs)
        return p

    rounds = {}

    def sel(vm, st, fr, it):
        cbs = known.attrs["callbacks"] if what == 2 else None
        return cbs is not None and (it is cbs or (isinstance(it, SSeq) and it.part is not None and it.part[0] is cbs and z3.is_true(z3.simplify(it.part[1] == 0))))

    def havoc_(vm, fr, it, i):
        rounds["i"] = i
        del called[:]

    def inv(vm, fr, it, i):
        if "i" not in rounds:
            return [("nobody is told before", not called)]
        k = rounds.pop("i")
        vm.cover("told")
        if gives == 1:
            # still waiting, for the placeholder that is there
            vm.prove("nothing but what waits is told", all(x == [known] for _, x in called))
            return []
        ok = len(called) == 1 and len(called[0][1]) == 1 and called[0][1][0] is got
        vm.prove("every place that waits gets the object, once", z3.And(num(vm, SInt(called[0][0]) if z3.is_expr(called[0][0]) else called[0][0]) == k) if ok else False)
        return []

    vm.loops.append(LoopSpec("places that wait", sel, havoc_, inv))

    what = vm.choose(4, "known before: nothing / an object / a placeholder / None")
    known = [None, Value(), ph(1), None][what]
    other = Value()
    okey = vm.fresh_int("another number", 0)
    vm.assume(okey.t != oid.t)
    context = VDict([[okey, other]] + ([[oid, known]] if what else []))
    rest = (vm.opaque("a"), vm.opaque("b"))
    subs = VList([vm.opaque("part")])
    gives = vm.choose(3, "gives: an object / a placeholder / None")
    got = [Value(), ph(0), None][gives]

    class SerializerOf(Host):
        def m_deserial(self, vm, a, k):
            vm.prove("the serializer gets the header it wrote, and the parts", isinstance(a[0], tuple) and len(a[0]) == 2 and all(x is y for x, y in zip(a[0], rest)) and a[1] is context and a[2] is subs)
            return got

    class Table(Host):
        def vm_getitem(self, vm, k):
            vm.prove("by the serializer that wrote it", num(vm, k) == sid.t)
            return SerializerOf()

    vm.overrides.setdefault(M, {})["_deserializers"] = Table()
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "_deserial_single"), [(sid, oid, vm.fresh_int("parts", 0), vm.fresh_bool("final")) + rest, context, subs], {}))
    vm.prove("nothing fails", e is None, repr(e))
    now = [v for k, v in context.items if k is oid or vm.truth(vm.eq(k, oid))]
    vm.prove("the object is known by its number", len(now) == 1)
    vm.prove("no other object changes", len(context.items) == 2 and any(v is other for _, v in context.items))
    if gives == 1:
        if what:
            vm.cover("met again")
            vm.prove("what was met before is the result", out is known and now[0] is known)
        else:
            vm.cover("not complete yet")
            vm.prove("a place that waits for the object", conj([out is got, now[0] is got, num(vm, vm.getattr(got, "id")) == oid.t]))
        vm.prove("nothing but what waits is told", all(a == [known] for _, a in called))
        return
    vm.prove("the object is the result", out is got and now[0] is got)
    if what == 2:
        vm.cover("waited for")
        vm.prove("all places that wait are told", rounds.get("i", z3.IntVal(0)) == known.attrs["callbacks"].length)
    else:
        vm.prove("nobody waits", not called)


CASES = [
    Case("steps", [f"{M}:_serialize_with_stack"], stepping, covers=["step", "interrupted", "finished", "number recorded"], need=60, assumed=["_serial_single"]),
    Case("plain", [f"{M}:serialize"], lambda vm: entry(vm, False), covers=["leaf", "straight"], need=8, assumed=["_serial_single", "_serialize_with_stack"]),
    Case("spawned", [f"{M}:serialize_with_spawn"], lambda vm: entry(vm, True), covers=["leaf", "straight", "resumed"], need=12,
         assumed=["_serial_single", "_serialize_with_stack", "run_in_executor"]),
    Case("one object", [f"{M}:_serial_single"], one, covers=["placeholder", "object"], need=30),
    Case("reading", [f"{M}:deserialize"], reading, covers=["step", "failed", "restored", "failure passed on"], need=60, assumed=["_deserial_single", "on_deserial_error"]),
    Case("one object back", [f"{M}:_deserial_single"], one_back, covers=["met again", "not complete yet", "waited for", "told"], need=20),
]

ASSUMPTIONS = [
    "serial() is a function of the object and the context: an object is serialized to the same parts in the other thread as in this one",
    "the executor runs what it is given once, and its result is awaited",
    "C integers are mathematical integers; the ids of live objects differ (context keeps the objects alive)",
]
