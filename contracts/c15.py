"""C15: awaitables in results are replaced by their values, in place.

The tuple has any length and any mixture of items.  Spec functions on its positions:
WAITED (the item is an awaitable or an async generator), RANK (how many such items come
before) and POS (the position of the k-th of them); their defining equations are used,
and the two facts that RANK and POS are inverse follow from them by induction (lemma case).
"""

from .base import *  # noqa: F401,F403
from . import c06

K = "xoscar.core"
Z, B_ = z3.IntSort(), z3.BoolSort()
ITEM = z3.Function("item", Z, U)
IS_GEN = z3.Function("is async generator", U, B_)
IS_AW = z3.Function("isawaitable", U, B_)
RUN = z3.Function("run of the generator at", Z, U)
OUT = z3.Function("outcome", U, U)
FAILS = z3.Function("fails", U, B_)
RANK = z3.Function("rank", Z, Z)
POS = z3.Function("position", Z, Z)

_gen = lambda j: IS_GEN(ITEM(j))
waited = lambda j: z3.Or(_gen(j), IS_AW(ITEM(j)))
value = lambda j: z3.If(_gen(j), RUN(j), ITEM(j))


class Spec:
    def __init__(self, vm, n):
        self.vm, self.n = vm, n
        self.cancelled_at = 0
        self.cancelled = z3.IntVal(0)  # tasks of lower rank are cancelled
        self.waits = 0
        self.interrupted = False
        self.round = None
        self.started = []

    def outcome(self, t):
        """awaiting t"""

        def run(vm):
            if vm.branch(FAILS(t)):
                e = SExc("error of an awaitable", BaseException)
                e.of = t
                raise PyExc(e)
            return SVal(OUT(t))

        return run

    def awaitable(self, t):
        return SVal(t, None, awaitable=True, asyncgen=False, coroutine=True, type="awaitable", **{"await": self.outcome(t)})

    def item(self, j):
        return self.val(ITEM(j))

    def val(self, t):
        vm = self.vm
        return SVal(t, None, asyncgen=lambda vm=vm: vm.branch(IS_GEN(t)), awaitable=lambda vm: vm.branch(IS_AW(t)), type="item", eq=lambda vm, o: vm.fresh_bool("=="), **{"await": self.outcome(t)})

    def coro(self, k):
        """the k-th thing to be waited for"""
        return self.awaitable(value(POS(k)))

    def at(self, *ks):
        """defining facts of RANK and POS"""
        vm, n = self.vm, self.n
        for j in ks:
            vm.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(RANK(j + 1) == RANK(j) + z3.If(waited(j), 1, 0), RANK(j) >= 0, RANK(j) <= j)))
            vm.assume(z3.Implies(z3.And(0 <= j, j < n, waited(j)), z3.And(POS(RANK(j)) == j, RANK(j) < RANK(n))))
            # a run of a generator is a new coroutine
            vm.assume(z3.And(IS_AW(RUN(j)), z3.Not(IS_GEN(RUN(j)))))
            vm.assume(z3.Implies(_gen(j), z3.Not(IS_AW(ITEM(j)))))

    def kth(self, *ks):
        vm, n = self.vm, self.n
        for k in ks:
            vm.assume(z3.Implies(z3.And(0 <= k, k < RANK(n)), z3.And(0 <= POS(k), POS(k) < n, waited(POS(k)), RANK(POS(k)) == k)))
            vm.assume(z3.And(IS_AW(RUN(POS(k))), z3.Not(IS_GEN(RUN(POS(k))))))

    def upto(self, i, *ks):
        """the k-th comes before i exactly if fewer than RANK(i) come before it"""
        for k in ks:
            self.vm.assume(z3.Implies(z3.And(0 <= k, 0 <= i, i <= self.n), (k < RANK(i)) == z3.And(k < RANK(self.n), POS(k) < i)))


class Task(Host):
    def __init__(self, sp, c, k):
        self.sp, self.c, self.k = sp, c, k

    def m_cancel(self, vm, a, k):
        if vm.branch(self.k == self.sp.cancelled):
            self.sp.cancelled = z3.simplify(self.sp.cancelled + 1)
        return True

    def m_result(self, vm, a, k):
        if not self.sp.waits:
            raise PyExc(asyncio.InvalidStateError())
        return self.sp.outcome(self.c.t)(vm)

    def m_done(self, vm, a, k):
        return bool(self.sp.waits)

    def vm_await(self, vm):
        return self.sp.outcome(self.c.t)(vm)


class Done(Host):
    """set of the tasks, in no particular order"""

    def vm_iter(self, vm):
        raise Unsupported("order of completion")


def world(vm, sp):
    vm.contracts["xoscar._utils:is_async_generator"] = lambda vm, a, k: vm.branch(IS_GEN(a[0].t)) if isinstance(a[0], SVal) else False

    def run_gen(vm, a, k):
        g = a[-1]
        if sp.round is None or not isinstance(g, SVal):
            raise Unsupported("a generator is run elsewhere")
        sp.started.append(g)
        return sp.awaitable(RUN(sp.round))

    vm.contracts[f"{K}:_BaseActor._run_actor_async_generator"] = run_gen

    def ensure(vm, a, k):
        c = a[0]
        # the rank of what this task waits for
        r = vm.fresh_int("rank").t
        vm.assume(z3.Implies(z3.And(0 <= r, r < RANK(sp.n)), value(POS(r)) == c.t))
        return Task(sp, c, r)

    for n in ("asyncio.ensure_future", "asyncio.create_task"):
        vm.stubs[n] = Stub(ensure, n)

    def wait(vm, a, k):
        tasks = a[0]
        vm.prove("waits for all there is to wait for", tasks.length == RANK(sp.n) if isinstance(tasks, SSeq) else False)
        vm.prove("until all of them are done", not k and len(a) == 1, soft=True)

        def run(vm):
            if not sp.interrupted and vm.choose(2, "cancelled while waiting"):
                sp.interrupted = True
                raise PyExc(SExc("cancelled", asyncio.CancelledError))
            if sp.interrupted:
                vm.prove("all that is waited for is cancelled too", sp.cancelled >= RANK(sp.n))
            sp.waits += 1
            return (Done(), VSet())

        return Awaitable(run, "wait")

    vm.stubs["asyncio.wait"] = Stub(wait, "wait")


import asyncio  # noqa: E402


def loops(vm, sp):
    n = sp.n

    def collecting(vm, fr, it, i):
        loc = fr.locals
        if not {"coros", "coro_poses", "values"} <= set(loc):
            raise Unsupported("the state of the loop is kept in another way")
        sp.at(i)
        sp.round = i
        loc["coros"] = SSeq("coros", RANK(i), sp.coro)
        loc["coro_poses"] = SSeq("coro_poses", RANK(i), lambda k: SInt(POS(k)))
        loc["values"] = SSeq("values", i, lambda j: sp.val(value(j)))

    def collected(vm, fr, it, i):
        loc = fr.locals
        L = lambda x: z3.IntVal(len(x.items)) if isinstance(x, VList) else x.length if isinstance(x, SSeq) else z3.IntVal(-1)
        out = [
            ("as many things to wait for as were met", L(loc.get("coros")) == RANK(i)),
            ("as many positions", L(loc.get("coro_poses")) == RANK(i)),
            ("a value for every item so far", L(loc.get("values")) == i),
        ]
        if not all(isinstance(loc[x], SSeq) for x in ("coros", "coro_poses", "values")):
            return out
        k, j = vm.fresh_int("k").t, vm.fresh_int("j").t
        last = i - 1
        sp.at(last, j)
        sp.upto(i, k)
        sp.upto(last, k)
        sp.kth(k)
        for what, x, length, want in (
            ("coros", k, RANK(i), lambda: value(POS(k))),
            ("values", j, i, lambda: value(j)),
        ):
            if vm.branch(z3.And(0 <= x, x < length)):
                out.append((f"{what} are in place", vm.term(loc[what].elem(x)) == want()))
        if vm.branch(z3.And(0 <= k, k < RANK(i))):
            out.append(("positions are in place", vm.int_term(loc["coro_poses"].elem(k)) == POS(k)))
        return out

    def cancelling(vm, fr, it, i):
        sp.cancelled = i
        it.of = i

    def elem_cancel(vm, fr, it, i):
        t = it.elem(i)
        if isinstance(t, Task):
            sp.kth(i)
            vm.assume(t.k == i)
        return t

    def filling(vm, fr, it, i):
        loc = fr.locals
        if not isinstance(loc.get("values"), SSeq):
            raise Unsupported("the state of the loop is kept in another way")
        k = z3.Int("k")
        vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(FAILS(value(POS(k)))))))
        sp.filled = i
        sp.kth(i)
        sp.upto(n, i)
        loc["values"] = SSeq("values", n, lambda j: SVal(z3.If(z3.And(waited(j), RANK(j) < i), OUT(value(j)), value(j))))

    def filled(vm, fr, it, i):
        loc = fr.locals
        v = loc.get("values")
        if not isinstance(v, SSeq):
            raise Unsupported("the state of the loop is kept in another way")
        out = [("every item has a value", v.length == n)]
        j = vm.fresh_int("j").t
        vm.assume(z3.And(0 <= j, j < n))
        sp.at(j)
        sp.kth(i - 1)
        out.append(("values are in place", vm.term(v.elem(j)) == z3.If(z3.And(waited(j), RANK(j) < i), OUT(value(j)), value(j))))
        k = z3.Int("k")
        out.append(("none of them failed", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(FAILS(value(POS(k))))))))
        return out

    mine = lambda fr: fr.func.qualname.endswith("_handle_actor_result")
    phase = lambda: "cancel" if sp.interrupted and not sp.waits else "fill" if sp.waits else "collect"
    vm.loops.append(LoopSpec("collecting", lambda vm, st, fr, it: mine(fr) and phase() == "collect", collecting, collected))
    vm.loops.append(LoopSpec("cancelling", lambda vm, st, fr, it: mine(fr) and phase() == "cancel", cancelling,
                             lambda vm, fr, it, i: [("all tasks so far are cancelled", sp.cancelled == i)], elem=elem_cancel))
    vm.loops.append(LoopSpec("filling", lambda vm, st, fr, it: mine(fr) and phase() == "fill", filling, filled))


def the_tuple(vm):
    n = vm.fresh_int("items", 0).t
    sp = Spec(vm, n)
    vm.assume(RANK(0) == 0)
    sp.kth(z3.IntVal(0))
    vm.assume(z3.And(RANK(n) >= 0, RANK(n) <= n))
    world(vm, sp)
    loops(vm, sp)
    return sp, SSeq("result", n, sp.item, "tuple")


def settle(vm, sp, r, e):
    n = sp.n
    j = vm.fresh_int("any position").t
    vm.assume(z3.And(0 <= j, j < n))
    sp.at(j)
    if sp.interrupted:
        vm.cover("cancelled")
        vm.prove("a call that is cancelled gives no result", e is not None)
        return
    if e is not None:
        vm.cover("failed")
        c = getattr(e, "of", None)
        vm.prove("an error is the error of an awaitable in the result", c is not None, f"{e!r}")
        return
    vm.cover("result")
    vm.prove("no error of an awaitable is dropped", z3.Implies(waited(j), z3.Not(FAILS(value(j)))))
    if isinstance(r, tuple):
        vm.prove("a tuple of the same length", n == len(r))
        return
    ok = isinstance(r, SSeq) and r.kind == "tuple"
    vm.prove("a tuple", ok, f"{r!r}")
    if ok:
        vm.prove("of the same length", r.length == n)
        x = r.elem(j)
        if vm.branch(waited(j)):
            vm.cover("awaited item")
            vm.prove("the outcome of the awaitable in its place", vm.term(x) == OUT(value(j)), f"{x!r}")
        else:
            vm.cover("plain item")
            vm.prove("any other item is kept in its place", vm.term(x) == ITEM(j), f"{x!r}")


def actor(vm):
    return new(vm, K, "_BaseActor", _lock=None, _uid=b"uid", _address="addr")


def tuples(vm):
    sp, t = the_tuple(vm)
    if vm.choose(2, "the tuple is the value of an awaitable"):
        vm.cover("awaitable result")
        t0 = t
        t = Awaitable(lambda vm: t0, "result")
    r, e = attempt(vm, lambda: vm.await_(call(vm, actor(vm), "_handle_actor_result", t)))
    settle(vm, sp, r, e)


def singles(vm):
    sp = Spec(vm, z3.IntVal(0))
    world(vm, sp)
    kind = vm.choose(3, "plain, awaitable, async generator")
    x = vm.opaque("outcome", "object")
    err = SExc("error", BaseException)

    def run(vm):
        if vm.choose(2, "fails"):
            raise PyExc(err)
        return x

    if kind == 0:
        # also one of a type derived from tuple
        named = vm.choose(2, "derived from tuple") == 1
        res = vm.opaque("plain", "named tuple" if named else "object", asyncgen=False, awaitable=False, isinst=lambda vm, c: c in (tuple, object) if named else False, len=2, iter=lambda vm: [vm.opaque("field", "object", asyncgen=False, awaitable=False) for _ in range(2)])
        vm.contracts["xoscar._utils:is_async_generator"] = lambda vm, a, k: False
    elif kind == 1:
        res = Awaitable(run, "awaitable")
    else:
        res = vm.opaque("generator", "object", awaitable=False)
        vm.contracts["xoscar._utils:is_async_generator"] = lambda vm, a, k: a[0] is res
        got = []
        vm.contracts[f"{K}:_BaseActor._run_actor_async_generator"] = lambda vm, a, k: got.append(a[-1]) or Awaitable(run, "run")
    r, e = attempt(vm, lambda: vm.await_(call(vm, actor(vm), "_handle_actor_result", res)))
    if kind == 0:
        vm.cover("plain")
        vm.prove("a plain result is kept", e is None and r is res)
        return
    if e is not None:
        vm.cover("error")
        vm.prove("the error of the awaitable is raised", e is err)
    else:
        vm.cover("outcome")
        vm.prove("the outcome of the awaitable is the result", r is x, f"{r!r}")
    if kind == 2:
        vm.prove("the generator is run once", len(got) == 1 and got[0] is res)


def lemma(vm):
    """RANK and POS are inverse: POS(RANK(j)) == j defines POS on ranks; every k below RANK(i) is a rank"""
    i, k = vm.fresh_int("i", 0).t, vm.fresh_int("k", 0).t
    w = z3.Function("w", Z, B_)
    R, P = z3.Function("R", Z, Z), z3.Function("P", Z, Z)
    step = lambda i: R(i + 1) == R(i) + z3.If(w(i), 1, 0)
    defp = lambda j: z3.Implies(w(j), P(R(j)) == j)
    hyp = lambda i: z3.Implies(k < R(i), z3.And(0 <= P(k), P(k) < i, w(P(k)), R(P(k)) == k))
    vm.assume(R(0) == 0)
    vm.prove("every number below the rank is the rank of its position (start)", hyp(z3.IntVal(0)))
    vm.assume(z3.And(step(i), defp(i), hyp(i), R(i) >= 0))
    vm.prove("every number below the rank is the rank of its position (step)", hyp(i + 1))
    vm.prove("ranks are at most the position (step)", z3.Implies(R(i) <= i, R(i + 1) <= i + 1))
    vm.prove("ranks do not decrease (step)", R(i) <= R(i + 1))
    vm.cover("lemma")


def cached_types(vm):
    """is_async_generator answers by type, whatever was asked before"""
    vm.cover("asked")
    t = vm.opaque("type", "type")
    yes = vm.choose(2, "async generator") == 1
    isi = [0]

    def isinst(vm, c):
        isi[0] += 1
        return yes

    x = vm.opaque("object", None, type=lambda vm: t, isinst=isinst)
    f = vm.lookup("xoscar._utils", "is_async_generator")
    for _ in range(3):
        vm.prove("the answer does not change", vm.truth(vm.call(f, [x], {})) == yes)


CASES = [
    Case("tuple", [f"{K}:_BaseActor._handle_actor_result"], tuples,
         covers=["result", "failed", "cancelled", "awaitable result", "awaited item", "plain item", "collecting: body reached", "filling: body reached", "cancelling: body reached"],
         need=40, assumed=["asyncio.wait", "asyncio.ensure_future"]),
    Case("single result", [f"{K}:_BaseActor._handle_actor_result"], singles, covers=["plain", "error", "outcome"], need=6),
    Case("ranks", [f"{K}:_BaseActor._handle_actor_result"], lemma, covers=["lemma"], need=4),
    Case("async generator methods", [f"{K}:_BaseActor._run_actor_async_generator"], c06.generator,
         covers=["ended", "returned", "failed", "sent a value", "sent an error"], need=20),
    Case("kind of object", ["xoscar._utils:is_async_generator"], cached_types, covers=["asked"], need=2),
]

ASSUMPTIONS = [
    "asyncio.wait returns when all of the given tasks are done; a task ends with the outcome of its awaitable",
    "whether an object is an async generator depends on its type only, and none is an awaitable",
    "a coroutine occurs once (futures and tasks may occur several times)",
    "a second cancellation while the cancelled awaitables end is not considered",
]
