"""C07: a batch equals the calls it is made of.

The number of calls is arbitrary.  A call is an uninterpreted function of its arguments;
a batch implementation is assumed to give the list of the results of the single calls
(that is its contract), and has to be given all arguments in order, once.
"""

from .base import *  # noqa: F401,F403
from . import refs as references
from pyvc.interp import StarArg

B = "xoscar.batch"
K = "xoscar.core"

A_ = z3.Function("args of call", z3.IntSort(), U)
K_ = z3.Function("kwargs of call", z3.IntSort(), U)
M_ = z3.Function("method of call", z3.IntSort(), U)
F_ = z3.Function("result of call", U, U, U)


def args_of(i):
    return SVal(A_(i), "tuple")


def kwargs_of(i):
    return SVal(K_(i), "dict")


def terms(vm, a, k):
    """the arguments of a call as terms, if they are passed on as they are"""
    if len(a) == 1 and isinstance(a[0], StarArg) and isinstance(a[0].v, SVal) and list(k) == ["**"]:
        return a[0].v.t, vm.term(k["**"])
    return None


def length(vm, x):
    return z3.IntVal(len(x.items)) if isinstance(x, VList) else z3.IntVal(len(x)) if isinstance(x, tuple) else x.length


def all_are(vm, what, seq, n, want):
    """seq has n items and item i is want(i), for all i"""
    if not isinstance(seq, (VList, tuple, SSeq)):
        vm.prove(f"{what}: a list", False, f"{seq!r}")
        return
    vm.prove(f"{what}: length", length(vm, seq) == n)
    if isinstance(seq, SSeq):
        j = z3.Int(vm.fresh_name("index"))
        vm.assume(z3.And(0 <= j, j < n))
        vm.prove(f"{what}: every item in order", vm.term(seq.elem(j)) == want(j), f"{seq.elem(j)!r}")
    else:
        for j, x in enumerate(seq.items if isinstance(seq, VList) else seq):
            vm.prove(f"{what}: every item in order", vm.term(x) == want(z3.IntVal(j)))


class Single(Host):
    """the implementation of single calls"""

    def __init__(self, is_async, outcome="result"):
        self.is_async, self.outcome = is_async, outcome
        self.calls = []
        self.error = SExc("error of the call", Exception)
        self.error.known.append((NotImplementedError, False))

    def vm_call(self, vm, a, k):
        def run(vm):
            t = terms(vm, a, k)
            vm.prove("single calls get their own arguments as they are", t is not None, f"{a} {k}")
            self.calls.append(t)
            if self.outcome == "error":
                raise PyExc(self.error)
            if self.outcome == "not implemented":
                raise PyExc(NotImplementedError())
            return SVal(F_(*t))

        return Awaitable(run, "call") if self.is_async else run(vm)

    def vm_getattr(self, vm, name):
        if name == "__name__":
            return "method"
        return super().vm_getattr(vm, name)


class Batch(Host):
    """the batch implementation"""

    def __init__(self, is_async, n, fails=False):
        self.is_async, self.n, self.fails = is_async, n, fails
        self.calls = 0
        self.error = SExc("error of the batch", Exception)

    def vm_truth(self, vm):
        return True

    def vm_call(self, vm, a, k):
        def run(vm):
            self.calls += 1
            vm.prove("the batch implementation gets two lists", len(a) == 2 and not k)
            all_are(vm, "arguments of the batch implementation", a[0], self.n, A_)
            all_are(vm, "keyword arguments of the batch implementation", a[1], self.n, K_)
            if self.fails:
                raise PyExc(self.error)
            want = lambda i: SVal(F_(A_(i), K_(i)))
            l = z3.simplify(self.n)
            return VList([want(z3.IntVal(i)) for i in range(l.as_long())]) if z3.is_int_value(l) else SSeq("results", self.n, want)

        return Awaitable(run, "batch") if self.is_async else run(vm)


class Task(Host):
    def __init__(self, coro):
        self.coro = coro

    def vm_await(self, vm):
        return vm.await_(self.coro)

    def m_cancel(self, vm, a, k):
        return True


def tasks(vm):
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: Task(a[0]), "create_task")

    def gather(vm, a, k):
        def run(vm):
            if len(a) == 1 and isinstance(a[0], StarArg):
                s = a[0].v
                return SSeq("gathered", s.length, lambda i: vm.await_(s.elem(i)))
            return VList([vm.await_(t) for t in a])

        return Awaitable(run, "gather")

    vm.stubs["asyncio.gather"] = vm.stubs["asyncio.tasks.gather"] = Stub(gather, "gather")


def batches(is_async):
    def body(vm):
        f = Single(is_async, ["result", "not implemented", "error"][vm.choose(3, "single calls")])
        how = vm.choose(3, "batch implementation")
        # if calls fail there is one (several: see the bounded case)
        n = vm.fresh_int("calls", 0).t if how or f.outcome == "result" else z3.IntVal(1)
        b = [None, Batch(is_async, n), Batch(is_async, n, True)][how]
        w = vm.call(vm.lookup(B, "_ExtensibleWrapper"), [f], {"batch_func": b, "is_async": is_async})
        delays = SSeq("delays", n, lambda i: vm.call(vm.lookup(B, "_DelayedArgument"), [], {"args": args_of(i), "kwargs": kwargs_of(i)}), "tuple")

        def go():
            r = vm.call(vm.getattr(w, "batch"), [StarArg(delays)], {})
            return vm.await_(r) if is_async else r

        r, e = attempt(vm, go)
        many = b is not None and b.calls
        vm.prove("a batch implementation is called at most once", b is None or b.calls <= 1)
        if e is None:
            vm.cover("results of the batch implementation" if many else "results of single calls")
            all_are(vm, "results", r, n, lambda i: F_(A_(i), K_(i)))
            if b is not None and not f.calls:
                vm.prove("with a batch implementation no call is lost", z3.Or(n == 0, z3.BoolVal(bool(b.calls))))
        elif many:
            vm.cover("error of the batch implementation")
            vm.prove("an error of the batch implementation is raised", b.fails and e is b.error, f"{e!r}")
        else:
            vm.cover("error of a call")
            vm.prove("an error of a call is raised", (f.outcome == "error" and e is f.error) or (f.outcome == "not implemented" and b is None and exc_is(vm, e, NotImplementedError)), f"{e!r}")

    return body


def single(is_async):
    def body(vm):
        n = z3.IntVal(1)
        f = Single(is_async, ["result", "not implemented", "error"][vm.choose(3, "single call")])
        b = [None, Batch(is_async, n), Batch(is_async, n, True)][vm.choose(3, "batch implementation")]
        w = vm.call(vm.lookup(B, "_ExtensibleWrapper"), [f], {"batch_func": b, "is_async": is_async})
        for again in range(2):
            n0 = b.calls if b is not None else 0

            def go():
                a, k = args_of(z3.IntVal(0)), kwargs_of(z3.IntVal(0))
                r = vm.call(w, [StarArg(a)], {"**": k})
                return vm.await_(r) if is_async else r

            r, e = attempt(vm, go)
            nb = (b.calls if b is not None else 0) - n0
            if f.outcome == "result":
                vm.cover("answered by the single implementation")
                vm.prove("the result of the single implementation", e is None and not nb)
                if e is None:
                    vm.prove("the result is returned", vm.term(r) == F_(A_(0), K_(0)))
            elif f.outcome == "error":
                vm.prove("the error is raised", e is f.error and not nb)
            elif b is None:
                vm.cover("no implementation")
                vm.prove("a method without any implementation is not implemented", exc_is(vm, e, NotImplementedError))
            else:
                vm.prove("answered by the batch implementation, once", nb == 1)
                if b.fails:
                    vm.prove("the error of the batch implementation is raised", e is b.error)
                else:
                    vm.cover("answered by the batch implementation")
                    vm.prove("no error", e is None, f"{e!r}")
                    if e is None:
                        vm.prove("the first of its results is returned", vm.term(r) == F_(A_(0), K_(0)))

    return body


def effects(is_async):
    """all outcomes of up to three calls"""

    def body(vm):
        n = vm.choose(4, "calls")
        log = []

        class F(Host):
            def vm_call(self, vm, a, k):
                def run(vm):
                    i = a[0]
                    log.append((i, tuple(a), tuple(k.items())))
                    if vm.choose(2, f"call {i} fails"):
                        e = SExc(f"error {i}", Exception)
                        e.known.append((NotImplementedError, False))
                        errors.append(e)
                        raise PyExc(e)
                    return res[i]

                return Awaitable(run, "call") if is_async else run(vm)

        errors = []
        res = [vm.opaque("result") for _ in range(n)]
        xs = [vm.opaque("keyword") for _ in range(n)]
        f = F()
        w = vm.call(vm.lookup(B, "_ExtensibleWrapper"), [f], {"is_async": is_async})
        ds = [call(vm, w, "delay", i, k=xs[i]) for i in range(n)]

        def go():
            r = vm.call(vm.getattr(w, "batch"), ds, {})
            return vm.await_(r) if is_async else r

        r, e = attempt(vm, go)
        vm.prove("every call is made once at most, with its own arguments", [x[0] for x in log] == sorted(set(x[0] for x in log)) and all(x[1:] == ((x[0],), (("k", xs[x[0]]),)) for x in log), f"{log}")
        if errors:
            vm.cover("error")
            vm.prove("an error of a call is raised", e in errors)
        else:
            vm.cover("results")
            vm.prove("no error", e is None, f"{e!r}")
            vm.prove("every call is made", len(log) == n)
            if e is None:
                vm.prove("the results are in order", [x for x in vm.concrete_list(r)] == res)

    return body


class Arr(Host):
    """list of symbolic length that can be assigned to"""

    def __init__(self, length, elem):
        self.length, self.elem = length, elem

    def vm_setitem(self, vm, k, v):
        kt, old = vm.int_term(k), self.elem
        vm.prove("assigned within the list", z3.And(0 <= kt, kt < self.length))
        t = vm.term(v)
        self.elem = lambda j: z3.If(j == kt, t, old(j))

    def vm_len(self, vm):
        return SInt(self.length)


def remote(vm):
    n = vm.fresh_int("calls", 0).t
    none = vm.term(None)
    ref = vm.opaque("ref", "ref")
    opts = vm.choose(2, "options") == 1
    profiling = vm.opaque("profiling context")
    m = vm.call(vm.lookup(K, "ActorRefMethod"), [ref, "name", VDict([["profiling_context", profiling]]) if opts else None], {})
    truthy = z3.Function("truthy", U, z3.BoolSort())
    D = vm.lookup(K, "_DelayedArgument")
    kind = vm.lookup(K, "CALL_METHOD_DEFAULT")
    delays = SSeq("delays", n, lambda i: vm.call(D, [(SVal(M_(i), "str"), kind, args_of(i), kwargs_of(i))], {}), "tuple")
    sent = []

    class Context(Host):
        def m_send(self, vm, a, k):
            sent.append((a, k))
            return out

    out = vm.opaque("response")
    vm.overrides.setdefault(K, {})["get_context"] = Stub(lambda vm, a, k: Context(), "get_context")
    j = z3.Int("j")

    def havoc_(vm, fr, it, i):
        loc = fr.locals
        if not {"args_list", "kwargs_list", "has_kw", "last_method"} <= set(loc):
            raise Unsupported("the state of the loop is kept in another way")
        loc["args_list"] = Arr(n, lambda j: z3.If(j < i, A_(j), none))
        loc["kwargs_list"] = Arr(n, lambda j: z3.If(j < i, K_(j), none))
        loc["has_kw"] = SBool(z3.Exists([j], z3.And(0 <= j, j < i, truthy(K_(j)))))
        vm.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), M_(j) == M_(0))))
        first = vm.branch(i == 0)
        loc["last_method"] = None if first else SVal(M_(z3.IntVal(0)), "str")

    def state(x, j):
        return x.elem(j) if isinstance(x, Arr) else vm.term(x.elem(j)) if isinstance(x, SSeq) else vm.term(x.items[0]) if isinstance(x, VList) and x.items else none

    def inv(vm, fr, it, i):
        loc = fr.locals
        if not {"args_list", "kwargs_list", "has_kw", "last_method"} <= set(loc):
            raise Unsupported("the state of the loop is kept in another way")
        q = z3.Int(vm.fresh_name("index"))
        dom = z3.And(0 <= q, q < n)
        al, kl = loc["args_list"], loc["kwargs_list"]
        hk = as_z3(loc["has_kw"])
        return [
            ("the arguments so far are kept in order", z3.Implies(dom, state(al, q) == z3.If(q < i, A_(q), none))),
            ("the keyword arguments so far are kept in order", z3.Implies(dom, state(kl, q) == z3.If(q < i, K_(q), none))),
            ("keyword arguments are noticed", hk == z3.Exists([j], z3.And(0 <= j, j < i, truthy(K_(j))))),
            ("all methods so far are the same", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), M_(j) == M_(0)))),
            ("the method is remembered", z3.If(i == 0, vm.term(loc["last_method"]) == none, vm.term(loc["last_method"]) == M_(0))),
        ]

    vm.assume(z3.ForAll([j], M_(j) != none))
    vm.loops.append(LoopSpec("delays", lambda vm, st, fr, it: isinstance(it, SSeq) and fr.func.name == "batch", havoc_, inv))
    wait = vm.choose(2, "send or tell") == 0
    r, e = attempt(vm, lambda: vm.call(vm.getattr(m, "batch"), [StarArg(delays)], {} if wait else {"send": False}))
    if e is not None:
        vm.cover("refused")
        vm.prove("only a mix of methods is refused", z3.And(z3.BoolVal(exc_is(vm, e, ValueError)), z3.Exists([j], z3.And(0 < j, j < n, M_(j) != M_(0)))))
        vm.prove("and nothing is sent", not sent)
        return
    vm.cover("sent")
    vm.prove("a mix of methods is refused", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), M_(j) == M_(0))))
    vm.prove("one message is sent", len(sent) == 1)
    a, k = sent[0]
    vm.prove("its response is the result", r is out)
    vm.prove("to the actor of the reference", len(a) == 2 and a[0] is ref and isinstance(a[1], tuple) and len(a[1]) == 4)
    k = dict(k)
    vm.prove("a tell does not wait", k.pop("wait_response", True) is wait)
    vm.prove("with the options of the method", (list(k.items()) == [("profiling_context", profiling)]) if opts else not k)
    method, how, lists, _ = a[1]
    vm.prove("marked as a batch", same(vm, how, vm.lookup(K, "CALL_METHOD_BATCH")))
    vm.prove("of the method of the calls", z3.If(n == 0, vm.term(method) == vm.term("name"), vm.term(method) == M_(0)))
    q = z3.Int("q")
    vm.assume(z3.And(0 <= q, q < n))
    al, kl = lists
    size = lambda x: z3.IntVal(len(x.items)) if isinstance(x, VList) else x.length
    vm.prove("as many arguments as calls", size(al) == n)
    vm.prove("the arguments in order", state(al, q) == A_(q))
    if kl is None:
        vm.cover("no keyword arguments")
        vm.prove("keyword arguments are left out only if there are none", z3.Not(truthy(K_(q))))
    else:
        vm.cover("keyword arguments")
        vm.prove("as many keyword arguments as calls", size(kl) == n)
        vm.prove("the keyword arguments in order", state(kl, q) == K_(q))


def accessor(vm):
    """getting the method of an object binds all implementations to this object"""
    inst, owner = vm.opaque("object", "actor"), vm.opaque("class", "type")

    class Raw(Host):
        def __init__(self, name):
            self.name = name

        def m___get__(self, vm, a, k):
            return Bound(self, a)

        def vm_getattr(self, vm, name):
            if name == "__XOSCAR_ACTOR_METHOD_NO_LOCK__":
                if self.free:
                    return True
                raise PyExc(AttributeError(name))
            return super().vm_getattr(vm, name)

        def vm_hasattr(self, vm, name):
            return name == "__get__" or name == "__XOSCAR_ACTOR_METHOD_NO_LOCK__" and self.free

    class Bound(Host):
        def __init__(self, raw, a):
            self.raw, self.a = raw, list(a)

    is_async = vm.choose(2, "asynchronous") == 1
    f, b, bind = Raw("f"), Raw("b"), Raw("bind")
    f.free, b.free = vm.choose(2, "f is lock-free") == 1, vm.choose(2, "batch is lock-free") == 1
    vm.contracts[f"{B}:build_args_binder"] = lambda vm, a, k: bind
    vm.stubs["asyncio.iscoroutinefunction"] = vm.stubs["inspect.iscoroutinefunction"] = Stub(lambda vm, a, k: is_async, "iscoroutinefunction")
    acc = vm.call(vm.lookup(B, "extensible"), [f], {})
    has_b = vm.choose(2, "batch implementation") == 1
    if has_b:
        vm.prove("the decorator of the batch implementation gives the method", call(vm, acc, "batch", b) is acc)
    w = call(vm, acc, "__get__", inst, owner)
    vm.cover("bound")
    ok = lambda x, raw: isinstance(x, Bound) and x.raw is raw and x.a[0] is inst
    vm.prove("single calls are calls of the method of this object", ok(vm.getattr(w, "func"), f))
    vm.prove("the batch implementation is bound to this object", ok(vm.getattr(w, "batch_func"), b) if has_b else vm.getattr(w, "batch_func") is None)
    vm.prove("asynchronous exactly if the method is", vm.getattr(w, "is_async") is is_async)
    vm.prove("from the class the plain function is seen", call(vm, acc, "__get__", None, owner) is f)
    w2 = call(vm, acc, "__get__", vm.opaque("other object", "actor"), owner)
    vm.prove("every object has a method of its own", w2 is not w)


CASES = [
    Case("synchronous batch", [f"{B}:_ExtensibleWrapper.batch", f"{B}:_ExtensibleWrapper._gen_args_kwargs_list", f"{B}:_ExtensibleWrapper.call_with_lists", f"{B}:_ExtensibleWrapper._sync_batch"],
         batches(False), covers=["results of the batch implementation", "results of single calls", "error of the batch implementation"], need=30),
    Case("asynchronous batch", [f"{B}:_ExtensibleWrapper.batch", f"{B}:_ExtensibleWrapper._gen_args_kwargs_list", f"{B}:_ExtensibleWrapper.call_with_lists", f"{B}:_ExtensibleWrapper._async_batch"],
         batches(True), tasks, covers=["results of the batch implementation", "results of single calls", "error of the batch implementation", "error of a call"], need=30),
    Case("synchronous call", [f"{B}:_ExtensibleCallable.__call__", f"{B}:_ExtensibleCallable._sync_call"], single(False),
         covers=["answered by the single implementation", "answered by the batch implementation", "no implementation"], need=20),
    Case("asynchronous call", [f"{B}:_ExtensibleCallable.__call__", f"{B}:_ExtensibleCallable._async_call"], single(True),
         covers=["answered by the single implementation", "answered by the batch implementation", "no implementation"], need=20),
    Case("effects of synchronous calls", [f"{B}:_ExtensibleWrapper._sync_batch", f"{B}:_ExtensibleWrapper.delay"], effects(False), covers=["error", "results"], need=10, bounded="up to three calls"),
    Case("effects of asynchronous calls", [f"{B}:_ExtensibleWrapper._async_batch", f"{B}:_ExtensibleWrapper.delay"], effects(True), tasks, covers=["error", "results"], need=10, bounded="up to three calls"),
    Case("batch of a remote reference", [f"{K}:ActorRefMethod.batch", f"{K}:ActorRefMethod.__init__", f"{K}:_DelayedArgument.__init__"], remote,
         covers=["sent", "refused", "no keyword arguments", "keyword arguments"], need=20),
    Case("methods of an object", [f"{B}:_ExtensibleAccessor.__get__", f"{B}:_ExtensibleAccessor.__init__", f"{B}:_ExtensibleAccessor.batch", f"{B}:extensible"], accessor, covers=["bound"], need=20),
    *references.CALLS,
    *references.DELAYED,
]

ASSUMPTIONS = [
    "a batch implementation returns the list of the results of the single calls for the arguments it is given",
    "the calls of a batch do not interfere with each other (their results are functions of their arguments)",
    "asyncio.gather gives the results of its arguments in their order, or raises an error of one of them",
    "the batch message is handled by the actor as proved for C06 (the lists of the message are what the method gets)",
]
