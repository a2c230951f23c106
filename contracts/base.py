"""helpers shared by the contracts"""

import z3

from pyvc.interp import VM, LoopSpec, WhileSpec, SExc, PyExc, Frame, Host, Stub, Awaitable  # noqa: F401
from pyvc.runner import Case  # noqa: F401
from pyvc.values import *  # noqa: F401,F403
from pyvc import lib  # noqa: F401


def conj(xs):
    """conjunction of bools / SBools"""
    ts = []
    for x in xs:
        if isinstance(x, SBool):
            ts.append(x.t)
        elif isinstance(x, bool):
            if not x:
                return z3.BoolVal(False)
        else:
            ts.append(x)
    return z3.And(*ts) if ts else z3.BoolVal(True)


def as_z3(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def same(vm, a, b):
    """identity/equality as a z3 condition, without forking for symbolic values"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (SVal, SInt, SBool)) or isinstance(b, (SVal, SInt, SBool)):
        return as_z3(vm.eq(a, b, ident=True))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return conj([same(vm, x, y) for x, y in zip(a, b)])
    if isinstance(a, (VList,)) and isinstance(b, VList):
        return same(vm, tuple(a.items), tuple(b.items))
    return as_z3(vm.eq(a, b))


def call(vm, obj, name, *args, **kw):
    return vm.call(vm.getattr(obj, name), list(args), kw)


def acall(vm, obj, name, *args, **kw):
    return vm.await_(call(vm, obj, name, *args, **kw))


def attempt(vm, fn):
    """(value, None) or (None, exception)"""
    try:
        return fn(), None
    except PyExc as e:
        return None, e.value


def new(vm, modname, cls, **attrs):
    """an object of a class of the repository in the given state (no constructor run)"""
    c = vm.lookup(modname, cls)
    o = IObj(c)
    o.partial = True
    o.attrs.update(attrs)
    return o


def exc_is(vm, e, cls):
    return e is not None and vm.isinst(e, cls)


class ATuple(Host):
    """tuple with a known prefix and an arbitrary rest"""

    def __init__(self, prefix, tail):
        self.prefix = tuple(prefix)
        self.tail = tail

    def vm_binop(self, vm, op, b):
        raise Unsupported("concatenation after an arbitrary rest")

    def vm_rbinop(self, vm, op, a):
        import ast

        if isinstance(op, ast.Add) and isinstance(a, (tuple, VList)):
            return ATuple(tuple(a.items if isinstance(a, VList) else a) + self.prefix, self.tail)
        raise Unsupported("operator on arbitrary tuple")

    def vm_getitem(self, vm, k):
        if isinstance(k, slice) and k.step is None:
            lo = k.start or 0
            if isinstance(lo, int) and 0 <= lo <= len(self.prefix):
                if k.stop is None:
                    return ATuple(self.prefix[lo:], self.tail)
                if isinstance(k.stop, int) and 0 <= k.stop <= len(self.prefix):
                    return self.prefix[lo : k.stop]
        if isinstance(k, int) and 0 <= k < len(self.prefix):
            return self.prefix[k]
        raise Unsupported("index into the arbitrary part of a tuple")


def havoc(vm, o, **attrs):
    """replace parts of the state of an object built by its constructor by arbitrary values;
    the specification does not apply when the object keeps its state elsewhere"""
    for k, v in attrs.items():
        if k not in o.attrs:
            raise Unsupported(f"{o!r} has no {k}: its state is kept in another way")
        o.attrs[k] = v


def num(vm, x):
    """number as a z3 term"""
    t = vm.int_term(x)
    if t is None:
        raise Unsupported(f"{x!r} is not a number")
    return t


def num_eq(vm, x, t):
    """x is the number t"""
    k = vm.int_term(x)
    return z3.BoolVal(False) if k is None else k == t


class Map(Host):
    """dict of any size, given by its graph: terms of keys to terms of values

    keys(i), 0 <= i < size, enumerates the keys of a dict that is not changed; place(k) is
    the place of a key in that order
    """

    def __init__(self, vm, name=None, empty=False, wrap=None, keywrap=None):
        self.wrap = wrap or (lambda t: SVal(z3.simplify(t), name))
        self.keywrap = keywrap or (lambda t: SVal(t))
        self.changed = False
        if empty:
            self.has, self.val = lambda k: z3.BoolVal(False), lambda k: vm.term(None)
            return
        n = vm.fresh_name(name)
        h, v = z3.Function(n + " has", U, z3.BoolSort()), z3.Function(n, U, U)
        self.has, self.val = (lambda k: h(k)), (lambda k: v(k))
        self.size = vm.fresh_int(n + " size", 0).t
        self.key_ = z3.Function(n + " key", z3.IntSort(), U)
        self.place_ = z3.Function(n + " place", U, z3.IntSort())
        self.n = n

    def graph(self):
        return self.has, self.val

    def at_key(self, vm, t):
        """a key has its place"""
        vm.assume(z3.Implies(self.first.has(t) if hasattr(self, "first") else self.has(t), z3.And(0 <= self.place_(t), self.place_(t) < self.size, self.key_(self.place_(t)) == t)))

    def at_place(self, vm, i):
        vm.assume(z3.Implies(z3.And(0 <= i, i < self.size), z3.And(self.has(self.key_(i)), self.place_(self.key_(i)) == i)))

    def m_keys(self, vm, a, k):
        return self.vm_seq(vm)

    def m_values(self, vm, a, k):
        s = self.vm_seq(vm)
        val = self.val
        t = SSeq(f"values of {self.n}", s.length, lambda i: self.wrap(val(vm.term(s.elem(i)))))
        t.map = self
        return t

    def m_items(self, vm, a, k):
        s = self.vm_seq(vm)
        val = self.val

        def elem(i):
            x = s.elem(i)
            return (x, self.wrap(val(vm.term(x))))

        t = SSeq(f"items of {self.n}", s.length, elem)
        t.map = self
        return t

    def vm_seq(self, vm):
        if self.changed or not hasattr(self, "size"):
            raise Unsupported("order of a dict that was changed")

        def elem(i):
            self.at_place(vm, i)
            return self.keywrap(self.key_(i))

        s = SSeq(f"keys of {self.n}", self.size, elem)
        s.map = self
        return s

    def find(self, vm, k):
        t = vm.term(k)
        if not vm.branch(self.has(t)):
            return None
        v = self.val(t)
        return self.wrap(v)

    def m_get(self, vm, a, k):
        r = self.find(vm, a[0])
        return r if r is not None else (a[1] if len(a) > 1 else None)

    def vm_getitem(self, vm, k):
        r = self.find(vm, k)
        if r is None:
            raise PyExc(KeyError(k))
        return r

    def vm_contains(self, vm, k):
        return SBool(self.has(vm.term(k)))

    def vm_setitem(self, vm, k, v):
        t, x, h, f = vm.term(k), vm.term(v), self.has, self.val
        self.changed = True
        self.has = lambda k: z3.Or(k == t, h(k))
        self.val = lambda k: z3.If(k == t, x, f(k))

    def m_setdefault(self, vm, a, k):
        if not vm.branch(self.has(vm.term(a[0]))):
            self.vm_setitem(vm, a[0], a[1])
        return self.find(vm, a[0])

    def m_pop(self, vm, a, k):
        r = self.find(vm, a[0])
        if r is None:
            if len(a) < 2:
                raise PyExc(KeyError(a[0]))
            return a[1]
        self._del(vm, a[0])
        return r

    def _del(self, vm, k):
        t, h = vm.term(k), self.has
        self.changed = True
        self.has = lambda k: z3.And(k != t, h(k))

    def vm_delitem(self, vm, k):
        if not vm.branch(self.has(vm.term(k))):
            raise PyExc(KeyError(k))
        self._del(vm, k)

    def m_clear(self, vm, a, k):
        self.changed = True
        self.has = lambda k: z3.BoolVal(False)

    def m_update(self, vm, a, k):
        g, h, f = graph(vm, a[0]), self.has, self.val
        self.changed = True
        self.has = lambda x: z3.Or(g[0](x), h(x))
        self.val = lambda x: z3.If(g[0](x), g[1](x), f(x))

    def m_copy(self, vm, a, k):
        m = Map(vm, empty=True, wrap=self.wrap)
        m.has, m.val = self.has, self.val
        return m


def graph(vm, d):
    if isinstance(d, Map):
        return d.graph()
    if isinstance(d, VDict):
        items = [(vm.term(k), vm.term(v)) for k, v in d.items]

        def val(k):
            r = vm.term(None)
            for a, b in items:
                r = z3.If(k == a, b, r)
            return r

        return (lambda k: z3.Or(*[k == a for a, _ in items]) if items else z3.BoolVal(False)), val
    raise Unsupported(f"{d!r} as a map")


def same_map(vm, x, y, but=()):
    """two graphs agree at an arbitrary key"""
    k = z3.Const(vm.fresh_name("any key"), U)
    c = z3.And(x[0](k) == y[0](k), z3.Implies(x[0](k), x[1](k) == y[1](k)))
    return z3.Or(*[k == b for b in but], c) if but else c
