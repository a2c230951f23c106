"""Value domain of the symbolic interpreter."""

import z3

U = z3.DeclareSort("U")  # all opaque Python values


class Unsupported(Exception):
    """construct outside the subset: nothing is concluded"""


class Infeasible(Exception):
    """the path condition is unsatisfiable"""


class PathEnd(Exception):
    """the path was cut (end of an arbitrary loop iteration, a bound, ...)"""


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, value, tb=None):
        super().__init__(value)
        self.value = value


class Sym:
    pass


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SVal(Sym):
    """an arbitrary, immutable Python value; ``typ`` (optional) says more"""

    def __init__(self, t, typ=None, **facets):
        self.t = t
        self.typ = typ
        self.facets = facets

    def __repr__(self):
        return f"SVal({self.t})"


class Host:
    """base of host-side (specification) objects visible to the program"""

    def vm_getattr(self, vm, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Stub(m, f"{type(self).__name__}.{name}")
        p = getattr(self, "p_" + name, None)
        if p is not None:
            return p(vm)
        raise Unsupported(f"attribute {name} of {type(self).__name__}")


class Stub:
    """a function given by its contract: fn(vm, args, kwargs) -> value"""

    def __init__(self, fn, name="stub"):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f"<stub {self.name}>"


class Awaitable:
    """awaitable given by its contract: fn(vm) -> value or raises PyExc"""

    def __init__(self, fn, name="awaitable", suspend=True):
        self.fn = fn
        self.name = name
        self.suspend = suspend
        self.t = None


class IFunc:
    def __init__(self, node, module, closure, qualname, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.qualname = qualname
        self.cls = cls
        self.defaults = []
        self.kw_defaults = {}
        self.attrs = {}
        self.is_async = node.__class__.__name__ == "AsyncFunctionDef"
        self.is_gen = False

    @property
    def name(self):
        return self.node.name if hasattr(self.node, "name") else "<lambda>"

    def __repr__(self):
        return f"<func {self.qualname}>"


class IMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f"<method {self.func}>"


class IProperty:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class IStatic:
    def __init__(self, f):
        self.f = f


class IClassMethod:
    def __init__(self, f):
        self.f = f


class IClass:
    def __init__(self, name, bases, ns, module, is_enum=False):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.is_enum = is_enum
        self.mro = self._mro()

    def _mro(self):
        seqs = []
        for b in self.bases:
            if isinstance(b, IClass):
                seqs.append(list(b.mro))
            elif isinstance(b, type):
                seqs.append(list(b.__mro__))
            else:
                seqs.append([b])
        seqs.append(list(self.bases))
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        if object not in out:
            out.append(object)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, IClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def host_bases(self):
        return [c for c in self.mro if isinstance(c, type)]

    def __repr__(self):
        return f"<class {self.name}>"


class IObj:
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        IObj._n += 1
        self.n = IObj._n
        self.args = ()
        self.partial = False  # built by a specification without running the constructor

    def __repr__(self):
        return f"<{self.cls.name} #{self.n}>"


class IEnum:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class ICoro:
    def __init__(self, func, frame):
        self.func = func
        self.frame = frame
        self.done = False

    def __repr__(self):
        return f"<coroutine {self.func}>"


class IGen:
    """generator function call, run eagerly when consumed"""

    def __init__(self, func, frame):
        self.func = func
        self.frame = frame


class VList:
    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return f"VList({self.items})"


class VSet:
    def __init__(self, items=()):
        self.items = list(items)


class VDict:
    """association list; keys compared with the interpreter's equality"""

    def __init__(self, items=()):
        self.items = [list(kv) for kv in items]

    def __repr__(self):
        return f"VDict({self.items})"


class SSeq:
    """symbolic sequence: length term and element function (z3 Int -> value)"""

    def __init__(self, name, length, elem, kind="list"):
        self.name = name
        self.length = length
        self.elem = elem
        self.kind = kind
        self.part = None  # what this is a copy of, and from which item on

    def whole(self):
        return self.part or (self, z3.IntVal(0))

    def frozen(self, kind=None):
        """the items as they are now (lists can be changed later)"""
        s = SSeq(self.name, self.length, self.elem, kind or self.kind)
        s.part = self.whole()
        return s

    def put(self, vm, k, v):
        old, self.part = self.elem, None

        def elem(j):
            c = z3.simplify(z3.IntVal(j) == k if isinstance(j, int) else j == k)
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return old(j)
            return v if vm.branch(c) else old(j)

        self.elem = elem

    def __repr__(self):
        return f"SSeq({self.name})"


class HostModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class HostFn:
    """reference to an external function, resolved through the stub table"""

    def __init__(self, qual):
        self.qual = qual

    def __repr__(self):
        return f"<extern {self.qual}>"


class TypeOf:
    """type(x) of an opaque value"""

    def __init__(self, v):
        self.v = v


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj
