"""Symbolic interpreter / verification-condition generator.

Executes the ASTs that front.py reads from /repo on symbolic values.  Branches on
symbolic conditions fork the execution (by re-execution along a decision prefix),
callees under contract are replaced by their contract (a Stub), loops over symbolic
sequences are cut with the invariant the specification gives, every postcondition
becomes a named obligation  path_condition -> phi  that z3 has to discharge.
"""

import ast
import builtins
import sys

import z3

from .front import Source, TranslationError
from .values import *  # noqa: F401,F403
from . import lib as _lib


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


ENGINE_EXC = (Unsupported, Infeasible, PathEnd)


class SExc(Host):
    """an arbitrary exception; classes are decided lazily, consistently"""

    def __init__(self, name, base=Exception):
        self.name = name
        self.base = base
        self.known = []  # (cls, bool)
        self.chain = {}
        self.depth = 0

    def __repr__(self):
        return f"SExc({self.name}, {[(getattr(c, '__name__', getattr(c, 'name', c)), b) for c, b in self.known]})"

    def vm_getattr(self, vm, name):
        if name == "__traceback__":
            return None
        if name in ("__cause__", "__context__"):
            # there may be one (chains up to two deep)
            if name not in self.chain:
                e = None
                if self.depth < 2 and vm.choose(2, f"{self.name} has a {name.strip('_')}"):
                    e = SExc(f"{name.strip('_')} of {self.name}", BaseException)
                    e.depth = self.depth + 1
                self.chain[name] = e
            return self.chain[name]
        if name == "args":
            return (vm.opaque("excarg"),)
        if name == "with_traceback":
            return Stub(lambda vm, a, k: self)
        raise Unsupported(f"attribute {name} of arbitrary exception")


def _subclass(c, d):
    """host or interpreted class c subclass of d"""
    if isinstance(c, IClass):
        return d in c.mro
    if isinstance(d, IClass):
        return False
    try:
        return issubclass(c, d)
    except TypeError:
        return False


class Frame:
    __slots__ = ("locals", "parent", "module", "func", "globals_", "nonlocals", "yields", "exc")

    def __init__(self, module, func=None, parent=None):
        self.locals = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.exc = None


class Module:
    def __init__(self, vm, name):
        self.vm = vm
        self.name = name
        self.src = vm.source(name)
        self.g = {"__name__": name}
        self.defs = {}
        self.evaluating = set()
        self._index(self.src.tree.body)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.defs[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = st
            elif isinstance(st, ast.If):
                # TYPE_CHECKING and version switches: first branch unless only in else
                if isinstance(st.test, ast.Compare):
                    self._index(st.body)
                    self._index(st.orelse)
                else:
                    self._index(st.orelse)
                    self._index(st.body)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._index(h.body)
                self._index(st.body)

    def get(self, name):
        """returns (found, value)"""
        over = self.vm.path.globals.get((self.name, name), self)
        if over is not self:
            return True, over
        if name in self.vm.overrides.get(self.name, ()):
            return True, self.vm.overrides[self.name][name]
        if name in self.vm.path.mod_g.setdefault(self.name, {}):
            return True, self.vm.path.mod_g[self.name][name]
        g = self.vm.path.mod_g[self.name]
        st = self.defs.get(name)
        if st is None:
            return False, None
        if name in self.evaluating:
            raise Unsupported(f"cyclic definition of {name} in {self.name}")
        self.evaluating.add(name)
        try:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                v = self.vm.do_import(self, st, name)
                g[name] = v
            else:
                fr = Frame(self)
                fr.locals = g
                self.vm.exec_stmt(st, fr)
        finally:
            self.evaluating.discard(name)
        if name not in g:
            return False, None
        return True, g[name]


class Path:
    def __init__(self, prefix, results=()):
        self.prefix = prefix
        self.decisions = []
        # obligations up to the fork were generated, and decided, on the path it was forked from
        self.known, self.results = results, []
        self.pc = []
        self.solver = z3.Solver()
        self.counter = {}
        self.globals = {}
        self.mod_g = {}
        self.trace = []
        self.events = []
        self.consts = {}
        self.steps = 0
        self.exc_stack = []
        self.bounded = None


class Obligation:
    def __init__(self, name):
        self.name = name
        self.total = 0
        self.discharged = 0
        self.failures = []
        self.unknown = []
        self.smt = []


class VM:
    def __init__(self, root, keep_smt=0, timeout_ms=20000):
        self.root = root
        self.sources = {}
        self.modules = {}
        self.stubs = {}
        self.contracts = {}
        self.overrides = {}
        self.loops = []
        self.while_bound = 6
        self.obl = {}
        self.covers = {}
        self.unsupported = []
        self.bounded_notes = set()
        self.keep_smt = keep_smt
        self.timeout_ms = timeout_ms
        self.n_paths = 0
        self.n_queries = 0
        self.solver_s = 0.0
        self.max_steps = 200000
        self.funcs_run = set()
        self.on_yield = None
        self.soft = set()  # names of auxiliary obligations (loop invariants)
        self.mode = "proof"
        self._install_builtins()

    # ------------------------------------------------------------ sources
    def source(self, name):
        if name not in self.sources:
            self.sources[name] = Source(self.root, name)
        return self.sources[name]

    def module(self, name):
        if name not in self.modules:
            self.modules[name] = Module(self, name)
        return self.modules[name]

    def has_module(self, name):
        try:
            self.source(name)
            return True
        except FileNotFoundError:
            return False

    def lookup(self, modname, dotted):
        """resolve Class.method / function in a module; returns a value"""
        found, v = self.module(modname).get(dotted.split(".")[0])
        if not found:
            raise Unsupported(f"{modname} has no {dotted}")
        for part in dotted.split(".")[1:]:
            if isinstance(v, IClass):
                x, _ = v.lookup(part)
                if x is None:
                    raise Unsupported(f"{modname}:{dotted} not found")
                v = x
            else:
                v = self.getattr(v, part)
        return v

    def do_import(self, module, st, name):
        if isinstance(st, ast.Import):
            for a in st.names:
                if (a.asname or a.name).split(".")[0] == name:
                    full = a.name if a.asname else a.name.split(".")[0]
                    if full.split(".")[0] == "xoscar" and self.has_module(full):
                        return self.module(full)
                    return HostModule(full)
        base = st.module or ""
        if st.level:
            pkg = module.name.split(".")
            drop = st.level - (1 if module.src.is_pkg else 0)
            if drop:
                pkg = pkg[:-drop]
            base = ".".join(pkg + ([st.module] if st.module else []))
        for a in st.names:
            if (a.asname or a.name) == name:
                q = base + "." + a.name
                if q in self.stubs:
                    return self.stubs[q]
                if base.split(".")[0] == "xoscar":
                    try:
                        if self.has_module(base):
                            ok, v = self.module(base).get(a.name)
                            if ok:
                                return v
                        if self.has_module(q):
                            return self.module(q)
                    except (SyntaxError, TranslationError) as e:
                        raise Unsupported(f"cannot read {base}: {e}")
                    return HostFn(q)
                hv = self._host_class(q)
                return hv if hv is not None else HostFn(q)
        raise Unsupported(f"import of {name}")

    def _host_class(self, q):
        """exception classes and a few types of the standard library"""
        table = {
            "abc.ABC": object,
            "enum.Enum": HostFn("enum.Enum"),
            "typing.NamedTuple": HostFn("typing.NamedTuple"),
        }
        if q in table:
            return table[q]
        mod, _, attr = q.rpartition(".")
        if mod in ("asyncio", "asyncio.exceptions", "concurrent.futures", "queue", "socket"):
            try:
                m = __import__(mod, fromlist=[attr])
                v = getattr(m, attr, None)
                if isinstance(v, type) and issubclass(v, BaseException):
                    return v
            except ImportError:
                pass
        return None

    # ------------------------------------------------------------ paths
    def explore(self, fn, max_paths=4000, deadline=None):
        import time

        work = [([], ())]
        base = self.loops, self.stubs, self.contracts, self.overrides
        while work:
            # nothing a path declares is seen by another one
            self.loops, self.stubs, self.contracts = list(base[0]), dict(base[1]), dict(base[2])
            self.overrides = {k: dict(v) for k, v in base[3].items()}
            if deadline is not None and time.time() > deadline:
                self.unsupported.append("deadline")
                return
            prefix, results = work.pop()
            self.n_paths += 1
            if self.n_paths > max_paths:
                self.unsupported.append(f"more than {max_paths} paths")
                return
            self.path = Path(prefix, results)
            self.path.solver.set("timeout", self.timeout_ms)
            self._pending = []
            try:
                fn(self)
            except Infeasible:
                pass
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
            except PyExc as e:
                self.unsupported.append(f"uncaught in specification: {e.value!r}")
            except RecursionError:
                self.unsupported.append("recursion too deep")
            except z3.Z3Exception as e:
                self.unsupported.append(f"the contract cannot be stated: {e}")
            except (IndexError, KeyError, AttributeError, TypeError, ValueError, AssertionError, NotImplementedError) as e:
                # the contract did not expect what the code does here: nothing is proved on this path, what was
                # refuted before stays
                import traceback

                self.unsupported.append(f"the contract cannot be stated: {type(e).__name__}: {e}")
                self.crash = traceback.format_exc()[-1500:]
            work.extend(self._pending)

    def _check(self, *extra):
        import time

        t0 = time.time()
        self.n_queries += 1
        r = self.path.solver.check(*extra)
        self.solver_s += time.time() - t0
        return r

    def branch(self, cond, label=""):
        """decide a symbolic condition, forking the exploration"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        p = self.path
        k = len(p.decisions)
        if k < len(p.prefix):
            d = p.prefix[k]
        else:
            can_t = self._check(cond) != z3.unsat
            can_f = self._check(z3.Not(cond)) != z3.unsat
            if can_t and can_f:
                self._pending.append((p.decisions + [False], list(p.results)))
                d = True
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                raise Infeasible()
        p.decisions.append(d)
        c = cond if d else z3.Not(cond)
        p.pc.append(c)
        p.solver.add(c)
        p.trace.append((label or "branch", cond, d))
        return d

    def choose(self, n, label=""):
        """demonic choice of the environment"""
        p = self.path
        k = len(p.decisions)
        if k < len(p.prefix):
            d = p.prefix[k]
        else:
            for alt in range(n - 1, 0, -1):
                self._pending.append((p.decisions + [alt], list(p.results)))
            d = 0
        p.decisions.append(d)
        p.trace.append((f"choice {label}", None, d))
        return d

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        if isinstance(cond, SBool):
            cond = cond.t
        self.path.pc.append(cond)
        if _quantified(cond):
            # used in the proofs only: the pruning of paths does without it
            return
        self.path.solver.add(cond)
        if len(self.path.decisions) < len(self.path.prefix):
            return  # found to be possible on the path it was forked from
        if self._check() == z3.unsat:
            raise Infeasible()

    def prove(self, name, cond, note="", soft=False):
        p = self.path
        k = len(p.results)
        if k < len(p.known):
            if p.known[k][0] != name or len(p.decisions) >= len(p.prefix):
                raise Unsupported("a path that was forked goes another way")
            p.results.append(p.known[k])
            return p.known[k][1]
        r = self._prove(name, cond, note, soft)
        p.results.append((name, r))
        return r

    def _prove(self, name, cond, note, soft):
        o = self.obl.setdefault(name, Obligation(name))
        if soft:
            self.soft.add(name)
        o.total += 1
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        neg = z3.Not(cond)
        import time

        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for c in self.path.pc:
            s.add(c)
        s.add(neg)
        self.n_queries += 1
        r = s.check()
        self.solver_s += time.time() - t0
        if self.keep_smt and len(o.smt) < self.keep_smt:
            o.smt.append((s.to_smt2(), str(r)))
        if r == z3.unsat:
            o.discharged += 1
            return True
        if r == z3.sat:
            m = s.model()
            o.failures.append(
                {
                    "note": note,
                    "condition": str(cond)[:600],
                    "model": {str(d): str(m[d])[:200] for d in list(m.decls())[:40]},
                    "path": [f"{w}: {str(c)[:160] + ' = ' if c is not None else ''}{d}" for w, c, d in self.path.trace[-60:]],
                    "events": [repr(e)[:200] for e in self.path.events][-40:],
                    "bounded": self.path.bounded,
                }
            )
        else:
            o.unknown.append({"note": note, "condition": str(cond)[:400], "reason": s.reason_unknown()})
        return False

    def cover(self, name):
        """the current path is reachable: vacuity check"""
        if self.covers.get(name):
            return
        self.covers[name] = self._check() == z3.sat

    def event(self, *e):
        self.path.events.append(e)

    def fresh_name(self, base):
        n = self.path.counter.get(base, 0)
        self.path.counter[base] = n + 1
        return f"{base}!{n}"

    def fresh_int(self, base="i", lo=None, hi=None):
        v = z3.Int(self.fresh_name(base))
        if lo is not None:
            self.path.pc.append(v >= lo)
            self.path.solver.add(v >= lo)
        if hi is not None:
            self.path.pc.append(v <= hi)
            self.path.solver.add(v <= hi)
        return SInt(v)

    def fresh_real(self, base="r"):
        """a number; machine floats are treated as reals"""
        return SInt(z3.Real(self.fresh_name(base)))

    def fresh_bool(self, base="b"):
        return SBool(z3.Bool(self.fresh_name(base)))

    def opaque(self, base="v", typ=None, **facets):
        return SVal(z3.Const(self.fresh_name(base), U), typ, **facets)

    def note_bounded(self, what):
        self.bounded_notes.add(what)
        self.path.bounded = what

    # ------------------------------------------------------------ terms
    def const(self, c):
        """U-constant of a concrete hashable value (or identity of an object)"""
        key = ("id", id(c)) if isinstance(c, (IObj, VList, VDict, IFunc, IClass, Host, IEnum, VSet)) else (type(c).__name__, c)
        p = self.path
        if key not in p.consts:
            t = z3.Const(f"const!{len(p.consts)}!{str(c)[:30]}", U)
            for k2, (t2, _) in p.consts.items():
                a = t != t2
                p.pc.append(a)
                p.solver.add(a)
            p.consts[key] = (t, c)
        return p.consts[key][0]

    def term(self, v):
        """U-term of any value"""
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, SInt):
            f = z3.Function("int2U", z3.IntSort(), U) if v.t.sort() == z3.IntSort() else z3.Function("real2U", z3.RealSort(), U)
            return f(v.t)
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, int, float)):
            return self.const(v)
        if isinstance(v, tuple):
            f = z3.Function(f"tuple{len(v)}", *([U] * len(v)), U) if v else None
            return f(*[self.term(x) for x in v]) if v else self.const(())
        if isinstance(v, (IObj, VList, VDict, IFunc, IClass, Host, IEnum, VSet)):
            return self.const(v)
        raise Unsupported(f"term of {v!r}")

    def truth(self, v, label=""):
        if isinstance(v, SBool):
            return self.branch(v.t, label)
        if isinstance(v, SInt):
            return self.branch(v.t != 0, label)
        if isinstance(v, SVal):
            if "truth" in v.facets:
                return self.truth(v.facets["truth"])
            t = self.opaque_truth(v)
            return self.branch(t, label)
        if isinstance(v, VList):
            return bool(v.items)
        if isinstance(v, VSet):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.items)
        if isinstance(v, SSeq):
            return self.branch(v.length > 0, label)
        if isinstance(v, IObj):
            for m in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(m)
                if f is not None:
                    return self.truth(self.call(self.getattr(v, m), [], {}))
            return True
        if isinstance(v, Host):
            m = getattr(v, "vm_truth", None)
            return self.truth(m(self)) if m else True
        if isinstance(v, (IFunc, IClass, IMethod, Stub, HostFn, HostModule, Module, IEnum, ICoro, Awaitable, TypeOf)):
            return True
        return bool(v)

    def opaque_truth(self, v):
        f = z3.Function("truthy", U, z3.BoolSort())
        if v.typ not in (None, "any"):
            return z3.BoolVal(True) if v.typ not in ("str", "bytes", "tuple", "dict", "list", "optional") else f(v.t)
        # None, False are falsy
        return z3.And(f(v.t), v.t != self.const(None), v.t != self.const(False))

    def eq(self, a, b, ident=False):
        """== as bool or SBool; ident: only used for identity of opaque values"""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, IEnum) and getattr(a.cls, "int_enum", False) and not isinstance(b, IEnum):
            return self.eq(a.value, b)
        if isinstance(b, IEnum) and getattr(b.cls, "int_enum", False) and not isinstance(a, IEnum):
            return self.eq(a, b.value)
        if isinstance(a, SBool) or isinstance(b, SBool):
            ta = a.t if isinstance(a, SBool) else z3.BoolVal(bool(a)) if isinstance(a, bool) else None
            tb = b.t if isinstance(b, SBool) else z3.BoolVal(bool(b)) if isinstance(b, bool) else None
            if ta is None or tb is None:
                return False
            return SBool(ta == tb)
        if isinstance(a, SInt) or isinstance(b, SInt):
            ta = self.int_term(a)
            tb = self.int_term(b)
            if ta is None or tb is None:
                return False
            return SBool(ta == tb)
        for v, w in ((a, b), (b, a)):
            # == of its own
            if not ident and isinstance(v, SVal) and "eq" in v.facets:
                return v.facets["eq"](self, w)
        if isinstance(a, Host) and hasattr(a, "vm_eq"):
            return a.vm_eq(self, b)
        if isinstance(b, Host) and hasattr(b, "vm_eq"):
            return b.vm_eq(self, a)
        if isinstance(a, SVal) or isinstance(b, SVal):
            x, y = (a, b) if isinstance(a, SVal) else (b, a)
            if x.typ is not None and not isinstance(y, SVal):
                if y is None and x.typ != "optional":
                    return False
                if isinstance(y, (IObj,)) and x.typ in ("str", "bytes", "addr"):
                    return False
            return SBool(self.term(a) == self.term(b))
        if isinstance(a, IObj) or isinstance(b, IObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, IObj):
                    f, c = x.cls.lookup("__eq__")
                    if isinstance(f, IFunc):
                        r = self.call(self.getattr(x, "__eq__"), [y], {})
                        if r is NotImplemented:
                            continue
                        return r
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self._eq_seq(a, b)
        if isinstance(a, VList) and isinstance(b, VList):
            return self._eq_seq(a.items, b.items)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.items) != len(b.items):
                return False
            for k, v in a.items:
                e = self.dict_find(b, k)
                if e is None or not self.truth(self.eq(v, e[1])):
                    return False
            return True
        if isinstance(a, VSet) and isinstance(b, VSet):
            return len(a.items) == len(b.items) and all(self.contains(b, x) for x in a.items)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        simple = (str, bytes, int, float, bool, type(None), complex)
        if isinstance(a, simple) and isinstance(b, simple):
            return a == b
        return False

    def _eq_seq(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not self.truth(self.eq(x, y)):
                return False
        return True

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            return self.type_is(a.v, b)
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, (SVal, type(None), bool, str, bytes)) and isinstance(b, (SVal, type(None), bool, str, bytes)):
                return self.eq(a, b, ident=True)
            if isinstance(a, (IObj, IEnum, Host)) or isinstance(b, (IObj, IEnum, Host)):
                return self.eq(a, b, ident=True) if not isinstance(a, Host) and not isinstance(b, Host) else False
            return False
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if a is None or b is None:
                return False
            if isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, SBool) or isinstance(b, SBool):
                    return self.eq(a, b)
                return False
            return self.eq(a, b)
        if isinstance(a, (str, bytes, int, float, bool, tuple)) and isinstance(b, (str, bytes, int, float, bool, tuple)):
            return type(a) is type(b) and a == b if not isinstance(a, tuple) else a is b
        return a is b

    def type_is(self, v, cls):
        if isinstance(cls, TypeOf):
            raise Unsupported("type(x) is type(y) on opaque values")
        if isinstance(v, SVal):
            h = v.facets.get("type_is")
            if h is not None:
                return h(self, cls)
            if v.typ is not None:
                name = cls.__name__ if isinstance(cls, type) else getattr(cls, "name", "?")
                return v.typ == name
            f = z3.Function("typeis_" + str(getattr(cls, "__name__", getattr(cls, "name", cls))), U, z3.BoolSort())
            return SBool(f(v.t))
        raise Unsupported(f"type of {v!r}")

    def int_term(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, IEnum) and getattr(v.cls, "int_enum", False) and isinstance(v.value, int):
            return z3.IntVal(v.value)
        if isinstance(v, float) and v == v and abs(v) != float("inf"):
            n, d = v.as_integer_ratio()
            return z3.RealVal(n) / z3.RealVal(d)
        return None

    def _nonzero(self, tb):
        """Python's division: zero raises, a negative divisor rounds unlike SMT's"""
        tb = z3.simplify(tb)
        if self.branch(tb == 0):
            raise PyExc(ZeroDivisionError("division by zero"))

    # ------------------------------------------------------------ exceptions
    def throw(self, exc):
        raise PyExc(exc)

    def isinst(self, v, cls):
        """isinstance as bool (may fork)"""
        if isinstance(cls, tuple):
            return any(self.isinst(v, c) for c in cls)
        if isinstance(cls, VList):
            return any(self.isinst(v, c) for c in cls.items)
        if cls is object:
            return True
        if isinstance(v, SExc):
            if not (isinstance(cls, (IClass, type))):
                raise Unsupported(f"isinstance of exception with {cls!r}")
            if isinstance(cls, type) and _subclass(v.base, cls):
                return True
            if isinstance(cls, type) and not issubclass(cls, BaseException):
                return False
            for c, b in v.known:
                if b and _subclass(c, cls):
                    return True
                if not b and _subclass(cls, c):
                    return False
            if v.base is Exception:
                if isinstance(cls, type) and not issubclass(cls, Exception):
                    return False
                if isinstance(cls, IClass) and Exception not in cls.mro:
                    return False
            for c, b in v.known:
                # two unrelated classes: no common instance is considered
                if b and not _subclass(cls, c):
                    return False
            d = self.choose(2, f"{v.name} is {getattr(cls, '__name__', getattr(cls, 'name', cls))}") == 1
            v.known.append((cls, d))
            return d
        if isinstance(v, IObj):
            return cls in v.cls.mro
        if isinstance(v, BaseException):
            return isinstance(cls, type) and isinstance(v, cls)
        if isinstance(v, Host):
            h = getattr(v, "vm_isinst", None)
            if h is not None:
                return self.truth(h(self, cls))
            raise Unsupported(f"isinstance of {v!r}")
        if isinstance(v, SVal):
            h = v.facets.get("isinst")
            if h is not None:
                return self.truth(h(self, cls))
            name = cls.__name__ if isinstance(cls, type) else getattr(cls, "name", getattr(cls, "qual", str(cls)))
            if v.typ is not None:
                if isinstance(v.typ, IClass):
                    return cls in v.typ.mro
                return v.typ == name
            f = z3.Function("isinst_" + name, U, z3.BoolSort())
            return self.branch(f(v.t))
        if isinstance(v, IEnum):
            return cls is v.cls
        table = {VList: list, VDict: dict, VSet: set, SSeq: list}
        if type(v) in table:
            t = table[type(v)]
            if isinstance(v, SSeq) and v.kind == "tuple":
                t = tuple
            if isinstance(cls, type):
                return issubclass(t, cls)
            if isinstance(cls, HostFn):
                return self._abc_inst(t, cls)
            return False
        if isinstance(v, SInt):
            return cls is (int if v.t.sort() == z3.IntSort() else float)
        if isinstance(v, SBool):
            return cls in (bool, int)
        if isinstance(v, (ICoro, Awaitable, IFunc, IMethod, Stub, IClass)):
            if isinstance(cls, type):
                return isinstance(v, IClass) and cls is type
            if isinstance(cls, HostFn):
                return cls.qual.rsplit(".", 1)[-1] in (
                    {"Awaitable", "Coroutine", "CoroutineType"} if isinstance(v, ICoro) else {"Awaitable"} if isinstance(v, Awaitable) else {"Callable"}
                )
            return False
        if isinstance(cls, type):
            return isinstance(v, cls)
        if isinstance(cls, HostFn):
            return self._abc_inst(type(v), cls)
        return False

    def _abc_inst(self, t, cls):
        import collections.abc as cabc

        n = cls.qual.rsplit(".", 1)[-1]
        a = getattr(cabc, n, None)
        if a is None:
            if n in ("AsyncGenerator",):
                return False
            mod = cls.qual.rpartition(".")[0]
            if t in (dict, list, tuple, set, str, bytes, int, float, bool, type(None)) and mod.split(".")[0] in sys.stdlib_module_names:
                import importlib

                real = getattr(importlib.import_module(mod), n, None)
                if isinstance(real, type):
                    return issubclass(t, real)
            raise Unsupported(f"isinstance with {cls!r}")
        return issubclass(t, a)

    # ------------------------------------------------------------ containers
    def dict_find(self, d, k):
        for e in d.items:
            if self.truth(self.eq(e[0], k)):
                return e
        return None

    def contains(self, c, x):
        if isinstance(c, VDict):
            return self.dict_find(c, x) is not None
        if isinstance(c, (VList, VSet)):
            return any(self.truth(self.eq(y, x)) for y in list(c.items))
        if isinstance(c, tuple):
            return any(self.truth(self.eq(y, x)) for y in c)
        if isinstance(c, Host):
            m = getattr(c, "vm_contains", None)
            if m is None:
                raise Unsupported(f"in {c!r}")
            return self.truth(m(self, x))
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
            return x in c
        if isinstance(c, SVal):
            h = c.facets.get("contains")
            if h is not None:
                return self.truth(h(self, x))
            f = z3.Function("contains", U, U, z3.BoolSort())
            return self.branch(f(c.t, self.term(x)))
        if isinstance(c, SSeq):
            items = self.iterate(c)
            if items is not None:
                return any(self.truth(self.eq(y, x)) for y in items)
            t = self.term(x)
            if self.branch(z3.Bool(self.fresh_name(f"in {c.name}"))):
                w = self.fresh_int("place").t
                self.assume(z3.And(0 <= w, w < c.length))
                self.assume(self.term(c.elem(w)) == t)
                return True
            j = z3.Int(self.fresh_name("j"))
            k = len(self.path.decisions)
            no = self.term(c.elem(j)) != t
            if len(self.path.decisions) != k:
                raise Unsupported("membership in a list that was changed")
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.length), no)))
            return False
        if isinstance(c, IObj):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(self.getattr(c, "__contains__"), [x], {}))
        raise Unsupported(f"in {c!r}")

    def sequence(self, it):
        """symbolic collections other than sequences as sequences"""
        return it.vm_seq(self) if isinstance(it, Host) and hasattr(it, "vm_seq") else it

    def iterate(self, it):
        """concrete list of elements or None when symbolic"""
        if isinstance(it, (VList, VSet)):
            return list(it.items)
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, VDict):
            return [k for k, _ in it.items]
        if isinstance(it, (str, bytes, range, list)):
            return list(it)
        if isinstance(it, IGen):
            return self.run_gen(it)
        if isinstance(it, Host):
            m = getattr(it, "vm_iter", None)
            if m is not None:
                return m(self)
            return None
        if isinstance(it, IObj):
            f, _ = it.cls.lookup("__iter__")
            if f is not None:
                r = self.call(self.getattr(it, "__iter__"), [], {})
                if r is not it:
                    return self.iterate(r)
        if isinstance(it, SSeq):
            l = z3.simplify(it.length)
            if z3.is_int_value(l):
                return [it.elem(z3.IntVal(i)) for i in range(l.as_long())]
            return None
        if isinstance(it, SVal):
            h = it.facets.get("iter")
            if h is not None:
                return h(self)
        raise Unsupported(f"iteration over {it!r}")

    def run_gen(self, g):
        fr = g.frame
        fr.yields = []
        try:
            self.exec_block(g.func.node.body, fr)
        except ReturnEx:
            pass
        return fr.yields

    def concrete_list(self, it, what="iteration"):
        r = self.iterate(it)
        if r is None:
            raise Unsupported(f"{what} over symbolic {it!r}")
        return r

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, IObj):
            return self._obj_getattr(o, name)
        if isinstance(o, IClass):
            return self._class_getattr(o, name)
        if isinstance(o, Module):
            ok, v = o.get(name)
            if ok:
                return v
            sub = o.name + "." + name
            if self.has_module(sub):
                return self.module(sub)
            raise PyExc(AttributeError(name))
        if isinstance(o, HostModule):
            q = f"{o.name}.{name}"
            if q in self.stubs:
                return self.stubs[q]
            hv = self._host_class(q)
            if hv is not None:
                return hv
            return HostFn(q)
        if isinstance(o, HostFn):
            q = f"{o.qual}.{name}"
            if q in self.stubs:
                return self.stubs[q]
            return HostFn(q)
        if isinstance(o, Host):
            return o.vm_getattr(self, name)
        if isinstance(o, SuperProxy):
            return self._super_getattr(o, name)
        if isinstance(o, SVal):
            if name in o.facets:
                return o.facets[name]
            h = o.facets.get("getattr")
            if h is not None:
                return h(self, name)
            if name.startswith("__") and name.endswith("__"):
                raise Unsupported(f"{name} of opaque value")
            if name in ("encode", "decode"):
                return self._codec(o, name)
            if name == "hex" and o.typ == "bytes":
                return Stub(lambda vm, a, k: SVal(z3.Function("hex", U, U)(o.t), "str"), "hex")
            f = z3.Function("attr_" + name, U, U)
            return SVal(f(o.t))
        if isinstance(o, IEnum):
            if name in ("value", "name"):
                return getattr(o, name)
            f, c = o.cls.lookup(name)
            if isinstance(f, IFunc):
                return IMethod(f, o)
            if f is not None:
                return f
        if isinstance(o, IFunc):
            if name in o.attrs:
                return _known(o.attrs[name], name)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return None
            raise PyExc(AttributeError(name))
        if isinstance(o, IMethod):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, Stub):
            if name in ("__name__", "__qualname__"):
                return o.name
            raise PyExc(AttributeError(name))
        if isinstance(o, TypeOf):
            if name in ("__name__", "__qualname__", "__module__"):
                return self.opaque("typename", "str")
            if isinstance(o.v, SVal) and ("type_" + name) in o.v.facets:
                return o.v.facets["type_" + name]
            raise Unsupported(f"type attribute {name}")
        if isinstance(o, BaseException):
            if name == "args":
                return o.args
            if name == "with_traceback":
                return Stub(lambda vm, a, k: o)
            if name in ("__cause__", "__context__", "__traceback__"):
                return getattr(o, name)
            if name == "value" and isinstance(o, StopIteration):
                return o.value
            raise PyExc(AttributeError(name))
        if isinstance(o, type):
            if name in ("__name__", "__qualname__", "__module__"):
                return getattr(o, name)
            if name == "__mro__":
                return o.__mro__
            if o is dict and name == "fromkeys":
                return Stub(lambda vm, a, k: VDict([(x, a[1] if len(a) > 1 else None) for x in vm.concrete_list(a[0])]))
            if o is int and name == "from_bytes":
                return Stub(lambda vm, a, k: int.from_bytes(*a, **k))
            if o is object and name == "__getattribute__":
                return Stub(lambda vm, a, k: vm.raw_getattr(a[0], a[1]))
            if o is object and name == "__new__":
                return Stub(lambda vm, a, k: IObj(a[0]))
            if o is object and name == "__init__":
                return Stub(lambda vm, a, k: None)
            if o in (list, tuple, dict, str, bytes) and hasattr(o, name):
                return _lib.TypeAttr.of(o, name)
        m = self.builtin_method(o, name)
        if m is not None:
            return m
        raise PyExc(AttributeError(f"{type(o).__name__}.{name}"))

    def _codec(self, o, name):
        """utf-8 is a bijection between texts and the byte strings that are texts"""
        enc, dec = z3.Function("str_encode", U, U), z3.Function("str_decode", U, U)

        def run(vm, a, k):
            if [x for x in list(a) + list(k.values()) if str(x).lower().replace("-", "") not in ("utf8",)]:
                raise Unsupported("codec other than utf-8")
            r = enc(o.t) if name == "encode" else dec(o.t)
            ax = (dec(r) if name == "encode" else enc(r)) == o.t
            vm.path.pc.append(ax)
            vm.path.solver.add(ax)
            return SVal(r, "bytes" if name == "encode" else "str")

        return Stub(run, name)

    def raw_getattr(self, o, name):
        if isinstance(o, IObj) and name in o.attrs:
            return _known(o.attrs[name], name)
        f, c = o.cls.lookup(name) if isinstance(o, IObj) else (None, None)
        if f is None:
            raise PyExc(AttributeError(name))
        return self._bind(f, o, o.cls)

    def _bind(self, f, o, cls):
        if isinstance(f, IFunc):
            c = self.contracts.get(f.qualname)
            if c is not None:
                return Stub(lambda vm, a, k: c(vm, [o] + list(a), k), f.qualname)
            return IMethod(f, o)
        if isinstance(f, IStatic):
            return self._static(f.f)
        if isinstance(f, IClassMethod):
            return self._bind(f.f, cls, cls)
        if isinstance(f, IProperty):
            return self.call(f.fget, [o], {})
        if isinstance(f, Stub) and getattr(f, "bind", False):
            return Stub(lambda vm, a, k: f.fn(vm, [o] + list(a), k), f.name)
        return f

    def _static(self, f):
        if isinstance(f, IFunc):
            c = self.contracts.get(f.qualname)
            if c is not None:
                return Stub(c, f.qualname)
        return f

    def _obj_getattr(self, o, name):
        f, c = o.cls.lookup(name)
        if isinstance(f, IProperty):
            return self.call(f.fget, [o], {})
        if name in o.attrs:
            return _known(o.attrs[name], name)
        if f is not None or (c is not None and not o.partial):
            return self._bind(f, o, o.cls) if f is not None else None
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return VDict(list(o.attrs.items()))
        hb = o.cls.host_bases()
        if any(issubclass(b, BaseException) for b in hb):
            if name == "args":
                return o.args
            if name == "with_traceback":
                return Stub(lambda vm, a, k: o)
            if name in ("__cause__", "__context__", "__traceback__"):
                return o.attrs.get(name)
        g, _ = o.cls.lookup("__getattr__")
        if g is not None:
            return self.call(IMethod(g, o), [name], {})
        if o.partial:
            # the specification did not give this attribute a value: nothing is concluded
            raise Unsupported(f"attribute {name} of {o!r} is not given by the specification")
        raise PyExc(AttributeError(f"{o.cls.name}.{name}"))

    def _class_getattr(self, o, name):
        f, c = o.lookup(name)
        if c is not None:
            if isinstance(f, IClassMethod):
                return self._bind(f.f, o, o)
            if isinstance(f, IStatic):
                return self._static(f.f)
            if isinstance(f, IFunc):
                ct = self.contracts.get(f.qualname)
                if ct is not None:
                    return Stub(ct, f.qualname)
            return f
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__module__":
            return o.module.name
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__init__":
            return Stub(lambda vm, a, k: None)
        if name == "__new__":
            return Stub(lambda vm, a, k: IObj(a[0]))
        raise PyExc(AttributeError(f"{o.name}.{name}"))

    def _super_getattr(self, sp, name):
        o = sp.obj
        mro = (o.cls if isinstance(o, IObj) else o).mro
        i = mro.index(sp.cls)
        for c in mro[i + 1 :]:
            if isinstance(c, IClass) and name in c.ns:
                f = c.ns[name]
                return self._bind(f, o, o.cls if isinstance(o, IObj) else o)
        if name == "__init__":
            def init(vm, a, k):
                if isinstance(o, IObj) and any(issubclass(b, BaseException) for b in o.cls.host_bases()):
                    o.args = tuple(a)
                return None

            return Stub(init)
        if name == "__new__":
            return Stub(lambda vm, a, k: IObj(a[0]))
        if name == "__str__":
            return Stub(lambda vm, a, k: vm.opaque("str", "str"))
        raise PyExc(AttributeError(f"super().{name}"))

    def setattr(self, o, name, v):
        if isinstance(o, IObj):
            f, _ = o.cls.lookup(name)
            if isinstance(f, IProperty):
                if f.fset is None:
                    raise PyExc(AttributeError(name))
                self.call(f.fset, [o, v], {})
                return
            o.attrs[name] = v
        elif isinstance(o, Host):
            s = getattr(o, "vm_setattr", None)
            if s is None:
                raise Unsupported(f"setattr on {o!r}")
            s(self, name, v)
        elif isinstance(o, IClass):
            o.ns[name] = v
        elif isinstance(o, IFunc):
            o.attrs[name] = v
        elif isinstance(o, BaseException):
            if name in ("__traceback__", "__cause__", "__context__"):
                return
            raise Unsupported("setattr on exception")
        elif isinstance(o, Module):
            self.path.globals[(o.name, name)] = v
        else:
            raise Unsupported(f"setattr on {o!r}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.path.steps += 1
        if self.path.steps > self.max_steps:
            raise Unsupported("step budget")
        if isinstance(f, Stub):
            return f.fn(self, args, kwargs)
        if isinstance(f, IMethod):
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, IFunc):
            c = self.contracts.get(f.qualname)
            if c is not None:
                return c(self, list(args), kwargs)
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, IClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, HostFn):
            return self.call_host(f.qual, args, kwargs)
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        if isinstance(f, IObj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, Host):
            m = getattr(f, "vm_call", None)
            if m is not None:
                return m(self, args, kwargs)
        if isinstance(f, IStatic):
            return self.call(f.f, args, kwargs)
        if isinstance(f, SVal):
            h = f.facets.get("call")
            if h is not None:
                return h(self, args, kwargs)
        if f is None or isinstance(f, (int, str, tuple)):
            raise PyExc(TypeError("not callable"))
        raise Unsupported(f"call of {f!r}")

    def call_host(self, qual, args, kwargs):
        s = self.stubs.get(qual)
        if s is not None:
            return self.call(s, args, kwargs) if not callable(s) else s(self, args, kwargs)
        if "logger" in qual or qual.startswith(("logging.", "warnings.")):
            return Logger()
        if qual.startswith("typing."):
            return HostFn(qual)
        raise Unsupported(f"call of external {qual}")

    def call_type(self, t, args, kwargs):
        if issubclass(t, BaseException):
            try:
                return t(*args)
            except TypeError:
                return t(*[str(a) for a in args])
        h = _TYPE_CALLS.get(t)
        if h is not None:
            return h(self, args, kwargs)
        raise Unsupported(f"call of type {t.__name__}")

    def instantiate(self, cls, args, kwargs):
        c = self.contracts.get(f"{cls.module.name}:{cls.name}")
        if c is not None:
            return c(self, list(args), kwargs)
        if cls.is_enum:
            for m in cls.ns.values():
                if isinstance(m, IEnum) and self.truth(self.eq(m.value, args[0])):
                    return m
            raise PyExc(ValueError("not a member"))
        new, nc = cls.lookup("__new__")
        if isinstance(new, (IFunc, IStatic)):
            fn = new.f if isinstance(new, IStatic) else new
            o = self.call_func(fn, [cls] + list(args), kwargs)
            if not (isinstance(o, IObj) and cls in o.cls.mro):
                return o
        else:
            o = IObj(cls)
        for k in reversed(cls.mro):
            if isinstance(k, IClass) and "__cinit__" in k.ns:
                f = k.ns["__cinit__"]
                self.call_func(f, [o] + self._fit(f, args), kwargs if f.node.args.kwarg or f.node.args.args[1:] else {})
        init, ic = cls.lookup("__init__")
        if init is not None:
            self.call(self._bind(init, o, cls), args, kwargs)
        else:
            if any(issubclass(b, BaseException) for b in cls.host_bases()):
                o.args = tuple(args)
        return o

    def _fit(self, f, args):
        a = f.node.args
        if a.vararg:
            return list(args)
        return list(args)[: len(a.args) - 1]

    def call_func(self, f, args, kwargs):
        fr = Frame(f.module, f, f.closure)
        self.bind_args(f, fr, args, kwargs)
        self.funcs_run.add(f.qualname)
        if f.is_gen and f.is_async:
            raise Unsupported(f"async generator {f.qualname}")
        if f.is_gen:
            return IGen(f, fr)
        if f.is_async:
            return ICoro(f, fr)
        return self.run_body(f, fr)

    def run_body(self, f, fr):
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        try:
            self.exec_block(f.node.body, fr)
        except ReturnEx as r:
            return r.value
        return None

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        loc = fr.locals
        n = min(len(args), len(names))
        for i in range(n):
            if isinstance(args[i], StarArg):
                raise Unsupported(f"{f.qualname}: arguments from an arbitrary sequence")
            loc[names[i]] = args[i]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc(TypeError(f"{f.qualname}: too many arguments"))
            rest = args[len(names) :]
            if len(rest) == 1 and isinstance(rest[0], StarArg):
                # all of an arbitrary sequence
                loc[a.vararg.arg] = rest[0].v
            elif any(isinstance(x, StarArg) for x in rest):
                raise Unsupported(f"{f.qualname}: arguments from an arbitrary sequence and others")
            else:
                loc[a.vararg.arg] = tuple(rest)
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for k in list(kwargs):
            if k in names and k not in loc:
                loc[k] = kwargs.pop(k)
            elif k in [x.arg for x in a.kwonlyargs]:
                loc[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc(TypeError(f"{f.qualname}: missing argument {nm}"))
                loc[nm] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg not in f.kw_defaults:
                    raise PyExc(TypeError(f"{f.qualname}: missing argument {x.arg}"))
                loc[x.arg] = f.kw_defaults[x.arg]
        if a.kwarg is not None:
            if list(kwargs) == ["**"]:
                loc[a.kwarg.arg] = kwargs["**"]
            elif "**" in kwargs:
                raise Unsupported(f"{f.qualname}: arbitrary keyword arguments and others")
            else:
                loc[a.kwarg.arg] = VDict(list(kwargs.items()))
        elif list(kwargs) == ["**"]:
            raise Unsupported(f"{f.qualname}: arbitrary keyword arguments")
        elif kwargs:
            raise PyExc(TypeError(f"{f.qualname}: unexpected {list(kwargs)}"))

    def await_(self, v):
        if isinstance(v, ICoro):
            if v.done:
                raise PyExc(RuntimeError("cannot reuse already awaited coroutine"))
            v.done = True
            return self.run_body(v.func, v.frame)
        if isinstance(v, Awaitable):
            return v.fn(self)
        if isinstance(v, Host):
            m = getattr(v, "vm_await", None)
            if m is not None:
                return m(self)
        if isinstance(v, SVal):
            h = v.facets.get("await")
            if h is not None:
                return h(self)
        raise Unsupported(f"await {v!r}")

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        self.path.steps += 1
        if self.path.steps > self.max_steps:
            raise Unsupported("step budget")
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {fr.module.name}:{st.lineno}")
        m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakEx()

    def x_Continue(self, st, fr):
        raise ContinueEx()

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc(AssertionError())

    def x_Global(self, st, fr):
        fr.globals_.update(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_Import(self, st, fr):
        for a in st.names:
            nm = (a.asname or a.name).split(".")[0]
            self._importing(a.name)
            fr.locals[nm] = self.do_import(fr.module, st, nm)

    def x_ImportFrom(self, st, fr):
        for a in st.names:
            nm = a.asname or a.name
            if not st.level:
                self._importing(st.module)
            fr.locals[nm] = self.do_import(fr.module, st, nm)

    def _importing(self, name):
        """the import of a module that may be missing, by its stub"""
        f = self.stubs.get(f"import {name}")
        if f is not None:
            self.call(f, [], {})

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno), fr)
            put = lambda v: self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            old = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")
        r = self.eval(st.value, fr)
        if isinstance(old, VList) and isinstance(st.op, ast.Add) and not hasattr(r, "vm_rbinop"):
            old.items.extend(self.concrete_list(r))
            put(old)
            return
        put(self.binop(st.op, old, r))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.path.globals[(fr.module.name, t.id)] = v
            elif t.id in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    if t.id in p.locals:
                        p.locals[t.id] = v
                        return
                    p = p.parent
                raise Unsupported("nonlocal")
            else:
                fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyExc(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, VList(vals[i : len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, fr)
            else:
                if len(vals) != len(t.elts):
                    raise PyExc(ValueError("unpack"))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, t):
        if isinstance(v, SVal):
            n = len(t.elts)
            h = v.facets.get("unpack")
            if h is not None:
                return h(self, n)
            return [SVal(z3.Function(f"item{i}of{n}", U, U)(v.t)) for i in range(n)]
        return self.concrete_list(v, "unpacking")

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    raise PyExc(NameError(t.id))
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, IObj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise PyExc(AttributeError(t.attr))
            else:
                raise Unsupported("del")

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), f"line {st.lineno}"):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_While(self, st, fr):
        spec = self.find_loop(st, fr, None)
        if spec is not None:
            return spec.run(self, st, fr, None)
        n = 0
        while True:
            c = self.truth(self.eval(st.test, fr), f"while line {st.lineno}")
            if not c:
                self.exec_block(st.orelse, fr)
                return
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
            if n >= self.while_bound:
                self.note_bounded(f"while loop in {fr.func.qualname if fr.func else '?'} unrolled {n} times")
                raise PathEnd()

    def find_loop(self, st, fr, it):
        for sp in self.loops:
            if sp.matches(self, st, fr, it):
                return sp
        return None

    def x_For(self, st, fr):
        it = self.sequence(self.eval(st.iter, fr))
        spec = self.find_loop(st, fr, it)
        if spec is not None:
            return spec.run(self, st, fr, it)
        items = self.iterate(it)
        if items is None:
            raise Unsupported(f"no invariant for the loop over {it!r} in {fr.func.qualname if fr.func else '?'}")
        for x in items:
            try:
                self.assign(st.target, x, fr)
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, fr)

    def x_AsyncFor(self, st, fr):
        raise Unsupported("async for")

    def exc_class(self, e):
        if isinstance(e, IObj):
            return e.cls
        if isinstance(e, BaseException):
            return type(e)
        return TypeOf(e)

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                if not self._handle(st, fr, e):
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except ENGINE_EXC:
            raise
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, fr)
            raise
        else:
            self.exec_block(st.finalbody, fr)

    def _handle(self, st, fr, e):
        for h in st.handlers:
            if h.type is None:
                ok = True
            else:
                c = self.eval(h.type, fr)
                ok = self.isinst(e.value, c)
            if ok:
                if h.name:
                    fr.locals[h.name] = e.value
                self.path.exc_stack.append(e.value)
                try:
                    self.exec_block(h.body, fr)
                finally:
                    self.path.exc_stack.pop()
                    if h.name:
                        fr.locals.pop(h.name, None)
                return True
        return False

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.path.exc_stack:
                raise PyExc(RuntimeError("No active exception to reraise"))
            raise PyExc(self.path.exc_stack[-1])
        v = self.eval(st.exc, fr)
        if isinstance(v, (IClass, type)):
            v = self.call(v, [], {})
        if st.cause is not None:
            c = self.eval(st.cause, fr)
            if isinstance(v, IObj):
                v.attrs["__cause__"] = c
        if not isinstance(v, (BaseException, IObj, SExc)):
            if isinstance(v, SVal):
                raise PyExc(v)
            raise Unsupported(f"raise {v!r}")
        raise PyExc(v)

    def x_With(self, st, fr):
        self._with(st.items, st.body, fr, False)

    def x_AsyncWith(self, st, fr):
        self._with(st.items, st.body, fr, True)

    def _with(self, items, body, fr, is_async):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        exit_ = self.getattr(cm, ex)
        v = self.call(self.getattr(cm, en), [], {})
        if is_async:
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)

        def do_exit(a):
            r = self.call(exit_, a, {})
            if is_async:
                r = self.await_(r)
            return r

        try:
            self._with(items[1:], body, fr, is_async)
        except ENGINE_EXC:
            raise
        except PyExc as e:
            self.path.exc_stack.append(e.value)
            try:
                r = do_exit([self.exc_class(e.value), e.value, self.opaque("tb", "traceback")])
            finally:
                self.path.exc_stack.pop()
            if not self.truth(r):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            do_exit([None, None, None])
            raise
        else:
            do_exit([None, None, None])

    def _make_func(self, st, fr, qual):
        parent = None
        f = IFunc(st, fr.module, fr if fr.func is not None or fr.parent is not None else None, qual)
        a = st.args
        f.defaults = [self._safe_default(d, fr) for d in a.defaults]
        f.kw_defaults = {x.arg: self._safe_default(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(st, ast.Lambda):
            f.is_gen = _has_yield(st)
        return f

    def _safe_default(self, d, fr):
        try:
            return self.eval(d, fr)
        except Unsupported:
            return HostFn("default")

    def x_FunctionDef(self, st, fr):
        cls = getattr(fr, "locals", {}).get("__classname__")
        base = f"{cls}.{st.name}" if cls else (f"{fr.func.qualname.split(':')[-1]}.<locals>.{st.name}" if fr.func else st.name)
        f = self._make_func(st, fr, f"{fr.module.name}:{base}")
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.assign(ast.Name(id=st.name), v, fr)

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, v, fr):
        txt = ast.unparse(d)
        if txt == "property" or txt.endswith("cached_property"):
            return IProperty(v)
        if txt.endswith(".setter"):
            old = fr.locals.get(txt.split(".")[0])
            return IProperty(old.fget, v)
        if txt == "staticmethod":
            return IStatic(v)
        if txt == "classmethod":
            return IClassMethod(v)
        if txt.split("(")[0] in ("abstractmethod", "implements", "functools.wraps", "wraps", "cython.binding", "lru_cache", "functools.lru_cache", "contextlib.contextmanager.x"):
            return v
        if txt in ("contextlib.contextmanager", "contextmanager"):
            q = f"{fr.module.name}:{v.qualname}" if ":" not in v.qualname else v.qualname
            return Stub(lambda vm, a, k: vm.contracts[q](vm, a, k) if q in vm.contracts else _GenCM(vm, v, a, k), v.qualname)
        if txt.startswith("_register_message_handler"):
            return v
        dec = self.eval(d, fr)
        return self.call(dec, [v], {})

    def x_ClassDef(self, st, fr):
        bases = []
        is_enum = int_enum = False
        for b in st.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            bv = self.eval(b, fr)
            if isinstance(bv, HostFn):
                if bv.qual.startswith("enum.") or bv.qual == "enum.IntEnum":
                    is_enum = True
                    int_enum = int_enum or bv.qual in ("enum.IntEnum", "enum.IntFlag")
                if bv.qual in ("typing.Generic", "typing.NamedTuple"):
                    pass
                continue
            if isinstance(bv, IClass) and bv.is_enum:
                is_enum = True
            if isinstance(bv, (IClass, type)) and bv is not object:
                bases.append(bv)
        ns = {}
        cf = Frame(fr.module, fr.func, fr.parent if fr.func is None else fr)
        cf.locals = ns
        ns["__classname__"] = st.name if fr.func is None else f"{fr.func.qualname.split(':')[-1]}.<locals>.{st.name}"
        for s in st.body:
            try:
                self.exec_stmt(s, cf)
            except Unsupported as e:
                # class-level detail outside the subset: attribute unknown
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ns.pop(s.name, None)
                continue
        ns.pop("__classname__", None)
        cls = IClass(st.name, bases, ns, fr.module, is_enum)
        cls.int_enum = int_enum
        for k, v in list(ns.items()):
            for f in _funcs_of(v):
                f.cls = cls
        if is_enum:
            for k, v in list(ns.items()):
                if isinstance(v, (int, str)) and not k.startswith("_"):
                    ns[k] = IEnum(cls, k, v)
        v = cls
        for d in reversed(st.decorator_list):
            if ast.unparse(d) in ("dataclass", "dataclasses.dataclass"):
                self._dataclass(st, cls, fr)
                continue
            v = self.decorate(d, v, fr)
        self.assign(ast.Name(id=st.name), v, fr)

    def _dataclass(self, st, cls, fr):
        """the constructor that @dataclass makes of the fields of a class"""
        fields = [x for x in st.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if any(isinstance(x.value, ast.Call) or ast.unparse(x.annotation).startswith(("ClassVar", "InitVar")) for x in fields) or any(
            isinstance(b, IClass) for b in cls.bases
        ):
            raise Unsupported(f"dataclass {st.name}")
        sig = ", ".join(["self"] + [x.target.id + (f"={ast.unparse(x.value)}" if x.value is not None else "") for x in fields])
        src = f"def __init__({sig}):\n" + "".join(f"    self.{x.target.id} = {x.target.id}\n" for x in fields) + "    pass\n"
        node = ast.fix_missing_locations(ast.parse(src)).body[0]
        if "__init__" not in cls.ns:
            f = self._make_func(node, fr, f"{fr.module.name}:{st.name}.__init__")
            f.cls = cls
            cls.ns["__init__"] = f

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.module.name}:{getattr(e, 'lineno', '?')}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        name = e.id
        f = fr
        if name not in fr.globals_:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if v is STALE:
                        raise Unsupported(f"the invariant of a loop says nothing about {name}")
                    return v
                f = f.parent
        ok, v = fr.module.get(name)
        if ok:
            return v
        if name in self.builtins:
            return self.builtins[name]
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            return b
        if b is not None:
            return HostFn("builtins." + name)
        if name == "unicode":
            return str
        raise PyExc(NameError(name))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return VList(self._elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = VSet()
        for x in self._elts(e.elts, fr):
            if not self.contains(s, x):
                s.items.append(x)
        return s

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_list(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.as_dict(self.eval(v, fr)).items:
                    self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def as_dict(self, v):
        if isinstance(v, VDict):
            return v
        raise Unsupported(f"** of {v!r}")

    def e_Lambda(self, e, fr):
        return self._make_func(e, fr, f"{fr.module.name}:<lambda>{e.lineno}")

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SBool) else False
            if not is_and and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.negate(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, IObj):
                f, _ = a.cls.lookup("__ne__")
                if isinstance(f, IFunc):
                    return self.call(self.getattr(a, "__ne__"), [b], {})
            return self.negate(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            ta, tb = self.int_term(a), self.int_term(b)
            if ta is None or tb is None:
                raise Unsupported("ordering of mixed values")
            return SBool({ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: ta > tb, ast.GtE: ta >= tb}[type(op)])
        if isinstance(a, Sym) or isinstance(b, Sym):
            lt = z3.Function("U_lt", U, U, z3.BoolSort())
            x, y = self.term(a), self.term(b)
            if isinstance(op, ast.Lt):
                return SBool(lt(x, y))
            if isinstance(op, ast.Gt):
                return SBool(lt(y, x))
            raise Unsupported("ordering of opaque values")
        if isinstance(a, Host) and hasattr(a, "vm_compare"):
            return a.vm_compare(self, op, b)
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as ex:
            raise PyExc(ex)

    def negate(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.t))
        return not self.truth(v)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, Host) and hasattr(a, "vm_binop"):
            return a.vm_binop(self, op, b)
        if isinstance(b, Host) and hasattr(b, "vm_rbinop"):
            return b.vm_rbinop(self, op, a)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            ta, tb = self.int_term(a), self.int_term(b)
            if ta is not None and tb is not None:
                if isinstance(op, ast.Add):
                    return SInt(ta + tb)
                if isinstance(op, ast.Sub):
                    return SInt(ta - tb)
                if isinstance(op, ast.Mult):
                    return SInt(ta * tb)
                if isinstance(op, ast.Div):
                    self._nonzero(tb)
                    return SInt(z3.ToReal(ta) / tb if ta.sort() == z3.IntSort() else ta / tb)
                if isinstance(op, (ast.FloorDiv, ast.Mod)):
                    if z3.RealSort() in (ta.sort(), tb.sort()):
                        raise Unsupported("integer division of reals")
                    self._nonzero(tb)
                    if self.branch(tb < 0):
                        raise Unsupported("integer division by a negative number")
                    return SInt(ta / tb if isinstance(op, ast.FloorDiv) else ta % tb)
                if isinstance(op, ast.LShift):
                    if isinstance(b, int):
                        return SInt(ta * (1 << b))
                    pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
                    k = z3.Int("k!pow2")
                    ax = z3.ForAll([k], z3.Implies(k >= 0, z3.And(pow2(k) >= 1, pow2(k + 1) == 2 * pow2(k), pow2(0) == 1)), patterns=[pow2(k)])
                    self.assume(ax)
                    return SInt(ta * pow2(tb))
                if isinstance(op, ast.RShift) and isinstance(b, int):
                    return SInt(ta / (1 << b))
            if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)):
                return self.opaque("fmt", "str")
            if isinstance(op, ast.Mult):
                seq, n = (a, b) if isinstance(b, SInt) else (b, a)
                if isinstance(seq, VList) and len(seq.items) == 1:
                    return SSeq("rep", n.t, lambda i: seq.items[0])
            raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")
        if isinstance(op, ast.Add):
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, SSeq) or isinstance(b, SSeq):
                kinds = ["list" if isinstance(x, VList) else "tuple" if isinstance(x, tuple) else x.kind if isinstance(x, SSeq) else None for x in (a, b)]
                if None not in kinds:
                    if kinds[0] != kinds[1]:
                        raise PyExc(TypeError("can only concatenate sequences of the same kind"))
                    return self._join_seq(a, b, kinds[0])
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VList) and isinstance(y, int):
                    return VList(x.items * y)
        if isinstance(op, ast.BitOr):
            if isinstance(a, VSet) and isinstance(b, VSet):
                s = VSet(a.items)
                for x in b.items:
                    if not self.contains(s, x):
                        s.items.append(x)
                return s
            if isinstance(a, (IClass, type, HostFn)) or a is None:
                return (a, b) if not isinstance(a, HostFn) else HostFn("typing.Union")
        if isinstance(op, ast.Sub) and isinstance(a, VSet) and isinstance(b, VSet):
            return VSet([x for x in a.items if not self.contains(b, x)])
        if isinstance(op, ast.Mod) and isinstance(a, str):
            try:
                return a % b
            except Exception:
                return self.opaque("fmt", "str")
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(op, ast.Add):
                f = z3.Function("U_add", U, U, U)
                return SVal(f(self.term(a), self.term(b)))
            raise Unsupported(f"operator {type(op).__name__} on opaque values")
        prim = (int, float, str, bytes, tuple, complex)
        if isinstance(a, prim) and isinstance(b, prim):
            import operator as O

            t = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Div: O.truediv,
                 ast.LShift: O.lshift, ast.RShift: O.rshift, ast.BitAnd: O.and_, ast.BitOr: O.or_, ast.Pow: O.pow, ast.BitXor: O.xor}.get(type(op))
            if t is not None:
                try:
                    return t(a, b)
                except Exception as ex:
                    raise PyExc(ex)
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    def _join_seq(self, a, b, kind):
        def parts(x):
            if isinstance(x, SSeq):
                return x.length, x.frozen().elem
            items = list(x.items) if isinstance(x, VList) else list(x)

            def elem(i):
                for k, y in enumerate(items):
                    if self.branch(i == k):
                        return y
                raise Unsupported("item beyond the end")

            return z3.IntVal(len(items)), elem

        (n, f), (m, g) = parts(a), parts(b)
        return SSeq("joined", z3.simplify(n + m), lambda i: f(i) if self.branch(z3.simplify((i if z3.is_expr(i) else z3.IntVal(i)) < n)) else g(z3.simplify(i - n)), kind)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.locals:
            return self._super(e, fr)
        f = self.eval(e.func, fr)
        if isinstance(f, HostFn) and ("logger" in f.qual or f.qual.startswith("logging.")) and f.qual not in self.stubs:
            return Logger()
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, SVal) and "star" in v.facets:
                    args.extend(v.facets["star"])
                elif isinstance(v, SVal):
                    args.append(StarArg(v))
                elif isinstance(v, SSeq) and self.iterate(v) is None:
                    args.append(StarArg(SSeq(v.name, v.length, v.elem, "tuple")))
                else:
                    args.extend(self.concrete_list(v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, SVal):
                    kw["**"] = v
                else:
                    for kk, vv in self.as_dict(v).items:
                        kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def _super(self, e, fr):
        if e.args:
            c = self.eval(e.args[0], fr)
            o = self.eval(e.args[1], fr)
            return SuperProxy(c, o)
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            raise Unsupported("super()")
        first = f.func.node.args.args[0].arg
        return SuperProxy(f.func.cls, f.locals[first])

    def e_Await(self, e, fr):
        return self.await_(self.eval(e.value, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        sym = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                try:
                    x = self.eval(v.value, fr)
                except Unsupported:
                    sym = True
                    continue
                if isinstance(x, (tuple, VList, VDict)) and not v.format_spec:
                    x = _to_py(x)
                if isinstance(x, (str, int, float, bool, bytes, type(None), list, dict, tuple)) and not v.format_spec:
                    if isinstance(x, (tuple, list, dict)) and _symbolic(x):
                        sym = True
                        parts.append(x)
                        continue
                    parts.append(repr(x) if v.conversion == 114 else str(x))
                else:
                    sym = True
                    parts.append(x)
        if not sym:
            return "".join(parts)
        for x in parts:
            h = getattr(x, "vm_fstr", None)
            if h is not None:
                return h(self, parts)
        if all(isinstance(p, (str, SVal, SInt)) for p in parts):
            # equal parts give equal strings
            f = z3.Function(f"fstr{len(parts)}", *([U] * len(parts)), U)
            return SVal(f(*[self.term(p) for p in parts]), "str")
        return self.opaque("fstr", "str")

    def e_FormattedValue(self, e, fr):
        return self.opaque("fstr", "str")

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (HostFn, IClass, type)) and not (isinstance(o, IClass) and o.is_enum):
            return o
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        g = lambda x: self.eval(x, fr) if x is not None else None
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def _comp(self, gens, fr, emit, first=None):
        sub = Frame(fr.module, fr.func, fr)

        def rec(i):
            if i == len(gens):
                emit(sub)
                return
            g = gens[i]
            if g.is_async:
                raise Unsupported("async comprehension")
            src = first if i == 0 and first is not None else self.eval(g.iter, sub)
            for x in self.concrete_list(src, "comprehension"):
                self.assign(g.target, x, sub)
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def e_ListComp(self, e, fr):
        first, sp = self._sym_comp(e, fr)
        if sp is not None:
            return sp
        out = []
        self._comp(e.generators, fr, lambda s: out.append(self.eval(e.elt, s)), first)
        return VList(out)

    def _sym_comp(self, e, fr):
        """[f(x) for x in S] over a symbolic sequence: a mapped sequence"""
        g = e.generators[0]
        it = self.sequence(self.eval(g.iter, fr))
        if not isinstance(it, SSeq) or g.is_async or len(e.generators) != 1:
            return it, None
        if self.iterate(it) is not None:
            return it, None
        it = it.frozen()
        if g.ifs:
            return it, self._sym_filter(e, g, it, fr)

        def elem(i):
            s = Frame(fr.module, fr.func, fr)
            self.assign(g.target, it.elem(i), s)
            return self.eval(e.elt, s)

        return it, SSeq(f"map({it.name})", it.length, elem)

    def _sym_filter(self, e, g, it, fr):
        """[f(x) for x in S if c(x)]: the items at the places where c holds, in order"""
        nm = self.fresh_name("filter")
        rank = z3.Function(f"rank of {nm}", z3.IntSort(), z3.IntSort())
        pos = z3.Function(f"place of {nm}", z3.IntSort(), z3.IntSort())
        n, m = it.length, self.fresh_int("filtered", 0).t
        self.assume(m <= n)

        def scope(i):
            s = Frame(fr.module, fr.func, fr)
            self.assign(g.target, it.elem(i), s)
            return s

        def keeps(i):
            s = scope(i)
            return all(self.truth(self.eval(c, s)) for c in g.ifs)

        def elem(k):
            p = pos(k)
            self.assume(z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= p, p < n, rank(p) == k)))
            if not keeps(p):
                raise Infeasible()
            return self.eval(e.elt, scope(p))

        def place(j):
            """where the item at j of the source is in the result, if it is kept"""
            if not keeps(j):
                return None
            self.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= rank(j), rank(j) < m, pos(rank(j)) == j)))
            return rank(j)

        def ordered(k, l):
            self.assume(z3.Implies(z3.And(0 <= k, k < l, l < m), pos(k) < pos(l)))

        r = SSeq(nm, m, elem)
        r.source, r.place, r.ordered = it, place, ordered
        return r

    def e_GeneratorExp(self, e, fr):
        first, sp = self._sym_comp(e, fr)
        if sp is not None:
            return sp
        out = []
        self._comp(e.generators, fr, lambda s: out.append(self.eval(e.elt, s)), first)
        return VList(out)

    def e_SetComp(self, e, fr):
        s = VSet()

        def emit(f):
            x = self.eval(e.elt, f)
            if not self.contains(s, x):
                s.items.append(x)

        self._comp(e.generators, fr, emit)
        return s

    def e_DictComp(self, e, fr):
        d = VDict()

        def emit(f):
            k = self.eval(e.key, f)
            self.setitem(d, k, self.eval(e.value, f))

        self._comp(e.generators, fr, emit)
        return d

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if self.on_yield is not None:
            self.on_yield(self, v)
        if f is None:
            raise Unsupported("yield")
        f.yields.append(v)
        if len(f.yields) > 50:
            raise Unsupported("unbounded generator")
        return None

    # ------------------------------------------------------------ items
    def norm_slice(self, s, n):
        for x in (s.start, s.stop, s.step):
            if isinstance(x, Sym):
                raise Unsupported("symbolic slice")
        return s

    def getitem(self, o, k):
        if isinstance(o, VDict):
            e = self.dict_find(o, k)
            if e is None:
                raise PyExc(KeyError(k))
            return e[1]
        if isinstance(o, (VList, tuple)):
            items = o.items if isinstance(o, VList) else o
            if isinstance(k, slice):
                r = items[self.norm_slice(k, len(items))]
                return VList(r) if isinstance(o, VList) else r
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, SInt):
                for i in range(len(items)):
                    if self.branch(k.t == i):
                        return items[i]
                raise PyExc(IndexError("index"))
            if not isinstance(k, int):
                raise PyExc(TypeError("index"))
            if not -len(items) <= k < len(items):
                raise PyExc(IndexError("index out of range"))
            return items[k]
        if isinstance(o, (str, bytes)):
            if isinstance(k, slice):
                return o[self.norm_slice(k, len(o))]
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError as ex:
                    raise PyExc(ex)
        if isinstance(o, SSeq):
            if isinstance(k, slice):
                return self._slice_seq(o, k)
            kt = self.int_term(k)
            neg = z3.If(kt < 0, kt + o.length, kt)
            if not self.branch(z3.And(neg >= 0, neg < o.length)):
                raise PyExc(IndexError("index out of range"))
            return o.elem(z3.simplify(neg))
        if isinstance(o, Host):
            m = getattr(o, "vm_getitem", None)
            if m is not None:
                return m(self, k)
        if isinstance(o, SVal):
            h = o.facets.get("getitem")
            if h is not None:
                return h(self, k)
            if isinstance(k, slice):
                raise Unsupported("slice of opaque value")
            f = z3.Function("U_getitem", U, U, U)
            return SVal(f(o.t, self.term(k)))
        if isinstance(o, IObj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, IClass) and o.is_enum:
            return o.ns[k]
        raise Unsupported(f"subscript of {o!r}")

    def _slice_seq(self, o, k):
        if k.step is not None:
            raise Unsupported("slice step")
        o = o.frozen()
        lo = self.int_term(k.start) if k.start is not None else z3.IntVal(0)
        hi = self.int_term(k.stop) if k.stop is not None else o.length
        lo = z3.If(lo < 0, z3.If(lo + o.length < 0, z3.IntVal(0), lo + o.length), z3.If(lo > o.length, o.length, lo))
        hi = z3.If(hi < 0, z3.If(hi + o.length < 0, z3.IntVal(0), hi + o.length), z3.If(hi > o.length, o.length, hi))
        ln = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        part = SSeq(f"{o.name}[..]", ln, lambda i: o.elem(z3.simplify(i + lo)), o.kind)
        b, off = o.whole()
        part.part = (b, z3.simplify(lo + off))  # what it is a part of, and from where
        return part

    def setitem(self, o, k, v):
        if isinstance(o, VDict):
            e = self.dict_find(o, k)
            if e is None:
                o.items.append([k, v])
            else:
                e[1] = v
            return
        if isinstance(o, VList):
            if isinstance(k, slice):
                o.items[self.norm_slice(k, len(o.items))] = self.concrete_list(v)
                return
            if isinstance(k, SInt):
                for i in range(len(o.items)):
                    if self.branch(k.t == i):
                        o.items[i] = v
                        return
                raise PyExc(IndexError("index"))
            if not -len(o.items) <= k < len(o.items):
                raise PyExc(IndexError("assignment index out of range"))
            o.items[k] = v
            return
        if isinstance(o, SSeq) and o.kind == "list":
            if isinstance(k, slice):
                raise Unsupported("assignment to a slice")
            kt = self.int_term(k)
            kt = z3.If(kt < 0, kt + o.length, kt)
            if not self.branch(z3.And(kt >= 0, kt < o.length)):
                raise PyExc(IndexError("assignment index out of range"))
            o.put(self, z3.simplify(kt), v)
            return
        if isinstance(o, Host):
            m = getattr(o, "vm_setitem", None)
            if m is not None:
                return m(self, k, v)
        if isinstance(o, IObj):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                return self.call(self.getattr(o, "__setitem__"), [k, v], {})
        raise Unsupported(f"item assignment to {o!r}")

    def delitem(self, o, k):
        if isinstance(o, VDict):
            e = self.dict_find(o, k)
            if e is None:
                raise PyExc(KeyError(k))
            o.items.remove(e)
            return
        if isinstance(o, VList):
            if isinstance(k, slice):
                del o.items[self.norm_slice(k, len(o.items))]
            else:
                try:
                    del o.items[k]
                except IndexError as ex:
                    raise PyExc(ex)
            return
        if isinstance(o, Host) and hasattr(o, "vm_delitem"):
            return o.vm_delitem(self, k)
        raise Unsupported(f"del item of {o!r}")

    def length(self, v):
        if isinstance(v, (VList, VSet, VDict)):
            return len(v.items)
        if isinstance(v, (str, bytes, tuple, range)):
            return len(v)
        if isinstance(v, SSeq):
            l = z3.simplify(v.length)
            return l.as_long() if z3.is_int_value(l) else SInt(l)
        if isinstance(v, Host) and hasattr(v, "vm_len"):
            return v.vm_len(self)
        if isinstance(v, SVal):
            h = v.facets.get("len")
            if h is not None:
                return h(self)
            f = z3.Function("U_len", U, z3.IntSort())
            t = f(v.t)
            self.path.pc.append(t >= 0)
            self.path.solver.add(t >= 0)
            return SInt(t)
        if isinstance(v, IObj):
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.call(self.getattr(v, "__len__"), [], {})
        raise Unsupported(f"len of {v!r}")

    _install_builtins = _lib._install_builtins
    builtin_method = _lib.builtin_method


def _quantified(t):
    g = z3.Goal()
    g.add(t)
    return bool(z3.Probe("has-quantifiers")(g))


class StarArg:
    """*args with opaque args"""

    def __init__(self, v):
        self.v = v


class _GenCM(Host):
    """@contextmanager function: body before/after the yield"""

    def __init__(self, vm, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def vm_getattr(self, vm, name):
        if name == "__enter__":
            return Stub(self._enter)
        if name == "__exit__":
            return Stub(lambda vm, a, k: False)
        raise Unsupported(name)

    def _enter(self, vm, a, k):
        raise Unsupported(f"context manager {self.f.qualname} without contract")


class Logger(Host):
    """logging has no effect the specifications look at"""

    def vm_getattr(self, vm, name):
        return Stub(lambda vm, a, k: None, "log." + name)

    def vm_hasattr(self, vm, name):
        return True


def _to_py(x):
    if isinstance(x, tuple):
        return tuple(_to_py(y) for y in x)
    if isinstance(x, VList):
        return [_to_py(y) for y in x.items]
    if isinstance(x, VDict):
        try:
            return {_to_py(k): _to_py(v) for k, v in x.items}
        except TypeError:
            return x
    return x


def _symbolic(x):
    if isinstance(x, (tuple, list)):
        return any(_symbolic(y) for y in x)
    if isinstance(x, dict):
        return any(_symbolic(k) or _symbolic(v) for k, v in x.items())
    return not isinstance(x, (str, int, float, bool, bytes, type(None)))


def _funcs_of(v):
    if isinstance(v, IFunc):
        yield v
    elif isinstance(v, (IStatic, IClassMethod)):
        yield from _funcs_of(v.f)
    elif isinstance(v, IProperty):
        yield from _funcs_of(v.fget)
        if v.fset is not None:
            yield from _funcs_of(v.fset)


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


STALE = type("Stale", (), {"__repr__": lambda self: "<not in the invariant>"})()


def _known(v, name):
    if v is STALE:
        raise Unsupported(f"the invariant of a loop says nothing about {name}")
    return v


_MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear",
             "appendleft", "popleft", "sort", "reverse"}


def _changed_names(st):
    """names of locals which a round of the loop may bind, and those whose value it may mutate"""
    todo = list(st.body) + ([st.test] if isinstance(st, ast.While) else [])
    bound, mutated, attrs = set(), set(), set()
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            bound.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            bound |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS:
            if isinstance(n.func.value, ast.Name):
                mutated.add(n.func.value.id)
        elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
            mutated.add(n.value.id)
        elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
            attrs.add((n.value.id, n.attr))
        todo.extend(ast.iter_child_nodes(n))
    return bound, mutated, attrs


def _content(v):
    if isinstance(v, (VList, VSet)):
        return [id(x) for x in v.items]
    if isinstance(v, VDict):
        return [(id(k), id(x)) for k, x in v.items]
    return None


class _Track(dict):
    def __init__(self, d):
        super().__init__(d)
        self.put = set()

    def __setitem__(self, k, v):
        self.put.add(k)
        super().__setitem__(k, v)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


def _havoc(st, fr, keeps, act):
    """havoc a loop: what a round changes and the havoc does not set is unknown from there on, reading it is undecided"""
    bound, mutated, attrs = _changed_names(st)
    own = fr.locals
    fields = [(own[n], a, own[n].attrs.get(a)) for n, a in attrs if isinstance(own.get(n), IObj)]
    before = {n: _content(own.get(n)) for n in mutated}
    fr.locals = track = _Track(own)
    try:
        act()
    finally:
        own.clear()
        own.update(track)
        fr.locals = own
    for n in (bound | mutated) - track.put - set(keeps) - fr.globals_ - fr.nonlocals:
        if n in bound or before[n] is not None and before[n] == _content(own.get(n)):
            own[n] = STALE
    for o, a, v in fields:
        if o.attrs.get(a) is v and a not in keeps:
            o.attrs[a] = STALE


class LoopSpec:
    """foreach over a symbolic sequence, cut with an invariant.

    sel(vm, st, fr, it) -> bool      which loop
    havoc(vm, fr, it, i)             put locals/heap into an arbitrary state
                                     that satisfies the invariant after i rounds
    inv(vm, fr, it, i) -> [(name, cond)]   the invariant, to be proved
    """

    def __init__(self, name, sel, havoc, inv, length=None, elem=None, each=None, keeps=()):
        self.name = name
        self.keeps = keeps
        self.sel = sel
        self.havoc = havoc
        self.inv = inv
        self.length = length
        self.elem = elem
        self.each = each

    def matches(self, vm, st, fr, it):
        if vm.mode != "proof" or isinstance(st, ast.While):
            return False
        return self.sel(vm, st, fr, it) or (self.source(it) is not it and self.sel(vm, st, fr, self.source(it)))

    @staticmethod
    def source(it):
        """a copy of a sequence is looped over as the sequence itself"""
        if isinstance(it, SSeq) and it.part is not None:
            base, start = it.part
            if z3.is_int_value(start) and start.as_long() == 0 and z3.eq(z3.simplify(base.length), z3.simplify(it.length)):
                return base
        return it

    def run(self, vm, st, fr, it):
        own = it
        if not self.sel(vm, st, fr, it):
            it = self.source(it)
        n = self.length(vm, fr, it) if self.length else it.length
        for nm, c in self.inv(vm, fr, it, z3.IntVal(0)):
            vm.prove(f"{self.name}: {nm} (entry)", c, soft=True)
        if vm.choose(2, f"{self.name}: arbitrary round / exit") == 0:
            i = vm.fresh_int("round").t
            vm.assume(z3.And(i >= 0, i < n))
            _havoc(st, fr, self.keeps, lambda: self.havoc(vm, fr, it, i))
            vm.cover(f"{self.name}: body reached")
            vm.assign(st.target, self.elem(vm, fr, it, i) if self.elem else own.elem(i), fr)
            try:
                vm.exec_block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
            for nm, c in self.inv(vm, fr, it, i + 1):
                vm.prove(f"{self.name}: {nm} (preserved)", c, soft=True)
            raise PathEnd()
        vm.assume(n >= 0)
        _havoc(st, fr, self.keeps, lambda: self.havoc(vm, fr, it, n))
        vm.exec_block(st.orelse, fr)


_TYPE_CALLS = _lib._T


class WhileSpec:
    """while loop cut with an invariant: an arbitrary round, or the exit

    havoc(vm, fr)   puts locals/heap into an arbitrary state that satisfies the invariant
    inv(vm, fr) -> [(name, cond)]   the invariant, to be proved at entry and after a round
    """

    def __init__(self, name, sel, havoc, inv, soft=True, keeps=()):
        self.name, self.sel, self.havoc, self.inv, self.soft, self.keeps = name, sel, havoc, inv, soft, keeps

    def matches(self, vm, st, fr, it):
        return vm.mode == "proof" and isinstance(st, ast.While) and self.sel(vm, st, fr)

    def run(self, vm, st, fr, it):
        for nm, c in self.inv(vm, fr):
            vm.prove(f"{self.name}: {nm} (entry)", c, soft=self.soft)
        _havoc(st, fr, self.keeps, lambda: self.havoc(vm, fr))
        if not vm.truth(vm.eval(st.test, fr), f"{self.name}: test"):
            vm.exec_block(st.orelse, fr)
            return
        vm.cover(f"{self.name}: body reached")
        try:
            vm.exec_block(st.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            return
        for nm, c in self.inv(vm, fr):
            vm.prove(f"{self.name}: {nm} (preserved)", c, soft=self.soft)
        raise PathEnd()
