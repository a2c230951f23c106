"""C21: exactly the requirements whose marker holds are kept."""

import ast

from .base import *  # noqa: F401,F403

M = "xoscar.virtualenv.core"
Ut = "xoscar.virtualenv.utils"
P = "xoscar.virtualenv.platform"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Invalid(ValueError):
    pass


class BadVersion(ValueError):
    pass


class Missing(Exception):
    pass


# ------------------------------------------------------------ the list of requirements
class Text(Host):
    """a requirement, or a part of it"""

    def __init__(self, reqs, i, part="all", stripped=False):
        self.reqs, self.i, self.part, self.stripped = reqs, i, part, stripped

    def vm_isinst(self, vm, cls):
        return cls is str

    def vm_str(self, vm):
        return self

    def m_strip(self, vm, a, k):
        if a:
            raise Unsupported("strip of given characters")
        return Text(self.reqs, self.i, self.part, True)

    def semi(self):
        return self.reqs.semi(self.i)

    def vm_contains(self, vm, k):
        if k != ";" or self.part != "all":
            raise Unsupported("search in a requirement")
        return SBool(self.semi())

    def m_split(self, vm, a, k):
        if a[:1] != [";"] or (a[1:] or [k.get("maxsplit")]) != [1] or self.part != "all":
            raise Unsupported("split of a requirement")
        if not vm.branch(self.semi()):
            return VList([self])
        return VList([Text(self.reqs, self.i, "left"), Text(self.reqs, self.i, "right")])

    def m_partition(self, vm, a, k):
        if a != [";"] or self.part != "all":
            raise Unsupported("partition of a requirement")
        if not vm.branch(self.semi()):
            return (self, "", "")
        return (Text(self.reqs, self.i, "left"), ";", Text(self.reqs, self.i, "right"))

    def vm_eq(self, vm, b):
        if isinstance(b, Text) and (b.part, b.stripped) == (self.part, self.stripped):
            return SBool(self.i == b.i) if not z3.is_true(z3.simplify(self.i == b.i)) else True
        raise Unsupported("comparison of requirements")


class Marker(Host):
    """the text of a marker with the variables put in"""

    def __init__(self, reqs, i, stripped):
        self.reqs, self.i, self.stripped = reqs, i, stripped

    def m_strip(self, vm, a, k):
        return Marker(self.reqs, self.i, True)


class ReqMarker(Host):
    def __init__(self, req):
        self.req = req

    def m_evaluate(self, vm, a, k):
        r = self.req.reqs
        env = a[0] if a else k.get("environment")
        vm.prove("a marker is evaluated in the environment of this machine", env is r.env)
        return SBool(r.plain(self.req.i))


class Req(Host):
    """Requirement(text)"""

    def __init__(self, reqs, i, part):
        self.reqs, self.i, self.part, self.dropped = reqs, i, part, False

    def p_marker(self, vm):
        r = self.reqs
        if self.dropped or self.part == "left" or not vm.branch(z3.And(r.semi(self.i), r.marked(self.i))):
            return None
        return ReqMarker(self)

    def vm_setattr(self, vm, name, v):
        if name != "marker" or v is not None:
            raise Unsupported(f"{name} of a requirement set")
        self.dropped = True

    def vm_str(self, vm):
        r = self.reqs
        bare = self.dropped or self.part == "left" or not vm.branch(z3.And(r.semi(self.i), r.marked(self.i)))
        return SVal((r.kept if bare else r.whole)(self.i), "str")


class Reqs:
    """what is known of the requirement at each place"""

    def __init__(self, vm):
        f = lambda name, to: z3.Function(vm.fresh_name(name), I, to)
        self.n = vm.fresh_int("requirements", 0).t
        self.vcs, self.semi, self.valid, self.marked = f("vcs", B), f("has a marker part", B), f("valid", B), f("marker", B)
        self.plain, self.custom, self.holds = f("marker true", B), f("custom", B), f("custom marker true", B)
        self.name_ok = f("valid without marker", B)
        self.kept, self.whole = f("without marker", U), f("with marker", U)
        self.env = VDict([["has_cuda", vm.opaque("has cuda")]])
        self.variables = {"engine": vm.opaque("engine"), "n": vm.opaque("n")}
        self.seq = SSeq("requirements", self.n, lambda i: Text(self, i if z3.is_expr(i) else z3.IntVal(i)), "list")

    def stubs(self, vm):
        r = self
        vm.stubs["packaging.requirements.InvalidRequirement"] = Invalid

        def req(vm, a, k):
            t = a[0]
            if not isinstance(t, Text) or t.reqs is not r or t.part == "right":
                vm.prove("a requirement is read from its own text", False, repr(t))
            if t.part == "all":
                if not vm.branch(r.valid(t.i)):
                    raise PyExc(Invalid("invalid"))
            elif not vm.branch(r.name_ok(t.i)):
                raise PyExc(Invalid("invalid"))
            return Req(r, t.i, t.part)

        vm.stubs["packaging.requirements.Requirement"] = Stub(req, "Requirement")

        def vcs(vm, a, k):
            t = a[0]
            if not isinstance(t, Text) or t.part != "all" or t.stripped:
                raise Unsupported("is_vcs_url of something else")
            return SBool(r.vcs(t.i))

        vm.contracts[f"{Ut}:is_vcs_url"] = vcs
        vm.contracts[f"{M}:get_env"] = lambda vm, a, k: r.env

        def subst(vm, a, k):
            t, given = a[0], a[1]
            if not isinstance(t, Text) or t.part != "right":
                raise Unsupported("variables put into something else than the marker")
            vm.prove("the variables that were given are put into the marker",
                     isinstance(given, (VDict, dict)) and same_items(vm, given, r.variables))
            return Marker(r, t.i, t.stripped)

        vm.contracts[f"{M}:substitute_variables"] = subst

        def custom(vm, a, k):
            if not isinstance(a[0], Marker):
                raise Unsupported("is_custom_marker of something else")
            return SBool(r.custom(a[0].i))

        vm.contracts[f"{M}:is_custom_marker"] = custom

        def ev(vm, a, k):
            m = a[0]
            vm.prove("the marker that is evaluated has its variables put in", isinstance(m, Marker), repr(m))
            vm.prove("a marker that is parsed as an expression is stripped", m.stripped)
            vm.prove("a custom marker is evaluated in the environment of this machine", a[1] is r.env)
            return SBool(r.holds(m.i))

        vm.contracts[f"{M}:eval_custom_marker"] = ev

    def outcome(self, i):
        """(in the result, its text is the text as given, failure)"""
        plain = z3.Not(self.semi(i))
        std = z3.And(self.semi(i), self.valid(i))
        cust = z3.And(self.semi(i), z3.Not(self.valid(i)))
        fails = z3.And(z3.Not(self.vcs(i)), z3.Or(z3.And(plain, z3.Not(self.valid(i))),
                                                  z3.And(cust, z3.Not(self.custom(i))),
                                                  z3.And(cust, self.custom(i), self.holds(i), z3.Not(self.name_ok(i)))))
        kept = z3.Or(self.vcs(i), z3.And(plain, self.valid(i)),
                     z3.And(std, z3.Or(z3.Not(self.marked(i)), self.plain(i))),
                     z3.And(cust, self.custom(i), self.holds(i), self.name_ok(i)))
        return kept, self.vcs(i), fails


def same_items(vm, d, want):
    items = d.items if isinstance(d, VDict) else list(d.items())
    return len(items) == len(want) and all(k in want and want[k] is v for k, v in items)


class Out(Host):
    """the list that is built"""

    def __init__(self):
        self.now = []

    def m_append(self, vm, a, k):
        self.now.append(a[0])

    def m_extend(self, vm, a, k):
        self.now.extend(vm.concrete_list(a[0]))


def building(vm, name, seq, check):
    """a loop over ``seq`` that builds a list: the state, with the list after the loop in "out" """
    state = {"round": None, "names": None, "out": None, "done": None}

    def sel(vm, st, fr, it):
        return it is seq or getattr(it, "of", None) is seq

    def find(fr):
        return [k for k, v in fr.locals.items() if isinstance(v, VList) and not v.items]

    def havoc_(vm, fr, it, i):
        names = find(fr)
        if len(names) != 1:
            raise Unsupported("the list that is built is kept in another way")
        state["out"] = fr.locals[names[0]] = Out()
        state["round"] = i

    def inv(vm, fr, it, i):
        o = state["out"]
        if o is not None:
            check(vm, state["round"], o.now)
        return []

    vm.loops.append(LoopSpec(name, sel, havoc_, inv))
    return state


def filtering(vm):
    r = Reqs(vm)
    r.stubs(vm)

    def check(vm, i, now):
        kept, asis, fails = r.outcome(i)
        vm.cover("round")
        vm.prove("a requirement that cannot be read is not passed over", z3.Not(fails))
        vm.prove("a requirement whose marker holds is kept, once", kept == (len(now) == 1))
        vm.prove("at most one text per requirement", len(now) <= 1)
        if len(now) == 1:
            vm.cover("kept")
            x = now[0]
            if isinstance(x, Text):
                vm.cover("kept as it is")
                vm.prove("only addresses are kept as they are given", z3.And(asis, conj([x.part == "all", same_place(x, r, i)])))
            else:
                ok = isinstance(x, SVal)
                vm.prove("the text of a requirement without its marker", z3.And(z3.Not(asis), vm.term(x) == r.kept(i)) if ok else False, repr(x))
        else:
            vm.cover("left out")

    state = building(vm, "requirements", r.seq, check)
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "filter_requirements"), [r.seq], dict(r.variables)))
    if e is not None:
        if state["round"] is None:
            vm.prove("nothing fails outside of the requirements", False, repr(e))
            return
        vm.cover("refused")
        kept, asis, fails = r.outcome(state["round"])
        vm.prove("only a requirement that cannot be read is refused", fails)
        vm.prove("it is refused as such", isinstance(e, Invalid), repr(e))
        return
    vm.cover("result")
    vm.prove("all requirements are looked at, the list that was built is the result",
             conj([out is state["out"], state["out"] is not None and not state["out"].now, state["round"] is not None and state["round"] == r.n]))


def same_place(x, r, i):
    return x.reqs is r and z3.is_true(z3.simplify(x.i == i))


# ------------------------------------------------------------ packages
class Pkg(Host):
    def __init__(self, w, i, part="all"):
        self.w, self.i, self.part = w, i, part

    def vm_isinst(self, vm, cls):
        return cls is str

    def m_startswith(self, vm, a, k):
        if a[0] != "#system_" or self.part != "all":
            raise Unsupported("start of a package")
        return SBool(self.w.starts(self.i))

    def m_endswith(self, vm, a, k):
        if a[0] != "#" or self.part != "all":
            raise Unsupported("end of a package")
        return SBool(self.w.ends(self.i))

    def vm_getitem(self, vm, k):
        if self.part == "all" and isinstance(k, slice) and (k.start, k.stop, k.step) == (8, -1, None):
            return Pkg(self.w, self.i, "name")
        raise Unsupported("part of a package")

    def vm_len(self, vm):
        raise Unsupported("length of a package")

    def vm_fstr(self, vm, parts):
        ps = [p for p in parts if p != ""]
        if len(ps) == 3 and isinstance(ps[0], Pkg) and ps[0].part == "name" and ps[1] == "==" and isinstance(ps[2], Ver0):
            return Pinned(ps[0], ps[2])
        return vm.opaque("text", "str")


class Ver0(Host):
    """the version that is installed, with or without what follows a plus"""

    def __init__(self, w, i, public):
        self.w, self.i, self.public = w, i, public

    def m_split(self, vm, a, k):
        if a[:1] != ["+"] or self.public:
            raise Unsupported("split of a version")
        return VList([Ver0(self.w, self.i, True), vm.opaque("local version", "str")])

    def m_partition(self, vm, a, k):
        if a != ["+"] or self.public:
            raise Unsupported("partition of a version")
        return (Ver0(self.w, self.i, True), "+", vm.opaque("local version", "str"))


class Pinned(Host):
    def __init__(self, name, version):
        self.name, self.version = name, version


class Pkgs:
    def __init__(self, vm):
        f = lambda name, to: z3.Function(vm.fresh_name(name), I, to)
        self.n = vm.fresh_int("packages", 0).t
        self.starts, self.ends, self.found = f("starts with #system_", B), f("ends with #", B), f("installed", B)
        self.seq = SSeq("packages", self.n, lambda i: Pkg(self, i if z3.is_expr(i) else z3.IntVal(i)), "list")


def packages(vm):
    w = Pkgs(vm)
    vm.stubs["importlib.metadata.PackageNotFoundError"] = Missing

    def version(vm, a, k):
        p = a[0]
        vm.prove("the version of the package that is named", isinstance(p, Pkg) and p.part == "name", repr(p))
        if not vm.branch(w.found(p.i)):
            raise PyExc(Missing("no such package"))
        return Ver0(w, p.i, False)

    vm.stubs["importlib.metadata.version"] = Stub(version, "version")
    given = {"engine": vm.opaque("engine")}
    calls = []
    result = vm.opaque("filtered", "list")

    def filt(vm, a, k):
        calls.append((a[0], k))
        return result

    vm.contracts[f"{M}:filter_requirements"] = filt

    def check(vm, i, now):
        vm.cover("round")
        system = z3.And(w.starts(i), w.ends(i))
        vm.prove("one requirement for each package", len(now) == 1)
        if len(now) != 1:
            return
        x = now[0]
        if isinstance(x, Pinned):
            vm.cover("pinned")
            vm.prove("only a placeholder is replaced, by the version that is installed",
                     z3.And(system, w.found(i), conj([x.name.w is w, x.version.public]), x.name.i == i, x.version.i == i))
        else:
            vm.cover("as given")
            vm.prove("a package that is no placeholder stays as it is",
                     z3.And(z3.Not(system), x.i == i) if isinstance(x, Pkg) and x.part == "all" else False, repr(x))

    state = building(vm, "packages", w.seq, check)
    cls = vm.lookup(M, "VirtualEnvManager")
    out, e = attempt(vm, lambda: vm.call(vm.getattr(cls, "process_packages"), [w.seq], dict(given)))
    if e is not None:
        i = state["round"]
        vm.cover("missing")
        vm.prove("a missing system package is reported", isinstance(e, RuntimeError), repr(e))
        vm.prove("only a missing one", z3.And(w.starts(i), w.ends(i), z3.Not(w.found(i))) if i is not None else False)
        vm.prove("nothing was filtered then", not calls)
        return
    vm.cover("result")
    vm.prove("the result is the filtered list", out is result and len(calls) == 1)
    if len(calls) == 1:
        vm.prove("all packages are filtered, with the variables that were given",
                 conj([calls[0][0] is state["out"], state["out"] is not None and not state["out"].now, state["round"] == w.n,
                       same_items(vm, calls[0][1], given)]))


# ------------------------------------------------------------ the evaluation of a marker
OPS = ["Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"]
FNS = ["eq", "ne", "lt", "le", "gt", "ge"]


class VersionText(Host):
    """a text: a version ("12.1"), digits ("12"), an architecture ("sm_90"), a word, or "True"/"False" in any case"""

    def __init__(self, kind, rank):
        self.kind, self.rank = kind, rank

    def vm_isinst(self, vm, cls):
        return cls is str

    def m_lower(self, vm, a, k):
        if self.kind == "truth":
            return "true" if vm.branch(self.rank == 1) else "false"
        return VersionText(self.kind, self.rank)

    m_casefold = m_lower

    def vm_eq(self, vm, b):
        if isinstance(b, str) and b in ("true", "false") and self.kind != "truth":
            return False
        if isinstance(b, VersionText):
            if b.kind == self.kind == "word":
                return SBool(self.rank == b.rank)
            # as texts: nothing is known
            return SBool(z3.Function("same text", R, R, B)(self.rank, b.rank))
        return False

    def m_count(self, vm, a, k):
        if a != ["."]:
            raise Unsupported("count in a text")
        if self.kind == "version":
            return vm.fresh_int("dots", 1)
        return vm.fresh_int("dots", 0) if self.kind == "word" else 0

    def m_split(self, vm, a, k):
        if a != ["."]:
            raise Unsupported("split of a text")
        digits = self.kind in ("version", "digits")
        return VList([Piece(digits), Piece(digits)][: 2 if self.kind == "version" else 1])

    def m_startswith(self, vm, a, k):
        if a[0] != "sm_":
            raise Unsupported("start of a text")
        return self.kind == "arch"

    def vm_getitem(self, vm, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (3, None, None) and self.kind == "arch":
            return Number(self.rank)
        raise Unsupported("part of a text")

    def m_removeprefix(self, vm, a, k):
        if a == ["sm_"]:
            return Number(self.rank) if self.kind == "arch" else self
        raise Unsupported("removeprefix")

    def vm_compare(self, vm, op, b):
        if isinstance(b, VersionText):
            return SBool(z3.Function("text below", R, R, B)(self.rank, b.rank))
        raise PyExc(TypeError("not supported between instances"))


class Piece(Host):
    def __init__(self, digits):
        self.digits = digits

    def m_isdigit(self, vm, a, k):
        return self.digits

    m_isdecimal = m_isnumeric = m_isdigit


class Number(Host):
    """the digits after sm_"""

    def __init__(self, rank):
        self.rank = rank

    def vm_int(self, vm, a, k):
        return SInt(z3.ToInt(self.rank))

    def m_isdigit(self, vm, a, k):
        return True


class Ver(Host):
    def __init__(self, rank):
        self.rank = rank

    def vm_isinst(self, vm, cls):
        return cls is VERSION

    def vm_eq(self, vm, b):
        return SBool(self.rank == b.rank) if isinstance(b, Ver) else False

    def vm_compare(self, vm, op, b):
        if not isinstance(b, Ver):
            raise PyExc(TypeError("not supported between instances"))
        x, y = self.rank, b.rank
        return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])


def version_of(vm, a, k):
    v = a[0]
    if not isinstance(v, VersionText):
        raise Unsupported("version of something else")
    if v.kind not in ("version", "digits"):
        raise PyExc(BadVersion("not a version"))
    return Ver(v.rank)


class VersionClass(Stub):
    pass


VERSION = VersionClass(version_of, "Version")


class Kind(Stub):
    """a class of syntax nodes"""

    def __init__(self, name):
        def no(vm, a, k):
            raise Unsupported("a syntax node is built")

        Stub.__init__(self, no, name)


class Node(Host):
    """a syntax node of one kind"""

    def __init__(self, kind, **fields):
        self.kind, self.fields = kind, fields

    def vm_isinst(self, vm, cls):
        if isinstance(cls, Kind):
            return cls.name == self.kind
        raise Unsupported(f"isinstance of a node with {cls!r}")

    def vm_type(self, vm):
        return vm.stubs["ast." + self.kind]

    def vm_getattr(self, vm, name):
        if name in self.fields:
            f = self.fields[name]
            return f(vm) if callable(f) else f
        raise Unsupported(f"{name} of a {self.kind}")


class OpNode(Host):
    """one of the six comparisons"""

    def __init__(self, op):
        self.op = op

    def which(self, vm):
        for k in range(5):
            if vm.branch(self.op == k):
                return k
        return 5

    def vm_isinst(self, vm, cls):
        if isinstance(cls, Kind) and cls.name in OPS:
            return SBool(self.op == OPS.index(cls.name))
        return False

    def vm_type(self, vm):
        return vm.stubs["ast." + OPS[self.which(vm)]]


NODES = ["BoolOp", "UnaryOp", "Compare", "Name", "Constant", "Str", "Not", "USub", "UAdd", "Invert", "And", "Or", "In", "Is", "Call", "Attribute", "BinOp", "Tuple", "Expression"] + OPS


def rel(op, x, y):
    r = x >= y
    for k, c in reversed(list(enumerate([x == y, x != y, x < y, x <= y, x > y]))):
        r = z3.If(op == k, c, r)
    return r


def syntax(vm):
    for n in NODES:
        vm.stubs["ast." + n] = Kind(n)
    pyop = dict(eq=ast.Eq(), ne=ast.NotEq(), lt=ast.Lt(), le=ast.LtE(), gt=ast.Gt(), ge=ast.GtE())
    for n in FNS:
        vm.stubs["operator." + n] = Stub(lambda vm, a, k, n=n: vm.compare(pyop[n], a[0], a[1]), n)
    vm.stubs["operator.not_"] = Stub(lambda vm, a, k: vm.negate(a[0]), "not_")
    vm.stubs["operator.neg"] = Stub(lambda vm, a, k: vm.binop(ast.Sub(), 0, a[0]), "neg")
    vm.stubs["ast.dump"] = Stub(lambda vm, a, k: vm.opaque("dump", "str"), "dump")
    vm.stubs["packaging.version.Version"] = VERSION
    vm.stubs["packaging.version.InvalidVersion"] = BadVersion


def evaluate(vm, node, env=None):
    """the value of a marker whose expression is ``node``"""
    text = vm.opaque("marker", "str")

    def parse(vm, a, k):
        mode = a[2] if len(a) > 2 else k.get("mode", "exec")
        vm.prove("the marker that was given is parsed, as an expression", a[0] is text and mode == "eval")
        return Node("Expression", body=node)

    vm.stubs["ast.parse"] = Stub(parse, "parse")
    return attempt(vm, lambda: vm.call(vm.lookup(M, "eval_custom_marker"), [text, env if env is not None else VDict([])], {}))


def constant(v, log=None):
    def value(vm):
        if log is not None:
            log.append(v)
        return v

    return Node("Constant", value=value, s=value, n=value)


def boolean(vm, length):
    """and / or over values of any truth; bounded when ``length`` is given"""
    syntax(vm)
    T, V = z3.Function(vm.fresh_name("truth"), I, B), z3.Function(vm.fresh_name("value"), I, U)
    is_or = vm.choose(2, "or") == 1
    stop = lambda i: T(i) if is_or else z3.Not(T(i))

    class Value(Host):
        def __init__(self, i):
            self.i = i

        def vm_truth(self, vm):
            return SBool(T(self.i))

        def vm_isinst(self, vm, cls):
            return False

    seen = []

    def child(i):
        i = i if z3.is_expr(i) else z3.IntVal(i)

        def value(vm):
            seen.append(i)
            return Value(i)

        return Node("Constant", value=value)

    op = Node("Or" if is_or else "And")
    if length is not None:
        n = 2 + vm.choose(length - 1, "values")
        node = Node("BoolOp", op=op, values=VList([child(i) for i in range(n)]))
        out, e = evaluate(vm, node)
        vm.prove("nothing fails", e is None, repr(e))
        vm.cover("evaluated")
        k = next((i for i in range(n) if vm.branch(stop(z3.IntVal(i)))), n - 1)
        vm.prove("the first value that decides, or else the last one", truth_of(vm, out, T(k)), repr(out))
        late = [i for i in seen if i.as_long() > k]
        vm.prove("nothing after the value that decides is evaluated", not late, f"{seen}")
        return
    n = vm.fresh_int("values", 2).t
    first = vm.fresh_int("first that decides", 0).t
    at = lambda i: vm.assume(z3.And(z3.Implies(z3.And(0 <= i, i < first), z3.Not(stop(i))), z3.Implies(first == i, stop(i))))
    values = SSeq("values", n, child, "list")
    state = {"names": [], "off": None, "it": None}

    def sel(vm, st, fr, it):
        return isinstance(it, SSeq) and "values" in it.name

    def place(vm, fr, it, i):
        """which value the item at i is"""
        return z3.simplify(i + (n - it.length))

    def havoc_(vm, fr, it, i):
        j = place(vm, fr, it, i)
        at(z3.simplify(j - 1))
        at(j)
        # the values before were evaluated, and decided nothing
        seen[:] = []
        if not vm.branch(it.length == n - 1):
            raise Unsupported("loop over all values")
        for k in state["names"]:
            fr.locals[k] = Value(z3.simplify(j - 1))
        # the value at hand may decide; those before it do not
        vm.assume(first >= j - 1)

    def inv(vm, fr, it, i):
        if not state["names"]:
            state["names"] = [k for k, v in fr.locals.items() if isinstance(v, Value)]
        if len(state["names"]) != 1:
            raise Unsupported("the value so far is kept in another way")
        v = fr.locals[state["names"][0]]
        j = place(vm, fr, it, i)
        at(z3.simplify(j - 2))
        at(z3.simplify(j - 1))
        return [("the value so far is the last one", v.i == j - 1), ("no value before it decides", first >= j - 1)]

    vm.loops.append(LoopSpec("and/or", sel, havoc_, inv))
    out, e = evaluate(vm, Node("BoolOp", op=op, values=values))
    vm.prove("nothing fails", e is None, repr(e))
    vm.cover("evaluated")
    if not isinstance(out, Value):
        raise Unsupported("another value")
    at(out.i)
    at(z3.simplify(n - 1))
    vm.prove("the first value that decides, or else the last one", z3.If(first < n, out.i == first, out.i == n - 1))
    vm.prove("nothing after it is evaluated", conj([i <= first for i in seen if True] or [True]))


def truth_of(vm, out, t):
    if isinstance(out, SBool):
        return out.t == t
    if isinstance(out, bool):
        return t == out
    h = getattr(out, "vm_truth", None)
    return h(vm).t == t if h else False


KINDS = ["number", "truth", "bool", "version", "arch", "word"]


def value(kind, rank):
    if kind == "number":
        return SInt(z3.ToInt(rank))
    if kind == "bool":
        return SBool(rank == 1)
    return VersionText(kind, rank)


def normal(vm, kind, rank):
    """what a value is compared as"""
    if kind in ("number", "arch"):
        return SInt(z3.ToInt(rank))
    if kind in ("bool", "truth"):
        return SBool(rank == 1)
    return Ver(rank) if kind == "version" else VersionText(kind, rank)


def ranks(vm, kind):
    """the rank of the value at a place"""
    f = z3.Function(vm.fresh_name("rank"), I, R)

    def rank(i):
        t = f(i if z3.is_expr(i) else z3.IntVal(i))
        if kind in ("number", "arch"):
            vm.assume(z3.ToReal(z3.ToInt(t)) == t)
        elif kind in ("bool", "truth"):
            vm.assume(z3.Or(t == 0, t == 1))
        return t

    return rank


def ops(vm, kind):
    f = z3.Function(vm.fresh_name("comparison"), I, I)

    def op(i):
        t = f(i if z3.is_expr(i) else z3.IntVal(i))
        vm.assume(z3.And(0 <= t, t <= (1 if kind in ("bool", "truth", "word") else 5)))
        return t

    return op


def chain(vm, length):
    """a op b op c ...: every two neighbours are in relation, as versions and architectures by their numbers"""
    syntax(vm)
    kind = KINDS[vm.choose(len(KINDS), "kind of values")]
    rank, op = ranks(vm, kind), ops(vm, kind)
    child = lambda i: constant(value(kind, rank(i)))
    left = child(0)
    holds = lambda i: rel(op(i), rank(i), rank(i + 1))
    if length is not None:
        n = 1 + vm.choose(length, "comparisons")
        node = Node("Compare", left=left, ops=VList([OpNode(op(i)) for i in range(n)]), comparators=VList([child(i + 1) for i in range(n)]))
        out, e = evaluate(vm, node)
        vm.prove("nothing fails", e is None, repr(e))
        vm.cover("evaluated")
        vm.prove("true just if every two neighbours are in relation", truth_of(vm, out, conj([holds(i) for i in range(n)])), repr(out))
        return
    n = vm.fresh_int("comparisons", 1).t
    fail = vm.fresh_int("first that fails", 0).t
    at = lambda i: vm.assume(z3.And(z3.Implies(z3.And(0 <= i, i < fail, i < n), holds(i)), z3.Implies(z3.And(fail == i, i < n), z3.Not(holds(i)))))
    node = Node("Compare", left=left, ops=SSeq("ops", n, lambda i: OpNode(op(i)), "list"),
                comparators=SSeq("comparators", n, lambda i: child((i if z3.is_expr(i) else z3.IntVal(i)) + 1), "list"))
    names = []

    def is_value(vm, v, i):
        w = normal(vm, kind, rank(i))
        if type(v) is not type(w):
            return False
        if isinstance(w, (SInt, SBool)):
            return w.t == v.t
        return v.rank == w.rank

    def havoc_(vm, fr, it, i):
        for k in names:
            fr.locals[k] = normal(vm, kind, rank(i))
        at(i)
        vm.assume(fail >= i)

    def inv(vm, fr, it, i):
        if not names:
            w = normal(vm, kind, rank(0))
            names.extend(k for k, v in fr.locals.items() if type(v) in (type(w), bool) and not k.startswith("_"))
            for k in names:
                if isinstance(fr.locals[k], bool) and not isinstance(w, SBool):
                    raise Unsupported("a flag in the comparison")
                if isinstance(fr.locals[k], bool):
                    fr.locals[k] = SBool(z3.BoolVal(fr.locals[k]))
        if len(names) != 1:
            raise Unsupported("the value on the left is kept in another way")
        at(z3.simplify(i - 1))
        v = fr.locals[names[0]]
        if isinstance(v, bool):
            v = SBool(z3.BoolVal(v))
        return [("the left value is the next one", is_value(vm, v, i)), ("all comparisons so far hold", fail >= i)]

    vm.loops.append(LoopSpec("comparisons", lambda vm, st, fr, it: isinstance(it, SSeq) and ("ops" in it.name or "comparators" in it.name), havoc_, inv))
    out, e = evaluate(vm, node)
    vm.prove("nothing fails", e is None, repr(e))
    vm.cover("evaluated")
    at(z3.simplify(n - 1))
    vm.prove("true just if every two neighbours are in relation", truth_of(vm, out, fail >= n), repr(out))


def mixed(vm):
    """two values of different kinds"""
    syntax(vm)
    r = ranks(vm, "word")
    x, y = r(0), r(1)
    which = vm.choose(5, "kinds")
    if which < 2:
        # digits are a version when they are compared with one
        a, b = [("version", "digits"), ("digits", "version")][which]
        op = ops(vm, a)(0)
        node = Node("Compare", left=constant(value(a, x)), ops=VList([OpNode(op)]), comparators=VList([constant(value(b, y))]))
        out, e = evaluate(vm, node)
        vm.cover("a number without dots as a version")
        vm.prove("nothing fails", e is None, repr(e))
        vm.prove("digits are compared with a version as one", truth_of(vm, out, rel(op, x, y)), repr(out))
        return
    # what is unknown equals nothing but None
    other = [None, value("version", x), value("word", x)][which - 2]
    op = ops(vm, "word")(0)
    sides = [None, other]
    if vm.choose(2, "sides"):
        sides.reverse()
    node = Node("Compare", left=constant(sides[0]), ops=VList([OpNode(op)]), comparators=VList([constant(sides[1])]))
    out, e = evaluate(vm, node)
    vm.cover("None")
    vm.prove("nothing fails", e is None, repr(e))
    vm.prove("None equals itself only", truth_of(vm, out, (op == 0) == (other is None)), repr(out))


def unary(vm):
    syntax(vm)
    if vm.choose(2, "minus"):
        t = vm.fresh_int("number").t
        out, e = evaluate(vm, Node("UnaryOp", op=Node("USub"), operand=constant(SInt(t))))
        vm.cover("minus")
        vm.prove("the negative number", e is None and num_eq(vm, out, -t), repr(out))
        return
    x = vm.opaque("value")
    out, e = evaluate(vm, Node("UnaryOp", op=Node("Not"), operand=constant(x)))
    vm.cover("not")
    vm.prove("the contrary", e is None and truth_of(vm, out, z3.Not(vm.opaque_truth(x))), repr(out))


def leaf(vm):
    syntax(vm)
    if vm.choose(2, "name"):
        kinds = KINDS + ["none", "missing"]
        kind = kinds[vm.choose(len(kinds), "kind")]
        key = vm.opaque("name", "str")
        r = ranks(vm, kind)(0)
        env = Map(vm, "environment")
        v = None if kind in ("none", "missing") else value(kind, r)

        class Env(Host):
            def m_get(self, vm, a, k):
                vm.prove("the value of the name", a[0] is key)
                return v if kind != "missing" else (a[1] if len(a) > 1 else None)

            def vm_getitem(self, vm, k):
                vm.prove("the value of the name", k is key)
                if kind == "missing":
                    raise PyExc(KeyError(k))
                return v

            def vm_contains(self, vm, k):
                return kind != "missing"

        out, e = evaluate(vm, Node("Name", id=key), Env())
        vm.cover("name")
        vm.prove("nothing fails", e is None, repr(e))
        if v is None:
            vm.prove("unknown", out is None, repr(out))
        elif kind == "truth":
            vm.prove("the truth that is meant", truth_of(vm, out, r == 1), repr(out))
        else:
            w = normal(vm, kind, r)
            same_kind = type(out) is type(w) or (kind in ("version", "arch") and isinstance(out, VersionText)) or (kind == "bool" and isinstance(out, bool))
            vm.prove("the value that is meant", same_kind and (out.rank == r if hasattr(out, "rank") else num_eq(vm, out, z3.ToInt(r)) if isinstance(w, SInt) else truth_of(vm, out, r == 1)), repr(out))
        return
    x = vm.opaque("value")
    out, e = evaluate(vm, constant(x))
    vm.cover("constant")
    vm.prove("the value of a constant", e is None and same(vm, out, x), repr(out))


def unknown(vm):
    syntax(vm)
    kinds = ["Call", "Attribute", "BinOp", "Tuple"]
    k = vm.choose(len(kinds) + 3, "kind")
    if k < len(kinds):
        node = Node(kinds[k])
    elif k < len(kinds) + 2:
        node = Node("UnaryOp", op=Node(["UAdd", "Invert"][k - len(kinds)]), operand=constant(vm.opaque("value")))
    else:
        node = Node("Compare", left=constant(vm.fresh_int("a")), ops=VList([Node("In")]), comparators=VList([constant(vm.fresh_int("b"))]))
    out, e = evaluate(vm, node)
    vm.cover("refused")
    vm.prove("what is not understood is refused", e is not None, repr(out))


# ------------------------------------------------------------ variables
class Occ:
    """the text of a marker: literal pieces and #name#"""


def substitution(vm):
    """each #name# of a given variable becomes a literal of its value, in one pass"""
    kinds = ["none", "true", "false", "number", "text"]
    names = ["a", "b.c"]
    vals, lits = {}, {}
    for nm in names[: 1 + vm.choose(2, "variables")]:
        kind = kinds[vm.choose(len(kinds), "kind")]
        v = {"none": None, "true": True, "false": False, "number": vm.fresh_int("number"), "text": vm.opaque("value", "str")}[kind]
        vals[nm] = v
        lits[nm] = ("json", v) if kind == "text" else ("num", v) if kind == "number" else ("word", {None: "None", True: "True", False: "False"}[v])

    class Lit(Host):
        def __init__(self, v):
            self.v = v

    ESCAPED = vm.opaque("escaped text", "str")
    vm.stubs["json.dumps"] = Stub(lambda vm, a, k: Lit(a[0]) if k.get("ensure_ascii") is False else ESCAPED, "dumps")
    vm.stubs["re.escape"] = Stub(lambda vm, a, k: "".join("\\" + c if not (c.isalnum() or c == "_") else c for c in a[0]), "escape")
    text = vm.opaque("marker", "str")
    done = []

    class Match(Host):
        def __init__(self, nm):
            self.nm = nm

        def m_group(self, vm, a, k):
            g = a[0] if a else 0
            if g == 0:
                return f"#{self.nm}#"
            if g == 1:
                return self.nm
            raise Unsupported("another group")

        def vm_getitem(self, vm, k):
            return self.m_group(vm, [k], {})

    def sub(vm, pattern, fn, s):
        import re

        vm.prove("the variables are put into the marker in one pass", s is text and not done)
        if not isinstance(pattern, str):
            raise Unsupported("another pattern")
        p = re.compile(pattern)
        for nm in list(vals):
            m = p.fullmatch(f"#{nm}#")
            vm.prove("the placeholder of every variable is found", m is not None and p.groups >= 1 and m.group(1) == nm, pattern)
        for other in ("x", "a#", "ab", "bxc", ""):
            if other not in vals:
                m = p.fullmatch(f"#{other}#")
                if m is not None:
                    raise Unsupported("a pattern that finds other names")
        out = {nm: vm.call(fn, [Match(nm)], {}) for nm in vals}
        done.append(out)
        return RESULT

    RESULT = vm.opaque("substituted", "str")
    vm.stubs["re.sub"] = Stub(lambda vm, a, k: sub(vm, a[0], a[1], a[2]), "sub")

    class Pattern(Host):
        def __init__(self, p):
            self.p = p

        def m_sub(self, vm, a, k):
            return sub(vm, self.p, a[0], a[1])

    vm.stubs["re.compile"] = Stub(lambda vm, a, k: Pattern(a[0]), "compile")
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "substitute_variables"), [text, VDict([[k, v] for k, v in vals.items()])], {}))
    vm.cover("substituted")
    vm.prove("nothing fails", e is None, repr(e))
    vm.prove("the result is the marker with the variables put in", out is RESULT and len(done) == 1)
    for nm, x in (done[0] if done else {}).items():
        kind, v = lits[nm]
        if kind == "word":
            vm.prove("None, True and False as such", x == v, repr(x))
        elif kind == "json":
            if not isinstance(x, Lit) and x is not ESCAPED:
                raise Unsupported("another literal of a text")
            vm.prove("a text as a quoted literal", isinstance(x, Lit) and x.v is v, repr(x))
        else:
            if not isinstance(x, SVal):
                raise Unsupported("another literal of a number")
            vm.prove("a number as such", isinstance(x, SVal) and same(vm, x, SVal(z3.Function("str_of_int", I, U)(v.t), "str")), repr(x))


def no_variables(vm):
    text = vm.opaque("marker", "str")
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "substitute_variables"), [text, VDict([])], {}))
    vm.cover("unchanged")
    vm.prove("without variables the marker stays as it is", e is None and out is text, repr(out))


# ------------------------------------------------------------ the machine
def machine(vm):
    have = {m: vm.choose(2, f"{m} is there") == 1 for m in ("torch", "torch_npu")}

    def load(name):
        def f(vm, a, k):
            if not have[name]:
                raise PyExc(ImportError(name))

        return Stub(f, f"import {name}")

    for m in have:
        vm.stubs[f"import {m}"] = load(m)
    cuda, npu = vm.fresh_bool("cuda"), vm.fresh_bool("npu")
    version = vm.opaque("cuda version", "str") if vm.choose(2, "built with cuda") else None
    capable = vm.choose(2, "a card is there") == 1
    major, minor = vm.fresh_int("major", 0), vm.fresh_int("minor", 0)
    vm.stubs["torch.cuda.is_available"] = Stub(lambda vm, a, k: cuda, "is_available")
    vm.stubs["torch.npu.is_available"] = Stub(lambda vm, a, k: npu, "is_available")
    vm.stubs["torch.version.cuda"] = version

    def cap(vm, a, k):
        if not capable:
            raise PyExc([AssertionError("Torch not compiled with CUDA enabled"), RuntimeError("no card")][vm.choose(2, "why")])
        return (major, minor)

    vm.stubs["torch.cuda.get_device_capability"] = Stub(cap, "get_device_capability")
    std = VDict([["python_version", "3.12"], ["sys_platform", "linux"]])
    vm.stubs["packaging.markers.default_environment"] = Stub(lambda vm, a, k: std, "default_environment")
    env, e = attempt(vm, lambda: vm.call(vm.lookup(M, "get_env"), [], {}))
    vm.cover("environment")
    vm.prove("the environment can always be told", e is None, repr(e))
    if e is not None:
        return
    got = {k: v for k, v in env.items}
    vm.prove("the standard variables are in it", got.get("python_version") == "3.12" and got.get("sys_platform") == "linux")
    vm.prove("the standard environment is not changed", len(std.items) == 2)
    f = lambda x: x if isinstance(x, bool) else None
    vm.prove("has_cuda", (got.get("has_cuda") is cuda) if have["torch"] else f(got.get("has_cuda")) is False)
    vm.prove("has_npu", (got.get("has_npu") is npu) if all(have.values()) else f(got.get("has_npu")) is False)
    vm.prove("cuda_version", "cuda_version" in got and got["cuda_version"] is (version if have["torch"] else None))
    want = have["torch"] and capable
    vm.prove("cuda_arch is unknown without a card", ("cuda_arch" in got and got["cuda_arch"] is None) == (not want), f"{got}")
    if want:
        x = got["cuda_arch"]
        term = z3.Function("fstr3", U, U, U, U)
        vm.cover("a card")
        vm.prove("cuda_arch names the capability", isinstance(x, SVal) and vm.term(x) == term(vm.term("sm_"), vm.term(major), vm.term(minor)), repr(x))


def addresses(vm):
    """what is an address"""
    for s, want in (("git+https://h/r", True), ("http://h/a", True), ("https://h/a", True), ("svn+x", True), ("hg+x", True), ("bzr+x", True),
                    ("a", False), ("a @ https://h/a", False), ("gitx", False), ("", False), ("#system_a#", False), ("http", False)):
        out, e = attempt(vm, lambda: vm.call(vm.lookup(Ut, "is_vcs_url"), [s], {}))
        vm.prove("addresses are told from names", e is None and out is want, s)
    vm.cover("addresses")


def custom(vm):
    """a marker that packaging does not understand is a custom one"""
    bad = [Invalid("x"), ValueError("y")][vm.choose(2, "why")]

    def mk(vm, a, k):
        raise PyExc(bad)

    vm.stubs["packaging.markers.Marker"] = Stub(mk, "Marker")
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "is_custom_marker"), [vm.opaque("marker", "str")], {}))
    vm.cover("custom")
    vm.prove("a marker that cannot be read is a custom one", e is None and out is True, repr(e))


EV = f"{M}:eval_custom_marker"
CASES = [
    Case("filter", [f"{M}:filter_requirements"], filtering, covers=["round", "kept", "kept as it is", "left out", "refused", "result"], need=25,
         assumed=["packaging.Requirement", "is_vcs_url", "substitute_variables", "eval_custom_marker", "is_custom_marker", "get_env"]),
    Case("packages", [f"{M}:VirtualEnvManager.process_packages"], packages, covers=["round", "pinned", "as given", "missing", "result"], need=12,
         assumed=["importlib.metadata.version", "filter_requirements"]),
    Case("and, or", [EV], lambda vm: boolean(vm, None), covers=["evaluated"], need=12),
    Case("and, or, few values", [EV], lambda vm: boolean(vm, 3), covers=["evaluated"], need=30, bounded="2 to 4 values"),
    Case("comparison", [EV], lambda vm: chain(vm, None), covers=["evaluated"], need=12),
    Case("comparison, few values", [EV], lambda vm: chain(vm, 2), covers=["evaluated"], need=12, bounded="1 or 2 comparisons in a chain", max_paths=8000),
    Case("comparison of kinds", [EV], mixed, covers=["a number without dots as a version", "None"], need=8),
    Case("not, minus", [EV], unary, covers=["minus", "not"], need=3),
    Case("names and constants", [EV], leaf, covers=["name", "constant"], need=8),
    Case("other expressions", [EV], unknown, covers=["refused"], need=5),
    Case("variables", [f"{M}:substitute_variables"], substitution, covers=["substituted"], need=10, bounded="1 or 2 variables of any kind"),
    Case("no variables", [f"{M}:substitute_variables"], no_variables, covers=["unchanged"], need=1),
    Case("machine", [f"{M}:get_env", f"{P}:check_cuda_available", f"{P}:get_cuda_version", f"{P}:get_cuda_arch", f"{P}:check_npu_available"], machine,
         covers=["environment", "a card"], need=8, assumed=["torch", "packaging.default_environment"]),
    Case("addresses", [f"{Ut}:is_vcs_url"], addresses, covers=["addresses"], need=8, bounded="twelve samples"),
    Case("custom markers", [f"{M}:is_custom_marker"], custom, covers=["custom"], need=1, assumed=["packaging.Marker"]),
]

ASSUMPTIONS = [
    "packaging: Requirement reads names, extras, specifiers, URLs and markers as PEP 508 has them, str() of one without a marker gives it without marker, and Version orders versions",
    "ast.parse gives the syntax tree of Python; json.dumps(x, ensure_ascii=False) is the literal of x in it",
    "the value of an expression is composed of the values of its parts: the recursive step is proved with parts that are constants of any value",
    "a version text is split at its dots into digits, an architecture is sm_ and digits; other texts are words (how texts are told apart is checked by samples in the concrete layer)",
    "re.sub replaces every match that does not overlap, from left to right, and does not look at what it put in",
]
