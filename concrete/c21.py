"""C21: random marker expressions (nested and, or, not, parentheses, chained comparisons over versions, architectures, booleans, numbers and strings) with 0 to 4 substituted variables of every kind (quotes, placeholders, operators, control and astral characters inside, negative numbers, None), on 8 kinds of machines (a stand-in for torch), in lists of up to 6 requirements with extras, specifiers, URLs and VCS addresses; the result is compared with an independent evaluation. Non-trivial: distinct (marker, machine, variables)."""

import contextlib
import json
import sys
import types

from packaging.markers import default_environment
from packaging.requirements import Requirement
from packaging.version import Version

from xoscar.virtualenv.core import VirtualEnvManager, filter_requirements, substitute_variables

STD = default_environment()
BASES = ["a", "a-b.c", "A_b", "a[x]", "a[x,y]", "a>=1", "a>=1,<2,!=1.5", "a==1.*", "a[x]~=2.0", "a @ https://h.x/y/a-1.0-py3-none-any.whl", "a===abc", "a (>=1.0)", "torch==2.1.0+cpu"]
KEPT = ["git+https://h.x/r.git", "git+https://h.x/r.git@v1#egg=r", "https://h.x/a.whl", "http://h.x/a.zip", "svn+https://h.x/r", "hg+https://h.x/r", "bzr+https://h.x/r", 'git+https://h.x/r ; python_version < "3"', "git+ssh://h.x/r;has_cuda"]


def machine(rng):
    """the modules to be found, and what they mean"""
    kind = rng.choice(["none", "cpu", "build", "gpu", "gpu", "gpu", "gpu", "npu"])
    env = dict(has_cuda=False, cuda_version=None, cuda_arch=None, has_npu=False)
    mods = {"torch": None, "torch_npu": None}
    if kind != "none":
        t = types.ModuleType("torch")
        t.cuda, t.version = types.SimpleNamespace(), types.SimpleNamespace(cuda=None)
        cap = rng.choice([(8, 0), (9, 0), (10, 0), (12, 0), (7, 5)])

        def no():
            raise AssertionError("Torch not compiled with CUDA enabled")

        t.cuda.is_available = lambda: kind == "gpu"
        t.cuda.get_device_capability = (lambda: cap) if kind == "gpu" else no
        if kind in ("gpu", "build"):
            t.version.cuda = env["cuda_version"] = rng.choice(["12.1", "12.4", "11.8", "12.10", "13.0", "9.2"])
        if kind == "gpu":
            env.update(has_cuda=True, cuda_arch=f"sm_{cap[0]}{cap[1]}")
        mods["torch"] = t
        if kind == "npu":
            t.npu = types.SimpleNamespace(is_available=lambda: True)
            mods["torch_npu"] = types.ModuleType("torch_npu")
            env["has_npu"] = True
    return kind, mods, env


@contextlib.contextmanager
def installed(mods):
    saved = {k: sys.modules.get(k, False) for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is False:
                del sys.modules[k]
            else:
                sys.modules[k] = v


class Skip(Exception):
    pass


STRINGS = ["vllm", "", "a b", 'a"b', "it's", "#b#", "#n1#", '" or "1', "' or '1", " or 1 or ", "\\", "a\\", "\n", "\t", "\x7f", "é", "😀", "..", "1..2", "and", "has_cuda", "not", "(", ";", "a;b", "{}", "%s", "\\1", "\\g<0>", "None", "#", "##", "a#", "x" * 50, "\u2028", "=="]
VERSIONS = ["12.1", "11.8", "12.10", "12.4", "13.0", "9.2", "12.1.1", "3.8", "3.12", "100.0", "12", "12.0"]
ARCHS = ["sm_80", "sm_90", "sm_100", "sm_75", "sm_120"]
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def quote(rng, s):
    q = repr(s)
    if rng.random() < 0.5:
        q = json.dumps(s, ensure_ascii=False)
    return q


class Gen:
    """an expression as text and as a function of nothing"""

    def __init__(self, rng, env, variables):
        self.rng, self.env, self.vars = rng, env, variables

    def operand(self, kind, literal):
        rng, env = self.rng, self.env
        names = [k for k, v in self.vars.items() if v[0] == kind]
        if not literal and names and (rng.random() < 0.6 or kind in ("string", "number")):
            k = rng.choice(names)
            return f"#{k}#", self.value(kind, self.vars[k][1]), True
        if kind == "version":
            if not literal:
                k = rng.choice(["cuda_version", "cuda_version", "python_version", "python_full_version"])
                return k, self.value(kind, env.get(k)), True
            # the plain "12" is compared as a version only with one
            v = rng.choice(VERSIONS)
            return f'"{v}"', Version(v), "." in v
        if kind == "arch":
            if not literal:
                return "cuda_arch", self.value(kind, env["cuda_arch"]), True
            v = rng.choice(ARCHS)
            return f"'{v}'", int(v[3:]), True
        if kind == "bool":
            if not literal:
                k = rng.choice(["has_cuda", "has_npu"])
                return k, env[k], True
            v = rng.choice(["True", "False", '"True"', "'false'", '"FALSE"'])
            return v, v.strip("'\"").lower() == "true", True
        if kind == "number":
            v = rng.choice([0, 1, 5, -3, 2.5, 10])
            return repr(v), v, True
        # what looks like a placeholder in the text is one, also between quotes
        v = rng.choice([s for s in STRINGS if "#" not in s])
        return quote(rng, v), v, True

    def value(self, kind, v):
        if v is None:
            return None
        if kind == "version":
            return Version(v)
        if kind == "arch":
            return int(v[3:])
        return v

    def compare(self):
        rng = self.rng
        kind = rng.choice(["version", "version", "arch", "bool", "number", "string", "string"])
        names = [k for k, v in self.vars.items() if v[0] == kind]
        if kind in ("number",) and not names:
            kind = "version"
        if kind == "string" and not names:
            k = rng.choice(["sys_platform", "platform_machine", "os_name"])
            v = rng.choice([STD[k], "other"])
            op = rng.choice(["==", "!="])
            a, b = (k, f'"{v}"') if rng.random() < 0.7 else (f'"{v}"', k)
            return f"{a} {op} {b}", lambda: OPS[op](STD[k], v)
        n = rng.choice([2, 2, 2, 2, 3, 4])
        lit = rng.random() < 0.3
        xs = []
        for i in range(n):
            xs.append(self.operand(kind, (i % 2 == 0) == lit))
        ops = [rng.choice(list(OPS) if kind not in ("bool", "string") else ["==", "!="]) for _ in range(n - 1)]
        if kind == "number" and rng.random() < 0.1:
            xs[-1], ops[-1] = ("None", None, True), "=="
        text = xs[0][0]
        for o, x in zip(ops, xs[1:]):
            text += rng.choice([f" {o} ", o if "n" != x[0][:1] else f" {o} "]) + x[0]

        def run():
            for (_, a, av), o, (_, b, bv) in zip(xs, ops, xs[1:]):
                if (a is None or b is None) and o not in ("==", "!="):
                    raise Skip  # ordering what is unknown
                if (a is None or b is None) and kind == "version" and not (av and bv):
                    raise Skip
                if not OPS[o](a, b):
                    return False
            return True

        return text, run

    def expr(self, depth):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.25:
            if rng.random() < 0.2:
                k = rng.choice(["has_cuda", "has_npu"])
                return k, lambda: bool(self.env[k])
            if rng.random() < 0.08:
                v = rng.choice([True, False])
                return str(v), lambda: v
            return self.compare()
        if r < 0.4:
            t, f = self.expr(depth - 1)
            return f"not ({t})", lambda: not f()
        op = rng.choice(["and", "or"])
        parts = [self.expr(depth - 1) for _ in range(rng.choice([2, 2, 3]))]
        # with or without the parentheses: mixed operators have their own precedence
        t = f" {op} ".join(f"({t})" for t, _ in parts)

        def run():
            r = op == "and"
            for _, f in parts:
                r = f()
                if bool(r) is (op == "or"):
                    break
            return bool(r)

        return t, run

    def flat(self):
        """without parentheses: not, then and, then or"""
        rng = self.rng
        text, ors = "", [[]]
        for i in range(rng.randrange(1, 6)):
            t, f = self.expr(0)
            if i:
                op = rng.choice(["and", "or"])
                text += f" {op} "
                if op == "or":
                    ors.append([])
            if rng.random() < 0.3:
                text += "not "
                f = (lambda g: lambda: not g())(f)
            text += t
            ors[-1].append(f)

        def run():
            return any(all(f() for f in fs) for fs in ors)

        return text, run


def variables(rng):
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        kind = rng.choice(["string", "string", "number", "version", "bool"])
        v = {
            "string": lambda: rng.choice(STRINGS),
            "number": lambda: rng.choice([0, 1, -1, 5, 2.5, -0.5, 10, 10**20, 1e300]),
            "version": lambda: rng.choice([v for v in VERSIONS if "." in v]),
            "bool": lambda: rng.choice([True, False]),
        }[kind]()
        if kind == "number" and rng.random() < 0.1:
            v = None
        out[rng.choice(["engine", "b", "n1", "x_y", "model_name", "v", "has_cuda2"])] = (kind, v)
    return out


def markers(h):
    """what is kept and how it is written"""
    rng = h.rng
    skipped = 0
    for i in range(h.n(6000, 80000)):
        if h.time_left() < 60 or len(h.failures) > 20:
            return
        kind, mods, env = machine(rng)
        env = {**STD, **env}
        vs = variables(rng)
        values = {k: v[1] for k, v in vs.items()}
        reqs, want = [], []
        try:
            for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
                r = rng.random()
                base = rng.choice(BASES)
                if r < 0.1:
                    x = rng.choice(KEPT)
                    reqs.append(x)
                    want.append(x)
                elif r < 0.2:
                    reqs.append(rng.choice(["", " "]) + base + rng.choice(["", " "]))
                    want.append(str(Requirement(base)))
                else:
                    g = Gen(rng, env, vs)
                    t, f = g.flat() if rng.random() < 0.4 else g.expr(rng.randrange(4))
                    reqs.append(f"{base}{rng.choice([' ; ', ' ;', ' ; '])}{t}")
                    if f():
                        want.append(str(Requirement(base)))
        except Skip:
            skipped += 1
            continue
        h.seen((tuple(reqs), kind, repr(values)), (reqs, kind, values))
        log = (reqs, {k: env[k] for k in ("has_cuda", "cuda_version", "cuda_arch", "has_npu")}, values)
        with h.guard("C21.filter", log), installed(mods):
            given = list(reqs)
            got = filter_requirements(given, **values)
            h.check(got == want, "C21.filter", log, f"{got}, has to be {want}")
            h.check(given == reqs, "C21.arguments", log, "the list was changed")
            if rng.random() < 0.2:
                got = VirtualEnvManager.process_packages(list(reqs), **values)
                h.check(got == want, "C21.process", log, f"{got}, has to be {want}")


def substitution(h):
    """a value is written as one literal"""
    import ast

    rng = h.rng
    for i in range(h.n(3000, 30000)):
        vs = {}
        for k in rng.sample(["a", "b", "ab", "engine", "a_b"], rng.randrange(1, 5)):
            vs[k] = rng.choice([rng.choice(STRINGS), rng.choice(STRINGS) + rng.choice(STRINGS), f"#{rng.choice(['a', 'b', 'ab'])}#", rng.randrange(100), 2.5, True, False, None])
        ks = [rng.choice(list(vs)) for _ in range(rng.randrange(1, 5))]
        text = " and ".join(f"#{k}# == 'lit'" for k in ks)
        h.seen((text, repr(vs)), (text, vs))
        with h.guard("C21.substitute", (text, vs)):
            got = substitute_variables(text, dict(vs))
            try:
                tree = ast.parse(got, mode="eval").body
                comps = tree.values if isinstance(tree, ast.BoolOp) else [tree]
                lits = [(c.left.value, type(c.left.value)) for c in comps if len(c.comparators) == 1]
                ok = lits == [(vs[k], type(vs[k])) for k in ks]
            except (SyntaxError, AttributeError) as e:
                ok = False
            h.check(ok, "C21.substitute", (text, vs), f"{got!r}")
    for t in ["#unknown# == 1", "has_cuda", "", "#", "a # b"]:
        with h.guard("C21.substitute", t):
            h.seen(t)
            h.check(substitute_variables(t, {"engine": "x"}) == t and substitute_variables(t, {}) == t, "C21.substitute_nothing", t)


def system(h):
    """#system_x# is the installed version"""
    import importlib.metadata as md

    for name in ["numpy", "packaging", "pytest", "psutil", "cloudpickle"]:
        try:
            v = md.version(name)
        except md.PackageNotFoundError:
            continue
        h.seen(name)
        with h.guard("C21.system", name), installed({"torch": None, "torch_npu": None}):
            got = VirtualEnvManager.process_packages([f"#system_{name}#", "a"])
            h.check(got == [f"{name}=={v.split('+')[0]}", "a"], "C21.system", name, f"{got}")
    for name in ["no-such-package-here"]:
        with h.guard("C21.system", name), installed({"torch": None, "torch_npu": None}):
            h.seen(name)
            try:
                got = VirtualEnvManager.process_packages([f"#system_{name}#"])
                h.fail("C21.system_unknown", name, f"{got}")
            except RuntimeError:
                h.check(True, "C21.system_unknown", name)


PARTS = [markers, substitution, system]
