"""Runs the contracts of one property against the sources and writes a JSON report.

usage: python3-vt -m pyvc.runner PROP TIER ROOT OUT
"""

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

from .interp import VM


class Case:
    """one verification task: functions under contract + a proof script

    body(vm) states the precondition (fresh symbolic state), executes the real
    function and states its postcondition with vm.prove(...)
    """

    def __init__(self, name, under, body, setup=None, covers=(), bounded=None, max_paths=3000, seconds=150,
                 timeout_ms=15000, assumed=(), while_bound=6, need=1):
        self.name = name
        self.under = list(under)
        self.body = body
        self.setup = setup
        self.covers = list(covers)
        self.bounded = bounded
        self.max_paths = max_paths
        self.seconds = seconds
        self.timeout_ms = timeout_ms
        self.assumed = list(assumed)
        self.while_bound = while_bound
        self.need = need


def cvc5_check(smt, timeout_s=20):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
        path = f.name
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout_s*1000}", path], capture_output=True, text=True, timeout=timeout_s + 10)
        return (r.stdout.strip().splitlines() or ["error " + r.stderr[:200]])[0]
    except (subprocess.TimeoutExpired, OSError) as e:
        return f"no answer ({type(e).__name__})"
    finally:
        os.unlink(path)


def run_case(args):
    prop, tier, root, i = args
    sys.setrecursionlimit(6000)
    t0 = time.time()
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    case = mod.CASES[i]
    out = dict(case=case.name, under=case.under, names={}, refuted=[], undecided=[], covers={}, drops=[], bounded=[],
               queries=0, solver_s=0.0, paths=0, funcs=[], cvc5={})
    try:
        vm = VM(root, keep_smt=2 if tier == "thorough" else 0, timeout_ms=case.timeout_ms)
        vm.while_bound = case.while_bound
        vm.tier = tier
        if case.setup:
            case.setup(vm)
        vm.explore(case.body, max_paths=case.max_paths, deadline=time.time() + case.seconds * (3 if tier == "thorough" else 1))
    except Exception as e:
        out["undecided"].append(dict(case=case.name, why=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:]))
        out["wall_s"] = time.time() - t0
        return out
    for u in sorted(set(vm.unsupported)):
        out["undecided"].append(dict(case=case.name, why=u, **(dict(trace=vm.crash) if u.startswith("the contract") and getattr(vm, "crash", None) else {})))
    # a failed invariant says nothing about the property: what follows from it is not believed
    soft_bad = [n for n in vm.soft if vm.obl[n].failures]
    for n in soft_bad:
        out["undecided"].append(dict(case=case.name, why=f"auxiliary obligation {n} not proved", detail=str(vm.obl[n].failures[0])[:1200]))
    for n, o in vm.obl.items():
        full = f"{case.name}: {n}"
        out["names"][full] = [o.total, o.discharged]
        for u in o.unknown:
            out["undecided"].append(dict(case=case.name, why=f"{n}: solver gave no answer ({u['reason']})"))
        if o.failures and n not in vm.soft:
            f = o.failures[0]
            d = dict(name=full, functions=case.under, count=len(o.failures), **f)
            if soft_bad:
                out["undecided"].append(dict(case=case.name, why=f"{n} not proved (after a failed invariant)"))
            else:
                out["refuted"].append(d)
        for smt, r in o.smt:
            ans = cvc5_check(smt)
            k = f"z3 {r} / cvc5 {ans}"
            out["cvc5"][k] = out["cvc5"].get(k, 0) + 1
            if r == "unsat" and ans == "sat":
                out["undecided"].append(dict(case=case.name, why=f"{n}: z3 and cvc5 disagree"))
    n_obl = sum(o.total for o in vm.obl.values())
    if n_obl < case.need:
        out["undecided"].append(dict(case=case.name, why=f"only {n_obl} obligations were generated"))
    for c in case.covers:
        if not vm.covers.get(c):
            out["undecided"].append(dict(case=case.name, why=f"vacuity: {c} is not reachable"))
    out["covers"] = {f"{case.name}: {k}": v for k, v in vm.covers.items()}
    out["bounded"] = [f"{case.name}: {b}" for b in sorted(vm.bounded_notes)] + ([f"{case.name}: {case.bounded}"] if case.bounded else [])
    out["drops"] = sorted({f"{m}: {d}" for m, s in vm.sources.items() for d in s.drops})[:60]
    out["queries"] = vm.n_queries
    out["solver_s"] = round(vm.solver_s, 3)
    out["paths"] = vm.n_paths
    out["funcs"] = sorted(vm.funcs_run)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def main(argv):
    prop, tier, root, outp = argv
    t0 = time.time()
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    jobs = [(prop, tier, root, i) for i in range(len(mod.CASES))]
    if os.environ.get("PYVC_CASE"):
        jobs = [j for j in jobs if os.environ["PYVC_CASE"] in mod.CASES[j[3]].name]
    if len(jobs) > 1:
        with mp.Pool(min(4, len(jobs))) as pool:
            res = pool.map(run_case, jobs, chunksize=1)
    else:
        res = [run_case(j) for j in jobs]
    import z3

    cv = {}
    for r in res:
        for k, v in r["cvc5"].items():
            cv[k] = cv.get(k, 0) + v
    names = {k: v for r in res for k, v in r["names"].items()}
    # a case with a bound, declared or met (an unrolled loop), proves nothing for all inputs
    limited = {k for r in res if r["bounded"] for k in r["names"]}
    proved = {k: v for k, v in names.items() if k not in limited}
    rep = dict(
        property=prop,
        obligations=sum(v[0] for v in proved.values()),
        discharged=sum(v[1] for v in proved.values()),
        bounded_obligations={k: v for k, v in names.items() if k in limited},
        names={k: f"{v[1]}/{v[0]}" for k, v in names.items()},
        refuted=[x for r in res for x in r["refuted"]],
        undecided=[x for r in res for x in r["undecided"]],
        functions=sorted({u for r in res for u in r["under"]}),
        functions_executed=sorted({u for r in res for u in r["funcs"]}),
        assumed_contracts=sorted({a for c in mod.CASES for a in c.assumed}),
        covers={k: v for r in res for k, v in r["covers"].items()},
        bounded=[b for r in res for b in r["bounded"]],
        drops=sorted({d for r in res for d in r["drops"]}),
        queries=sum(r["queries"] for r in res),
        paths=sum(r["paths"] for r in res),
        solver_s=round(sum(r["solver_s"] for r in res), 2),
        back_ends=dict(z3=z3.get_version_string(), **({"cvc5 cross-check (query answers)": cv} if cv else {})),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
        cases=[dict(case=r["case"], wall_s=r.get("wall_s"), paths=r["paths"]) for r in res],
        wall_s=round(time.time() - t0, 2),
    )
    with open(outp + ".tmp", "w") as f:
        json.dump(rep, f, indent=1)
    os.rename(outp + ".tmp", outp)


TRUSTED = [
    "pyvc (this framework): translation of Python statements to path conditions, its model of built-ins (pyvc/lib.py)",
    "the syntactic .pyx -> Python translation of pyvc/front.py (C integer widths and static type checks dropped)",
    "z3",
]

if __name__ == "__main__":
    main(sys.argv[1:])
