#!/usr/bin/env python3
"""Check of one property: run.py Cxx [--tier quick|thorough] | run.py replay FILE | run.py setup

Two layers run side by side on the current tree of /repo:
 - deductive: contracts/cXX.py, verification conditions generated from the sources,
   discharged by z3 (python3-vt);
 - concrete: concrete/cXX.py, the same contracts evaluated on the freshly compiled code
   (bounded stand-ins; search for a failing input).
"""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XOVERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def base_env(scratch):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "LD_LIBRARY_PATH"):
        env.pop(k, None)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=scratch,
        HOME=scratch,
        TMPDIR=os.path.join(scratch, "tmp"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        LANG="C.UTF-8",
        PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    )
    return env


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.jsonl")) as f:
            for line in f:
                if line.strip():
                    k = json.loads(line)
                    if k.get("property") == prop and k.get("status") == "known":
                        out.append(k)
    except OSError:
        pass
    return out


def is_known(known, contract, inp, msg):
    for k in known:
        if k.get("contract") == contract and k.get("input_contains", "\0") in inp:
            return k
    return None


def run(prop, tier, seed, parts=(), deductive=True, concrete=True, limit=None):
    t0 = time.time()
    limit = limit or (660 if tier == "quick" else 860)
    scratch = tempfile.mkdtemp(prefix="xoverif-", dir="/tmp")
    os.mkdir(os.path.join(scratch, "tmp"))
    procs = {}
    res = {}
    logs = {}
    try:
        if deductive and os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONHASHSEED="0")
            log = open(os.path.join(scratch, "ded.log"), "w+")
            logs["ded"] = log
            procs["ded"] = subprocess.Popen(
                [VT, "-m", "pyvc.runner", prop, tier, os.path.join(REPO, "python"), os.path.join(scratch, "ded.json")],
                cwd=HERE, env=env, stdout=log, stderr=log, start_new_session=True,
            )
        build_log = ""
        if concrete and os.path.exists(os.path.join(HERE, "concrete", prop.lower() + ".py")):
            b = subprocess.run(
                [PY, os.path.join(HERE, "tools", "scratch.py"), os.path.join(REPO, "python"), scratch],
                env=base_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            )
            build_log = b.stdout.decode(errors="replace")[-3000:]
            if b.returncode == 0:
                log = open(os.path.join(scratch, "con.log"), "w+")
                logs["con"] = log
                procs["con"] = subprocess.Popen(
                    [PY, os.path.join(HERE, "concrete", "base.py"), prop, tier, str(seed), os.path.join(scratch, "con.json"), *parts],
                    cwd=scratch, env=base_env(scratch), stdout=log, stderr=log, start_new_session=True,
                )
            else:
                res["build_failed"] = build_log
        for k, p in procs.items():
            try:
                p.wait(timeout=max(5, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                res[k + "_timeout"] = True
            kill_group(p)
            p.wait()
        res["ded"] = load(os.path.join(scratch, "ded.json"))
        res["con"] = load(os.path.join(scratch, "con.json"))
        if res.get("con_timeout") or ("con" in procs and res["con"] is None):
            res["con_progress"] = load(os.path.join(scratch, "con.json.progress"))
        for k, log in logs.items():
            log.flush()
            log.seek(0)
            res[k + "_log"] = log.read()[-6000:]
            log.close()
    finally:
        for p in procs.values():
            kill_group(p)
        if scratch.startswith("/tmp/xoverif-"):
            shutil.rmtree(scratch, ignore_errors=True)
    res["wall_s"] = time.time() - t0
    return res


def judge(prop, tier, seed, res):
    known = known_findings(prop)
    violations, printed = [], set()
    con, ded = res.get("con"), res.get("ded")
    for f in (con or {}).get("failures", []):
        k = is_known(known, f["contract"], f["input"], f["message"])
        if k is not None:
            if k["what"] not in printed:
                printed.add(k["what"])
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            continue
        violations.append(dict(kind="concrete", seed=seed, tier=tier, **f))
    if con is None and res.get("con_progress") and res.get("con_timeout"):
        p = res["con_progress"]
        violations.append(dict(kind="concrete", seed=seed, tier=tier, message="the check did not end; it was stopped in this case", **p))
    elif con is None and res.get("con_progress") and "con_log" in res:
        # the interpreter itself died (crash in compiled code)
        p = res["con_progress"]
        violations.append(dict(kind="concrete", seed=seed, tier=tier, message="the interpreter crashed in this case: " + res["con_log"][-1500:], **p))
    concrete = list(violations)
    for o in (ded or {}).get("refuted", []):
        violations.append(dict(kind="deductive", **o))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
    if violations:
        with open(replay, "w") as f:
            json.dump(
                dict(property=prop, failed=violations, how="python3 run.py replay " + replay,
                     verifier=[o for o in (ded or {}).get("refuted", [])]),
                f, indent=1)
    return violations, concrete, replay


def evidence(prop, tier, seed, res, violations):
    con, ded = res.get("con") or {}, res.get("ded") or {}
    man = load(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    cov = {}
    if ded:
        cov.update(
            obligations=ded["obligations"],
            discharged=ded["discharged"],
            checker_cmd=f"{VT} -m pyvc.runner {prop} {tier} {REPO}/python OUT.json",
            trusted_base=ded["trusted_base"],
            functions_under_contract=ded["functions"],
            functions_assumed=ded.get("assumed_contracts", []),
            obligation_names=ded["names"],
            back_ends=ded["back_ends"],
            solver_s=ded["solver_s"],
            solver_queries=ded["queries"],
            paths=ded["paths"],
            covers=ded["covers"],
            undecided=ded["undecided"],
            bounded_symbolic=ded["bounded"],
            dropped_by_extraction=ded["drops"],
        )
    if con:
        cov.update(
            evaluations=con["evaluations"],
            distinct_nontrivial=con["distinct"],
            rule=con["rule"],
            samples=con["samples"],
            contracts_evaluated=con["contracts"],
            bounded_part="the counts evaluations/distinct_nontrivial/contracts_evaluated are bounded evaluation of the same contracts on the compiled code; they are not counted as proved",
        )
        if con["errors"]:
            cov["harness_errors"] = con["errors"]
    for k in ("build_failed", "ded_timeout", "con_timeout", "deeper_search"):
        if res.get(k):
            cov[k] = res[k]
    if not ded and "ded_log" in res:
        cov["deductive_layer_gave_no_answer"] = res["ded_log"][-1500:]
    if not cov:
        cov["explanation"] = "no layer gave an answer"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ded.get("assumptions", []), wall_s=round(res["wall_s"], 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if a and a[0] == "setup":
        r = subprocess.run([VT, "-c", "import z3; print('z3', z3.get_version_string())"])
        sys.exit(r.returncode)
    if a and a[0] == "replay":
        d = load(a[1])
        prop = d["property"]
        con = [f for f in d["failed"] if f["kind"] == "concrete"]
        if con:
            f = con[0]
            res = run(prop, f["tier"], f["seed"], [f["part"]], deductive=False)
            same = [x for x in (res.get("con") or {}).get("failures", []) if x["contract"] == f["contract"]]
            for x in same:
                print(json.dumps(x, indent=1))
            print("reproduced" if same else "not reproduced")
            sys.exit(1 if same else 0)
        res = run(prop, "quick", seed, concrete=False)
        for o in (res.get("ded") or {}).get("refuted", []):
            print(json.dumps(o, indent=1))
        sys.exit(1 if (res.get("ded") or {}).get("refuted") else 0)
    prop = a[0]
    deductive = concrete = True
    parts = []
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--only":
            deductive, concrete = a[i + 1] == "ded", a[i + 1] == "con"
            i += 1
        else:
            parts.append(a[i])
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    res = run(prop, tier, seed, parts, deductive, concrete)
    ded, con = res.get("ded"), res.get("con")
    if tier == "quick" and deductive and concrete and con and not con["failures"] and "ded_log" in res and (not ded or ded["refuted"] or ded["undecided"]):
        # not every obligation is discharged: look harder for an input that fails
        left = 840 - res["wall_s"]
        if left > 60:
            more = run(prop, "thorough", seed, parts, deductive=False, limit=left)
            if (more.get("con") or {}).get("failures"):
                res["con"], tier = more["con"], "thorough"
            res["wall_s"] += more["wall_s"]
            res["deeper_search"] = dict(wall_s=more["wall_s"], failures=len((more.get("con") or {}).get("failures", [])), ended=bool(more.get("con")))
    violations, conc, replay = judge(prop, tier, seed, res)
    ev = evidence(prop, tier, seed, res, violations)
    c = ev["coverage"]
    print(f"{prop} [{tier}]: {c.get('discharged', 0)}/{c.get('obligations', 0)} obligations discharged, "
          f"{len(c.get('undecided', []))} undecided, {c.get('evaluations', 0)} cases evaluated, {ev['wall_s']} s")
    for u in c.get("undecided", [])[:8]:
        print(f"  undecided: {str(u)[:300]}")
    for e in c.get("harness_errors", [])[:5]:
        print(f"  harness error: {e[-700:]}")
    for k in ("build_failed", "ded_timeout", "con_timeout", "deeper_search", "deductive_layer_gave_no_answer"):
        if k in c:
            print(f"  {k}: {str(c[k])[-1500:]}")
    for v in violations[:6]:
        if v["kind"] == "concrete":
            print(f"  contract {v['contract']} is false for {v['input'][:400]}: {v['message'][:900]}")
        else:
            print(f"  obligation {v['name']} refuted: {v['condition'][:300]} {v.get('note','')[:200]}")
    if violations:
        tail = "" if conc else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={replay}{tail}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
