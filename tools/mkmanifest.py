import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "contract-based deductive verification of the real sources (pyvc VC generator + z3), same contracts evaluated on the compiled code for counterexamples"
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
NA = {
    "C22": "the collective operations are executed by the third-party gloo library through xoscar_pygloo, a C++ extension whose sources need git submodules that are absent; there is no code here that a contract could be put on, and what is left in Python only forwards its arguments",
    "C23": "needs UCX and CUDA devices; the code only moves device pointers through ucxx/rmm/cupy, none of which can run here, and contracts on it would consist of assumptions about those libraries",
    "C24": "is decided by the kernel (PR_SET_PDEATHSIG, process reparenting) and by libc calls through ctypes; no contract over the code's own state expresses the death of another process",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVELS and os.path.exists(os.path.join(HERE, "concrete", i.lower() + ".py")):
        lv, note = LEVELS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                           technique=TECH, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet (work in progress)")))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
