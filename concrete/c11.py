"""C11: random histories (up to 40 steps) of adding pools under new indexes with new addresses (one or several, with and without label and internal address, internal equal to external), resetting their external addresses, and removing them, each followed by all queries, compared with the list of configured pools; process indexes of several generators, classes, pool kinds, forked and spawned processes compared pairwise; configurations of real pools before and after appending and removing sub pools. Non-trivial: distinct configurations and histories."""

import os
import subprocess
import sys

from xoscar.backends.config import ActorPoolConfig


def compare(h, c, model, log):
    """all queries against the pools that are configured"""

    def chk(cond, name, msg):
        return h.check(cond, "C11." + name, log, msg)

    ok = True
    idx = [p["idx"] for p in model]
    ok &= chk(c.get_process_indexes() == idx, "insertion_order", f"{c.get_process_indexes()} want {idx}")
    ok &= chk(c.n_pool == len(model), "n_pool", f"{c.n_pool}")
    want = {a: p["internal"] for p in model for a in p["ext"]}
    got = c.external_to_internal_address_map
    ok &= chk(dict(got) == want, "mapping", f"{got} want {want}")
    ok &= chk(c.as_dict()["mapping"] == want, "mapping", "as_dict()")
    ok &= chk(
        c.get_external_addresses() == [p["ext"][0] for p in model],
        "external_addresses",
        f"{c.get_external_addresses()}",
    )
    for label in {p["label"] for p in model} | {"absent"}:
        if label is None:
            continue
        w = [p["ext"][0] for p in model if p["label"] == label]
        g = c.get_external_addresses(label=label)
        ok &= chk(g == w, "label", f"{label}: {g} want {w}")
    for p in model:
        g = c.get_pool_config(p["idx"])
        ok &= chk(
            g["external_address"] == p["ext"] and g["label"] == p["label"] and g["internal_address"] == p["internal"],
            "pool_config",
            f"{g} want {p}",
        )
        ok &= chk(g["env"] == p["env"] and g["modules"] == p["modules"], "pool_config", f"{g} want {p}")
        ok &= chk(c.get_external_address(p["idx"]) == p["ext"][0], "external_address", f"{p}")
        for a in p["ext"]:
            ok &= chk(c.get_process_index(a) == p["idx"], "process_index_by_address", f"{a}")
    for bad in ("nowhere:1",):
        try:
            c.get_process_index(bad)
            ok &= chk(False, "process_index_by_address", "unknown address found")
        except ValueError:
            pass
    return ok


def histories(h):
    """any history of add, reset, remove"""
    rng = h.rng
    for case in range(h.n(1500, 20000)):
        if h.time_left() < 20:
            break
        c = ActorPoolConfig() if rng.random() < 0.8 else ActorPoolConfig({"comm": {"x": 1}})
        model, log = [], []
        n_addr = 0

        def fresh():
            nonlocal n_addr
            n_addr += 1
            return f"h{n_addr % 3}:{n_addr}"

        free_idx = list(range(20))
        rng.shuffle(free_idx)
        with h.guard("C11.history", log):
            for step in range(rng.randrange(1, 40)):
                r = rng.random()
                if r < 0.4 and free_idx:
                    i = free_idx.pop()
                    if i % 3 == 0:
                        i <<= 17
                    ext = [fresh() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    label = rng.choice([None, "a", "b", "", 0, "c"])
                    internal = rng.choice([None, f"dummy://{i}", f"unixsocket:///{i}", ext[0]])
                    p = dict(idx=i, ext=list(ext), label=label, internal=internal, env=rng.choice([None, {"A": str(i)}]), modules=rng.choice([None, ["m"]]))
                    arg = ext[0] if len(ext) == 1 and rng.random() < 0.5 else list(ext)
                    log.append(("add", i, label, internal, arg))
                    c.add_pool_conf(i, label, internal, arg, env=p["env"], modules=p["modules"])
                    model.append(p)
                elif r < 0.7 and model:
                    p = rng.choice(model)
                    new = [fresh() for _ in range(rng.choice([1, 1, 2, 3]))]
                    if rng.random() < 0.3:
                        new[rng.randrange(len(new))] = rng.choice(p["ext"])  # some stay
                    arg = new[0] if len(new) == 1 and rng.random() < 0.5 else list(new)
                    log.append(("reset", p["idx"], arg))
                    c.reset_pool_external_address(p["idx"], arg)
                    if p["internal"] in p["ext"]:
                        p["internal"] = new[0]  # internal address is the external one
                    p["ext"] = list(new)
                elif model:
                    p = rng.choice(model)
                    log.append(("remove", p["idx"]))
                    c.remove_pool_config(p["idx"])
                    model.remove(p)
                    if rng.random() < 0.3:
                        free_idx.insert(0, p["idx"] if p["idx"] < 20 else 99)
                        if 99 in free_idx:
                            free_idx.remove(99)
                else:
                    continue
                h.seen((len(model), tuple(len(p["ext"]) for p in model), tuple(p["label"] for p in model)), log)
                if not compare(h, c, model, log):
                    return


def other_configs(h):
    """metrics, comm and proxy settings are kept apart from the pools"""
    for m in [None, {}, {"backend": "console"}, {"a": 1, "b": 2}]:
        for p in [None, {}, {"x": "y"}, {"*": "z", "x": "w"}]:
            with h.guard("C11.settings", (m, p)):
                c = ActorPoolConfig()
                c.add_pool_conf(1, None, "i", "e")
                c.add_metric_configs(m)
                c.add_comm_config(m)
                c.add_proxy_config(p)
                h.seen((repr(m), repr(p)))
                h.check(c.get_metric_configs() == (m or {}) and c.get_comm_config() == (m or {}), "C11.settings", (m, p), "metrics or comm")
                h.check(c.get_proxy_config() == (p or {}), "C11.settings", (m, p), "proxy")
                c.add_proxy_config({"x": "v"})
                h.check(c.get_proxy_config() == {**(p or {}), "x": "v"}, "C11.settings", (m, p), "proxy added")
                c.remove_proxy("x")
                h.check("x" not in c.get_proxy_config(), "C11.settings", (m, p), "proxy removed")
                compare(h, c, [dict(idx=1, ext=["e"], label=None, internal="i", env=None, modules=None)], (m, p))


CHILD = """
import sys
from xoscar.backends.pool import MainActorPoolBase
import os
pids = eval(sys.argv[1])
g = MainActorPoolBase.process_index_gen('x')
out = []
for p in pids:
    if p: os.getpid = lambda p=p: p
    g = MainActorPoolBase.process_index_gen('x')
    out.append([next(g) for _ in range(50)])
print(out)
"""


def indexes(h):
    """process indexes never coincide"""
    import itertools

    from xoscar.backends.indigen.pool import MainActorPool
    from xoscar.backends.pool import MainActorPoolBase
    from xoscar.backends.test.pool import TestMainActorPool

    seen = {}

    def take(idxs, who):
        for i in idxs:
            h.seen(i)
            h.check(i not in seen, "C11.indexes_never_coincide", (who, i), f"also given to {seen.get(i)}")
            seen[i] = who

    with h.guard("C11.indexes", "several generators, interleaved"):
        gens = [
            ("MainActorPoolBase 1", MainActorPoolBase.process_index_gen("a")),
            ("MainActorPool 1", MainActorPool.process_index_gen("a")),
            ("MainActorPool 2", MainActorPool.process_index_gen("b")),
            ("TestMainActorPool 1", TestMainActorPool.process_index_gen("a")),
        ]
        for k in range(50):
            for who, g in gens:
                take([next(g)], who)
    # other processes: real ones and ones with any pid the system could give
    real = os.getpid()
    kids = {real}
    for _ in range(2):
        out = subprocess.Popen([sys.executable, "-c", CHILD, "[0]"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        txt, err = out.communicate()
        kids.add(out.pid)
        if out.returncode:
            h.error(err.decode()[-1000:])
            continue
        for l in eval(txt.decode().strip().splitlines()[-1]):
            take(l, f"another process {out.pid}")
    pids = {real - 1, real + 1, 1, 2, 4, 8, 40, 32767, 32768, 65536, 131072, 4194303} - kids
    for pid in sorted(pids):
        # one fresh process for each, so that every counter starts anew
        out = subprocess.run([sys.executable, "-c", CHILD, repr([pid])], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if out.returncode:
            h.error(out.stderr.decode()[-1000:])
            continue
        take(eval(out.stdout.decode().strip().splitlines()[-1])[0], f"pid {pid}")


def real_pools(h):
    """the configuration of a running pool, as sub pools come and go"""
    from util import free_port, pool

    async def main():
        for n in range(0, 4):
            async with pool(n, labels=[f"l{i % 2}" for i in range(n + 1)]) as p:
                c = p._config
                model = [
                    dict(idx=i, **{k: c.get_pool_config(i)[s] for k, s in (("ext", "external_address"), ("label", "label"), ("internal", "internal_address"), ("env", "env"), ("modules", "modules"))})
                    for i in c.get_process_indexes()
                ]
                h.seen((n, "new"))
                log = [f"test pool of {n} sub pools"]
                h.check(len(model) == n + 1, "C11.n_pool", log, f"{len(model)}")
                h.check([m["label"] for m in model] == [f"l{i % 2}" for i in range(n + 1)], "C11.label", log, f"{model}")
                h.check(model[0]["ext"][0] == p.external_address, "C11.main_first", log, f"{model[0]}")
                h.check([m["ext"][0] for m in model[1:]] == list(p.sub_processes), "C11.sub_pools", log, f"{list(p.sub_processes)}")
                h.check(len({a for m in model for a in m["ext"]}) == n + 1, "C11.distinct_addresses", log, "")
                compare(h, c, model, log)
                if n == 0:
                    continue
                addr = await p.append_sub_pool(label="new")
                log.append(("append", addr))
                i = c.get_process_index(addr)
                cc = c.get_pool_config(i)
                model.append(dict(idx=i, ext=[addr], label="new", internal=cc["internal_address"], env=None, modules=cc["modules"]))
                h.seen((n, "appended"))
                h.check(len({m["idx"] for m in model}) == n + 2, "C11.indexes_never_coincide", log, f"{model}")
                compare(h, c, model, log)
                victim = model[1 + h.rng.randrange(n + 1)]
                log.append(("remove", victim["ext"]))
                await p.remove_sub_pool(victim["ext"][0])
                model.remove(victim)
                h.seen((n, "removed"))
                compare(h, c, model, log)

    h.arun(main, "C11.real_pools", "pools with 0 to 3 sub pools", timeout=60)


PARTS = [histories, other_configs, indexes, real_pools]
