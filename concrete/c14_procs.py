"""one pool of real processes, one of which is killed (see c14.py)"""

import asyncio
import json
import os
import signal
import sys

import xoscar as mo
from xoscar.errors import ActorNotExist


class A(mo.StatelessActor):
    def __init__(self, *args, **kw):
        self.args = (args, kw)

    def get(self):
        return self.args, os.getpid()


async def main(mode):
    mode = False if mode == "False" else mode
    res = []
    log = []
    pool = await mo.create_actor_pool(
        "127.0.0.1",
        n_process=2,
        auto_recover=mode,
        on_process_down=lambda p, a: log.append(("down", a)),
        on_process_recover=lambda p, a: log.append(("recovered", a)),
        use_uvloop=False,
    )
    main = pool.external_address
    subs = list(pool.sub_processes)
    try:
        for i in range(6):
            await mo.create_actor(A, i, k=i, uid=f"a{i}", address=[subs[0], subs[0], subs[1], main, subs[0], subs[1]][i])
        await mo.destroy_actor(await mo.actor_ref(uid="a4", address=main))
        proc = pool.sub_processes[subs[0]]
        ref = await mo.actor_ref(uid="a0", address=main)
        pid = (await ref.get())[1]
        if pid != proc.pid:
            print("RESULT", json.dumps([]))
            return
        w = None
        if mode:
            w = asyncio.ensure_future(mo.wait_actor_pool_recovered(subs[0], main))
            await asyncio.sleep(0.05)
        os.kill(pid, signal.SIGKILL)
        if w is not None:
            try:
                await asyncio.wait_for(asyncio.shield(w), 60)
                res.append(("C14.waiters", True, ""))
            except asyncio.TimeoutError:
                res.append(("C14.waiters", False, "wait_actor_pool_recovered hangs"))
        await asyncio.sleep(1.5)
        want = [("down", subs[0])] + ([("recovered", subs[0])] if mode else [])
        res.append(("C14.callbacks", log == want, f"{log}"))
        for i in range(6):
            lives = i != 4 and (mode == "actor" or i not in (0, 1))
            try:
                r = await mo.actor_ref(uid=f"a{i}", address=main)
            except ActorNotExist:
                res.append(("C14.created_once" if lives else "C14.forgotten", not lives, f"a{i} does not exist"))
                continue
            if not lives:
                res.append(("C14.forgotten", False, f"a{i} exists"))
                continue
            got = await asyncio.wait_for(r.get(), 10)
            res.append(("C14.same_actor", got[0] == ((i,), {"k": i}), f"{got}"))
        if mode:
            ref = await asyncio.wait_for(mo.create_actor(A, uid="new", address=subs[0]), 10)
            res.append(("C14.goes_on", (await ref.get())[1] not in (pid, os.getpid()), ""))
    finally:
        try:
            await asyncio.wait_for(pool.stop(), 20)
        except asyncio.TimeoutError:
            pass
        for p in pool.sub_processes.values():
            try:
                p.kill()
            except Exception:
                pass
    print("RESULT", json.dumps(res), flush=True)


if __name__ == "__main__":
    asyncio.run(main(sys.argv[1]))
