"""C18: objects of every size around the limit and of every kind, written by both stages, one after the other as parent and sub pool do, in the shared memory of the real class; while a stage is written, readers of it run at every bytecode of the writer. Non-trivial: distinct (sizes, kinds, stages, seeds)."""

import os
import pickle
import sys

import gen
from xoscar.backends.indigen import pool as P
from xoscar.backends.indigen import shared_memory

SIZE = P._SUBPROCESS_SHM_SIZE
SEQ = [P._ShmSeq.INIT_PARAMS, P._ShmSeq.INIT_RESULT]


def of_size(n):
    """a bytes object whose pickle has n bytes"""
    m = n
    while m >= 0 and len(pickle.dumps(b"\x01" * m)) > n:
        m -= 1
    return b"\x01" * m


class Memory:
    def __init__(self):
        self.shm = shared_memory.SharedMemory(create=True, size=SIZE, track=False)

    def __enter__(self):
        return self.shm

    def __exit__(self, *_):
        self.shm.close()
        self.shm.unlink()


def during(action, poll):
    """runs ``action`` and polls at every bytecode of the code of the pool module in it"""
    busy = False

    def local(frame, event, arg):
        nonlocal busy
        if not busy:
            busy = True
            try:
                poll(frame.f_lineno)
            finally:
                busy = False
        return local

    def tracer(frame, event, arg):
        if busy or frame.f_code.co_filename != P.__file__:
            return None
        frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return action()
    finally:
        sys.settrace(old)


def handshake(h, objs, log, dense):
    with Memory() as shm:
        for seq, o in zip(SEQ, objs):
            done = False
            bad = []

            def poll(line):
                if len(bad) < 3:
                    try:
                        r = P._shm_get_object(seq, shm)
                    except Exception as e:
                        bad.append((line, f"{type(e).__name__}: {e}"))
                        return
                    if r is not None and gen.diff(o, r):
                        bad.append((line, gen.brief(r)))

            for s in SEQ:
                if s != seq:
                    continue
                h.check(P._shm_get_object(s, shm) is None, "C18.before", log, f"stage {s!r} before it was written")
            if dense:
                during(lambda: P._shm_put_object(seq, shm, o), poll)
            else:
                P._shm_put_object(seq, shm, o)
            h.check(not bad, "C18.half_written", log, f"reading stage {seq!r} while it is written gives {bad}")
            r = P._shm_get_object(seq, shm)
            h.check(not gen.diff(o, r), "C18.content", log, f"stage {seq!r}: {gen.diff(o, r)}")
            r = P._shm_get_object(seq, shm)
            h.check(not gen.diff(o, r), "C18.content", log, f"stage {seq!r} again: {gen.diff(o, r)}")
            for s in SEQ:
                if s != seq:
                    h.check(P._shm_get_object(s, shm) is None, "C18.other_stage", log, f"the message of {seq!r} is taken for one of {s!r}")


def sizes(h):
    """every size up to the limit, and beyond"""
    rng = h.rng
    ns = list(range(20, 300)) + list(range(SIZE - 300, SIZE - 8)) + [rng.randrange(300, SIZE - 300) for _ in range(h.n(150, 2000))]
    for n in ns:
        if h.time_left() < 60:
            return
        a, b = of_size(n), of_size(rng.choice([20, 60, n, SIZE - 9, rng.randrange(20, SIZE - 9)]))
        if rng.random() < 0.5:
            a, b = b, a
        log = ("pickled sizes", len(pickle.dumps(a)), len(pickle.dumps(b)))
        h.seen(log, log)
        with h.guard("C18.no_error", log):
            handshake(h, (a, b), log, rng.random() < 0.5)
    for n in list(range(SIZE - 8, SIZE + 40)) + [2 * SIZE, 2**16, 2**20]:
        big = of_size(n)
        real = len(pickle.dumps(big))
        for stage in (0, 1):
            log = ("too long", real, stage)
            h.seen(log)
            with h.guard("C18.no_error", log), Memory() as shm:
                first = {"a": list(range(100))}
                if stage:
                    P._shm_put_object(SEQ[0], shm, first)
                before = bytes(shm.buf)
                try:
                    P._shm_put_object(SEQ[stage], shm, big)
                except Exception:
                    h.check(bytes(shm.buf) == before, "C18.refused", log, "the memory was changed")
                    h.check(P._shm_get_object(SEQ[stage], shm) is None, "C18.refused", log, "the stage can be read")
                    if stage:
                        h.check(P._shm_get_object(SEQ[0], shm) == first, "C18.refused", log, "the other stage was damaged")
                else:
                    # it may only be accepted if all of it is there
                    try:
                        r = P._shm_get_object(SEQ[stage], shm)
                    except Exception as e:
                        r = e
                    h.check(type(r) is bytes and r == big, "C18.refused", log, "accepted and damaged")


def objects(h):
    """what is really sent, and anything else"""
    rng = h.rng
    from xoscar.backends.config import ActorPoolConfig

    for i in range(h.n(300, 5000)):
        if h.time_left() < 30:
            return
        if i % 3 == 0:
            conf = ActorPoolConfig()
            for k in range(rng.randrange(1, 6)):
                conf.add_pool_conf(k, rng.choice([None, "main", "gpu", "ü"]), f"dummy://{k}", [f"127.0.0.1:{10000 + k}"], env=rng.choice([None, {}, {"A": "é", "B": ""}]), kwargs=rng.choice([None, {"x": None}]))
            objs = ({"actor_pool_config": conf.as_dict(), "process_index": rng.randrange(5), "main_pool_pid": os.getpid(), "python_version": sys.hexversion}, [f"127.0.0.1:{rng.randrange(65536)}"])
        else:
            objs = tuple(gen.value(rng, 3) if hasattr(gen, "value") else rng.random() for _ in range(2))
        try:
            ok = all(len(pickle.dumps(o)) < SIZE - 8 and not gen.diff(o, pickle.loads(pickle.dumps(o))) for o in objs)
        except Exception:
            ok = False
        if not ok or any(o is None for o in objs):
            continue
        log = tuple(gen.brief(o) for o in objs)
        h.seen(log, log)
        with h.guard("C18.no_error", log):
            handshake(h, objs, log, rng.random() < 0.6)


PARTS = [sizes, objects]
