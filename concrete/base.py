"""Harness for the executable contracts (bounded stand-ins and search for failing inputs).

Every contract is evaluated on the real, freshly compiled code.  A contract that
evaluates to false on an input is a failure with that input as its replay.
Exceptions that come out of the harness itself are harness errors, never failures.
"""

import asyncio
import contextlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class Hang(BaseException):
    pass


def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # repr of a broken object
        s = f"<unprintable {type(x).__name__}: {e!r}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


class H:
    def __init__(self, prop, tier, seed, progress=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.evaluations = 0
        self.contracts = {}
        self.keys = set()
        self.samples = []
        self.failures = []
        self.errors = []
        self.part = ""
        self.progress = progress
        self.t_end = time.time() + (240 if tier == "quick" else 780)
        self._case = None

    thorough = property(lambda self: self.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def time_left(self):
        return self.t_end - time.time()

    # ------------------------------------------------------------ recording
    def seen(self, key=None, sample=None):
        """one evaluated case; ``key`` identifies a non-trivial case"""
        self.evaluations += 1
        if key is not None:
            try:
                hash(key)
            except TypeError:
                key = repr(key)
            self.keys.add((self.part, key))
        if sample is not None and len(self.samples) < 12:
            self.samples.append(f"{self.part}: {short(sample, 200)}")

    def check(self, cond, contract, inp, msg=""):
        c = self.contracts.setdefault(contract, [0, 0])
        c[0] += 1
        if not cond:
            c[1] += 1
            if c[1] <= 3:
                self.failures.append(
                    dict(contract=contract, part=self.part, input=short(inp, 3000), message=short(msg, 2000))
                )
        return bool(cond)

    def fail(self, contract, inp, msg=""):
        return self.check(False, contract, inp, msg)

    def _in_code(self, exc):
        """the exception came out of the code under test (not of the harness)"""
        tb = exc.__traceback__
        last = None
        through = False
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "xoscar" in fn and HERE not in fn:
                through = True
            last = fn
            tb = tb.tb_next
        if isinstance(exc, (AttributeError, TypeError, NotImplementedError)) and "Fake" in str(exc):
            return False
        return through and not (last is not None and HERE in last)

    @contextlib.contextmanager
    def guard(self, contract, inp, limit=30):
        """no exception may come out of the code under test, and it must end"""
        self._progress(contract, inp)
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
        except Hang:
            self.fail(contract, inp, f"does not end within {limit} s")
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            txt = "".join(traceback.format_exception(e))[-1800:]
            if self._in_code(e):
                self.fail(contract, inp, f"unexpected {type(e).__name__}: {e}\n{txt}")
            else:
                self.error(f"{contract}: {txt}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _alarm(self, *_):
        raise Hang()

    def error(self, txt):
        if len(self.errors) < 20:
            self.errors.append(f"{self.part}: {txt}")

    def _progress(self, contract, inp):
        if self.progress:
            try:
                with open(self.progress, "w") as f:
                    json.dump(dict(contract=contract, part=self.part, input=short(inp, 1500)), f)
            except OSError:
                pass

    def _ticks(self):
        return self.evaluations + sum(c[0] for c in self.contracts.values())

    # ------------------------------------------------------------ async
    def arun(self, coro_fn, contract, inp, timeout=20):
        """runs a coroutine function in a fresh event loop; a hang is a failure.

        returns (ok, value)
        """
        box = []

        async def main():
            loop = asyncio.get_running_loop()
            loop.set_exception_handler(lambda *a: None)
            t = asyncio.ensure_future(coro_fn())
            done, tick, seen = (), time.time(), self._ticks()
            while not done and time.time() - tick < timeout:
                done, _ = await asyncio.wait([t], timeout=min(timeout, 2))
                if self._ticks() != seen:
                    # cases are still being evaluated: it has not stopped
                    tick, seen = time.time(), self._ticks()
                    signal.setitimer(signal.ITIMER_REAL, timeout + 20)
                    if self.time_left() < 0 and not done:
                        break
            if not done and time.time() - tick < timeout:
                # out of time while cases are still being evaluated: no verdict on the rest
                t.cancel()
                await asyncio.wait([t], timeout=10)
                box.append(("late", None))
            elif not done:
                stack = "".join(
                    traceback.format_list(
                        [s for f in t.get_stack() for s in traceback.extract_stack(f)[-3:]]
                    )
                )
                t.cancel()
                await asyncio.wait([t], timeout=2)
                box.append(("hang", stack))
            else:
                if t.cancelled():
                    box.append(("exc", asyncio.CancelledError()))
                elif t.exception() is not None:
                    box.append(("exc", t.exception()))
                else:
                    box.append(("ok", t.result()))
            others = [x for x in asyncio.all_tasks() if x is not asyncio.current_task()]
            for x in others:
                x.cancel()
            if others:
                await asyncio.wait(others, timeout=2)

        with self.guard(contract, inp, limit=timeout + 20):
            _run_loop(main)
        if not box:
            return False, None
        kind, v = box[0]
        if kind == "ok":
            return True, v
        if kind == "late":
            return False, None
        if kind == "hang":
            self.fail(contract, inp, f"does not end within {timeout} s; stack: {v}")
            return False, None
        txt = "".join(traceback.format_exception(v))[-1800:]
        if self._in_code(v):
            self.fail(contract, inp, f"unexpected {type(v).__name__}: {v}\n{txt}")
        else:
            self.error(f"{contract}: {txt}")
        return False, None

    def run_part(self, fn):
        self.part = fn.__name__
        try:
            fn(self)
        except Hang:
            self.error(f"{fn.__name__}: out of time")
        except Exception as e:
            txt = "".join(traceback.format_exception(e))[-2500:]
            if self._in_code(e):
                self.fail(f"{self.prop}.{fn.__name__}", self._case or "(see message)", f"unexpected {type(e).__name__}: {e}\n{txt}")
            else:
                self.error(txt)


def _run_loop(main):
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
        loop.run_until_complete(loop.shutdown_asyncgens())
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def main():
    import importlib

    prop, tier, seed, out, parts = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5:]
    sys.path.insert(0, HERE)
    mod = importlib.import_module(prop.lower())
    h = H(prop, tier, seed, out + ".progress")
    import logging

    logging.disable(logging.CRITICAL)
    t0 = time.time()
    for fn in mod.PARTS:
        if parts and fn.__name__ not in parts:
            continue
        h.rng = random.Random(f"{prop}/{fn.__name__}/{seed}")
        t1 = time.time()
        h.run_part(fn)
        sys.stderr.write(f"[{prop}] {fn.__name__}: {time.time()-t1:.1f}s, {h.evaluations} cases\n")
    res = dict(
        evaluations=h.evaluations,
        distinct=len(h.keys),
        samples=h.samples,
        failures=h.failures,
        errors=h.errors,
        contracts={k: dict(evaluated=v[0], false=v[1]) for k, v in h.contracts.items()},
        rule=(mod.__doc__ or "").strip(),
        wall_s=time.time() - t0,
    )
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
