"""C18: start messages in shared memory are read whole or not at all."""

import ast

from .base import *  # noqa: F401,F403

M = "xoscar.backends.indigen.pool"
PUT, GET = f"{M}:_shm_put_object", f"{M}:_shm_get_object"


class Bytes(Host):
    """byte string as a list of parts: ("word", int term) of 4 bytes or ("data", value, length term)"""

    def __init__(self, parts):
        self.parts = parts

    def size(self):
        return z3.simplify(sum([z3.IntVal(4) if p[0] == "word" else p[2] for p in self.parts], z3.IntVal(0)))

    def vm_len(self, vm):
        return SInt(self.size())

    def vm_binop(self, vm, op, b):
        if isinstance(op, ast.Add) and isinstance(b, Bytes):
            return Bytes(self.parts + b.parts)
        raise Unsupported("operator on bytes")


def words(vm, fmt):
    if isinstance(fmt, str) and fmt[:1] in "<=" and fmt[1:].strip("I") == "" and len(fmt) > 1:
        return len(fmt) - 1
    if isinstance(fmt, str) and fmt in ("<2I", "<1I"):
        return int(fmt[1])
    raise Unsupported(f"struct format {fmt!r}")


def bounds(vm, k, limit):
    """[lo, hi) of a slice of the memory, as Python cuts it"""
    if not isinstance(k, slice) or k.step is not None:
        raise Unsupported("subscript of the memory")
    lo = vm.int_term(k.start) if k.start is not None else z3.IntVal(0)
    hi = vm.int_term(k.stop) if k.stop is not None else limit
    if lo is None or hi is None:
        raise Unsupported("subscript of the memory")
    vm.assume(z3.And(lo >= 0, hi >= 0))
    cut = lambda x: z3.If(x > limit, limit, x)
    return z3.simplify(cut(lo)), z3.simplify(cut(hi))


class Region(Host):
    def __init__(self, mem, lo, hi, n):
        self.mem, self.lo, self.hi, self.n = mem, lo, hi, n

    def vm_len(self, vm):
        return SInt(z3.If(self.hi > self.lo, self.hi - self.lo, z3.IntVal(0)))


class Memory(Host):
    """the shared memory: a log of writes, and reads answered by ``reader``"""

    def __init__(self, limit, read_word=None):
        self.limit = limit
        self.log = []
        self.reads = 0
        self.read_word = read_word

    def vm_setitem(self, vm, k, v):
        if not isinstance(v, Bytes):
            raise Unsupported(f"{v!r} written to the memory")
        lo, hi = bounds(vm, k, self.limit)
        if not vm.branch(hi - lo == v.size()):
            raise PyExc(ValueError("memoryview assignment: lvalue and rvalue have different structures"))
        self.put(lo, v)

    def put(self, lo, v):
        at = lo
        parts = []
        for p in v.parts:
            n = z3.IntVal(4) if p[0] == "word" else p[2]
            parts.append((z3.simplify(at), z3.simplify(at + n), p))
            at = at + n
        self.log.append(parts)

    def vm_getitem(self, vm, k):
        lo, hi = bounds(vm, k, self.limit)
        self.reads += 1
        return Region(self, lo, hi, self.reads)

    def vm_len(self, vm):
        return SInt(self.limit)


class Shm(Host):
    def __init__(self, mem):
        self.mem = mem

    def p_buf(self, vm):
        return self.mem


def num(vm, x):
    if isinstance(x, IEnum):
        x = x.value
    t = vm.int_term(x)
    if t is None:
        raise Unsupported("packing of something else than an integer")
    if not vm.branch(z3.And(t >= 0, t < 2**32)):
        raise PyExc(ValueError("struct.error: argument out of range"))
    return t


def stages(vm):
    e = vm.lookup(M, "_ShmSeq")
    return [m for m in e.ns.values() if isinstance(m, IEnum)]


def limit(vm):
    return vm.lookup(M, "_SUBPROCESS_SHM_SIZE")


def put(vm):
    L = z3.IntVal(limit(vm))
    ms = stages(vm)
    seq = ms[vm.choose(len(ms), "stage")]
    obj, ser = vm.opaque("object"), vm.opaque("pickled", "bytes")
    n = vm.fresh_int("size", 0).t
    payload = Bytes([("data", ser, n)])
    vm.stubs["pickle.dumps"] = Stub(lambda vm, a, k: payload if a[0] is obj else vm.opaque("other pickle"), "dumps")
    vm.stubs["struct.pack"] = Stub(lambda vm, a, k: Bytes([("word", num(vm, x)) for x in a[1:]]) if words(vm, a[0]) == len(a) - 1 else None, "pack")

    def pack_into(vm, a, k):
        words(vm, a[0])
        off = vm.int_term(a[2])
        a[1].put(off, Bytes([("word", num(vm, x)) for x in a[3:]]))

    vm.stubs["struct.pack_into"] = Stub(pack_into, "pack_into")
    mem = Memory(L)
    _, e = attempt(vm, lambda: vm.call(vm.lookup(M, "_shm_put_object"), [seq, Shm(mem), obj], {}))
    flat = [(lo, hi, p, i) for i, w in enumerate(mem.log) for lo, hi, p in w]
    if e is not None:
        vm.cover("refused")
        vm.prove("nothing is written when an object is refused", not mem.log, f"{mem.log}")
        # the repository keeps eight bytes for the words, and one in reserve
        vm.prove("an object that fits is not refused", z3.Not(8 + n < L - 1))
        return
    vm.cover("written")
    vm.prove("what is written fits", 8 + n <= L)
    vm.prove("something is written", bool(mem.log))
    if not mem.log:
        return
    last = mem.log[-1]
    vm.prove("the stage is the last write and a write of its own", len(last) == 1 and last[0][2][0] == "word"
             and z3.is_true(z3.simplify(last[0][0] == 0)), f"{mem.log}")
    if last[0][2][0] == "word":
        vm.prove("the stage that is announced is the stage of the writer", last[0][2][1] == seq.value)
    early = [x for x in flat if x[3] != len(mem.log) - 1]
    vm.prove("no earlier write touches the stage word", conj([z3.Or(lo >= 4, lo == hi) for lo, hi, _, _ in early]))
    # the final content of the length word and of the payload
    sizes = [x for x in early if x[2][0] == "word"]
    vm.prove("the length word holds the size of the pickled object",
             z3.Or(*[z3.And(lo == 4, p[1] == n, *[z3.Or(hi2 <= 4, lo2 >= 8, lo2 == hi2) for lo2, hi2, p2, i2 in early if i2 > i])
                     for lo, hi, p, i in sizes]) if sizes else False, f"{early}")
    datas = [x for x in early if x[2][0] == "data"]
    vm.prove("the payload follows it, whole",
             z3.Or(n == 0, *[z3.And(lo == 8, p[2] == n, vm.term(p[1]) == vm.term(ser),
                                    *[z3.Or(hi2 <= 8, lo2 >= 8 + n, lo2 == hi2) for lo2, hi2, p2, i2 in early if (i2, lo2) != (i, lo)])
                             for lo, hi, p, i in datas]) if datas else n == 0, f"{early}")


def get(vm):
    """a reader at any time: a read of the stage word that gives the stage happened after
    the last write of the writer; all other reads before give arbitrary bytes"""
    L = z3.IntVal(limit(vm))
    ms = stages(vm)
    seq = ms[vm.choose(len(ms), "stage")]
    n = vm.fresh_int("size of the object", 0).t
    vm.assume(8 + n <= L)
    obj = vm.opaque("object written")
    mem = Memory(L)
    ready = [z3.BoolVal(False)]  # the stage word was seen, as of now
    seen = {}

    def word(reg, at):
        at = z3.simplify(at)
        if z3.is_true(z3.simplify(at == 0)):
            if reg.n not in seen:
                w = vm.fresh_int("stage word read", 0).t
                seen[reg.n] = w
            return seen[reg.n]
        if z3.is_true(z3.simplify(at == 4)):
            junk = vm.fresh_int("length read too early", 0).t
            vm.assume(junk < 2**32)
            return z3.If(reg.ready, n, junk)
        raise Unsupported("read of another word")

    def getitem(vm, k):
        lo, hi = bounds(vm, k, L)
        mem.reads += 1
        r = Region(mem, lo, hi, mem.reads)
        r.ready = z3.Or(*ready)
        if z3.is_true(z3.simplify(lo == 0)):
            # this read may be the one that sees the stage
            ready.append(word(r, lo) == seq.value)
        return r

    mem.vm_getitem = getitem

    def unpack(vm, a, k):
        k = words(vm, a[0])
        if not isinstance(a[1], Region):
            raise Unsupported("unpack")
        vm.prove("as many bytes as are unpacked", a[1].hi - a[1].lo == 4 * k)
        return tuple(SInt(word(a[1], a[1].lo + 4 * i)) for i in range(k))

    def unpack_from(vm, a, k):
        off = vm.int_term(a[2] if len(a) > 2 else k.get("offset", 0))
        m = words(vm, a[0])
        if a[1] is not mem:
            raise Unsupported("unpack_from")
        r = getitem(vm, slice(SInt(off), SInt(off + 4 * m)))
        return tuple(SInt(word(r, r.lo + 4 * i)) for i in range(m))

    loads = []

    def load(vm, a, k):
        r = a[0]
        if not isinstance(r, Region):
            raise Unsupported("loads")
        loads.append(r)
        # pickle.loads ignores what follows the object
        whole = z3.And(r.lo == 8, r.hi >= 8 + n, r.ready)
        return obj if vm.branch(whole) else vm.opaque("garbage")

    vm.stubs["struct.unpack"] = Stub(unpack, "unpack")
    vm.stubs["struct.unpack_from"] = Stub(unpack_from, "unpack_from")
    vm.stubs["pickle.loads"] = Stub(load, "loads")
    out, e = attempt(vm, lambda: vm.call(vm.lookup(M, "_shm_get_object"), [seq, Shm(mem)], {}))
    vm.prove("reading never fails", e is None, f"{e!r}")
    now = z3.Or(*ready)
    if out is None:
        vm.cover("not ready")
        vm.prove("nothing only if the stage has not been announced", z3.Not(now))
    else:
        vm.cover("ready")
        vm.prove("an object only after the stage was announced", now)
        vm.prove("it is exactly the object that was written", same(vm, out, obj))
    if not vm.path.events and loads:
        vm.prove("nothing is unpickled before the stage was announced", conj([r.ready for r in loads]))


def stage_words(vm):
    ms = stages(vm)
    vm.cover("stages read")
    vm.prove("every stage has a word of its own", len({m.value for m in ms}) == len(ms) and len(ms) >= 2)
    vm.prove("fresh memory announces no stage", all(isinstance(m.value, int) and 0 < m.value < 2**32 for m in ms))


class Pool(Host):
    pass


def protocol_child(vm):
    """the sub pool announces its address with INIT_RESULT after it was started, as its last word"""
    ev = []

    class Sub(Host):
        def m_start(self, vm, a, k):
            return Awaitable(lambda vm: ev.append("start"))

        def m_join(self, vm, a, k):
            return Awaitable(lambda vm: ev.append("join"))

    sub = Sub()
    conf_of = []
    ext = vm.opaque("external address", "list")

    class Conf(Host):
        def m_get_pool_config(self, vm, a, k):
            conf_of.append(a[0])
            return VDict([["env", None], ["external_address", ext], ["internal_address", vm.opaque("internal")]])

    class SubPool(Host):
        def m_create(self, vm, a, k):
            ev.append(("create", a[0]))
            return Awaitable(lambda vm: sub)

    vm.overrides.setdefault(M, {})["SubActorPool"] = SubPool()
    vm.contracts[PUT] = lambda vm, a, k: ev.append(("put", a[0], a[1], a[2]))
    shm, conf, idx = vm.opaque("shm"), Conf(), vm.fresh_int("index")
    cls = vm.lookup(M, "MainActorPool")
    vm.await_(vm.call(vm.getattr(cls, "_create_sub_pool"), [conf, idx, vm.opaque("pid"), shm], {}))
    vm.cover("sub pool created")
    puts = [e for e in ev if e[0] == "put"]
    vm.prove("one message is written", len(puts) == 1)
    if len(puts) != 1:
        return
    vm.prove("of the stage of the result", isinstance(puts[0][1], IEnum) and puts[0][1].name == "INIT_RESULT")
    vm.prove("in the memory the parent reads", puts[0][2] is shm)
    vm.prove("with the external address of this pool", puts[0][3] is ext and len(conf_of) >= 1 and all(c is idx for c in conf_of))
    vm.prove("after the pool was started", "start" in ev and ev.index("start") < ev.index(puts[0]))


class SharedMemory(Host):
    """shared memory of a start: opened by name, closed and removed"""

    def __init__(self, vm, size=None, name=None):
        self.size, self.given = size, name
        self.name = name or vm.opaque("name of the memory", "str")
        self.closed = self.removed = 0
        self.buf = vm.opaque("memory", truth=True)
        vm.assume(self.buf.t != vm.term(None))

    def p_name(self, vm):
        return self.name

    def p_buf(self, vm):
        return self.buf

    def vm_truth(self, vm):
        return True

    def m_close(self, vm, a, k):
        self.closed += 1

    def m_unlink(self, vm, a, k):
        self.removed += 1


def memories(vm):
    made = []

    def make(vm, a, k):
        d = {**dict(zip(("name", "create", "size"), a)), **k}
        m = SharedMemory(vm, d.get("size"), d.get("name"))
        m.create = d.get("create", False)
        made.append(m)
        return m

    vm.contracts["xoscar.backends.indigen.shared_memory:SharedMemory"] = make

    class Module(Host):
        def p_SharedMemory(self, vm):
            return Stub(make, "SharedMemory")

    vm.overrides.setdefault(M, {})["shared_memory"] = Module()
    return made


def protocol_parent(vm):
    """the parent writes what the sub pool needs, starts it, and gives back its address once
    the sub pool has announced it; the memory is gone in every case"""
    how = vm.choose(6, "announced, ended, both, cannot be started, cancelled, does not fit")
    made = memories(vm)
    ev = []
    index, config, python = vm.opaque("index"), None, vm.opaque("python", "str")
    own_env = VDict([["given", "1"], ["kept", "2"]])
    more = [None, VDict([["given", "3"]])][vm.choose(2, "environment of the pool")]

    class Conf(Host):
        def m_get_pool_config(self, vm, a, k):
            vm.prove("the configuration of this pool", a[0] is index)
            return VDict([["env", more]])

    config = Conf()
    found = vm.opaque("addresses of the sub pool", "list", truth=True)
    vm.assume(found.t != vm.term(None))
    code = vm.fresh_int("return code")

    class Process(Host):
        def m_wait(self, vm, a, k):
            x = Awaitable(lambda vm: code, "process")
            x.what = "process"
            return x

        def p_returncode(self, vm):
            return code if how in (1, 2) else None

    process = Process()

    def put(vm, a, k):
        seq, shm, o = a
        vm.prove("the first stage is that of the parameters", isinstance(seq, IEnum) and seq.name == "INIT_PARAMS" and not ev)
        vm.prove("in fresh memory", made == [shm] and shm.create is True)
        d = {x: y for x, y in o.items} if isinstance(o, VDict) else {}
        vm.prove("the sub pool gets its configuration, index and the process it depends on", d.get("actor_pool_config") is config and d.get("process_index") is index and d.get("main_pool_pid") is pid)
        if how == 5:
            raise PyExc(AssertionError("too long"))
        ev.append("put")

    vm.contracts[PUT] = put
    pid = vm.fresh_int("pid", 1)
    vm.stubs["os.getpid"] = Stub(lambda vm, a, k: pid, "getpid")
    vm.stubs["os.getenv"] = Stub(lambda vm, a, k: None, "getenv")
    vm.stubs["os.environ"] = own_env
    vm.stubs["time.sleep"] = Stub(lambda vm, a, k: None, "sleep")

    def read(vm, a, k):
        seq, shm = a
        vm.prove("the result is read from the same memory", isinstance(seq, IEnum) and seq.name == "INIT_RESULT" and [shm] == made)
        vm.prove("which is still there", not shm.closed and not shm.removed)
        if how in (0, 2) and vm.choose(2, "announced by now"):
            ev.append("read")
            return found
        return None

    vm.contracts[GET] = read

    def spawn(vm, a, k):
        vm.prove("parameters are there before the process is started", ev == ["put"])
        words = list(a)
        vm.prove("the process is told which memory, by this Python", words[0] is python and made[0].name in [w for w in words if isinstance(w, SVal)] and "start_sub_pool" in words)
        env = k.get("env")
        g = {x: y for x, y in env.items} if isinstance(env, VDict) else {}
        vm.prove("with the environment of the parent and that of the pool, which goes first", g == {"given": "3" if more else "1", "kept": "2"})
        ev.append("started")

        def run(vm):
            if how == 3:
                raise PyExc(SExc("no such program", OSError))
            return process

        return Awaitable(run, "spawn")

    vm.overrides.setdefault(M, {})["create_subprocess_exec"] = Stub(spawn, "create_subprocess_exec")
    tasks = []

    class Task(Host):
        def __init__(self, aw):
            self.aw, self.cancelled = aw, 0

        def m_cancel(self, vm, a, k):
            self.cancelled += 1

    def create_task(vm, a, k):
        tasks.append(Task(a[0]))
        return tasks[-1]

    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(create_task, "create_task")

    def to_thread(vm, a, k):
        x = Awaitable(lambda vm: vm.call(a[0], list(a[1:]), k), "thread")
        x.what = "poll"
        return x

    vm.stubs["asyncio.to_thread"] = Stub(to_thread, "to_thread")
    ended = []

    def wait(vm, a, k):
        ts = vm.concrete_list(a[0])
        kinds = [getattr(t.aw, "what", None) for t in ts]
        if sorted(map(str, kinds)) != ["poll", "process"]:
            raise Unsupported("waiting for something else")
        when = k.get("return_when")
        vm.prove("whichever comes first ends the waiting", "FIRST_COMPLETED" in str(getattr(when, "name", when)))

        def run(vm):
            if how == 4:
                import asyncio

                raise PyExc(asyncio.CancelledError())
            done = [t for t in ts if t.aw.what == "poll" and how in (0, 2) or t.aw.what == "process" and how in (1, 2)]
            for t in done:
                vm.await_(t.aw)
            ended.extend(done)
            return (VSet(done), VSet([t for t in ts if t not in done]))

        return Awaitable(run, "wait")

    vm.stubs["asyncio.wait"] = Stub(wait, "wait")

    def nothing_yet(vm, fr):
        outer = fr.parent
        vals = []
        while outer is not None:
            vals += [outer.locals[n] for n in fr.nonlocals if n in outer.locals]
            outer = outer.parent
        return [("nothing is announced yet", "read" not in ev and all(v is None for v in vals))]

    vm.loops.append(WhileSpec("polling", lambda vm, st, fr: fr.parent is not None, lambda vm, fr: None, nothing_yet))
    cls = vm.lookup(M, "MainActorPool")
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.getattr(cls, "_create_sub_pool_from_parent"), [config, index, python], {})))
    vm.cover(["announced", "ended", "both", "cannot be started", "cancelled", "does not fit"][how])
    vm.prove("the memory is closed and removed", len(made) == 1 and made[0].closed == 1 and made[0].removed == 1)
    if made:
        vm.prove("there was room for the messages", same(vm, made[0].size, limit(vm)))
    if how == 0:
        vm.prove("no error", e is None, f"{e!r}")
    if how in (0, 2) and e is None:
        vm.prove("the process, and the addresses it has announced", isinstance(r, tuple) and len(r) == 2 and r[0] is process and r[1] is found)
    elif how == 1:
        vm.prove("a sub pool that ends before is an error", exc_is(vm, e, OSError), f"{e!r}")
    elif how > 2:
        vm.prove("errors are passed on", e is not None)
    if how in (0, 1):
        vm.prove("what is not over is not waited for any more", all((t.cancelled == 0) if t in ended else (t.cancelled == 1) for t in tasks))


def start_child(vm):
    """a sub pool takes its parameters from the memory it is told of, and makes its pool of
    them; the memory stays there for the parent to read and to remove"""
    made = memories(vm)
    fails = vm.choose(2, "fails") == 1
    log = []
    index, pid = vm.opaque("index"), vm.opaque("pid")
    same_python = vm.choose(3, "version: same, another, not told")
    mute, loop = vm.choose(2, "suspend sigint") == 1, vm.choose(2, "uvloop") == 1
    kind = vm.choose(4, "logging: none, dict, file, level")
    conf_log = [None, VDict([["dict", VDict([["a", 1]])]]), VDict([["file", "f"]]), VDict([["level", "INFO"]])][kind]

    class Conf(Host):
        def m_get_pool_config(self, vm, a, k):
            vm.prove("the configuration of this pool", a[0] is index)
            return VDict([["suspend_sigint", mute], ["logging_conf", conf_log], ["use_uvloop", loop], ["env", None]])

    config = Conf()
    name = vm.opaque("name", "str")

    def read(vm, a, k):
        seq, shm = a
        vm.prove("parameters are read, of the memory of this name", isinstance(seq, IEnum) and seq.name == "INIT_PARAMS" and made == [shm] and shm.given is name and shm.create is False)
        import sys

        return VDict([["actor_pool_config", config], ["process_index", index], ["main_pool_pid", pid]] + ([["python_version", sys.hexversion + same_python]] if same_python < 2 else []))

    vm.contracts[GET] = read
    vm.contracts[PUT] = lambda vm, a, k: log.append("put")
    for x in ("ensure_coverage", "reset_id_random_seed"):
        vm.overrides[M][x] = Stub(lambda vm, a, k, x=x: log.append(x), x)

    class Thread(Host):
        def m_start(self, vm, a, k):
            log.append("watch")

    vm.stubs["threading.Thread"] = Stub(lambda vm, a, k: Thread(), "Thread")

    class Nil(Host):
        def vm_getattr(self, vm, n):
            return Nil()

        def vm_call(self, vm, a, k):
            return Nil()

    for x in ("random.seed", "uuid.uuid1", "signal.signal", "logging.config.fileConfig", "logging.config.dictConfig", "logging.basicConfig", "logging.getLogger", "asyncio.set_event_loop", "asyncio.new_event_loop", "uvloop.new_event_loop"):
        vm.stubs[x] = Stub(lambda vm, a, k, x=x: log.append(x) or Nil(), x)
    vm.stubs["import uvloop"] = Nil()

    def sub(vm, a, k):
        a = [x for x in a if not isinstance(x, IClass)]
        vm.prove("the pool is made of the parameters that were read", len(a) == 4 and a[0] is config and a[1] is index and a[2] is pid and [a[3]] == made)

        def run(vm):
            log.append("pool")
            vm.prove("the memory is there while the pool starts", not made[0].closed)
            if fails:
                raise PyExc(SExc("cannot start", BaseException))

        return Awaitable(run, "sub pool")

    vm.contracts[f"{M}:MainActorPool._create_sub_pool"] = sub
    vm.stubs["asyncio.run"] = Stub(lambda vm, a, k: vm.await_(a[0]), "run")
    cls = vm.lookup(M, "MainActorPool")
    r, e = attempt(vm, lambda: vm.call(vm.getattr(cls, "_start_sub_pool_in_child"), [name], {}))
    vm.cover("fails" if fails else "over")
    vm.prove("fails only if the pool does", (e is not None) == fails, f"{e!r}")
    vm.prove("one pool", log.count("pool") == 1)
    vm.prove("whose ids are its own", "reset_id_random_seed" in log and log.index("reset_id_random_seed") < log.index("pool") if "pool" in log else False)
    vm.prove("the memory is closed, and left to the parent", len(made) == 1 and made[0].closed == 1 and made[0].removed == 0)


CASES = [
    Case("put", [PUT], put, covers=["written", "refused"], need=8, assumed=["pickle.dumps", "struct.pack"]),
    Case("get", [GET], get, covers=["not ready", "ready"], need=6, assumed=["pickle.loads", "struct.unpack"]),
    Case("stages", [f"{M}:_ShmSeq"], stage_words, covers=["stages read"], need=2),
    Case("sub pool side", [f"{M}:MainActorPool._create_sub_pool"], protocol_child, covers=["sub pool created"], need=5,
         assumed=["SubActorPool.create", "SubActorPool.start", "SubActorPool.join"]),
    Case("main pool side", [f"{M}:MainActorPool._create_sub_pool_from_parent"], protocol_parent,
         covers=["announced", "ended", "both", "cannot be started", "cancelled", "does not fit", "polling: body reached"], need=60,
         assumed=["asyncio.wait", "asyncio.to_thread", "create_subprocess_exec", "SharedMemory"]),
    Case("start of a sub pool", [f"{M}:MainActorPool._start_sub_pool_in_child"], start_child, covers=["over", "fails"], need=60, assumed=["SharedMemory", "asyncio.run"]),
]

ASSUMPTIONS = [
    "a write of the four bytes of the stage word is atomic, and writes to shared memory become visible to the other process in program order",
    "pickle.loads(pickle.dumps(x)) equals x, also from a longer buffer",
    "a stage is written once per start, and stages of one start follow each other (the parent waits for the result)",
]
