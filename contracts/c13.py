"""C13: copy_to transfers exactly the bytes, in blocks of the given size.

Any number of buffers (files) of any lengths, any positive block size.  One arbitrary byte
(number Q of buffer B) is followed: how often it has been sent, and how often it waits in
the block that is being filled.
"""

from .base import *  # noqa: F401,F403
from . import context as asking

X = "xoscar.backends.context"
P = "xoscar.backends.pool"
MSG = "xoscar.backends.message"
I_ = f"{X}:IndigenActorContext"
A = f"{P}:AbstractActorPool"

LEN = z3.Function("length of", z3.IntSort(), z3.IntSort())
REF = z3.Function("remote reference", z3.IntSort(), U)
B, Q = z3.Int("number of the buffer of the byte"), z3.Int("place of the byte")
one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))


class View(Host):
    """length bytes of buffer i from the offset on"""

    def __init__(self, i, offset, length):
        self.i, self.offset, self.length = i, offset, length

    def vm_len(self, vm):
        return SInt(self.length)

    def vm_truth(self, vm):
        return SBool(self.length > 0)

    def vm_getitem(self, vm, k):
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("a part of a buffer that is not a slice")

        def clip(x):
            t = num(vm, x)
            t = z3.If(t < 0, t + self.length, t)
            return z3.If(t < 0, 0, z3.If(t > self.length, self.length, t))

        lo = z3.IntVal(0) if k.start is None else clip(k.start)
        hi = self.length if k.stop is None else clip(k.stop)
        return View(self.i, z3.simplify(self.offset + lo), z3.simplify(z3.If(hi > lo, hi - lo, 0)))


class Pending(Host):
    """the block that is being filled, after any number of rounds"""

    def __init__(self, vm, n, size, has):
        self.n, self.size, self.has = n, size, has
        self.seen = []

    def m_append(self, vm, a, k):
        self.n = self.n + 1
        s, h = self.entry(vm, a[0])
        self.size, self.has = self.size + s, self.has + h

    def m_clear(self, vm, a, k):
        self.n = self.size = self.has = z3.IntVal(0)

    def vm_truth(self, vm):
        return SBool(self.n > 0)

    def vm_len(self, vm):
        return SInt(self.n)


def tally(vm, x, entry):
    """(entries, bytes, times the byte is in it)"""
    if isinstance(x, Pending):
        return x.n, x.size, x.has
    if isinstance(x, VList):
        n, size, has = z3.IntVal(len(x.items)), z3.IntVal(0), z3.IntVal(0)
        for e in x.items:
            s, h = entry(vm, e)
            size, has = size + s, has + h
        return n, size, has
    raise Unsupported(f"{x!r} as a block")


def setup(vm):
    vm.contracts[f"{MSG}:new_message_id"] = lambda vm, a, k: vm.opaque("new id", "bytes")


def link(vm, state):
    """the sending side: messages are recorded, the remote side may fail"""
    client = vm.opaque("client", "client")
    vm.contracts[f"{I_}._get_client"] = lambda vm, a, k: Awaitable(lambda vm: state.setdefault("asked", []).append(a[-1]) or client, "client")
    fails = vm.choose(2, "the remote side fails") == 1
    error = SExc("error of the remote side", BaseException)

    def send(vm, a, k):
        def run(vm):
            vm.prove("messages go to the client of the remote side", a[1] is client)
            vm.prove("nothing is sent after an error", not state.get("failed"))
            wait = a[3] if len(a) > 3 else k.get("wait", True)
            vm.prove("the answer is waited for", wait is True)
            state["send"](a[2])
            state["last"] = ("answer", fails)
            return state["last"]

        return Awaitable(run, "call")

    vm.contracts[f"{I_}._call_with_client"] = send

    def result(vm, a, k):
        vm.prove("the answer is judged", a[-1] is state["last"])
        state["judged"] = state.get("judged", 0) + 1
        if fails:
            state["failed"] = True
            raise PyExc(error)

    vm.contracts[f"{I_}._process_result_message"] = result
    return client, fails, error


def buffers(vm):
    state = {}
    client, fails, error = link(vm, state)
    n = vm.fresh_int("buffers", 1).t
    default = vm.choose(2, "default block size") == 1
    bs = z3.IntVal(4 * 1024**2) if default else vm.fresh_int("block size", 1).t
    vm.assume(z3.And(0 <= B, B < n, 0 <= Q, Q < LEN(B)))

    def whole(i):
        vm.assume(LEN(i) >= 0)
        return View(i, z3.IntVal(0), LEN(i))

    local = SSeq("local buffers", n, whole)
    remote = SSeq("remote buffers", n, lambda i: SVal(REF(i), "ref"))
    attr = lambda name, t: z3.Function("attr_" + name, U, U)(t)

    def entry(vm, e):
        if not (isinstance(e, tuple) and len(e) == 5 and isinstance(e[4], View)):
            raise Unsupported("a part of another form")
        addr, uid, start, size, v = e
        start, size = num(vm, start), num(vm, size)
        r = REF(v.i)
        vm.prove("each part goes to the place it comes from", z3.And(vm.term(addr) == attr("address", r), vm.term(uid) == attr("uid", r), start == v.offset, size == v.length))
        return v.length, one(z3.And(v.i == B, v.offset <= Q, Q < v.offset + v.length))

    Pending.entry = staticmethod(entry)
    state["sent"] = z3.IntVal(0)

    def send(m):
        vm.prove("a message of buffers", isinstance(m, IObj) and m.cls is vm.lookup(MSG, "CopyToBuffersMessage"))
        k, size, has = tally(vm, vm.getattr(m, "content"), entry)
        vm.prove("no message carries more than the block size", size <= bs)
        state["sent"] = state["sent"] + has
        state["n"] = state.get("n", 0) + 1

    state["send"] = send

    def block(fr):
        for name in ("one_block_data", "current_buf_size"):
            if name not in fr.locals:
                raise Unsupported(f"no local {name}")
        k, size, has = tally(vm, fr.locals["one_block_data"], entry)
        return k, size, has, num(vm, fr.locals["current_buf_size"])

    def fresh(fr):
        k, size, has = vm.fresh_int("parts", 0).t, vm.fresh_int("bytes", 0).t, vm.fresh_int("times", 0).t
        state["sent"] = vm.fresh_int("times sent", 0).t
        vm.assume(z3.Implies(k == 0, z3.And(size == 0, has == 0)))
        vm.assume(size <= bs)
        fr.locals["one_block_data"] = Pending(vm, k, size, has)
        fr.locals["current_buf_size"] = SInt(size)
        return has

    # buffers one after the other
    def havoc_(vm, fr, it, i):
        has = fresh(fr)
        state["i"] = i
        vm.assume(state["sent"] + has == one(B < i))

    def inv(vm, fr, it, i):
        k, size, has, cur = block(fr)
        return [("the size is that of the block", cur == size), ("the block is not too large", size <= bs), ("each byte of the buffers before is sent or waits, once", state["sent"] + has == one(B < i))]

    vm.loops.append(LoopSpec("buffers", lambda vm, st, fr, it: "buffers" in it.name, havoc_, inv))

    # blocks of one buffer
    def wfresh(vm, fr):
        i = state["i"]
        has = fresh(fr)
        off = vm.fresh_int("offset", 0).t
        vm.assume(off <= LEN(i))
        v = View(i, off, LEN(i) - off)
        fr.locals["l_buf"] = v
        fr.locals["last_start"] = SInt(off)
        vm.assume(state["sent"] + has == one(z3.Or(B < i, z3.And(B == i, Q < off))))
        state["measure"] = (v.length, num(vm, fr.locals["current_buf_size"]))

    def winv(vm, fr):
        i = state["i"]
        k, size, has, cur = block(fr)
        v = fr.locals["l_buf"]
        if "last_start" not in fr.locals or not isinstance(v, View):
            raise Unsupported("another way through a buffer")
        r = [
            ("the size is that of the block", cur == size),
            ("the block is not too large", size <= bs),
            ("the rest of this buffer", z3.And(v.i == i, v.length == LEN(i) - v.offset, v.offset <= LEN(i), v.offset >= 0)),
            ("the place in this buffer", num(vm, fr.locals["last_start"]) == v.offset),
            ("each byte before this place is sent or waits, once", state["sent"] + has == one(z3.Or(B < i, z3.And(B == i, Q < v.offset)))),
        ]
        if "measure" in state:
            l, c = state["measure"]
            r.append(("it ends", z3.Or(v.length < l, z3.And(v.length == l, cur < c))))
        return r

    vm.loops.append(WhileSpec("blocks", lambda vm, st, fr: True, wfresh, winv))
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, "copy_to_buffers", local, remote, None if default else SInt(bs)))
    vm.prove("the client of the remote side is used", len(state["asked"]) == 1 and vm.term(state["asked"][0]) == attr("address", REF(z3.IntVal(0))))
    if state.get("failed"):
        vm.cover("failed")
        vm.prove("the error of the remote side is raised", e is error)
        return
    vm.prove("no error", e is None, f"{e!r}")
    vm.cover("copied")
    vm.prove("each byte has been sent once", state["sent"] == 1)
    vm.prove("no error is dropped", not (fails and state.get("n")))


def files(vm):
    state = {}
    client, fails, error = link(vm, state)
    n = vm.fresh_int("files", 1).t
    default = vm.choose(2, "default block size") == 1
    bs = z3.IntVal(4 * 1024**2) if default else vm.fresh_int("block size", 1).t
    vm.assume(z3.And(0 <= B, B < n, 0 <= Q, Q < LEN(B)))
    attr = lambda name, t: z3.Function("attr_" + name, U, U)(t)

    class File(Host):
        """read up to the offset"""

        def __init__(self, i):
            self.i, self.offset = i, z3.IntVal(0)

        def m_read(self, vm, a, k):
            def run(vm):
                t = num(vm, a[0])
                vm.prove("no read exceeds the block size", z3.And(t <= bs, t > 0))
                got = vm.fresh_int("bytes read", 0).t
                rest = LEN(self.i) - self.offset
                # at least one byte, unless at the end
                vm.assume(z3.And(got <= rest, got <= t, (got == 0) == (rest == 0)))
                v = View(self.i, self.offset, got)
                self.offset = self.offset + got
                return v

            return Awaitable(run, "read")

    def whole(i):
        vm.assume(LEN(i) >= 0)
        state["file"] = File(i)
        return state["file"]

    local = SSeq("local files", n, whole)
    remote = SSeq("remote files", n, lambda i: SVal(REF(i), "ref"))
    # what has been appended so far: (file, offset) reached, over what is sent and what waits
    state["sent"] = z3.IntVal(0)
    state["reached"] = z3.IntVal(0)

    def entry(vm, e):
        if not (isinstance(e, tuple) and len(e) == 3 and isinstance(e[2], View)):
            raise Unsupported("a part of another form")
        addr, uid, v = e
        r = REF(v.i)
        vm.prove("each part goes to its own file", z3.And(vm.term(addr) == attr("address", r), vm.term(uid) == attr("uid", r)))
        return v.length, one(z3.And(v.i == B, v.offset <= Q, Q < v.offset + v.length))

    Pending.entry = staticmethod(entry)

    def send(m):
        vm.prove("a message of files", isinstance(m, IObj) and m.cls is vm.lookup(MSG, "CopyToFileObjectsMessage"))
        c = vm.getattr(m, "content")
        k, size, has = tally(vm, c, entry)
        ordered(c)
        state["sent"] = state["sent"] + has
        state["n"] = state.get("n", 0) + 1

    def ordered(c):
        """the parts that were appended in this round are in the order of the file"""
        xs = c.items if isinstance(c, VList) else c.new
        for a, b in zip(xs, xs[1:]):
            vm.prove("parts keep their order", z3.Or(a[2].i < b[2].i, z3.And(a[2].i == b[2].i, a[2].offset + a[2].length == b[2].offset)))

    class Block(Pending):
        def __init__(self, *a):
            super().__init__(*a)
            self.new = []

        def m_append(self, vm, a, k):
            self.new.append(a[0])
            super().m_append(vm, a, k)

        def m_clear(self, vm, a, k):
            self.new = []
            super().m_clear(vm, a, k)

    state["send"] = send

    def block(fr):
        for name in ("one_block_data", "current_file_size"):
            if name not in fr.locals:
                raise Unsupported(f"no local {name}")
        k, size, has = tally(vm, fr.locals["one_block_data"], entry)
        return k, size, has, num(vm, fr.locals["current_file_size"])

    def fresh(fr):
        k, size, has = vm.fresh_int("parts", 0).t, vm.fresh_int("bytes", 0).t, vm.fresh_int("times", 0).t
        state["sent"] = vm.fresh_int("times sent", 0).t
        vm.assume(z3.And((k == 0) == (size == 0), z3.Implies(k == 0, has == 0)))
        fr.locals["one_block_data"] = Block(vm, k, size, has)
        fr.locals["current_file_size"] = SInt(size)
        return has

    def shape(fr):
        k, size, has, cur = block(fr)
        return has, [("the size is that of the block", cur == size), ("parts are not empty", (k == 0) == (size == 0))]

    def havoc_(vm, fr, it, i):
        has = fresh(fr)
        state["i"] = i
        vm.assume(state["sent"] + has == one(B < i))

    def inv(vm, fr, it, i):
        has, r = shape(fr)
        return r + [("each byte of the files before is sent or waits, once", state["sent"] + has == one(B < i))]

    vm.loops.append(LoopSpec("files", lambda vm, st, fr, it: "files" in it.name, havoc_, inv))

    def wfresh(vm, fr):
        has = fresh(fr)
        f = state["file"]
        f.offset = vm.fresh_int("offset", 0).t
        vm.assume(f.offset <= LEN(f.i))
        state["measure"] = LEN(f.i) - f.offset
        vm.assume(state["sent"] + has == one(z3.Or(B < f.i, z3.And(B == f.i, Q < f.offset))))

    def winv(vm, fr):
        has, r = shape(fr)
        f = state["file"]
        r = r + [("each byte that was read is sent or waits, once", state["sent"] + has == one(z3.Or(B < f.i, z3.And(B == f.i, Q < f.offset))))]
        if "measure" in state:
            r.append(("it ends", LEN(f.i) - f.offset < state["measure"]))
        return r

    vm.loops.append(WhileSpec("reads", lambda vm, st, fr: True, wfresh, winv))
    p = new(vm, X, "IndigenActorContext")
    r, e = attempt(vm, lambda: acall(vm, p, "copy_to_fileobjs", local, remote, None if default else SInt(bs)))
    vm.prove("the client of the remote side is used", len(state["asked"]) == 1 and vm.term(state["asked"][0]) == attr("address", REF(z3.IntVal(0))))
    if state.get("failed"):
        vm.cover("failed")
        vm.prove("the error of the remote side is raised", e is error)
        return
    vm.prove("no error", e is None, f"{e!r}")
    vm.cover("copied")
    vm.prove("each byte has been sent once", state["sent"] == 1)
    vm.prove("no error is dropped", not (fails and state.get("n")))


# ---------------------------------------------------------------- receiving


def store(vm):
    """parts of buffers are written where they belong, and nowhere else"""
    n = vm.fresh_int("parts", 0).t
    at = {x: z3.Function(f"{x} of part", z3.IntSort(), U) for x in ("address", "uid", "data")}
    start, length = z3.Function("start of part", z3.IntSort(), z3.IntSort()), z3.Function("length of part", z3.IntSort(), z3.IntSort())
    log, state = [], {}

    class Buffer(Host):
        def __init__(self, address, uid):
            self.of = (address, uid)

        def vm_setitem(self, vm, k, v):
            log.append((self.of, k, v))

    vm.contracts["xoscar.core:BufferRef.get_buffer"] = lambda vm, a, k: Buffer(vm.getattr(a[-1], "address"), vm.getattr(a[-1], "uid"))

    def part(i):
        vm.assume(z3.And(start(i) >= 0, length(i) >= 0))
        return (SVal(at["address"](i), "str"), SVal(at["uid"](i), "bytes"), SInt(start(i)), SInt(length(i)), SVal(at["data"](i)))

    def havoc_(vm, fr, it, i):
        del log[:]
        state["round"] = i
        state.pop("checked", None)

    def inv(vm, fr, it, i):
        if "round" in state and "checked" not in state:
            state["checked"] = True
            j = state["round"]
            vm.prove("each part is written once", len(log) == 1)
            for of, k, v in log[:1]:
                ok = isinstance(k, slice) and k.step is None and k.start is not None and k.stop is not None
                vm.prove("a part of the buffer", ok)
                if ok:
                    vm.prove("to its buffer and place", z3.And(vm.term(of[0]) == at["address"](j), vm.term(of[1]) == at["uid"](j), num(vm, k.start) == start(j), num(vm, k.stop) == start(j) + length(j), vm.term(v) == at["data"](j)))
        return []

    vm.loops.append(LoopSpec("parts", lambda vm, st, fr, it: True, havoc_, inv))
    mid = vm.opaque("message id", "bytes")
    m = new(vm, MSG, "CopyToBuffersMessage", message_id=mid, content=SSeq("parts", n, part), protocol=0)
    p = new(vm, P, "ActorPoolBase")
    r, e = attempt(vm, lambda: acall(vm, p, "handle_copy_to_buffers_message", m))
    vm.cover("stored")
    vm.prove("answered, with the id of the request", z3.And(e is None and isinstance(r, IObj) and r.cls is vm.lookup(MSG, "ResultMessage"), same(vm, vm.getattr(r, "message_id"), mid)))
    vm.prove("all parts are written", state["round"] == n if "round" in state else False)


def append(vm):
    """parts of files are written in order"""
    n = vm.fresh_int("parts", 0).t
    at = {x: z3.Function(f"{x} of part", z3.IntSort(), U) for x in ("address", "uid", "data")}
    log, state = [], {}
    fails = vm.choose(2, "a write fails") == 1
    error = SExc("no space", BaseException)

    class File(Host):
        def __init__(self, address, uid):
            self.of = (address, uid)

        def m_write(self, vm, a, k):
            def run(vm):
                log.append((self.of, a[0]))
                if fails:
                    raise PyExc(error)

            return Awaitable(run, "write")

    vm.contracts["xoscar.core:FileObjectRef.get_local_file_object"] = lambda vm, a, k: File(vm.getattr(a[-1], "address"), vm.getattr(a[-1], "uid"))

    def havoc_(vm, fr, it, i):
        del log[:]
        state["round"] = i
        state.pop("checked", None)

    def inv(vm, fr, it, i):
        if "round" in state and "checked" not in state:
            state["checked"] = True
            j = state["round"]
            vm.prove("each part is written once", len(log) == 1)
            vm.prove("a failure is not dropped", not fails)
            for of, v in log[:1]:
                vm.prove("to its file", z3.And(vm.term(of[0]) == at["address"](j), vm.term(of[1]) == at["uid"](j), vm.term(v) == at["data"](j)))
        return []

    vm.loops.append(LoopSpec("parts", lambda vm, st, fr, it: True, havoc_, inv))
    mid = vm.opaque("message id", "bytes")
    parts = SSeq("parts", n, lambda i: (SVal(at["address"](i), "str"), SVal(at["uid"](i), "bytes"), SVal(at["data"](i))))
    m = new(vm, MSG, "CopyToFileObjectsMessage", message_id=mid, content=parts, protocol=0)
    p = new(vm, P, "ActorPoolBase")
    r, e = attempt(vm, lambda: acall(vm, p, "handle_copy_to_fileobjs_message", m))
    if e is not None:
        vm.cover("failed")
        vm.prove("a failure of the file is raised", e is error and fails)
        return
    vm.cover("stored")
    vm.prove("answered, with the id of the request", z3.And(isinstance(r, IObj) and r.cls is vm.lookup(MSG, "ResultMessage"), same(vm, vm.getattr(r, "message_id"), mid)))
    vm.prove("all parts are written", state["round"] == n if "round" in state else False)


CASES = [
    Case("buffers", [f"{I_}.copy_to_buffers", f"{I_}._gen_copy_to_buffers_message"], buffers, setup, covers=["buffers: body reached", "blocks: body reached", "copied", "failed"], need=30),
    Case("files", [f"{I_}.copy_to_fileobjs", f"{I_}._gen_copy_to_fileobjs_message"], files, setup, covers=["files: body reached", "reads: body reached", "copied", "failed"], need=30),
    Case("storing buffers", [f"{A}.handle_copy_to_buffers_message"], store, setup, covers=["stored"], need=4),
    Case("storing files", [f"{A}.handle_copy_to_fileobjs_message"], append, setup, covers=["stored", "failed"], need=4),
    *asking.COPIES,
    *asking.COPYING,
    *asking.HANDED["buffer_ref"],
    *asking.HANDED["file_object_ref"],
]

ASSUMPTIONS = [
    "the lists have the same length, which is not zero; block sizes are positive",
    "len and slices of a local buffer count its bytes; a read of a file gives the next bytes, at least one unless at the end, and at most as many as asked for",
    "messages are answered as C09 says, and carry their bytes (C04)",
    "what is stored under an address and id is the buffer or file that was registered (xoscar.core.BufferRef, FileObjectRef)",
    "the transfer through UCX is not covered (not installed)",
]
