"""C04: channels deliver whole messages, in order, once.

A message is written as 11 bytes (version, length of the header, compression), the header
and any number of buffers; the same parts are read.  Buffers are arbitrary objects with the
buffer interface: bytes(i) is their number of bytes.
"""

import asyncio

from .base import *  # noqa: F401,F403

S = "xoscar.serialization.aio"
U_ = "xoscar.backends.communication.utils"
K = "xoscar.backends.communication.socket"
D = "xoscar.backends.communication.dummy"
ERR = "xoscar.backends.communication.errors"

NB = z3.Function("bytes of buffer", z3.IntSort(), z3.IntSort())
TELLS = z3.Function("buffer has nbytes", z3.IntSort(), z3.BoolSort())
CONT = z3.Function("buffer is contiguous", z3.IntSort(), z3.BoolSort())
ITEM = z3.Function("item size of buffer", z3.IntSort(), z3.IntSort())
DIM = z3.Function("dimensions of buffer", z3.IntSort(), z3.IntSort())


class Flat(Host):
    """all bytes of buffer i, one after the other"""

    def __init__(self, i):
        self.i = i

    def m_raw(self, vm, a, k):
        return self

    def m_tobytes(self, vm, a, k):
        return self


class Buffer(Host):
    """buffer i: bytes, views, arrays of any shape and layout"""

    def __init__(self, i, view=False):
        self.i, self.view = i, view

    def vm_getattr(self, vm, name):
        i = self.i
        if name == "nbytes":
            if self.view or vm.branch(TELLS(i)):
                return SInt(NB(i))
            raise PyExc(AttributeError(name))
        if name == "__cuda_array_interface__":
            raise PyExc(AttributeError(name))
        if self.view and name in ("c_contiguous", "contiguous", "itemsize", "ndim"):
            # what can be no view of bytes in one dimension tells how many bytes it has
            vm.assume(z3.And(ITEM(i) >= 1, DIM(i) >= 0))
            return {"c_contiguous": SBool(CONT(i)), "contiguous": SBool(CONT(i)), "itemsize": SInt(ITEM(i)), "ndim": SInt(DIM(i))}[name]
        return super().vm_getattr(vm, name)

    def vm_hasattr(self, vm, name):
        return self.view or vm.branch(TELLS(self.i)) if name == "nbytes" else False

    def vm_len(self, vm):
        """counts items of the first dimension"""
        n = vm.fresh_int("items", 0)
        vm.assume(z3.Implies(z3.Or(z3.Not(TELLS(self.i)), z3.And(ITEM(self.i) == 1, DIM(self.i) == 1)), n.t == NB(self.i)))
        return n

    def vm_memoryview(self, vm):
        return Buffer(self.i, True)

    def vm_bytes(self, vm):
        return Flat(self.i)

    def m_tobytes(self, vm, a, k):
        return Flat(self.i)


class Packed(Host):
    """struct.pack: size bytes that stand for the value"""

    SIZE = {"B": 1, "H": 2, "Q": 8, "I": 4}

    def __init__(self, fmt, value):
        self.fmt, self.value = fmt, value
        self.size = self.SIZE[fmt.strip("<>=!@")]


class Parts(Host):
    """concatenation of packed values"""

    def __init__(self, parts):
        self.parts = parts

    def size(self):
        return sum(p.size for p in self.parts)

    def vm_len(self, vm):
        return self.size()

    def vm_bytes(self, vm):
        return self

    def vm_getitem(self, vm, k):
        if isinstance(k, slice) and k.step is None:
            lo, hi, at, out = k.start or 0, self.size() if k.stop is None else k.stop, 0, []
            for p in self.parts:
                if lo <= at and at + p.size <= hi:
                    out.append(p)
                elif not (at + p.size <= lo or at >= hi):
                    raise Unsupported("a part of a packed value")
                at += p.size
            return Parts(out)
        raise Unsupported("item of packed values")


def setup(vm):
    def pack(vm, a, k):
        if len(a) != 2:
            raise Unsupported("several values packed at once")
        return Packed(a[0], a[1])

    def unpack(vm, a, k):
        x = a[1]
        if isinstance(x, Parts) and len(x.parts) == 1:
            x = x.parts[0]
        if not isinstance(x, Packed) or x.fmt != a[0]:
            raise Unsupported("another format")
        return (x.value,)

    vm.stubs["struct.pack"], vm.stubs["struct.unpack"] = Stub(pack, "pack"), Stub(unpack, "unpack")

    class Bio(Host):
        def __init__(self):
            self.parts = []

        def m_write(self, vm, a, k):
            if not isinstance(a[0], Packed):
                raise Unsupported("other bytes in the first part")
            self.parts.append(a[0])

        def m_getbuffer(self, vm, a, k):
            return Parts(list(self.parts))

        m_getvalue = m_getbuffer

    vm.stubs["io.BytesIO"] = Stub(lambda vm, a, k: Bio(), "BytesIO")
    vm.stubs["pickle.PickleBuffer"] = Stub(lambda vm, a, k: a[0] if isinstance(a[0], Flat) else Flat(a[0].i), "PickleBuffer")


class Header(Host):
    """pickled header"""

    def __init__(self, vm, kept):
        self.kept, self.length = kept, z3.Int("length of the header")
        vm.assume(self.length > 0)

    def vm_len(self, vm):
        return SInt(self.length)


def written(vm):
    """what is announced is what is written"""
    n = vm.fresh_int("buffers", 0).t

    def buf(i):
        vm.assume(NB(i) >= 0)
        return Buffer(i)

    first = VDict([["type", vm.opaque("type")]])
    headers = VList([first, vm.opaque("more")])
    obj = vm.opaque("object")
    seen = []

    def serialize(vm, a, k):
        seen.append(a[0])
        return Awaitable(lambda vm: (headers, SSeq("buffers", n, buf)), "serialize")

    for m in (S, "xoscar.serialization.core", "xoscar.serialization"):
        vm.contracts[f"{m}:serialize_with_spawn"] = serialize
    dumped = []

    def dumps(vm, a, k):
        dumped.append({x: y for x, y in first.items})
        vm.prove("the header is that of the object", a[0] is headers)
        return Header(vm, dumped[-1])

    vm.stubs["cloudpickle.dumps"] = Stub(dumps, "dumps")
    comp = vm.fresh_int("compression", 0)
    s = vm.call(vm.lookup(S, "AioSerializer"), [obj], {"compress": comp})
    out = acall(vm, s, "run")
    vm.cover("written")
    vm.prove("the object is serialized once", seen == [obj] and len(dumped) == 1)
    if not isinstance(out, SSeq):
        raise Unsupported("another list of parts")
    vm.prove("two parts and the buffers", out.length == n + 2)
    a, h = out.elem(0), out.elem(1)
    ok = isinstance(a, Parts) and [p.fmt for p in a.parts] == ["B", "<Q", "<H"]
    vm.prove("first version, length and compression, in 11 bytes", ok and a.size() == 11)
    vm.prove("then the header", isinstance(h, Header))
    if ok:
        vm.prove("the length of the header is announced", num_eq(vm, a.parts[1].value, h.length))
        vm.prove("and the compression", same(vm, a.parts[2].value, comp))
    # an arbitrary buffer
    j = vm.fresh_int("any buffer", 0).t
    vm.assume(j < n)
    b = out.elem(j + 2)
    vm.prove("the buffers follow in order", z3.And(isinstance(b, Buffer), b.i == j) if isinstance(b, Buffer) else False)
    sizes = dumped[0].get("buf_sizes")
    cuda = dumped[0].get("is_cuda_buffers")
    if not (isinstance(sizes, SSeq) and isinstance(cuda, SSeq)):
        raise Unsupported("sizes are announced in another way")
    vm.prove("as many sizes as buffers", z3.And(sizes.length == n, cuda.length == n))
    vm.prove("the size of each buffer is announced", num_eq(vm, sizes.elem(j), NB(j)))
    vm.prove("no buffer is one of the GPU", same(vm, cuda.elem(j), False))


def streamed(vm):
    """each buffer is written once, with all its bytes, in order, without a pause"""
    n = vm.fresh_int("buffers", 0).t
    log, state = [], {}

    class Writer(Host):
        def m_write(self, vm, a, k):
            log.append(a[0])

    def havoc_(vm, fr, it, i):
        del log[:]
        state["round"] = i
        state.pop("checked", None)

    def inv(vm, fr, it, i):
        if "round" in state and "checked" not in state:
            state["checked"] = True
            vm.prove("each buffer is written once", len(log) == 1)
            for x in log[:1]:
                if isinstance(x, Flat):
                    vm.cover("copied")
                    vm.prove("its own bytes", x.i == state["round"])
                elif isinstance(x, Buffer):
                    vm.cover("as it is")
                    j = x.i
                    vm.prove("its own bytes", j == state["round"])
                    vm.prove("what is written as it is is contiguous, of bytes, in one dimension", z3.And(CONT(j), ITEM(j) == 1, DIM(j) == 1))
                else:
                    vm.prove("its own bytes", False)
        return []

    vm.loops.append(LoopSpec("buffers", lambda vm, st, fr, it: True, havoc_, inv))
    vm.call(vm.lookup(U_, "write_buffers"), [Writer(), SSeq("buffers", n, lambda i: Buffer(i))], {})
    vm.prove("all buffers are written", state["round"] == n if "round" in state else False)


def head(version, length):
    return Parts([Packed("B", version), Packed("<Q", length), Packed("<H", 0)])


def header_length(vm):
    """another version is refused"""
    version, length = vm.fresh_int("version", 0), vm.fresh_int("length", 0)
    f = vm.lookup(S, "get_header_length")
    r, e = attempt(vm, lambda: vm.call(f, [head(version, length)], {}))
    if e is None:
        vm.cover("read")
        vm.prove("the length that was announced, of this version", z3.And(version.t == 1, num_eq(vm, r, length.t)))
    else:
        vm.cover("refused")
        vm.prove("another version ends the stream", z3.And(exc_is(vm, e, EOFError), version.t != 1))


def read_errors(vm):
    """how a stream can end or break"""
    k = vm.choose(3, "ends, is reset, breaks")
    return [asyncio.IncompleteReadError(b"", 1), ConnectionResetError(), BrokenPipeError()][k]


def lost(vm, e):
    return exc_is(vm, e, EOFError) or exc_is(vm, e, ConnectionError)


def header_read(vm):
    """the header is read whole, and nothing more"""
    exact = vm.choose(2, "a file") == 0
    broken = vm.choose(3, "nowhere, in the first part, in the header")
    empty = not exact and broken == 0 and vm.choose(2, "at the end") == 1
    err = read_errors(vm) if broken else None
    version, length = vm.fresh_int("version", 0), vm.fresh_int("length", 1)
    header = vm.opaque("header", "bytes")
    reads = []

    def read(vm, a, k):
        def run(vm):
            reads.append(a[0])
            if broken == len(reads):
                raise PyExc(err)
            if len(reads) == 1:
                return b"" if empty else head(version, length)
            return header

        return Awaitable(run, "read")

    class File(Host):
        def vm_getattr(self, vm, name):
            if name == "readexactly" and not exact:
                raise PyExc(AttributeError(name))
            return super().vm_getattr(vm, name)

    f = File()
    if exact:
        f.m_readexactly = read
    else:
        f.m_read = read
    d = vm.call(vm.lookup(S, "AioDeserializer"), [f], {})
    r, e = attempt(vm, lambda: acall(vm, d, "_get_obj_header_bytes"))
    vm.prove("first 11 bytes", len(reads) >= 1 and reads[0] == 11)
    if e is not None:
        vm.cover("lost")
        vm.prove("an end or connection error", lost(vm, e))
        vm.prove("only for a stream that ends, breaks or has another version", bool(broken or empty) or version.t != 1)
    else:
        vm.cover("read")
        vm.prove("the whole header", r is header and len(reads) == 2)
        vm.prove("its length is that announced", num_eq(vm, reads[1], length.t))
        vm.prove("of this version", version.t == 1)


SIZE = z3.Function("size announced for buffer", z3.IntSort(), z3.IntSort())


def buffers_read(vm):
    """every buffer is read whole, in order"""
    n = vm.fresh_int("buffers", 0).t
    state = {"reads": []}
    breaks = vm.choose(2, "the stream breaks") == 1
    err = read_errors(vm) if breaks else None
    CON = z3.Function("what is read as buffer", z3.IntSort(), U)

    class Reader(Host):
        def m_readexactly(self, vm, a, k):
            def run(vm):
                state["reads"].append(a[0])
                if breaks:
                    raise PyExc(err)
                return SVal(CON(state["round"]), "bytes")

            return Awaitable(run, "read")

    def size(i):
        vm.assume(SIZE(i) >= 0)
        return SInt(SIZE(i))

    first = VDict([["is_cuda_buffers", SSeq("kinds", n, lambda i: False)], ["buf_sizes", SSeq("sizes", n, size)], ["_N", 1]])

    def seq_of(fr):
        if not isinstance(fr.locals.get("buffers"), (VList, SSeq)):
            raise Unsupported("what was read is kept in another way")
        return fr.locals["buffers"]

    def havoc_(vm, fr, it, i):
        state["reads"] = []
        state["round"] = i
        seq_of(fr)
        fr.locals["buffers"] = SSeq("read so far", i, lambda j: SVal(CON(j if not isinstance(j, int) else z3.IntVal(j)), "bytes"))

    def inv(vm, fr, it, i):
        s = seq_of(fr)
        if isinstance(s, VList):
            return [("one for each buffer", i == len(s.items))]
        r = [("one for each buffer", s.length == i)]
        if "round" in state:
            j = vm.fresh_int("any", 0).t
            # nothing needs to be read for an empty buffer
            empty = SIZE(state["round"]) == 0
            vm.prove("one read for each buffer", z3.Or(empty, len(state["reads"]) == 1) if len(state["reads"]) < 2 else False)
            vm.prove("of the size that was announced", num_eq(vm, state["reads"][0], SIZE(state["round"])) if state["reads"] else empty)
            vm.assume(j < s.length)
            r.append(("in order", z3.Or(SIZE(j) == 0, vm.term(s.elem(j)) == CON(j))))
        return r

    vm.loops.append(LoopSpec("buffers", lambda vm, st, fr, it: True, havoc_, inv))
    r, e = attempt(vm, lambda: vm.await_(vm.call(vm.lookup(U_, "read_buffers"), [VList([first]), Reader()], {})))
    if e is not None:
        vm.cover("lost")
        vm.prove("an end or connection error of the stream", breaks and e is err)
        return
    vm.cover("read")
    vm.prove("all buffers", z3.And(state["round"] == n, r.length == n) if isinstance(r, SSeq) and "round" in state else False)
    vm.prove("the sizes are no part of the object", not [k for k, _ in first.items if k == "buf_sizes"])


class Lock(Host):
    def __init__(self, log):
        self.held, self.log = False, log

    def m___aenter__(self, vm, a, k):
        def run(vm):
            self.log.append("pause")
            vm.prove("a lock is not taken twice", not self.held)
            self.held = True
            self.log.append("locked")

        return Awaitable(run, "lock")

    def m___aexit__(self, vm, a, k):
        def run(vm):
            self.held = False
            self.log.append("unlocked")

        return Awaitable(run, "unlock")

    def m_acquire(self, vm, a, k):
        return self.m___aenter__(vm, a, k)

    def m_release(self, vm, a, k):
        self.held = False
        self.log.append("unlocked")


def receiving(vm):
    """recv: one whole message, read under the lock"""
    log = []
    lock = Lock(log)
    other = Lock(log)
    breaks = vm.choose(3, "nowhere, in the header, in the buffers")
    err = read_errors(vm) if breaks else None
    header, buffers, value = vm.opaque("header"), vm.opaque("buffers"), vm.opaque("value")
    reader = vm.opaque("reader", "reader")
    used = []

    def get_header(vm, a, k):
        def run(vm):
            vm.prove("a message is read under the lock of readers", lock.held)
            log.append("header")
            if breaks == 1:
                raise PyExc(err)
            return header

        return Awaitable(run, "header")

    def read(vm, a, k):
        def run(vm):
            vm.prove("the rest of it under the same lock", lock.held and log.count("unlocked") == 0)
            vm.prove("of its own stream and header", a[0] is header and a[1] is reader)
            log.append("buffers")
            if breaks == 2:
                raise PyExc(err)
            return buffers

        return Awaitable(run, "buffers")

    vm.contracts[f"{S}:AioDeserializer.get_header"] = get_header
    vm.contracts[f"{U_}:read_buffers"] = read
    vm.contracts["xoscar.serialization.core:deserialize"] = lambda vm, a, k: used.append((a[0], a[1])) or value
    p = new(vm, K, "SocketChannel", reader=reader, _recv_lock=lock, _send_lock=other)
    r, e = attempt(vm, lambda: acall(vm, p, "recv"))
    vm.prove("the lock is released", not lock.held and not other.held)
    if breaks:
        vm.cover("lost")
        vm.prove("the error of the stream, and no object", e is err and not used)
    else:
        vm.cover("received")
        vm.prove("the object of the header and its buffers", r is value and used == [(header, buffers)])


def sending(vm):
    """send: the parts of a message are written without a pause"""
    log = []
    lock, other = Lock(log), Lock(log)
    fails = vm.choose(4, "sent, writing fails, flushing fails, connection lost")
    closing = vm.choose(2, "closing") == 1
    msg, parts = vm.opaque("message"), vm.opaque("parts")
    made = []

    class Writer(Host):
        def m_drain(self, vm, a, k):
            def run(vm):
                vm.prove("flushed under the lock of writers", lock.held)
                log.append("flushed")
                if fails == 2:
                    raise PyExc(RuntimeError("closed"))
                if fails == 3:
                    raise PyExc(ConnectionResetError())

            return Awaitable(run, "drain")

        def m_is_closing(self, vm, a, k):
            return closing

    writer = Writer()

    def run_(vm, a, k):
        def run(vm):
            made.append(vm.getattr(a[0], "_obj"))
            log.append("pause")
            return parts

        return Awaitable(run, "serialize")

    vm.contracts[f"{S}:AioSerializer.run"] = run_

    def write(vm, a, k):
        vm.prove("all parts, to its own stream", a[0] is writer and a[1] is parts)
        log.append("written")
        if fails == 1:
            raise PyExc(RuntimeError("closed"))

    vm.contracts[f"{U_}:write_buffers"] = write
    p = new(vm, K, "SocketChannel", writer=writer, compression=None, _recv_lock=other, _send_lock=lock)
    r, e = attempt(vm, lambda: acall(vm, p, "send", msg))
    vm.prove("serialized and written once", made == [msg] and log.count("written") == 1)
    vm.prove("the lock is released", not lock.held and not other.held)
    closed = vm.lookup(ERR, "ChannelClosed")
    if fails == 0:
        vm.cover("sent")
        vm.prove("flushed", e is None and log.count("flushed") == 1)
    elif fails < 3:
        vm.cover("failed")
        vm.prove("a channel that is closed is told as such", vm.isinst(e, closed) if closing else vm.isinst(e, RuntimeError) and not vm.isinst(e, closed))
    else:
        vm.cover("lost")
        vm.prove("a lost connection is told", exc_is(vm, e, ConnectionError))


# ---------------------------------------------------------------- objects in files


def from_file(vm):
    """an object is read from a file as from a stream"""
    n = vm.fresh_int("buffers", 0).t
    N = vm.fresh_int("number of objects", 0)
    value = vm.opaque("value")
    reads, used, state = [], [], {}

    def size(i):
        vm.assume(SIZE(i) >= 0)
        return SInt(SIZE(i))

    what = vm.choose(3, "object, size, header")
    length = vm.fresh_int("length of the header", 0)

    class Bytes(Host):
        def vm_len(self, vm):
            return length

    raw = Bytes()
    header = VList([VDict([["buf_sizes", SSeq("sizes", n, size)], ["_N", N]])])
    vm.contracts[f"{S}:AioDeserializer._get_obj_header_bytes"] = lambda vm, a, k: Awaitable(lambda vm: raw, "header")

    def loads(vm, a, k):
        vm.prove("the header is what was read", a[0] is raw)
        return header

    vm.stubs["cloudpickle.loads"] = Stub(loads, "loads")
    vm.contracts["xoscar.serialization.core:deserialize"] = lambda vm, a, k: used.append((a[0], a[1])) or value
    vm.stubs["asyncio.to_thread"] = vm.stubs["asyncio.threads.to_thread"] = Stub(lambda vm, a, k: Awaitable(lambda vm: vm.call(a[0], list(a[1:]), k), "to_thread"), "to_thread")

    class File(Host):
        def m_readexactly(self, vm, a, k):
            return Awaitable(lambda vm: ("bytes", a[0]), "read")

    d = vm.call(vm.lookup(S, "AioDeserializer"), [File()], {})
    if what == 0:
        vm.cover("object")
        r, e = attempt(vm, lambda: acall(vm, d, "run"))
        vm.prove("no error", e is None, f"{e!r}")
        vm.prove("the object of the header and its buffers", r is value and len(used) == 1 and used[0][0] is header)
        b = used[0][1]
        if not isinstance(b, SSeq):
            raise Unsupported("buffers read in another way")
        j = vm.fresh_int("any buffer", 0).t
        vm.assume(j < n)
        x = b.elem(j)
        vm.prove("each buffer is read with its size", z3.And(b.length == n, num_eq(vm, x[1], SIZE(j))) if isinstance(x, tuple) and x[0] == "bytes" else False)
    elif what == 2:
        vm.cover("header")
        r, e = attempt(vm, lambda: acall(vm, d, "get_header"))
        vm.prove("the header", r is header)


# ---------------------------------------------------------------- in one process


class Queue(Host):
    def __init__(self, name, log, get=None):
        self.name, self.log, self.get = name, log, get

    def m_put_nowait(self, vm, a, k):
        self.log.append((self.name, "put", a[0]))

    def m_put(self, vm, a, k):
        return Awaitable(lambda vm: self.log.append((self.name, "put", a[0])), "put")

    def m_get(self, vm, a, k):
        def run(vm):
            self.log.append((self.name, "get"))
            return self.get()

        return Awaitable(run, "get")


class Event(Host):
    def __init__(self, t):
        self.value = SBool(t) if not isinstance(t, bool) else t

    def m_is_set(self, vm, a, k):
        return self.value

    def m_set(self, vm, a, k):
        self.value = True


def local(vm):
    """an in-process channel passes on each object, as it is, and its end"""
    log = []
    was = z3.Bool("closed")
    event = Event(was)
    end = vm.getattr(vm.module(D), "_CHANNEL_CLOSED")
    what = vm.choose(4, "send, receive an object, receive the end, close")
    msg = vm.opaque("message")
    q_in = Queue("in", log, lambda: msg if what == 1 else end)
    q_out = Queue("out", log)
    p = new(vm, D, "DummyChannel", _in_queue=q_in, _out_queue=q_out, _closed=event)
    closed = vm.lookup(ERR, "ChannelClosed")
    if what == 0:
        r, e = attempt(vm, lambda: acall(vm, p, "send", msg))
        if e is None:
            vm.cover("sent")
            vm.prove("put once, as it is", log == [("out", "put", msg)])
            vm.prove("while it is open", z3.Not(was))
        else:
            vm.cover("refused")
            vm.prove("refused only when closed, and nothing is sent", z3.And(was, vm.isinst(e, closed), not log))
    elif what in (1, 2):
        r, e = attempt(vm, lambda: acall(vm, p, "recv"))
        if e is None:
            vm.cover("received")
            vm.prove("the next object", r is msg and what == 1 and log == [("in", "get")])
        elif vm.isinst(e, closed):
            vm.prove("refused only when closed, and nothing is lost", z3.And(was, not log))
        else:
            vm.cover("end")
            vm.prove("the end of the channel", exc_is(vm, e, EOFError) and what == 2)
            vm.prove("others that wait are told as well", log == [("in", "get"), ("in", "put", end)])
    else:
        r, e = attempt(vm, lambda: acall(vm, p, "close"))
        vm.prove("no error", e is None)
        vm.prove("it is closed", as_z3(event.value))
        if log:
            vm.cover("closed")
            vm.prove("both sides are told, once", sorted(x[0] for x in log) == ["in", "out"] and all(x[1] == "put" and x[2] is end for x in log))
            vm.prove("when it was open", z3.Not(was))
        else:
            vm.cover("was closed")
            vm.prove("unless it was closed before", was)


def connected(vm):
    """both ends of an in-process connection: each sends what the other receives"""
    made, tasks = [], []
    stopped = z3.Bool("the server is stopped")

    class Server(Host):
        def __init__(self):
            self.tasks = self

        def vm_getattr(self, vm, name):
            if name == "stopped":
                return SBool(stopped)
            if name == "_tasks":
                return self.tasks
            return super().vm_getattr(vm, name)

        def m_add(self, vm, a, k):
            tasks.append(a[0])

        def m_discard(self, vm, a, k):
            tasks.remove(a[0])

        def m_on_connected(self, vm, a, k):
            made.append(a[0])
            return Awaitable(lambda vm: None, "on_connected")

    class Task(Host):
        def m_add_done_callback(self, vm, a, k):
            pass

    server = Server()
    vm.contracts[f"{D}:DummyServer.get_instance"] = lambda vm, a, k: server
    vm.stubs["asyncio.create_task"] = vm.stubs["asyncio.tasks.create_task"] = Stub(lambda vm, a, k: Task(), "create_task")
    queues = []

    def queue(vm, a, k):
        queues.append(Queue(f"queue {len(queues)}", []))
        return queues[-1]

    class Url(Host):
        def vm_getattr(self, vm, name):
            return "dummy" if name == "scheme" else super().vm_getattr(vm, name)

    vm.stubs["urllib.parse.urlparse"] = Stub(lambda vm, a, k: Url(), "urlparse")
    vm.stubs["asyncio.Queue"] = vm.stubs["asyncio.queues.Queue"] = Stub(queue, "Queue")
    vm.stubs["asyncio.Event"] = vm.stubs["asyncio.locks.Event"] = Stub(lambda vm, a, k: Event(False), "Event")
    f = vm.getattr(vm.lookup(D, "DummyClient"), "connect")
    r, e = attempt(vm, lambda: vm.await_(vm.call(f, ["dummy://1"], {"local_address": "dummy://2"})))
    if e is not None:
        vm.cover("refused")
        vm.prove("refused only by a stopped server", z3.And(stopped, exc_is(vm, e, ConnectionError), not made))
        return
    vm.cover("connected")
    vm.prove("the server is running", z3.Not(stopped))
    vm.prove("one channel for the server", len(made) == 1)
    x, y = vm.getattr(r, "channel"), made[0]
    g = lambda c, n: vm.getattr(c, n)
    vm.prove("each sends what the other receives", g(x, "_out_queue") is g(y, "_in_queue") and g(x, "_in_queue") is g(y, "_out_queue") and g(x, "_in_queue") is not g(x, "_out_queue"))
    vm.prove("closed together", g(x, "_closed") is g(y, "_closed"))


CASES = [
    Case("what is written", [f"{S}:AioSerializer.run", f"{S}:AioSerializer._get_buffers"], written, setup, covers=["written"], need=8),
    Case("writing", [f"{U_}:write_buffers"], streamed, setup, covers=["buffers: body reached", "copied", "as it is"], need=4),
    Case("length of the header", [f"{S}:get_header_length"], header_length, setup, covers=["read", "refused"], need=2),
    Case("reading the header", [f"{S}:AioDeserializer._get_obj_header_bytes", f"{S}:AioDeserializer._readexactly", f"{S}:get_header_length"], header_read, setup, covers=["read", "lost"], need=8),
    Case("reading the buffers", [f"{U_}:read_buffers"], buffers_read, setup, covers=["buffers: body reached", "read", "lost"], need=6),
    Case("receiving", [f"{K}:SocketChannel.recv"], receiving, setup, covers=["received", "lost"], need=8),
    Case("sending", [f"{K}:SocketChannel.send"], sending, setup, covers=["sent", "failed", "lost"], need=8),
    Case("reading files", [f"{S}:AioDeserializer.run", f"{S}:AioDeserializer._get_obj", f"{S}:AioDeserializer.get_header"], from_file, setup, covers=["object", "header"], need=4),
    Case("in-process channels", [f"{D}:DummyChannel.send", f"{D}:DummyChannel.recv", f"{D}:DummyChannel.close"], local, setup, covers=["sent", "refused", "received", "end", "closed", "was closed"], need=10),
    Case("in-process connections", [f"{D}:DummyClient.connect", f"{D}:DummyChannel.__init__"], connected, setup, covers=["refused", "connected"], need=4),
]

ASSUMPTIONS = [
    "asyncio streams and queues: what is written is read in this order, readexactly gives all its bytes or raises an EOF or connection error; asyncio.Lock excludes",
    "struct, cloudpickle and memoryview as documented; an object without nbytes counts its bytes by len",
    "serialize and deserialize are inverse (C01, C02)",
    "no buffer lies on a GPU, UCX is not installed",
]
