"""in-process pools and small helpers"""

import asyncio
import contextlib
import socket

import xoscar as mo
from xoscar.backends.router import Router
from xoscar.core import ActorRef


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


@contextlib.asynccontextmanager
async def pool(n=2, **kw):
    """main pool and n sub pools in this process (test backend)"""
    p = await mo.create_actor_pool("test://127.0.0.1", n_process=n, **kw)
    try:
        yield p
    finally:
        try:
            await asyncio.wait_for(p.stop(), 10)
        except asyncio.TimeoutError:
            pass
        Router.set_instance(None)


def remote(ref):
    """a reference that goes through channels even in the same process"""
    return ActorRef(ref.address, ref.uid)


async def spin(n=20):
    for _ in range(n):
        await asyncio.sleep(0)
