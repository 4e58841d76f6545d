"""The world around zigpy_cc: virtual time, a fake serial port, a recorder.

Nothing of zigpy_cc is replaced; only what it talks to is:
serial_asyncio.create_serial_connection and serial.tools.list_ports.comports.
"""
import asyncio
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import serial
import serial.tools.list_ports
import serial_asyncio

from vloop import VLoop

CURRENT = None  # the world in use (one at a time)


async def _create_serial_connection(loop, protocol_factory, *args, **kwargs):
    return await CURRENT.open_port(loop, protocol_factory, args, kwargs)


def _comports(include_links=False):
    return iter(CURRENT.comports)


serial_asyncio.create_serial_connection = _create_serial_connection
serial.tools.list_ports.comports = _comports

import logging

logging.disable(logging.CRITICAL)


class TxSplitter:
    """Cut what the driver writes into frames, by the length field only."""

    def __init__(self):
        self.buf = []

    def feed(self, data):
        out = []
        for b in data:
            self.buf.append(b)
            if self.buf[0] != 0xFE:
                out.append(("raw", self.buf))
                self.buf = []
            elif len(self.buf) >= 5 and len(self.buf) == self.buf[1] + 5:
                out.append(("frame", self.buf))
                self.buf = []
        return out


class FakeTransport(asyncio.Transport):
    def __init__(self, world, port_id, protocol):
        super().__init__()
        self.world = world
        self.id = port_id
        self.protocol = protocol
        self.closing = False
        self.lost = False
        self.splitter = TxSplitter()
        world.loop.call_soon(protocol.connection_made, self)

    def write(self, data):
        if self.closing or self.lost:
            return
        self.world.on_write(self, bytes(data))
        if self.world.refused:
            self.world.refused -= 1
            raise OSError("the port does not take this")

    def writelines(self, parts):
        self.write(b"".join(parts))

    def is_closing(self):
        return self.closing

    def get_write_buffer_size(self):
        return 0

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def abort(self):
        self.close()

    def close(self):
        if not self.closing:
            self.closing = True
            self.world.on_close(self)
            self.world.loop.call_soon(self.protocol.connection_lost, None)
        elif self.lost:
            self.world.on_close(self)

    # --- called by the world -------------------------------------------------
    def fail(self, exc=None):
        """The serial port goes away (read error)."""
        if not self.closing:
            self.closing = True
            self.lost = True
            self.world.on_lost(self)
            self.world.loop.call_soon(
                self.protocol.connection_lost, exc or serial.SerialException("gone")
            )

    def receive(self, data):
        """Bytes arrive; returns the exception that escaped, if any."""
        if self.closing:
            return None
        try:
            self.world.loop.call_in_loop(self.protocol.data_received, bytes(data))
        except (Exception, asyncio.CancelledError) as e:  # noqa
            return e
        return None


def xor(data):
    r = 0
    for b in data:
        r ^= b
    return r


def frame(ty, ss, cid, data=b""):
    body = bytes([len(data), ty << 5 | ss, cid]) + bytes(data)
    return b"\xfe" + body + bytes([xor(body)])


class World:
    def __init__(self):
        global CURRENT
        CURRENT = self
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        self.trace = []
        self.ports = []
        self.comports = []
        self.tasks = {}
        self.task_ids = {}
        self.opener = None  # async (world, kwargs) -> None, may raise
        self.listeners = []  # called with (transport, kind, bytes)
        self.recording = True
        self.refused = 0  # how many writes the port refuses

    # --- recording -----------------------------------------------------------
    def log(self, k, **f):
        if self.recording:
            ev = {"k": k, "t": self.loop.ms}
            ev.update(f)
            self.trace.append(ev)

    def current_id(self):
        try:
            task = asyncio.current_task(self.loop)
        except RuntimeError:
            task = None
        return self.task_ids.get(task, 0) if task is not None else 0

    # --- serial --------------------------------------------------------------
    async def open_port(self, loop, protocol_factory, args, kwargs):
        kw = dict(kwargs)
        if args:
            kw["url"] = args[0]
        self.on_open(kw)
        if self.opener is not None:
            try:
                await self.opener(self, kw)
            except asyncio.CancelledError:
                self.on_open_failed(kw)
                raise
            except Exception:
                self.on_open_failed(kw)
                raise
        protocol = protocol_factory()
        tr = FakeTransport(self, len(self.ports) + 1, protocol)
        self.ports.append(tr)
        self.on_opened(tr, kw)
        return tr, protocol

    @property
    def port(self):
        return self.ports[-1]

    def on_open(self, kw):
        pass

    def on_open_failed(self, kw):
        pass

    def on_opened(self, tr, kw):
        pass

    def on_close(self, tr):
        pass

    def on_lost(self, tr):
        pass

    def on_write(self, tr, data):
        for kind, b in tr.splitter.feed(data):
            self.log("tx", b=b, id=self.current_id(), w=kind)
            for fn in [] if self.refused else list(self.listeners):
                fn(tr, kind, bytes(b))

    # --- calls ---------------------------------------------------------------
    def start(self, cid, coro, done=None):
        """Run a coroutine as the call `cid`."""
        task = self.loop.create_task(coro)
        self.tasks[cid] = task
        self.task_ids[task] = cid
        if done is not None:
            task.add_done_callback(lambda t: done(cid, t))
        return task

    def close(self):
        self.recording = False
        try:
            for _ in range(20):
                pending = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
                if not pending:
                    break
                for t in pending:
                    t.cancel()
                self.loop.settle()
        except Exception:
            pass
        for t in self.tasks.values():
            if t.done() and not t.cancelled():
                t.exception()
        self.loop._ready.clear()
        self.loop._scheduled.clear()
        self.loop.close()


def outcome(task):
    """What became of a finished task, in words of the specification."""
    from zigpy_cc.exception import CommandError

    if task.cancelled():
        return {"kind": "cancelled"}
    e = task.exception()
    if e is None:
        return {"kind": "ok"}
    if isinstance(e, CommandError):
        st = e.status
        return {"kind": "rejected", "status": int(st) if isinstance(st, int) else -1}
    if isinstance(e, asyncio.TimeoutError):
        return {"kind": "timeout"}
    return {"kind": "error", "what": type(e).__name__}


# --- payload values as sequences of integers (see spec/Codec.tla) ---------------
def ints(t, v):
    try:
        if t == "UINT32":
            n = int(v)
            return [n >> 16, n & 0xFFFF]
        if t in ("UINT8", "UINT16", "INT8", "ADDRMODE"):
            if not isinstance(v, int):
                return [-999999]
            n = int(v)
            return [n] if abs(n) < 2**30 else [-999998]
        if t == "IEEEADDR":
            return [int(b) for b in v.serialize()]
        if t == "LIST_NEIGHBOR_LQI":
            out = []
            for n in v:
                out += [int(b) for b in n["extPanId"].serialize()]
                out += [int(b) for b in n["extAddr"].serialize()]
                out += [
                    int(n[x])
                    for x in (
                        "nwkAddr",
                        "deviceType",
                        "rxOnWhenIdle",
                        "relationship",
                        "permitJoin",
                        "depth",
                        "lqi",
                    )
                ]
            return out
        return [int(b) for b in v]
    except Exception:
        return [-999999]


def message(obj, table):
    """A message object of the driver as the specification sees it."""
    try:
        ty, ss, cid = int(obj.command_type), int(obj.subsystem), int(obj.command_id)
    except Exception:
        return {"ty": -1, "ss": -1, "id": -1, "name": "?", "p": {}}
    c = table.get((ss, cid))
    types = dict(c["rsp"] if ty == 3 else c["req"]) if c else {}
    p = {}
    try:
        for n, v in obj.payload.items():
            p[str(n)] = ints(types.get(n, "?"), v)
    except Exception:
        p = {"?": [-1]}
    return {"ty": ty, "ss": ss, "id": cid, "name": str(obj.command), "p": p}


def load_table():
    import json

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cmds = json.load(open(os.path.join(here, "spec", "mtcmds.json")))
    return {(c["ss"], c["id"]): c for c in cmds}
