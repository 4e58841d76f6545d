"""The serial link: opening, waking, probing, losing and reopening it, for LinkTrace.

usage: link.py PROP SEED COUNT OUT [SCHEDULES]   (one JSON trace per line)
SCHEDULES: troubles from the specification (LinkGen), one JSON list per line.
"""
import asyncio
import atexit
import json
import os
import shutil
import tempfile
import random
import sys

import guard
from world import World, frame, load_table

import serial
from serial.tools.list_ports_common import ListPortInfo

import zigpy.types

from host import App, eui
from startup import Adapter, EPS, WIDTH, decode, wanted

TABLE = load_table()
DEFAULTS = {"baudrate": 9600, "bytesize": 8, "parity": "N", "stopbits": 1, "xonxoff": False,
            "rtscts": False, "dsrdtr": False}
SCRATCH = []
PLAIN = {"set": [], "chans": [], "key": [], "pan": 0, "ext": []}


class LinkWorld(World):
    def __init__(self):
        super().__init__()
        self.opens = 0
        self.on_port = None  # async, called while a port is being opened
        self.opener = self.opening

    async def opening(self, w, kw):
        if self.on_port is not None:
            await self.on_port(self.opens)

    def on_open(self, kw):
        self.opens += 1
        k = dict(DEFAULTS)
        k.update(kw)
        self.log("open", url=str(k.get("url")), baud=int(k["baudrate"]), bits=int(k["bytesize"]),
                 parity=str(k["parity"]), stop=int(k["stopbits"]) if k["stopbits"] != 1.5 else 15,
                 xon=bool(k["xonxoff"]), rts=bool(k["rtscts"]), dsr=bool(k["dsrdtr"]))

    def on_open_failed(self, kw):
        self.log("openfail")

    def on_opened(self, tr, kw):
        self.log("opened", id=tr.id)

    def on_close(self, tr):
        self.log("close", id=tr.id)

    def on_lost(self, tr):
        self.log("lost", id=tr.id)

    def on_write(self, tr, data):
        for kind, b in tr.splitter.feed(data):
            self.log("tx", id=tr.id, w=kind, b=b if kind == "raw" else [])
            if kind == "frame":
                for fn in list(self.listeners):
                    fn(tr, kind, bytes(b))


def info(dev, vid, pid):
    p = ListPortInfo(dev)
    if vid >= 0:
        p.vid, p.pid = vid, pid
        p.serial_number, p.location = "A1", "1-1"
        p.apply_usb_info()
    return p


def odd_paths():
    """Paths which are not the word "auto"."""
    if not SCRATCH:
        SCRATCH.append(tempfile.mkdtemp())
        atexit.register(shutil.rmtree, SCRATCH[0], True)
        for n in ("auto", "AUTO", "ttyauto"):
            open(os.path.join(SCRATCH[0], n), "w").close()
    return [os.path.join(SCRATCH[0], n) for n in ("auto", "AUTO", "ttyauto")]


def configuration(r, auto=0.5):
    """(for the specification, for the driver, ports attached)"""
    known = [(0x0451, 0x16A8), (0x0451, 0xBEF3), (0x1A86, 0x7523)]
    alien = [(0x0403, 0x6015), (0x1A86, 0x5523), (0x10C4, 0xEA60), (0x7523, 0x1A86), (0x1234, 0x0451),
             (0x1A86, r.choice([0x7522, 0x7524, 0x75, 0x55D4, 0x7500])), (r.choice([0x450, 0x452, 0x4510, 0x1A87]), 0x7523),
             (-1, -1)]
    n = r.choice([0, 1, 1, 1, 1, 2])
    ids = [r.choice(known) for _ in range(n)] + [r.choice(alien) for _ in range(r.randrange(4))]
    r.shuffle(ids)
    kind = r.choice(["/dev/ttyV%d", "/dev/ttyUSB%d", "/dev/ttyACM%d", "COM%d"])
    usb = [(kind % i, v, p) for i, (v, p) in enumerate(ids)]
    path = "auto" if r.random() < auto else r.choice(["/dev/null", "/dev/zero", "/tmp"] + odd_paths())
    baud = r.choice([115200, 115200, 9600, 38400, 1000000])
    flow = r.choice(["hardware", "software", "none", "none"])
    spec = {"path": path, "baud": baud, "flow": flow,
            "usb": [{"dev": d, "vid": v, "pid": p} for d, v, p in usb]}
    conf = {"path": path}
    if baud != 115200 or r.random() < 0.3:
        conf["baudrate"] = baud
    if flow != "none":
        conf["flow_control"] = flow
    elif r.random() < 0.3:
        conf["flow_control"] = None
    return spec, conf, [info(*u) for u in usb]


def good_adapter(r):
    prod = r.randrange(3)
    nv = {3: b"\0", 143: b"\1", 257: bytes(32), 135: b"\0"}
    nv.update(wanted(PLAIN))
    nv[0x0F00 if prod == 0 else 0x60] = b"\x55"
    return Adapter(prod, nv, r.choice([9, 9, 0]), r.choice([EPS, EPS, []]), [(242, 0x0B84)], True)


def other_adapter(r):
    """Another one, or one which lost its settings: it has to be set up."""
    ad = good_adapter(r)
    ad.dev, ad.eps, ad.groups, ad.net = 0, set(), set(), False
    ad.nv.pop(0x0F00 if ad.prod == 0 else 0x60)
    ad.nv[0x83] = b"\x12\x34"
    return ad


class LinkApp(App):
    """Says what it is told by the devices of the calls."""

    def handle_message(self, sender, profile, cluster, src_ep, dst_ep, message):
        w = self.world
        if w is None:
            return
        if int(cluster) == 6:
            w.log("noted", m=int(message[0]) if len(message) == 1 else -1)
        else:
            w.log("told", c=int(sender.nwk) - DEV if int(cluster) == 0x8002 else 0,
                  n=int(message[0]) if len(message) else -1)


DEV = 0x1000
ASK, DESC = (5, 2), (5, 130)
DESC_LEN = sum(WIDTH[t] for n, t in TABLE[DESC]["req"])


# ------------------------------------------------------------------ running application
class Link:
    """Troubles: dicts x, ph, n, at (index of a command, or None), t (ms)."""

    def __init__(self, r, setup, troubles, exact):
        self.r = r
        spec, conf, ports = setup
        self.spec = spec
        self.exact = exact
        w = self.w = LinkWorld()
        w.comports = ports
        w.on_port = self.on_port
        w.listeners.append(self.on_frame)
        self.ad = good_adapter(r)
        self.app = LinkApp(App.SCHEMA({"device": conf}))
        self.app.world = w
        self.calls = []  # what the adapter does about each
        self.notes = 0
        self.troubles = [dict(t, done=False) for t in troubles]
        self.count = {}  # commands seen on a port
        self.stopped = False
        self.nid = 10

    def trouble(self, x, **match):
        for t in self.troubles:
            if not t["done"] and t["x"] in x and all(t.get(k) == v for k, v in match.items()):
                t["done"] = True
                return t
        return None

    async def on_port(self, n):
        if self.trouble(("shutdown",), ph="opening", n=n):
            self.stop()
            await asyncio.sleep(3600)
        slow = self.trouble(("slow",), n=n)
        if slow:
            await asyncio.sleep(slow["t"] / 1000.0)
        if self.trouble(("openfail",), n=n):
            raise self.r.choice([serial.SerialException("no"), serial.SerialException(2, "no such file")])

    def stop(self):
        if self.stopped:
            return
        self.stopped = True
        kind = "closeapi" if self.r.random() < 0.2 and getattr(self.app, "_api", None) is not None else "shutdown"
        if kind == "closeapi" and any(e["k"] == "lost" for e in self.w.trace):
            kind = "shutdown"  # it may be about to reconnect

        async def run():
            self.w.log(kind)
            if kind == "shutdown":
                await self.app.shutdown()
            else:
                self.app._api.close()

        self.nid += 1
        self.w.start(self.nid, run())

    # --- calls across the comings and goings of the link ----------------------
    def call(self):
        r = self.r
        c, n = len(self.calls) + 1, r.randrange(256)
        accept = r.choice([0, 0, 0, 0, 0, 20, 500, 3000, 5990, None])
        reply = r.choice([0, 1, 20, 500, 4000, 9900, None])
        self.calls.append({"t": self.w.loop.ms, "accept": accept, "reply": reply,
                           "asked": 0, "replied": False})
        dev = self.app.add_device(eui([c, 2, 3, 4, 5, 6, 7, 9]), zigpy.types.NWK(DEV + c))
        nwk = (DEV + c).to_bytes(2, "little")

        def done(cid, t):
            ok = not t.cancelled() and t.exception() is None and t.result()[0] == 0
            self.w.log("callend", c=c, r="ok" if ok else "error")

        async def run():
            self.w.log("call", c=c, n=n)
            return await self.app.request(dev, 0, 2, 0, 0, n, bytes([n]) + nwk)

        self.nid += 1
        self.w.start(self.nid, run(), done)

    def asked(self, tr, p):
        w = self.w
        c = p["dstaddr"][0] - DEV
        plan = self.calls[c - 1]
        w.log("ask", c=c, id=tr.id)
        plan["asked"] = tr.id

        def accept():
            if not tr.closing:
                w.log("accept", c=c)
                tr.receive(frame(3, *ASK, b"\0"))

        def reply():
            if not tr.closing and w.loop.ms - plan["t"] <= 9900 and not plan["replied"]:
                plan["replied"] = True
                w.log("reply", c=c)
                a = (DEV + c).to_bytes(2, "little")
                tr.receive(frame(2, *DESC, a + b"\0" + a + bytes(DESC_LEN - 5)))

        for d, fn in ((plan["accept"], accept), (plan["reply"], reply)):
            if d is not None:
                if d:
                    w.loop.call_later(d / 1000.0, fn)
                else:
                    w.loop.call_soon(fn)

    def note(self):
        w = self.w
        if w.ports and not w.port.closing and self.count.get(w.port.id):
            d = self.r.randrange(len(self.calls) + 1)
            if d == 0:
                self.app.add_device(eui([0, 2, 3, 4, 5, 6, 7, 9]), zigpy.types.NWK(DEV))
            self.notes += 1
            w.log("note", m=self.notes)
            w.port.receive(frame(2, 4, 129, bytes([0, 0, 6, 0]) + (DEV + d).to_bytes(2, "little")
                                 + bytes([1, 1, 0, 77, 0, 0, 0, 0, 0, 1, 1, self.notes])))

    def on_frame(self, tr, kind, b):
        w, r = self.w, self.r
        ss, cid = b[2] & 31, b[3]
        if (ss, cid) == ASK:
            p = decode(TABLE[ASK]["req"], b[4:-1])
            if p and 0 < p["dstaddr"][0] - DEV <= len(self.calls):
                return self.asked(tr, p)
        i = self.count.get(tr.id, 0)
        self.count[tr.id] = i + 1
        c = TABLE.get((ss, cid))
        p = decode(c["req"], b[4:-1]) if c else None
        if p is None:
            return
        t = self.trouble(("silent", "reject", "lost", "shutdown"), n=tr.id, at=i)
        led = c["name"] == "ledControl"
        if t is not None:
            if t["x"] == "lost":
                tr.fail(self.r.choice([None, OSError("gone"), serial.SerialException("gone")]))
                return
            if t["x"] == "shutdown":
                w.loop.call_soon(self.stop)
                return
            if t["x"] == "reject" and c["rsp"] and c["rsp"][0][0] == "status" \
                    and not (c["name"] == "osalNvRead" and p["id"][0] in (0x60, 0x0F00)):
                if not led:
                    w.log("fault")
                rest = {"osalNvRead": b"\0", "readConfiguration": b"\x62\0", "extFindGroup": b"\0\0\0",
                        "getDeviceInfo": bytes(13)}.get(c["name"], b"")
                w.loop.call_soon(tr.receive, frame(3, ss, cid, bytes([r.choice([4, 5, 200])]) + rest))
                return
            if not led:
                w.log("fault")
            return
        st, rsp, later = self.ad.run(ss, c["name"], p)
        if st is None:
            return
        d = 0 if self.exact else r.choice([0, 0, 0, 0, 0.001, 0.02, 0.5])
        if rsp is not None:
            w.loop.call_later(d, tr.receive, frame(3, ss, cid, rsp)) if d else \
                w.loop.call_soon(tr.receive, frame(3, ss, cid, rsp))
        if "nine" in later and self.trouble(("noreport",), n=tr.id):
            w.log("fault")
            later = []
        for what in later:
            if what == "nine":
                def up(ad=self.ad):
                    if ad.formed():
                        tr.receive(frame(2, 5, 192, b"\x09"))

                w.loop.call_later(d, up)
            elif what == "eps":
                eps = sorted(self.ad.eps)
                w.loop.call_later(d, tr.receive,
                                  frame(2, 5, 133, bytes([0, 0, 0, 0, 0, len(eps)] + eps)))
            else:
                w.loop.call_later(d, tr.receive, frame(2, 1, 128, what[1]))

    def run(self, form):
        w, r = self.w, self.r
        app = self.app

        async def start():
            w.log("start")
            try:
                await app.startup(form)
            except asyncio.CancelledError:
                raise
            except Exception:
                # as zigpy does
                w.log("startend", r="error")
                self.stopped = True
                w.log("shutdown")
                await app.shutdown()
            else:
                w.log("startend", r="ok")

        task = w.start(1, start())
        timed = [t for t in self.troubles if t.get("at") is None
                 and t["x"] in ("lost", "shutdown", "call", "note") and t["ph"] != "opening"]
        for t in sorted(timed, key=lambda t: t["t"]):
            if t["t"] > w.loop.ms:
                w.loop.advance(t["t"] - w.loop.ms)
            if not self.exact or r.random() < 0.3:
                for _ in range(r.randrange(4)):
                    w.loop.iterate()
            if t["x"] in ("call", "note"):
                if task.done() and (t["x"] == "note" or not self.stopped or r.random() < 0.2):
                    for _ in range(t["n"]):
                        self.call() if t["x"] == "call" else self.note()
                    if r.random() < 0.5:
                        for _ in range(r.randrange(3)):
                            w.loop.iterate()
                        continue
            elif t["x"] == "lost" and w.ports:
                if r.random() < 0.2:
                    self.ad.power()  # the adapter loses its power, too
                if r.random() < 0.12:
                    self.ad = other_adapter(r)
                if not w.port.closing and r.random() < 0.2 and task.done() and not self.stopped:
                    self.nid += 1  # something is going on meanwhile
                    w.start(self.nid, app.permit_ncp(r.randrange(255)))
                    w.loop.iterate()
                w.port.fail(r.choice([None, OSError("gone"), serial.SerialException("gone")]))
                if r.random() < 0.3:
                    for _ in range(r.randrange(3)):
                        w.loop.iterate()
                    continue
            elif t["x"] == "shutdown" and task.done():
                self.stop()
            w.loop.settle()
        w.loop.advance(20000)
        n = 0
        while not task.done() and n < 600:
            w.loop.advance(1000)
            n += 1
        if not task.done():
            w.log("startend", r="hang")
        w.loop.advance(r.choice([20000, 100000]) + 12000 * max(0, len(self.troubles) - 10))
        w.log("end", runs=self.ad.dev == 9)
        if self.calls:
            w.loop.advance(r.choice([1, 150000]))
        if r.random() < 0.5 and task.done() and not self.stopped:
            self.call()
            w.loop.settle()
            self.note()
            w.loop.settle()
            w.loop.advance(r.choice([100, 12000]))
        if r.random() < 0.7:
            self.stop()
            w.loop.settle()
            w.loop.advance(150000 if self.calls else 30000)
            w.log("end", runs=True)
        for ctx in w.loop.loop_errors:
            if "exception" in ctx and "never retrieved" not in str(ctx.get("message")):
                w.log("escape", what=type(ctx["exception"]).__name__)
        tr = {"conf": self.spec, "ev": list(w.trace)}
        w.close()
        return tr


def random_troubles(r, calls=0.6, notes=0.25):
    out, t = [], r.choice([1500, 3000, 10000])
    if r.random() < 0.04:  # the adapter stays away for long
        n = r.choice([7, 12, 25, 60])
        out.append({"x": "lost", "n": 1, "ph": "any", "t": t, "at": None})
        for i in range(n):
            out.append({"x": r.choice(["openfail", "openfail", "silent", "lost"]), "n": i + 2, "ph": "opening", "at": 0})
        for x in out[1:]:
            x["at"] = None if x["x"] == "openfail" else r.randrange(3)
            x["ph"] = "opening" if x["x"] == "openfail" else "asking"
        out.append({"x": "shutdown" if r.random() < 0.2 else "lost", "n": 1, "ph": "any", "at": None,
                    "t": t + r.randrange(12000 * n)})
    for i in range(r.choice([0, 1, 2, 2, 3, 4, 5])):
        n = i + r.choice([1, 1, 1, 2])
        k = r.random()
        if k < 0.15:
            out.append({"x": "openfail", "n": n, "ph": "opening", "at": None})
        elif k < 0.25:
            out.append({"x": "slow", "n": n, "t": r.choice([1, 500, 4000, 8000]), "ph": "opening", "at": None})
        elif k < 0.28:
            out.append({"x": "noreport", "n": n, "ph": "asking", "at": None})
        elif k < 0.45:
            out.append({"x": r.choice(["silent", "reject"]), "n": n, "ph": "asking",
                        "at": r.randrange(r.choice([14, 14, 45]))})
        elif k < 0.6:
            out.append({"x": "lost", "n": n, "ph": "asking", "at": r.randrange(14)})
        elif k < 0.93:
            out.append({"x": "lost", "n": n, "ph": "any", "t": t, "at": None})
        else:
            out.append({"x": "shutdown", "n": n, "ph": r.choice(["any", "opening"]), "t": t,
                        "at": r.choice([None, None, r.randrange(14)]) if n > 1 else None})
        t += r.choice([1, 400, 999, 1000, 1001, 2000, 4999, 5000, 5001, 5500, 5999, 6000, 6001, 7000, 12000,
                       r.randrange(15000)])
    if r.random() < calls:
        lost = [x["t"] for x in out if x["x"] == "lost" and x["at"] is None] or [5000]
        for _ in range(r.choice([1, 1, 2, 3])):
            near = r.choice(lost) + r.choice([-3000, -1000, -400, -1, 0, 0, 1, 1000, 4999, 5000, 5500, 5999,
                                              6000, 6001, 6500, 9000, 30000])
            out.append({"x": "note" if r.random() < notes else "call", "n": r.choice([1, 1, 1, 2, 3, 5]),
                        "ph": "any", "t": max(near, 0), "at": None})
    # the first start can not be shut down from outside
    for x in out:
        if x["x"] == "shutdown" and x["ph"] == "opening" and x["n"] == 1:
            x["n"] = 2
    return out


def link_scheduled(r, sched):
    spec, conf, ports = configuration(r, 0)
    troubles = []
    for s in sched:
        at = None
        if s["ph"] == "asking" and not s["faulty"]:
            at = 0 if s["left"] == 2 else r.randrange(1, 12 if s["n"] > 1 else 3)
        troubles.append({"x": s["x"], "n": s["n"], "ph": s["ph"], "at": at, "t": s["t"]})
        if r.random() < 0.2:
            troubles.append({"x": "call", "n": r.choice([1, 2, 3]), "ph": "any", "at": None,
                             "t": max(0, s["t"] - r.choice([0, 1, 500]))})
    return Link(r, (spec, conf, ports), troubles, True).run(r.random() < 0.5)


# ------------------------------------------------------------------ probing
def probe_scene(r):
    spec, conf, ports = configuration(r, 0.3)
    w = LinkWorld()
    w.comports = ports
    opening = r.choice([0, 0, 0, 0, 1, 500, 950, 1000, 1500, 2100, 5000])
    fails = r.random() < 0.15
    hangs = r.random() < 0.05

    async def on_port(n):
        if opening:
            await asyncio.sleep(opening / 1000.0)
        if hangs:
            await asyncio.sleep(3600)
        if fails:
            raise r.choice([serial.SerialException("no"), serial.SerialException(13, "denied"),
                            serial.PortNotOpenError()])

    w.on_port = on_port
    good = bytes([2, r.randrange(256), 2, 7, 1, 1, 2, 3, 4])
    kind = r.choice(["good", "good", "good", "none", "short", "wrong", "areq", "sum", "surplus", "split",
                     "garbage-good", "early"])

    def deliver(tr):
        if tr.closing:
            return
        f = frame(3, 1, 2, good)
        if kind in ("good", "split", "surplus", "garbage-good"):
            if kind == "surplus":
                f = frame(3, 1, 2, good + bytes([7]))
            elif kind == "garbage-good":
                tr.receive(b"\x00\x01" + frame(2, 1, 128, bytes(6)) + b"\xfe\x01\x21\x77\x00\x12")
            if kind == "split":
                tr.receive(f[:4])
                tr.receive(f[4:-1])
                w.log("answer", id=tr.id)
                tr.receive(f[-1:])
            else:
                w.log("answer", id=tr.id)
                tr.receive(f)
        elif kind == "short":
            tr.receive(frame(3, 1, 2, good[: r.randrange(9)]))
        elif kind == "wrong":
            tr.receive(frame(3, 1, r.choice([1, 8, 3]), bytes([0, 0])))
        elif kind == "areq":
            tr.receive(frame(r.choice([1, 2]), 1, 2, good))
        elif kind == "sum":
            tr.receive(f[:-1] + bytes([f[-1] ^ 1]))

    def on_frame(tr, k, b):
        if k == "frame" and (b[2] & 31, b[3]) == (1, 2):
            d = r.choice([0, 0, 1, 300, 989, 999, 1001, 1500])
            if kind == "early":
                return
            if d:
                w.loop.call_later(d / 1000.0, deliver, tr)
            else:
                w.loop.call_soon(deliver, tr)

    w.listeners.append(on_frame)
    cancel = r.choice([0, 1, 500, 1000, 1001, 1500, 1999, r.randrange(2000)]) if r.random() < 0.25 else None
    loss = r.choice([0, 1, 999, 1000, 1001, 1500]) if r.random() < 0.2 else None

    async def run():
        w.log("probe")
        try:
            res = await App.probe(dict(conf))
        except asyncio.CancelledError:
            w.log("probeend", r="cancelled")
        except Exception:  # noqa
            w.log("probeend", r="raised")
        else:
            w.log("probeend", r="true" if res is True else "false" if res is False else "strange")

    task = w.start(1, run())
    moments = []
    if cancel is not None:
        moments.append((cancel, "cancel"))
    if loss is not None:
        moments.append((loss + (opening if r.random() < 0.7 else 0), "loss"))
    if kind == "early":
        moments.append((opening + r.choice([10, 500, 990]), "early"))
    for t, what in sorted(moments):
        if r.random() < 0.5 or t == 0:
            if t - w.loop.ms > 0:
                w.loop.advance(t - w.loop.ms)
        elif t - 1 - w.loop.ms > 0:
            w.loop.advance(t - 1 - w.loop.ms)
        for _ in range(r.randrange(4)):
            w.loop.iterate()
        if what == "cancel":
            if not task.done() and any(e["k"] == "probe" for e in w.trace):
                w.log("cancel")
                task.cancel()
        elif what == "loss" and w.ports:
            w.port.fail()
        elif what == "early" and w.ports and not w.port.closing:
            w.log("answer", id=w.port.id)
            w.port.receive(frame(3, 1, 2, good))
        w.loop.settle()
    w.loop.advance(10000)
    w.log("end", runs=True)
    tr = {"conf": spec, "ev": list(w.trace)}
    w.close()
    return tr


def scene(r, prop):
    if prop == "C20":
        return probe_scene(r)
    if prop == "C22":
        if r.random() < 0.4:
            return probe_scene(r)
        setup = configuration(r, 0.6)
        return Link(r, setup, random_troubles(r)[:2], True).run(r.random() < 0.3)
    setup = configuration(r)
    if prop == "C19":
        troubles = random_troubles(r)
    else:
        troubles = random_troubles(r, 0.95, {"C11": 0.7, "C09": 0.1}.get(prop, 0.15))
    return Link(r, setup, troubles, r.random() < 0.3).run(r.random() < 0.7)


def main():
    prop, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    jobs = [("link %s %s %d" % (prop, seed, i), lambda r: scene(r, prop)) for i in range(count)]
    if len(sys.argv) > 5:
        for line in open(sys.argv[5]):
            s = json.loads(line)
            jobs.append(("link %s %s %s" % (prop, seed, line.strip()), lambda r, s=s: link_scheduled(r, s)))

    def failed(what):
        return {"conf": {"path": "x", "baud": 1, "flow": "none", "usb": []},
                "ev": [{"k": "startend", "t": 0, "r": "hang"} if what == "hangs" else {"k": "fails", "t": 0}]}

    guard.record(jobs, out, failed)


if __name__ == "__main__":
    main()
