"""Executions of the real application against a scripted adapter, recorded for HostTrace.

usage: host.py PROP SEED COUNT OUT [SCHEDULES]    (one JSON trace per line)
SCHEDULES: a file of schedules (one JSON list of steps per line) from the specification.
"""
import asyncio
import json
import random
import sys

import guard
import world
from world import World, frame, load_table, message, outcome
from wire import (
    EMPTY, UNREADABLE, RECEIVABLE, WRITABLE, bad_frame, gen_values, good_frame, noise,
    py_value, spec_value, wire_data,
)

import zigpy.config
import zigpy.device
import zigpy.types
from zigpy_cc.exception import CommandError
from zigpy_cc.types import CommandType, Subsystem
from zigpy_cc.zigbee.application import ControllerApplication

TABLE = load_table()
BYNAME = {(c["ss"], c["name"]): c for c in TABLE.values()}
SREQ, AREQ, SRSP = 1, 2, 3
SYS, AF, ZDO, SAPI, UTIL = 1, 4, 5, 6, 7

zigpy.device.Device.schedule_initialize = lambda self: None
zigpy.device.Device.schedule_group_membership_scan = lambda self: None

REPLIES = {2: 130, 4: 132, 5: 133, 33: 161, 49: 177, 54: 182}


class App(ControllerApplication):
    world = None

    def handle_message(self, sender, profile, cluster, src_ep, dst_ep, message):
        w = self.world
        if w is not None:
            lqi = sender.lqi
            w.log(
                "msg",
                ieee=[int(b) for b in sender.ieee.serialize()],
                cl=int(cluster),
                se=int(src_ep),
                de=int(dst_ep),
                data=[int(b) for b in message],
                lqi=int(lqi) if isinstance(lqi, int) else -2,
            )

    def handle_join(self, nwk, ieee, parent_nwk):
        w = self.world
        if w is not None:
            w.log("join", nwk=int(nwk), ieee=[int(b) for b in ieee.serialize()])
        super().handle_join(nwk, ieee, parent_nwk)


def eui(b):
    return zigpy.types.EUI64([zigpy.types.uint8_t(x) for x in b])


COORD = [1, 2, 3, 4, 5, 6, 7, 8]


def some_status(r):
    """Something else than success: the codes of Z-Stack, or anything."""
    return r.choice([r.randrange(1, 0x1C), r.randrange(1, 256), r.randrange(1, 256),
                     r.choice([1, 2, 9, 0xB7, 0xC7, 0xE1, 0xE9, 0xF0])])


class Host:
    """A started application and the adapter behind it."""

    def __init__(self, prod, devs):
        self.w = w = World()
        self.prod = prod
        self.app = App(App.SCHEMA({"device": {"path": "/dev/null"}}))
        self.nid = 100
        self.started = set()
        self.ended = set()
        self.sent = []  # frames of the driver which need an answer
        self.closed = False
        w.recording = False
        w.listeners.append(self.boot)
        task = w.start(1, self.app.startup())
        w.loop.advance(3000)
        if not task.done():
            raise RuntimeError("startup does not end")
        task.result()
        w.listeners.clear()
        self.api = self.app._api
        self.devs = [{"ieee": COORD, "nwk": 0}]
        for ieee, nwk in devs:
            self.app.add_device(eui(ieee), zigpy.types.NWK(nwk))
            self.devs.append({"ieee": list(ieee), "nwk": nwk})
        self.start_devs = [dict(d) for d in self.devs]
        w.loop.settle()
        w.trace.clear()
        w.recording = True
        self.app.world = w
        w.listeners.append(self.on_frame)

    def boot(self, tr, kind, b):
        if kind != "frame":
            return
        ss, cid = b[2] & 31, b[3]
        if (ss, cid) == (SYS, 1):
            d = b"\x79\x01"
        elif (ss, cid) == (SYS, 2):
            d = bytes([2, self.prod, 2, 7, 1]) + b"\0\0\0\0"
        elif (ss, cid) == (UTIL, 0):
            d = b"\0" + bytes(COORD) + b"\0\0\x07\x09\0"
        else:
            return
        self.w.loop.call_soon(tr.receive, frame(SRSP, ss, cid, d))

    def on_frame(self, tr, kind, b):
        if kind == "frame":
            self.sent.append(b)

    # --- calls ---------------------------------------------------------------
    def call(self, op, a, make):
        """make() -> coroutine; a: arguments as the specification sees them."""
        self.nid += 1
        cid = self.nid
        w = self.w

        async def run():
            w.log("call", id=cid, op=op, a=a() if callable(a) else a)
            self.started.add(cid)
            try:
                r = await make()
            except asyncio.CancelledError:
                res = {"kind": "cancelled"}
            except CommandError as e:
                res = {"kind": "rejected", "status": int(e.status)}
            except asyncio.TimeoutError:
                res = {"kind": "timeout"}
            except Exception as e:  # noqa
                res = {"kind": "error", "what": type(e).__name__}
            else:
                res = self.result(op, r)
            self.ended.add(cid)
            w.log("ret", id=cid, r=res)

        w.start(cid, run())
        return cid

    def result(self, op, r):
        if op in ("req", "mreq", "bcast"):
            try:
                status, text = r
            except Exception:  # noqa
                return {"kind": "error", "what": "no status"}
            if not isinstance(status, int) or not isinstance(text, str) or not text:
                return {"kind": "error", "what": "no explanation"}
            return {"kind": "status", "status": int(status)}
        if r is None:
            return {"kind": "ok", "m": {"name": "none"}}
        if op == "permit":
            return {"kind": "error", "what": "result"}
        return {"kind": "ok", "m": message(r, TABLE)}

    def direct(self, r, c, acc, vals=None):
        if vals is None:
            while True:
                vals = gen_values(r, c["req"], 6)
                if len(wire_data(c["req"], vals)) <= 250:
                    break
        a = {
            "ss": c["ss"],
            "name": c["name"],
            "acc": [0] if acc is None else list(acc),
            "p": {n: spec_value(t, v) for (n, t), v in zip(c["req"], vals)},
        }
        payload = {n: py_value(r, t, v) for (n, t), v in zip(c["req"], vals)}
        api = self.api
        return self.call(
            "direct", a,
            lambda: api.request(Subsystem(c["ss"]), c["name"], payload, expected_status=acc),
        )

    def req(self, dev, prof, cl, se, de, tsn, data, reply):
        def a():  # the address the device has when the call starts
            return {"nwk": dev["nwk"], "prof": prof, "cl": cl, "se": se, "de": de, "tsn": tsn,
                    "data": list(data), "reply": reply}

        d = self.app.get_device(ieee=eui(dev["ieee"]))
        return self.call(
            "req", a,
            lambda: self.app.request(d, prof, cl, se, de, tsn, bytes(data), expect_reply=reply),
        )

    def mreq(self, grp, prof, cl, se, tsn, data):
        a = {"grp": grp, "prof": prof, "cl": cl, "se": se, "tsn": tsn, "data": list(data)}
        return self.call(
            "mreq", a, lambda: self.app.mrequest(grp, prof, cl, se, tsn, bytes(data))
        )

    def bcast(self, addr, prof, cl, se, de, radius, tsn, data, grp=0):
        a = {"addr": addr, "prof": prof, "cl": cl, "se": se, "de": de, "radius": radius,
             "tsn": tsn, "data": list(data)}
        ba = zigpy.types.BroadcastAddress(addr)
        return self.call(
            "bcast", a,
            lambda: self.app.broadcast(prof, cl, se, de, grp, radius, tsn, bytes(data), ba),
        )

    def permit(self, dur):
        return self.call("permit", {"dur": dur}, lambda: self.app.permit_ncp(dur))

    def broken(self, r, app):
        """A call which cannot be turned into a frame."""
        api, application = self.api, self.app
        if not app:
            c = r.choice([c for c in DIRECT if c["req"]])
            vals = gen_values(r, c["req"], 3)
            payload = {n: py_value(r, t, v) for (n, t), v in zip(c["req"], vals)}
            n, t = r.choice(c["req"])
            how = r.choice(["missing", "none", "large"])
            if how == "missing":
                del payload[n]
            elif how == "none" or t not in ("UINT8", "UINT16", "UINT32"):
                payload[n] = None
            else:
                payload[n] = r.choice([-1, 1 << 32])

            def make():
                return api.request(Subsystem(c["ss"]), c["name"], payload)
        else:
            d = r.choice(list(application.devices.values()))
            tsn, n = r.randrange(256), r.choice([250, 255, 256, 300])
            make = r.choice([
                lambda: application.request(d, 260, 6, 1, 1, tsn, bytes(n)),
                lambda: application.request(d, 260, 6, 1, 1, 256, b"1"),
                lambda: application.request(d, 0, r.choice([2, 5]), 0, 0, tsn, bytes([tsn])),
                lambda: application.request(d, 0, 0x7777, 0, 0, tsn, bytes([tsn])),
                lambda: application.mrequest(3, 260, 6, 1, tsn, bytes(n)),
                lambda: application.broadcast(
                    260, 6, 1, 255, 0, r.choice([1, 30]), tsn, bytes(n),
                    zigpy.types.BroadcastAddress.ALL_DEVICES),
                lambda: application.broadcast(260, 6, 1, 256, 0, 1, tsn, b"1"),
            ])
        return self.call("broken", {"app": app}, make)

    def wait(self, ty, ss, name, match, lim):
        a = {"ty": ty, "ss": ss, "name": name,
             "match": [[n, spec_value(t, v)] for n, t, v in match], "lim": lim}
        payload = {n: (eui(v) if t == "IEEEADDR" else bytes(v) if isinstance(v, list) else v)
                   for n, t, v in match}
        api = self.api
        return self.call(
            "wait", a,
            lambda: api.wait_for(CommandType(ty), Subsystem(ss), name, payload, lim).wait(),
        )

    def cancel(self, cid):
        task = self.w.tasks[cid]
        if cid in self.started and cid not in self.ended:
            self.w.log("cancel", id=cid)
        task.cancel()

    def close(self):
        """The application is shut down."""
        w = self.w
        self.closed = True

        async def run():
            w.log("close")
            await self.app.shutdown()
            w.log("closed")

        w.start(99, run())
        w.loop.iterate()

    def refuse(self):
        """The serial port will refuse the next write."""
        self.w.log("refuse")
        self.w.refused += 1

    def active(self):
        return [c for c in self.w.tasks if c > 100 and not self.w.tasks[c].done()]

    # --- what the adapter sends ----------------------------------------------
    def rx(self, *parts):
        """Frames (or junk) arriving in one read."""
        if self.closed:
            return
        chunk = b""
        for p in parts:
            fs = whole(p)
            chunk += p
            for f in fs:
                self.w.log("rx", f=f)
        n = len(self.w.trace)
        esc = self.w.port.receive(chunk)
        if esc is not None:
            self.w.log("escape", what=type(esc).__name__)

    def answer(self, b, status=0, r=None):
        """The response (or reset report) to the written frame b."""
        ty, ss, cid = b[2] >> 5, b[2] & 31, b[3]
        c = TABLE.get((ss, cid))
        if ty == AREQ:
            c = TABLE[(SYS, 128)]
            return frame(AREQ, SYS, 128, wire_data(c["req"], gen_values(r or random.Random(1), c["req"])))
        if any(t in UNREADABLE for _, t in c["rsp"]):
            return None
        vals = gen_values(r or random.Random(1), c["rsp"], 4)
        for i, (n, _) in enumerate(c["rsp"]):
            if n == "status":
                vals[i] = status
        return frame(SRSP, ss, cid, wire_data(c["rsp"], vals))

    def finish(self):
        """Let everything end, then some time pass."""
        self.calm()
        self.w.log("end")

    def calm(self):
        w = self.w
        w.loop.settle()
        end = w.loop.ms + 400000
        while self.active() and w.loop.ms < end:
            w.loop.advance(1000)
        w.loop.advance(12000)

    def trace(self):
        tr = {"prod": self.prod, "devs": self.start_devs, "ev": list(self.w.trace)}
        self.w.close()
        return tr


def whole(b):
    """Split good bytes into frames (for the record)."""
    out = []
    p = 0
    while p < len(b):
        if b[p] != 0xFE:
            p += 1
            continue
        n = b[p + 1]
        f = b[p : p + n + 5]
        if world.xor(f[1:-1]) == f[-1]:
            out.append({"ty": f[2] >> 5, "ss": f[2] & 31, "id": f[3], "data": list(f[4:-1])})
        p += n + 5
    return out


# ------------------------------------------------------------------ random scenarios
DIRECT = [c for c in TABLE.values() if all(t in WRITABLE for _, t in c["req"]) and c["ty"] in (1, 2)
          and c["ss"] != 0]
RESETS = [c for c in DIRECT if (c["ss"], c["id"]) in ((SYS, 0), (SAPI, 9))]
SLOW = [c for c in DIRECT if c["name"] in ("bdbStartCommissioning", "startupFromApp")]
ONEWAY = [c for c in DIRECT if c["ty"] == AREQ and c not in RESETS]
SYNC = [c for c in DIRECT if c["ty"] == SREQ and c not in SLOW
        and not any(t in UNREADABLE for _, t in c["rsp"])]
NOSTATUS = [c for c in SYNC if not any(n == "status" for n, _ in c["rsp"])]
COMMON = [BYNAME[x] for x in ((SYS, "ping"), (SYS, "version"), (SYS, "osalNvRead"), (SYS, "osalNvWrite"),
                              (UTIL, "getDeviceInfo"), (AF, "register"), (ZDO, "extFindGroup"))]
WAITS = [
    (ZDO, "stateChangeInd", [("state", "UINT8", [8, 9])]),
    (ZDO, "stateChangeInd", []),
    (ZDO, "activeEpRsp", [("srcaddr", "UINT16", [0, 0x1234])]),
    (AF, "dataConfirm", [("transid", "UINT8", [1, 2]), ("status", "UINT8", [0, 1])]),
    (SYS, "resetInd", []),
    (SYS, "osalTimerExpired", [("id", "UINT8", [1, 2])]),
    (ZDO, "tcDeviceInd", [("nwkaddr", "UINT16", [5, 6])]),
]
TIMES = [1, 10, 99, 100, 101, 150, 199, 200, 201, 400, 1000, 2000, 3000, 5800, 5999, 6000, 6001,
         9999, 10000, 10001, 10120, 10300, 13000, 19999, 20000, 29999, 30000]

LONG = 0.004  # how many of the scenarios are long
MANY = 0.012  # in how many of them many requests come and go

FOCUS = {
    # weights of the kinds of actions per property
    "C03": dict(direct=6, zdo=4, badmix=9, answer=7, reply=4, incoming=4, announce=1, ind=2, wait=2,
                permitind=1, adv=2, req=1),
    "C05": dict(refuse=0.3, direct=8, oneway=2, reset=1, req=2, cancel=3, answer=8, foreign=2, adv=3, late=1,
                wait=1, permitind=1),
    "C06": dict(direct=8, answer=8, foreign=6, dup=4, cancel=1, adv=2, late=3, ind=2),
    "C07": dict(refuse=1, direct=7, slow=2, req=2, permit=1, cancel=3, answer=4, adv=6, late=4, dup=1,
                broken=2, brokenapp=1),
    "C08": dict(reset=5, oneway=3, wait=6, direct=3, resetind=4, ind=8, answer=4, adv=4, cancel=2, foreign=1),
    "C09": dict(zdo=8, reply=9, answer=8, wrongreply=4, dup=2, adv=2, cancel=1, direct=1, foreign=1),
    "C10": dict(refuse=0.6, zdo=8, brokenapp=2, req=2, mreq=3, bcast=3, reply=6, answer=5, reject=6, cancel=3, adv=3, wrongreply=1),
    "C11": dict(incoming=10, ext=5, announce=1, takeover=0.5, foreign=3, unknown=3, zdo=2, reply=2, answer=3, bad=1),
    "C12": dict(announce=6, takeover=1, incoming=6, ext=2, unknown=2, zdo=2, reply=2, answer=3, foreign=1),
    "C13": dict(brokenapp=1, req=6, zdo=4, mreq=5, bcast=5, answer=14, permit=1, adv=3),
    "C14": dict(refuse=0.6, burst=2, brokenapp=1, req=6, mreq=4, bcast=4, permit=2, zdo=2, answer=9, reject=2, cancel=3, adv=5, direct=1, settleadv=5),
    "C21": dict(refuse=0.5, permit=4, permitind=8, permitrsp=3, answer=6, reject=3, adv=3, direct=1, zdo=1, req=1, cancel=1),
}


class Scenario:
    def __init__(self, r, focus):
        self.r = r
        self.focus = focus
        prod = r.choice([0, 1, 1, 2] if focus in ("C14",) else [0, 1, 2])
        devs = []
        for i in range(r.randrange(2, 5)):
            devs.append(([r.randrange(256) for _ in range(8)], self.new_nwk([d[1] for d in devs])))
        self.h = Host(prod, devs)
        self.pending = []  # frames not answered yet
        self.answered = []
        self.h.sent.clear()
        self.asked = []  # (device, cluster, tsn) of zdo requests
        self.tsn = r.randrange(256)
        self.unused = [self.new_nwk([d["nwk"] for d in self.h.devs]) for _ in range(2)]

    def new_nwk(self, used):
        while True:
            n = self.r.choice([1, 0x00FF, 0x0100, 0xFFF7, 0x1234, self.r.randrange(1, 0xFFF0)])
            if n not in used:
                return n

    def next_tsn(self):
        self.tsn = (self.tsn + 1) % 256
        return self.r.choice([0, 1, 255, self.tsn, self.tsn, self.tsn])

    def dev(self):
        return self.r.choice(self.h.devs[1:])

    def target(self):
        """Now and then the adapter itself."""
        return self.r.choice(self.h.devs) if self.r.random() < 0.15 else self.dev()

    def payload(self):
        n = self.r.choice([0, 1, 2, 3, 10, 60, 99] * 4 + [self.r.randrange(100)] * 4
                          + [100, 127, 128, 129, self.r.randrange(100, 230), 230])
        return [self.r.choice([0xFE, self.r.randrange(256)]) for _ in range(n)]

    def take_sent(self):
        self.pending += [b for b in self.h.sent if b[2] >> 5 == SREQ or (b[2] & 31, b[3]) in ((SYS, 0), (SAPI, 9))]
        self.h.sent.clear()
        del self.pending[:-6]

    # --- actions -------------------------------------------------------------
    def a_direct(self):
        r = self.r
        c = r.choice(r.choice([COMMON, COMMON, SYNC, NOSTATUS]))
        self.h.direct(r, c, r.choice([None, None, None, [0, 2], [0, 1, 9], [255]]))

    def a_slow(self):
        self.h.direct(self.r, self.r.choice(SLOW), self.r.choice([None, [0, 1]]))

    def a_oneway(self):
        self.h.direct(self.r, self.r.choice(ONEWAY), None)

    def a_reset(self):
        self.h.direct(self.r, self.r.choice(RESETS), None)

    def a_req(self):
        r = self.r
        prof = r.choice([260, 260, 0xC05E, 0xA1E0, 1, 0xFFFF, r.randrange(1, 65536)])
        self.h.req(self.target(), prof, r.choice([0, 6, 0xFFFF, r.randrange(65536)]), r.randrange(256),
                   r.randrange(256), self.next_tsn(), self.payload(), r.random() < 0.7)

    def zdo_data(self, cl, tsn, dev):
        """Payload of a request as the application layer makes it."""
        r = self.r
        nwk = (dev["nwk"] if r.random() < 0.9 else r.randrange(65536)).to_bytes(2, "little")
        if cl in (2, 5):
            return [tsn] + list(nwk)
        if cl == 4:
            return [tsn] + list(nwk) + [r.randrange(256)]
        if cl in (33, 34):
            return ([tsn] + [r.randrange(256) for _ in range(8)] + [r.randrange(256)]
                    + [r.randrange(256), r.randrange(256), 3]
                    + [r.randrange(256) for _ in range(8)] + [r.randrange(256)])
        if cl == 49:
            return [tsn, r.randrange(256)]
        if cl == 54:
            return [tsn, r.randrange(256), r.choice([0, 1])]
        return [tsn]

    def a_zdo(self):
        r = self.r
        d = self.dev() if r.random() < 0.9 else self.h.devs[0]
        cl = r.choice([2, 4, 5, 5, 33, 49, 54])
        if self.asked and r.random() < 0.6:  # the same kind to the same device again
            dn, cl, _ = self.asked[-1]
            d = next((x for x in self.h.devs if x["nwk"] == dn), d)
        tsn = self.next_tsn()
        self.h.req(d, 0, cl, 0, 0, tsn, self.zdo_data(cl, tsn, d), r.random() < 0.85)
        self.asked.append((d["nwk"], cl, tsn))
        del self.asked[:-5]

    def a_burst(self):
        r = self.r
        kinds = [self.a_req, self.a_req, self.a_mreq, self.a_bcast, self.a_permit, self.a_zdo]
        one = r.choice(kinds)
        for _ in range(r.choice([3, 4, 17, 19])):
            (one if r.random() < 0.7 else r.choice(kinds))()

    def a_mreq(self):
        r = self.r
        prof = r.choice([260, 0xC05E, r.randrange(1, 65536)])
        self.h.mreq(r.randrange(65536), prof, r.randrange(65536), r.choice([0, 1, r.randrange(256)]),
                    self.next_tsn(), self.payload())

    def a_bcast(self):
        r = self.r
        addr = r.choice([0xFFFC, 0xFFFD, 0xFFFF])
        if r.random() < 0.25:
            tsn = self.next_tsn()
            self.h.bcast(0xFFFC, 0, 54, 0, 0, r.randrange(31), tsn, [tsn, r.randrange(256), r.choice([0, 1])])
        else:
            self.h.bcast(addr, r.choice([260, r.randrange(1, 65536)]), r.randrange(65536), r.randrange(256),
                         r.randrange(256), r.choice([0, 1, 30, 255]), self.next_tsn(), self.payload(),
                         r.choice([0, 0, 1, r.randrange(65536)]))

    def a_permit(self):
        self.h.permit(self.r.choice([0, 1, 60, 253, 254, self.r.randrange(255)]))

    def a_broken(self):
        self.h.broken(self.r, False)

    def a_brokenapp(self):
        self.h.broken(self.r, True)

    def a_refuse(self):
        self.h.refuse()

    def a_close(self):
        if not self.h.closed:
            self.h.close()

    def a_wait(self):
        r = self.r
        ss, name, fields = r.choice(WAITS)
        m = [(n, t, r.choice(vs)) for n, t, vs in fields if r.random() < 0.8]
        self.h.wait(AREQ, ss, name, m, r.choice([1000, 5000, 10000, 60000]))

    def a_cancel(self):
        act = self.h.active()
        if act:
            self.h.cancel(self.r.choice(act[:3] + [self.r.choice(act)]))

    def send(self, *frames):
        fs = [f for f in frames if f]
        if fs:
            self.h.rx(*fs)

    def a_answer(self, status=None):
        self.take_sent()
        if not self.pending:
            return
        b = self.pending.pop(-1)
        r = self.r
        if status is None:
            status = 0 if r.random() < 0.75 else some_status(r)
        self.answered.append(b)
        del self.answered[:-4]
        self.send(self.h.answer(b, status, r))

    def a_reject(self):
        self.a_answer(some_status(self.r))

    def a_dup(self):
        """A response a second time."""
        if self.answered:
            b = self.r.choice(self.answered)
            self.send(self.h.answer(b, self.r.choice([0, 1]), self.r))

    def a_late(self):
        """A response to something sent before."""
        self.take_sent()
        if self.pending:
            self.send(self.h.answer(self.pending[0], self.r.choice([0, 0, 1]), self.r))

    def a_foreign(self):
        r = self.r
        if self.pending and r.random() < 0.25:  # what was sent comes back, or as another kind of frame
            b = r.choice(self.pending)
            self.send(frame(r.choice([0, 1, 1, 2, 2]), b[2] & 31, b[3], b[4:-1]))
        elif r.random() < 0.6:
            c = r.choice(SYNC)
            self.send(frame(SRSP, c["ss"], c["id"], wire_data(c["rsp"], gen_values(r, c["rsp"], 4))))
        else:
            f = good_frame(r)
            if r.random() < 0.5:
                f = self.about_known() or f
            # a random announcement could give an address to two devices
            if not (f[2] == 0x45 and f[3] == 193):
                self.send(f)

    def about_known(self):
        """Any report of the adapter, about devices which are known."""
        r = self.r
        ty, c, params = r.choice([x for x in RECEIVABLE if x[0] == AREQ and any(
            "addr" in n and t in ("UINT16", "IEEEADDR") for n, t in x[2])])
        if any(t in UNREADABLE for _, t in params):
            return None
        vals = gen_values(r, params)
        for i, (n, t) in enumerate(params):
            if "addr" in n and r.random() < 0.8:
                d = r.choice(self.h.devs)
                vals[i] = d["nwk"] if t == "UINT16" else d["ieee"] if t == "IEEEADDR" else vals[i]
        d = wire_data(params, vals)
        return frame(ty, c["ss"], c["id"], d) if len(d) <= 250 else None

    def a_bad(self):
        self.h.rx(bad_frame(self.r))

    def a_badmix(self):
        """Bad frames and good ones in one read."""
        r = self.r
        nwk = self.dev()["nwk"]
        parts = [bad_frame(r) for _ in range(r.choice([1, 1, 2]))]
        self.take_sent()
        if self.pending and r.random() < 0.6:
            b = self.pending.pop(-1)
            parts.append(self.h.answer(b, r.choice([0, 0, 0, 1]), r))
        if self.asked and r.random() < 0.4:
            parts.append(self.reply_frame(*self.asked[-1][:2]))
        if r.random() < 0.4:
            parts.append(self.incoming(nwk))
        r.shuffle(parts)
        self.send(*parts)

    def a_ind(self):
        r = self.r
        ss, name, fields = r.choice(WAITS)
        c = BYNAME[(ss, name)]
        vals = gen_values(r, c["req"], 3)
        for i, (n, _) in enumerate(c["req"]):
            for fn, _, vs in fields:
                if fn == n:
                    vals[i] = r.choice(vs + [7])
        self.send(frame(AREQ, ss, c["id"], wire_data(c["req"], vals)))

    def a_resetind(self):
        self.send(frame(AREQ, SYS, 128, bytes(self.r.randrange(256) for _ in range(6))))

    def reply_frame(self, nwk, cl):
        r = self.r
        c = TABLE[(ZDO, REPLIES[cl])]
        vals = gen_values(r, c["req"], 5)
        vals[0] = nwk
        return frame(AREQ, ZDO, c["id"], wire_data(c["req"], vals))

    def a_reply(self):
        if self.asked:
            nwk, cl, _ = self.r.choice(self.asked)
            f = self.reply_frame(nwk, cl)
            self.send(f)
            if self.r.random() < 0.15:
                self.send(f)

    def a_wrongreply(self):
        r = self.r
        nwk = r.choice(self.h.devs)["nwk"] if r.random() < 0.7 else r.choice(self.unused)
        self.send(self.reply_frame(nwk, r.choice(list(REPLIES))))

    def incoming(self, nwk):
        r = self.r
        c = TABLE[(AF, 129)]
        vals = gen_values(r, c["req"], 30)
        names = [n for n, _ in c["req"]]
        vals[names.index("srcaddr")] = nwk
        if r.random() < 0.15:
            vals[-2:] = [220, [r.randrange(256) for _ in range(220)]]
        return frame(AREQ, AF, 129, wire_data(c["req"], vals))

    def a_incoming(self):
        if self.r.random() < 0.2:
            self.send(*[self.incoming(self.dev()["nwk"]) for _ in range(3)])
        else:
            self.send(self.incoming(self.r.choice(self.h.devs)["nwk"]))

    def a_unknown(self):
        f = self.incoming(self.r.choice(self.unused))
        self.send(f)

    def extended(self, mode, src):
        c = TABLE[(AF, 130)]
        vals = gen_values(self.r, c["req"], 20)
        names = [n for n, _ in c["req"]]
        vals[names.index("srcaddrmode")] = mode
        vals[names.index("srcaddr")] = src
        return frame(AREQ, AF, 130, wire_data(c["req"], vals))

    def a_ext(self):
        r = self.r
        d = r.choice(self.h.devs)
        mode = r.choice([2, 3])
        known = r.random() < 0.8
        if mode == 3:
            src = d["ieee"] if known else [r.randrange(256) for _ in range(8)]
        else:
            src = list((d["nwk"] if known else r.choice(self.unused)).to_bytes(2, "little"))
            src += [r.choice([0, r.randrange(256)]) for _ in range(6)]
        self.send(self.extended(mode, src))

    def a_announce(self):
        r = self.r
        h = self.h
        if h.closed:
            return
        k = r.random()
        if k < 0.5:
            d = self.dev()
            if r.random() < 0.7:
                old = d["nwk"]
                d["nwk"] = self.new_nwk([x["nwk"] for x in h.devs])
                self.unused = [old] + self.unused[:2]
        elif k < 0.6 and len(h.devs) > 2:
            d = self.dev()
        else:
            d = {"ieee": [r.randrange(256) for _ in range(8)],
                 "nwk": self.new_nwk([x["nwk"] for x in h.devs])}
            h.devs.append(d)
        f = self.announce(d)
        self.unused = [u for u in self.unused if u not in [x["nwk"] for x in h.devs]] or [
            self.new_nwk([x["nwk"] for x in h.devs])]
        if r.random() < 0.4:
            self.send(f, self.incoming(d["nwk"]))
        else:
            self.send(f)

    def announce(self, d):
        r = self.r
        return frame(AREQ, ZDO, 193, wire_data(
            TABLE[(ZDO, 193)]["req"],
            [r.choice([0, d["nwk"], d["nwk"], r.choice(self.h.devs)["nwk"], r.randrange(65536)]), d["nwk"],
             d["ieee"], r.randrange(256)]))

    def a_takeover(self):
        """A device comes back under the address of another one, which moves on at once."""
        r, h = self.r, self.h
        if h.closed:
            return
        a = self.dev()
        known = [d for d in h.devs[1:] if d is not a]
        if known and r.random() < 0.7:
            b = r.choice(known)
        else:
            b = {"ieee": [r.randrange(256) for _ in range(8)], "nwk": None}
        left, b["nwk"] = b["nwk"], a["nwk"]
        first = self.announce(b)
        if b not in h.devs:
            h.devs.append(b)
        if left is not None and r.random() < 0.6:
            a["nwk"] = left
        else:
            a["nwk"] = self.new_nwk([x["nwk"] for x in h.devs] + self.unused)
            if left is not None:
                self.unused = [left] + self.unused[:2]
        between = self.extended(3, a["ieee"]) if r.random() < 0.5 else None
        self.send(first, between, self.announce(a))
        if r.random() < 0.5:
            self.send(self.incoming(a["nwk"]), self.incoming(b["nwk"]))

    def a_many(self):
        """Many requests come and go while others stay outstanding."""
        r, h = self.r, self.h
        self.settle()
        if h.closed or h.w.refused:
            return
        for _ in range(r.choice([1, 2])):
            if r.random() < 0.6:
                ss, name, fields = r.choice(WAITS)
                self.h.wait(AREQ, ss, name, [(n, t, r.choice(vs)) for n, t, vs in fields], 60000)
            else:
                self.a_zdo()
            self.settle()
        kind = r.choice(["direct", "direct", "zdo"])
        for i in range(r.choice([70, 270])):
            if kind == "direct":
                h.direct(r, r.choice(COMMON[:3]), None)
            else:
                d = h.devs[1]
                t = self.next_tsn()
                h.req(d, 0, 5, 0, 0, t, self.zdo_data(5, t, d), True)
            h.w.loop.settle()
            self.a_answer(0)
            h.w.loop.settle()
            if kind == "zdo":
                self.send(self.reply_frame(h.devs[1]["nwk"], 5))
                h.w.loop.settle()
            if i % 8 == 7:
                h.w.loop.advance(1)
                h.w.log("forget")
        self.a_ind()
        self.a_reply()

    def a_permitind(self):
        self.send(frame(AREQ, ZDO, 203, bytes([self.r.choice([0, 0, 1, 60, 254, 255])])))

    def a_permitrsp(self):
        nwk = self.r.choice(self.h.devs)["nwk"]
        self.send(self.reply_frame(nwk, 54))

    def a_adv(self):
        self.h.w.loop.advance(self.r.choice(TIMES) if self.r.random() < 0.97 else
                              self.r.choice([100000, 3600000, 7 * 86400000]))

    def a_settleadv(self):
        self.h.w.loop.advance(self.r.choice([50, 100, 199, 200, 201]))

    def run(self):
        r = self.r
        wts = FOCUS[self.focus]
        kinds, ws = list(wts), list(wts.values())
        # now and then a long history, with calm in between
        long = r.random() < LONG
        # now and then the application is shut down
        if r.random() < 0.1 and not long:
            kinds, ws = kinds + ["close"], ws + [sum(ws) / 25]
        many = r.randrange(6) if r.random() < MANY and not long else -1
        for i in range(r.randrange(400, 1200) if long else r.randrange(6, 40)):
            if i == many:
                self.a_many()
            if long and i % 40 == 39:
                self.settle()
                self.h.calm()
                self.h.w.log("forget")
            k = r.choices(kinds, ws)[0]
            getattr(self, "a_" + k)()
            x = r.random()
            if x < 0.55:
                self.h.w.loop.settle()
            elif x < 0.8:
                for _ in range(r.randrange(1, 4)):
                    self.h.w.loop.iterate()
            self.take_sent()
        if r.random() < 0.7:  # answer the rest
            self.settle()
        self.h.finish()
        return self.h.trace()

    def settle(self):
        for _ in range(30):
            self.h.w.loop.settle()
            self.take_sent()
            if not self.pending:
                break
            self.a_answer()


def raw_value(t, v):
    if t == "UINT32":
        return v[0] << 16 | v[1]
    if t in ("UINT8", "UINT16", "INT8", "ADDRMODE"):
        return v[0]
    return list(v)


class Schedule:
    """Steps the specification came up with (spec/HostGen.tla)."""

    A = ([1] * 8, 4660)
    B = ([2] * 8, 2)

    def __init__(self, r, prod, steps):
        self.r = r
        self.h = Host(prod, [self.A, self.B])
        self.steps = steps
        self.calls = []

    def call(self, op, a):
        h = self.h
        if op == "direct":
            c = BYNAME[(a["ss"], a["name"])]
            p = a["p"] or {}
            vals = [raw_value(t, p[n]) for n, t in c["req"]]
            return h.direct(self.r, c, None if a["acc"] == [0] else a["acc"], vals)
        if op == "req":
            d = h.devs[1 if a["nwk"] == self.A[1] else 2]  # which may have moved
            return h.req(d, a["prof"], a["cl"], a["se"], a["de"], a["tsn"], a["data"], a["reply"])
        if op == "mreq":
            return h.mreq(a["grp"], a["prof"], a["cl"], a["se"], a["tsn"], a["data"])
        if op == "bcast":
            return h.bcast(a["addr"], a["prof"], a["cl"], a["se"], a["de"], a["radius"], a["tsn"], a["data"])
        if op == "permit":
            return h.permit(a["dur"])
        if op == "broken":
            return h.broken(self.r, a["app"])
        types = dict(BYNAME[(a["ss"], a["name"])]["req"])
        match = [(n, types[n], raw_value(types[n], v)) for n, v in a["match"]]
        return h.wait(a["ty"], a["ss"], a["name"], match, a["lim"])

    def run(self):
        h, loop = self.h, self.h.w.loop
        for step in self.steps:
            st = step["st"]
            if st["s"] == "call":
                self.calls.append(self.call(st["op"], st["a"]))
                loop.iterate()
            elif st["s"] == "cancel":
                cid = self.calls[st["n"] - 1]
                if not h.w.tasks[cid].done():
                    h.cancel(cid)
            elif st["s"] == "rx":
                f = st["f"]
                if f["ty"] == AREQ and (f["ss"], f["id"]) == (ZDO, 193):
                    nwk, ieee = f["data"][2] + 256 * f["data"][3], f["data"][4:12]
                    for d in h.devs:
                        if d["ieee"] == ieee:
                            d["nwk"] = nwk
                h.rx(frame(f["ty"], f["ss"], f["id"], bytes(f["data"])))
            elif st["s"] == "closed":
                h.close()
            elif st["s"] == "refuse":
                h.refuse()
            else:
                loop.advance(st["ms"])
            if step["rest"]:
                loop.settle()
            elif self.r.random() < 0.3:
                loop.iterate()
        h.finish()
        return h.trace()


def main(prop, seed, count, out, schedules=None):
    jobs = [("%s/%d/%d" % (prop, seed, i), lambda r: Scenario(r, prop).run()) for i in range(count)]
    if schedules:
        for line in open(schedules):
            sc = json.loads(line)
            jobs.append(("%s/%d/%s" % (prop, seed, line.strip()),
                         lambda r, sc=sc: Schedule(r, sc["prod"], sc["steps"]).run()))

    def failed(what):
        return {"prod": 0, "devs": [], "ev": [{"k": what, "t": 0}]}

    guard.record(jobs, out, failed)


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4],
         sys.argv[5] if len(sys.argv) > 5 else None)
