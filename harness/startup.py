"""Starts of the real application against a simulated adapter, recorded for StartupTrace.

usage: startup.py PROP SEED COUNT OUT [SCHEDULES]   (one JSON trace per line)
SCHEDULES: situations from the specification (StartupGen), one JSON object per line.
"""
import copy
import json
import random
import sys

import guard
from world import World, frame, load_table

import zigpy.config
import zigpy.device
import zigpy.types
from host import App
from zigpy_cc.exception import CommandError  # noqa

TABLE = load_table()
WIDTH = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "ADDRMODE": 1, "INT8": 1}
EPS = [1, 2, 3, 4, 5, 6, 8, 11, 110, 12, 13, 47, 242]
PARAMS = (99, 132, 98, 131, 45)
SIZES = {99: 1, 132: 4, 98: 16, 131: 2, 45: 8}


def decode(types, data):
    """Fields of a command as the specification writes them, None if they do not fit."""
    p, pos, last = {}, 0, 0
    for n, t in types:
        if t in WIDTH:
            w = WIDTH[t]
            if pos + w > len(data):
                return None
            v = int.from_bytes(data[pos : pos + w], "little")
            pos += w
            last = v
            p[n] = [v >> 16, v & 0xFFFF] if t == "UINT32" else [v]
        elif t == "IEEEADDR":
            p[n] = list(data[pos : pos + 8])
            pos += 8
        elif t == "LIST_UINT16":
            p[n] = [data[pos + 2 * i] | data[pos + 2 * i + 1] << 8 for i in range(last)
                    if pos + 2 * i + 1 < len(data)]
            pos += 2 * last
        else:
            p[n] = list(data[pos : pos + last])
            pos += last
    return p if pos == len(data) else None


class Adapter:
    """The simulated adapter; survives the death of the host."""

    def __init__(self, prod, nv, dev, eps, groups, hasnet, ieee=None, nwk=0):
        self.prod = prod
        self.nv = {int(k): bytes(v) for k, v in nv.items()}
        self.dev = dev
        self.eps = set(eps)
        self.groups = set(tuple(g) for g in groups)
        self.net = hasnet
        self.ieee = ieee or [1, 2, 3, 4, 5, 6, 7, 8]
        self.nwk = nwk
        self.pending = False  # it is starting a network

    def snapshot(self):
        return {
            "prod": self.prod, "nv": {str(k): list(v) for k, v in self.nv.items()}, "dev": self.dev,
            "eps": sorted(self.eps), "groups": sorted(map(list, self.groups)), "hasnet": self.net,
            "ieee": self.ieee, "nwk": self.nwk,
        }

    def power(self):
        self.dev = 0
        self.eps = set()
        self.pending = False

    def starts(self):
        self.pending = True
        if self.dev != 9:
            self.dev = 8

    def formed(self):
        """The network is up -> was one being started?"""
        if self.pending:
            self.pending, self.dev, self.net = False, 9, True
            return True
        return False

    def runs(self):
        return self.nv.get(135) == b"\0"

    def run(self, ss, name, p):
        """-> (status or -1, response payload or None, [later indications])"""
        k = (ss, name)
        if k == (1, "ping"):
            return -1, b"\x79\x07", []
        if k == (1, "version"):
            return -1, bytes([2, self.prod, 2, 7, 1, 0x17, 0x2B, 0x34, 1]), []
        if k == (1, "osalNvRead"):
            v = self.nv.get(p["id"][0])
            if v is None:
                return 2, b"\x02\x00", []
            v = v[p["offset"][0] :]
            return 0, bytes([0, len(v)]) + v, []
        if k == (1, "osalNvWrite"):
            i, off, val = p["id"][0], p["offset"][0], bytes(p["value"])
            st = 0
            if i not in self.nv:
                st = 2
            elif off + len(val) > len(self.nv[i]):
                st = 10
            else:
                old = self.nv[i]
                self.nv[i] = old[:off] + val + old[off + len(val) :]
            return st, bytes([st]), []
        if k == (1, "osalNvItemInit"):
            i = p["id"][0]
            if i in self.nv:
                return 0, b"\0", []
            self.nv[i] = bytes(p["initvalue"])
            return 9, b"\x09", []
        if k == (6, "readConfiguration"):
            i = p["configid"][0]
            v = self.nv.get(i)
            if v is None:
                return 2, bytes([2, i, 0]), []
            return 0, bytes([0, i, len(v)]) + v, []
        if k == (6, "writeConfiguration"):
            i, val = p["configid"][0], bytes(p["value"])
            st = 2 if i not in self.nv else 10 if len(self.nv[i]) != len(val) else 0
            if st == 0:
                self.nv[i] = val
            return st, bytes([st]), []
        if k == (1, "resetReq"):
            if self.nv.get(3) == b"\x02":
                self.nv[3] = b"\0"
                self.net = False
                self.groups = set()
            self.power()
            return -1, None, [("reset", bytes([0, 2, self.prod, 2, 7, 1]))]
        if k == (15, "bdbSetChannel"):
            return 0, b"\0", []
        if k == (15, "bdbStartCommissioning"):
            if p["mode"] == [4] and self.runs():
                self.starts()
                return 0, b"\0", ["nine"]
            return 0, b"\0", []
        if k == (5, "startupFromApp"):
            if not self.runs():
                return 2, b"\x02", []
            st = 0 if self.net else 1
            self.starts()
            return st, bytes([st]), ["nine"]
        if k == (4, "register"):
            ep = p["endpoint"][0]
            if ep in self.eps:
                return 184, b"\xb8", []
            self.eps.add(ep)
            return 0, b"\0", []
        if k == (5, "extFindGroup"):
            st = 0 if (p["endpoint"][0], p["groupid"][0]) in self.groups else 1
            g = p["groupid"][0]
            return st, bytes([st, g & 255, g >> 8, 0]), []
        if k == (5, "extAddGroup"):
            self.groups.add((p["endpoint"][0], p["groupid"][0]))
            return 0, b"\0", []
        if k == (7, "getDeviceInfo"):
            return 0, bytes([0] + self.ieee) + self.nwk.to_bytes(2, "little") + bytes([7, self.dev, 0]), []
        if k == (5, "activeEpReq"):
            return 0, b"\0", ["eps"]
        if k == (7, "ledControl"):
            return 0, b"\0", []
        return None, None, []


class Events(list):
    """Every event with the time (of its start) at which it happened."""

    def __init__(self, scene):
        super().__init__()
        self.scene = scene

    def append(self, e):
        super().append(dict(e, t=self.scene.w.loop.ms if self.scene.w else 0))


class Scene:
    """Several starts of one adapter, some of them disturbed."""

    LIMIT = 3600 * 1000

    def __init__(self, r, adapter, opt, conf):
        self.r = r
        self.w = None
        self.ad = adapter
        self.opt = opt
        self.conf = conf
        self.ev = Events(self)
        self.first = adapter.snapshot()

    def trace(self):
        return {"ad": self.first, "opt": self.opt, "ev": self.ev}

    def begin(self, form, faults, quiet):
        """One start.  faults: number of the command -> fate."""
        w = self.w = World()
        self.n = 0
        self.faults = faults
        self.quiet = quiet
        self.dead = False
        self.starting = True
        w.recording = False
        w.listeners.append(self.on_frame)
        self.ad.pending = False
        self.ev.append({"k": "start", "form": form})
        app = App(App.SCHEMA({"device": {"path": "/dev/null"}, "network": dict(self.conf)}))
        if self.r.random() < 0.2:  # known from earlier, as zigpy's database has it
            app.add_device(zigpy.types.EUI64([zigpy.types.uint8_t(b) for b in self.ad.ieee]),
                           zigpy.types.NWK(self.r.choice([0, 0x1234, 0xFFFE])))
        task = w.start(1, app.startup(form))
        end = w.loop.ms + self.LIMIT
        while not task.done() and not self.dead and w.loop.ms < end:
            w.loop.advance(500)
        if self.dead:
            self.ev.append({"k": "crash"})
        else:
            e = {"k": "end", "ieee": [], "nwk": -1, "coord": False}
            if not task.done():
                e["r"] = "hang"
            elif task.cancelled() or task.exception() is not None:
                e["r"] = "error"
            else:
                e["r"] = "ok"
                try:
                    e["ieee"] = [int(b) for b in app.ieee.serialize()]
                    e["nwk"] = int(app.nwk)
                    d = app.get_device(ieee=app.ieee)
                    e["coord"] = int(d.nwk) == self.ad.nwk and d.ieee == app.ieee
                except Exception:  # noqa
                    pass
            self.ev.append(e)
            self.starting = False
            w.loop.advance(12000)
        self.dead = True
        w.close()
        return self.ev[-1]

    # --- the adapter's end of the line ---------------------------------------
    def send(self, tr, data, delay=0):
        w = self.w

        def go():
            if not self.dead:
                tr.receive(data)

        if delay:
            w.loop.call_later(delay / 1000.0, go)
        else:
            w.loop.call_soon(go)

    def up(self):
        """The adapter gets its network up."""
        if not self.dead and self.ad.formed():
            self.ev.append({"k": "formed"})

    def report(self, tr, f, delay):
        def go():
            if not self.dead:
                self.up()
                tr.receive(f)

        if delay:
            self.w.loop.call_later(delay / 1000.0, go)
        else:
            self.w.loop.call_soon(go)

    def noise(self):
        r = self.r
        return r.choice([
            frame(2, 5, 192, bytes([r.choice([0, 1, 7, 8, 10])])),
            frame(2, 5, 133, bytes([0x34, 0x12, 0, 0x34, 0x12, 2, 1, 2])),
            frame(2, 5, 133, bytes([0x01, 0x00, 0, 0x01, 0, 0])),
            frame(2, 5, 202, bytes([0x34, 0x12, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0])),
            frame(2, 4, 129, bytes([0, 0, 6, 0, 0x34, 0x12, 1, 1, 0, 77, 0, 0, 0, 0, 0, 1, 2, 9, 9])),
            frame(2, 4, 128, bytes([0, 1, 3])),
            b"\x00\x12",
            b"\xfe\x01\x41\x80\x00\x55",
        ])

    def on_frame(self, tr, kind, b):
        if kind != "frame" or self.dead:
            return
        r = self.r
        ty, ss, cid = b[2] >> 5, b[2] & 31, b[3]
        c = TABLE.get((ss, cid))
        p = decode(c["req"], b[4:-1]) if c and c["ty"] == ty else None
        if p is None:
            self.ev.append({"k": "cmd", "ss": ss, "name": "?", "p": {"none": []}, "x": "ok", "st": -1})
            return
        name = c["name"]
        n, self.n = self.n, self.n + 1
        fate = self.faults.get(n, "ok")
        if fate == "power-before":
            self.dead = True
            return
        if fate == "crash":
            self.dead = True
            return
        e = {"k": "cmd", "ss": ss, "name": name, "p": p or {"none": []}, "x": fate, "st": -1}
        if fate == "silent":
            self.ev.append(e)
            return
        if fate.startswith("reject"):
            first = [t for t in c["rsp"]][:1]
            if not first or first[0][0] != "status":
                e["x"] = fate = "silent"
                self.ev.append(e)
                return
            st = int(fate[7:] or 4) if ":" in fate else r.choice([r.choice([4, 5, 6, 12, 255]), r.choice([1, 2, 3, 9, 10, 184]),
                                                                        r.randrange(1, 256)])
            while st in self.accepted(ss, name, p):
                st = r.choice([4, 5, 6, 12, 255])
            e["x"], e["st"] = "reject", st
            self.ev.append(e)
            rest = {"osalNvRead": b"\0", "readConfiguration": bytes([p.get("configid", [0])[0], 0]),
                    "extFindGroup": b"\0\0\0",
                    "getDeviceInfo": bytes(13)}.get(name, b"")
            self.send(tr, frame(3, ss, cid, bytes([st]) + rest))
            return
        st, rsp, later = self.ad.run(ss, name, p)
        if st is None:
            e["x"], e["st"] = "ok", -1
            e["name"] = "?"
            self.ev.append(e)
            return
        if fate == "crash-after":
            e["x"] = "lost"
            self.ev.append(e)
            self.dead = True
            return
        if fate == "noreport" and not later:
            e["x"] = fate = "ok"
        if fate == "noreport" and rsp is None:
            e["x"] = fate = "lost"
        e["st"] = st if fate != "lost" else -1
        self.ev.append(e)
        if fate in ("lost", "noreport") and r.random() < 0.5:
            self.w.loop.call_later(r.choice([0, 0.002, 3]), self.up)
        if fate == "lost":
            if rsp is not None and r.random() < 0.3:
                self.send(tr, frame(3, ss, cid, rsp), r.choice([20500, 25000]))
            return
        limit = 20000 if name in ("bdbStartCommissioning", "startupFromApp") else 6000
        delay = 0
        if not self.quiet:
            delay = r.choice([0, 0, 0, 0, 0, 1, 30, 500, limit // 2, limit - 10])
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.send(tr, self.noise(), r.choice([0, 0, 5]))
        if rsp is not None:
            self.send(tr, frame(3, ss, cid, rsp), delay)
        if fate == "noreport":
            if "nine" in later and r.random() < 0.5:
                self.send(tr, frame(2, 5, 192, bytes([r.choice([8, 1, 10])])), delay + 5)
            return
        for what in later:
            if what == "nine":
                f = frame(2, 5, 192, b"\x09")
                early = not self.quiet and r.random() < 0.3
                wait = r.choice([0, 1, 1500]) if self.quiet else r.choice([0, 1, 2000, 59000])
                # the start waits 60 seconds from the answer on, or longer
                self.report(tr, f, 0 if early else delay + (wait if delay < 1000 else 0))
            elif what == "eps":
                eps = sorted(self.ad.eps)
                f = frame(2, 5, 133, bytes([0, 0, 0, 0, 0, len(eps)] + eps))
                early = not self.quiet and r.random() < 0.3
                wait = 0 if self.quiet else r.choice([0, 1, 2000, 3900])
                self.send(tr, f, 0 if early else delay + (wait if delay < 5000 else 0))
            else:
                wait = 0 if self.quiet else r.choice([0, 1, 2000, 29900])
                self.send(tr, frame(2, 1, 128, what[1]), wait)

    def accepted(self, ss, name, p):
        if name == "osalNvItemInit":
            return (0, 9)
        if name in ("startupFromApp", "extFindGroup"):
            return (0, 1)
        if name == "osalNvRead" and p["id"] == [0x0F00 if self.ad.prod == 0 else 0x60]:
            return (0, 2)
        return (0,)


# ------------------------------------------------------------------ scenarios
def option(r, simple=False):
    """(as the specification sees it, as the configuration has it)"""
    o = {"set": [], "chans": [], "key": [], "pan": 0, "ext": []}
    c = {}
    if r.random() < 0.7:
        o["set"].append("chans")
        o["chans"] = r.choice([[], [11], [26], [25, 26], [15, 16], [11, 18, 24],
                               sorted(r.sample(range(11, 27), r.randrange(1, 16)))])
        c["channels"] = list(o["chans"])
    if r.random() < 0.6:
        o["set"].append("key")
        o["key"] = r.choice([[0] * 16, [255] * 16, [r.randrange(256) for _ in range(16)]])
        c["key"] = list(o["key"])
    if r.random() < 0.7:
        o["set"].append("pan")
        o["pan"] = r.choice([0, 1, 0xFF, 0x100, 0xFFFE, r.randrange(0xFFFF)])
        c["pan_id"] = o["pan"]
    if r.random() < 0.6:
        o["set"].append("ext")
        o["ext"] = r.choice([[0] * 8, [r.randrange(256) for _ in range(8)], [1, 2, 3, 4, 5, 6, 7, 8]])
        c["extended_pan_id"] = ":".join("%02x" % b for b in o["ext"])
    return o, c


def wanted(o):
    """Only used to choose adapters which (nearly) match; the oracle is Znp!Want."""
    ch = o["chans"] if "chans" in o["set"] else [15, 20, 25]
    ch = ch or [11]
    key = o["key"] if "key" in o["set"] else [1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]
    pan = o["pan"] if "pan" in o["set"] else 0x1A62
    ext = o["ext"] if "ext" in o["set"] else [0xDD] * 8
    return {99: b"\0", 132: sum(1 << c for c in ch).to_bytes(4, "little"), 98: bytes(key),
            131: pan.to_bytes(2, "little"), 45: bytes(reversed(ext))}


def other(r, item, want):
    while True:
        k = r.random()
        if k < 0.5:  # one bit, or one byte, differs
            b = bytearray(want)
            b[r.choice([0, -1, r.randrange(len(b))])] ^= r.choice([1, 0x80, 0xFF, 4])
            v = bytes(b)
        elif k < 0.7:
            v = bytes(reversed(want))
        else:
            v = bytes(r.randrange(256) for _ in want)
        if v != want and not (item == 131 and v == b"\xff\xff"):
            return v


def random_adapter(r, opt):
    prod = r.randrange(3)
    nv = {3: b"\0", 143: b"\0", 257: bytes(32)}
    want = wanted(opt)
    nv.update(want)
    k = r.random()
    if k < 0.3:
        dif = []
    elif k < 0.7:
        dif = [r.choice(PARAMS)]
    elif k < 0.8:
        dif = list(PARAMS)
    else:
        dif = r.sample(PARAMS, r.randrange(1, 5))
    for i in dif:
        nv[i] = other(r, i, want[i])
        if r.random() < 0.04:
            del nv[i]
    if r.random() < 0.25:
        nv[131] = b"\xff\xff"
    m = 0x0F00 if prod == 0 else 0x60
    mark = r.choice(["yes", "yes", "yes", "no", "odd", "missing"])
    if mark == "yes":
        nv[m] = b"\x55"
    elif mark != "missing":
        nv[m] = b"\0" if mark == "no" else bytes([r.choice([0x54, 0x56, 0xFF, 0xAA])])
    if r.random() < 0.2:  # the other firmware's marker says nothing
        nv[0x60 if prod == 0 else 0x0F00] = b"\x55"
    dev = r.choice([9, 9, 0, 1, 8])
    nv[135] = b"\0" if mark == "yes" or dev == 9 else bytes([r.choice([0, 1, 2])])
    eps = r.choice([[], EPS, EPS + [200], [1], [242], sorted(r.sample(EPS, r.randrange(13))), [20, 30],
                    [e for e in EPS if e != r.choice(EPS)],
                    sorted(set(r.sample(range(1, 256), r.choice([12, 13, 14, 40, 77]))) - set(r.sample(EPS, 9)))])
    groups = r.choice([[], [(242, 0x0B84)], [(241, 0x0B84), (242, 0x0B85)]])
    ieee = [r.randrange(256) for _ in range(8)]
    return Adapter(prod, nv, dev, eps, groups, dev == 9 or mark == "yes" or r.random() < 0.5, ieee,
                   0 if r.random() < 0.9 else 0xFFFE)


FATES = ["silent", "lost", "reject", "noreport", "crash", "crash-after"]


def after(r, sc, e, more=True):
    """A disturbed start is followed by an undisturbed one, that by one which resumes."""
    if r.random() < 0.5:
        sc.ad.power()
        sc.ev.append({"k": "power"})
    e = sc.begin(True, {}, r.random() < 0.6)
    if more and r.random() < 0.4 and e.get("r") == "ok":
        if r.random() < 0.5:
            sc.ad.power()
            sc.ev.append({"k": "power"})
        sc.begin(True, {}, True)


def random_scene(r, prop):
    opt, conf = option(r)
    sc = Scene(r, random_adapter(r, opt), opt, conf)
    form = r.random() < 0.93
    k = r.random()
    disturbed = {"C15": 0.15, "C16": 0.15, "C17": 0.9, "C18": 0.15, "C23": 0.9}.get(prop, 0.5)
    if prop == "C17":
        form = True
    faults = {}
    if k < disturbed:
        fates = FATES if prop != "C17" else FATES + ["crash", "crash-after", "crash", "crash-after"]
        for _ in range(r.choice([1, 1, 1, 1, 2])):
            faults[r.randrange(r.choice([6, 45, 45]))] = r.choice(fates)
    e = sc.begin(form, faults, r.random() < 0.5)
    if prop == "C17" and r.random() < 0.3:  # interrupted again
        e = sc.begin(True, {r.randrange(45): r.choice(FATES)}, True)
    if faults or prop in ("C15", "C16") or r.random() < 0.3:
        after(r, sc, e)
    return sc.trace()


OPT = ({"set": ["chans", "pan"], "chans": [11, 26], "key": [], "pan": 17185, "ext": []},
       {"channels": [11, 26], "pan_id": 17185})


def scheduled(r, s):
    ad = Adapter(s["prod"], s["nv"], s["dev"], s["eps"], s["groups"], s["hasnet"])
    sc = Scene(r, ad, *OPT)
    faults = {} if s["x"] == "none" else {s["step"]: s["x"]}
    e = sc.begin(True, faults, True)
    if s["x"] in ("crash", "lost", "silent", "noreport") or r.random() < 0.5:
        after(r, sc, e, more=r.random() < 0.3)
    return sc.trace()


def main():
    prop, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    jobs = [("startup %s %s %d" % (prop, seed, i), lambda r: random_scene(r, prop)) for i in range(count)]
    if len(sys.argv) > 5:
        for line in open(sys.argv[5]):
            s = json.loads(line)
            jobs.append(("startup %s %s %s" % (prop, seed, line.strip()), lambda r, s=s: scheduled(r, s)))

    def failed(what):
        return {"ad": Adapter(0, {}, 0, [], [], False).snapshot(), "opt": OPT[0],
                "ev": [{"k": "end", "t": 0, "r": "hang", "ieee": [], "nwk": 0, "coord": False}
                       if what == "hangs" else {"k": "fails", "t": 0}]}

    guard.record(jobs, out, failed)


if __name__ == "__main__":
    main()
