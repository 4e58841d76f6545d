"""Byte level traces of the real driver: what it makes of received bytes, what it writes.

usage: wire.py PROP SEED SIZE OUT     (one JSON trace per line)
"""
import asyncio
import itertools
import json
import os
import random
import sys

import guard
import world
from world import World, frame, ints, load_table, message, xor

from zigpy_cc import api as cc_api, uart as cc_uart
from zigpy_cc.config import SCHEMA_DEVICE
import zigpy.types

TABLE = load_table()
CONFIG = SCHEMA_DEVICE({"path": "/dev/null"})
UNREADABLE = {"LIST_ASSOC_DEV", "LIST_NETWORK", "LIST_ROUTING_TABLE", "LIST_BIND_TABLE"}
WRITABLE = {
    "UINT8", "ADDRMODE", "UINT16", "UINT32", "IEEEADDR", "BUFFER",
    "LIST_UINT8", "LIST_UINT16", "LIST_NEIGHBOR_LQI",
}
VARIABLE = {"BUFFER", "LIST_UINT8", "LIST_UINT16", "LIST_NEIGHBOR_LQI"}
SUBSYSTEMS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21]


class Recorder:
    """Stands in for the application (messages) or for the API (frames)."""

    def __init__(self):
        self.out = []
        self.raise_on = lambda n: False
        self.n = 0

    def handle_znp(self, obj):
        self.out.append(message(obj, TABLE))
        self.n += 1
        if self.raise_on(self.n):
            raise ValueError("handler failed")

    def data_received(self, fr):
        self.out.append(
            {
                "ty": int(fr.command_type),
                "ss": int(fr.subsystem),
                "id": int(fr.command_id),
                "data": [int(b) for b in fr.data],
            }
        )
        self.n += 1
        if self.raise_on(self.n):
            raise ValueError("handler failed")

    def connection_lost(self, *a):
        pass

    def take(self):
        out, self.out = self.out, []
        return out


class Link:
    """A connected driver; level is 'frame' or 'msg'."""

    def __init__(self, level):
        self.w = World()
        self.rec = Recorder()
        self.api = None
        if level == "frame":
            coro = cc_uart.connect(CONFIG, self.rec)
        else:
            coro = cc_api.API.new(self.rec, CONFIG)
        task = self.w.start(1, coro)
        self.w.loop.advance(1500)
        if not task.done():
            raise RuntimeError("connecting does not end")
        self.api = task.result()
        self.w.trace.clear()

    def chunk(self, data):
        esc = self.w.port.receive(data)
        self.w.loop.settle()
        return {"b": list(data), "out": self.rec.take(), "esc": 0 if esc is None else 1}


def guarded(fn):
    """A scenario which fails or does not end is reported as such."""

    def run(*args, **kw):
        res, exc = guard.run(lambda: fn(*args, **kw))
        if exc is None:
            return res
        print("scenario:", repr(exc), file=sys.stderr)
        try:
            world.CURRENT.close()
        except BaseException:  # noqa
            pass
        return {"kind": "hangs" if exc == "hangs" else "fails", "steps": [{}]}

    return run


@guarded
def rx_trace(level, chunks, raise_on=None, gaps=None):
    """gaps: milliseconds which pass before each read."""
    link = Link(level)
    if raise_on:
        link.rec.raise_on = raise_on
    steps = []
    for i, c in enumerate(chunks):
        if gaps and gaps[i % len(gaps)]:
            link.w.loop.advance(gaps[i % len(gaps)])
        steps.append(link.chunk(c))
    link.w.close()
    return {"kind": level, "steps": steps}


# ------------------------------------------------------------------ generators
def rnd_int(r, bits):
    return r.choice(
        [0, 1, 2, 127, 128, 254, 255, 256, 0xFF00, 0x7FFF, 0x8000, (1 << bits) - 1]
        + [r.getrandbits(bits)] * 6
    ) & ((1 << bits) - 1)


def gen_values(r, params, maxlen=12, fixed_len=None):
    """Values (as Python ints / lists) for a parameter list; lengths consistent."""
    out = []
    for i, (n, t) in enumerate(params):
        nxt = params[i + 1][1] if i + 1 < len(params) else None
        if t in ("UINT8", "UINT16", "UINT32") and nxt in VARIABLE:
            v = r.choice([0, 1, 2, 3, r.randrange(maxlen)]) if fixed_len is None else fixed_len
            if nxt == "LIST_NEIGHBOR_LQI":
                v = min(v, 3) if r.random() < 0.8 else r.randrange(4, 12)
            elif nxt == "LIST_UINT16" and fixed_len is None and r.random() < 0.15:
                v = r.randrange(40)
        elif t == "UINT8":
            v = rnd_int(r, 8)
        elif t == "INT8":
            v = rnd_int(r, 8)
        elif t == "ADDRMODE":
            v = r.choice([0, 1, 2, 3, 15])
        elif t == "UINT16":
            v = rnd_int(r, 16)
        elif t == "UINT32":
            v = r.choice([rnd_int(r, 32), (rnd_int(r, 16) << 16) | rnd_int(r, 16)])
        elif t == "IEEEADDR":
            v = [r.randrange(256) for _ in range(8)]
        elif t.startswith("BUFFER") and t != "BUFFER":
            v = [r.randrange(256) for _ in range(int(t[6:]))]
        elif t in UNREADABLE:
            v = [r.randrange(256) for _ in range(r.randrange(10))]
        else:
            prev = out[-1] if out and isinstance(out[-1], int) else r.randrange(maxlen)
            if t == "LIST_NEIGHBOR_LQI":
                v = []
                for _ in range(min(prev, 11)):
                    v += [r.randrange(256) for _ in range(16)]
                    v += [rnd_int(r, 16), r.randrange(4), r.randrange(4), r.randrange(8)]
                    v += [r.randrange(4), r.randrange(256), r.randrange(256)]
            elif t == "LIST_UINT16":
                v = [rnd_int(r, 16) for _ in range(min(prev, 40))]
            else:
                v = [r.choice([0, 0xFE, 0xFF, r.randrange(256)]) for _ in range(min(prev, 240))]
                if len(v) > 1 and r.random() < 0.3:  # a run of the same at the end
                    k = r.randrange(1, len(v))
                    v[-k:] = [r.choice([0, 0, 0xFF, 0xFF, 0x20])] * k
        out.append(v)
    return out


def wire_value(t, v):
    if t in ("UINT8", "INT8", "ADDRMODE"):
        return bytes([v])
    if t == "UINT16":
        return v.to_bytes(2, "little")
    if t == "UINT32":
        return v.to_bytes(4, "little")
    if t == "LIST_UINT16":
        return b"".join(x.to_bytes(2, "little") for x in v)
    if t == "LIST_NEIGHBOR_LQI":
        out = b""
        for i in range(0, len(v), 23):
            e = v[i : i + 23]
            out += bytes(e[:16]) + e[16].to_bytes(2, "little")
            # reserved bits may have any value
            top, rest = (e[0] & 1) << 7, (e[1] & 0x3F) << 2
            out += bytes([e[17] | e[18] << 2 | e[19] << 4 | top, e[20] | rest, e[21], e[22]])
        return out
    return bytes(v)


def wire_data(params, vals):
    return b"".join(wire_value(t, v) for (n, t), v in zip(params, vals))


def spec_value(t, v):
    if t == "UINT32":
        return [v >> 16, v & 0xFFFF]
    if isinstance(v, int):
        return [v]
    return list(v)


def py_value(r, t, v):
    """The value as a caller of the driver would give it."""
    if t in ("BUFFER",):
        return bytes(v)
    if t == "IEEEADDR":
        if r.random() < 0.3:
            return int.from_bytes(bytes(v), "little")
        return zigpy.types.EUI64([zigpy.types.uint8_t(x) for x in v])
    if t == "LIST_NEIGHBOR_LQI":
        out = []
        for i in range(0, len(v), 23):
            e = v[i : i + 23]
            out.append(
                {
                    "extPanId": zigpy.types.EUI64([zigpy.types.uint8_t(x) for x in e[:8]]),
                    "extAddr": zigpy.types.EUI64([zigpy.types.uint8_t(x) for x in e[8:16]]),
                    "nwkAddr": e[16],
                    "deviceType": e[17],
                    "rxOnWhenIdle": e[18],
                    "relationship": e[19],
                    "permitJoin": e[20],
                    "depth": e[21],
                    "lqi": e[22],
                }
            )
        return out
    return v


def receivable():
    """(ty, command, params) of everything an adapter may send."""
    out = []
    for c in TABLE.values():
        if c["ty"] == 1:
            out.append((3, c, c["rsp"]))
        else:
            out.append((2, c, c["req"]))
    return out


RECEIVABLE = receivable()


def good_frame(r, maxlen=12):
    while True:
        ty, c, params = r.choice(RECEIVABLE)
        if any(t in UNREADABLE for _, t in params):
            continue
        d = wire_data(params, gen_values(r, params, maxlen))
        if len(d) <= 250:
            return frame(ty, c["ss"], c["id"], d)


EMPTY = [(ty, c) for ty, c, ps in RECEIVABLE if not ps]


def empty_frame(r):
    ty, c = r.choice(EMPTY)
    return frame(ty, c["ss"], c["id"], b"")


def any_frame(r):
    """A frame which is fine as a frame; it may mean nothing to the driver."""
    n = r.choice([0, 0, 1, 2, 3, 5, 20, 100, 249, 250, 251, 255])
    d = bytes(r.choice([0xFE, 0, r.randrange(256)]) for _ in range(n))
    return frame(r.randrange(4), r.choice(SUBSYSTEMS), r.randrange(256), d)


def noise(r):
    return bytes(r.choice([0, 0x21, 0xEF, 0xFF, r.randrange(254)]) for _ in range(r.randrange(1, 6)))


def broken(r, f):
    f = bytearray(f)
    how = r.randrange(4)
    if how == 0:
        f[-1] ^= 1 << r.randrange(8)
    elif how == 1 and len(f) > 5:
        f[r.randrange(4, len(f) - 1)] ^= 1 << r.randrange(8)
    elif how == 2:
        f[r.choice([2, 3])] ^= 1 << r.randrange(8)
    else:
        f[-1] = (f[-1] + 1 + r.randrange(255)) % 256
    return bytes(f)


def bad_frame(r):
    """A frame the driver can not process, of every kind."""
    how = r.randrange(7)
    if how == 0:
        return broken(r, good_frame(r))
    if how == 1:  # unknown type
        return frame(r.randrange(4, 8), r.choice(SUBSYSTEMS), r.randrange(256), b"abc")
    if how == 2:  # unknown subsystem
        ss = r.choice([s for s in range(32) if s not in SUBSYSTEMS])
        return frame(r.choice([2, 3]), ss, r.randrange(256), b"\x00")
    if how == 3:  # unknown command
        while True:
            ss, cid = r.choice(SUBSYSTEMS), r.randrange(256)
            if (ss, cid) not in TABLE:
                return frame(r.choice([2, 3]), ss, cid, b"\x00\x01")
    if how == 4:  # too short
        while True:
            ty, c, params = r.choice(RECEIVABLE)
            d = wire_data(params, gen_values(r, params))
            if d and len(d) <= 250:
                return frame(ty, c["ss"], c["id"], d[: r.randrange(len(d))])
    if how == 5:  # unsupported field type
        ty, c, params = r.choice(
            [x for x in RECEIVABLE if any(t in UNREADABLE for _, t in x[2])]
        )
        return frame(ty, c["ss"], c["id"], wire_data(params, gen_values(r, params)))
    # a response to a command which has none
    c = r.choice([c for c in TABLE.values() if c["ty"] == 2 and not c["rsp"]])
    return frame(3, c["ss"], c["id"], b"\x00\x00\x00\x00")


def pauses(r):
    """How long it takes from one read to the next."""
    return r.choice([None, None, [1], [0, 50], [0, 0, 700, 0, 12000], [3600000]])


def cuts(r, stream, how):
    if how == "one":
        return [stream]
    if how == "bytes":
        return [stream[i : i + 1] for i in range(len(stream))]
    n = len(stream)
    k = r.randrange(1, 8)
    pts = sorted(r.randrange(n + 1) for _ in range(k))
    return [stream[a:b] for a, b in zip([0] + pts, pts + [n]) if b > a]


def c01(r, size):
    # every stream over a small alphabet (the one of UnpiMC), random chunking
    n = {"quick": 6, "thorough": 8}[size]
    for i, s in enumerate(itertools.product([254, 0, 1, 65], repeat=n)):
        if s[0] != 254 and r.random() < 0.7:
            continue
        yield rx_trace("frame", cuts(r, bytes(s), ["one", "bytes", "rnd", "rnd"][i % 4]))
    m = {"quick": 350, "thorough": 4000}[size]
    for i in range(m):
        level = r.choice(["frame", "msg"])
        parts = []
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            f = good_frame(r) if level == "msg" else any_frame(r)
            if k < 0.2:
                f = empty_frame(r)
            elif k < 0.35:
                f = broken(r, f)
            if r.random() < 0.35:
                f = noise(r) + f
            if r.random() < 0.06:
                f = f[: r.randrange(1, len(f))]
            if r.random() < 0.08:
                f = b"\xfe" + f
            parts.append(f)
        s = b"".join(parts)
        yield rx_trace(level, cuts(r, s, r.choice(["one", "bytes", "rnd", "rnd"])), gaps=pauses(r))
    # much at once: more than any buffer holds, and long runs of noise
    for i in range({"quick": 10, "thorough": 80}[size]):
        level = r.choice(["frame", "msg"])
        want = r.choice([1100, 2100, 4200, 9000])
        s = b""
        while len(s) < want:
            f = good_frame(r, 200) if level == "msg" else any_frame(r)
            s += r.choice([b"", b"", b"", noise(r) * r.choice([1, 60])]) + (broken(r, f) if r.random() < 0.05 else f)
        k = r.randrange(len(s))
        yield rx_trace(level, r.choice([[s], [s[:k], s[k:]], [s[:700], s[700:]]]))
    # every cut position of two frames in a row, with and without noise between
    for gap in (b"", b"\x00", b"\xef\x00"):
        for a in (empty_frame(r), good_frame(r)):
            s = a + gap + empty_frame(r) + good_frame(r)
            for i in range(1, len(s)):
                yield rx_trace("msg", [s[:i], s[i:]])
    # frames within frames, read in pieces which look like frames of their own
    for inner in (empty_frame(r), any_frame(r), good_frame(r, 6), broken(r, empty_frame(r))):
        for lead in (0, 1, 2):
            if len(inner) > 200:
                continue
            f = frame(2, 4, 129, bytes(r.randrange(256) for _ in range(lead)) + inner
                      + bytes(r.randrange(256) for _ in range(r.randrange(4))))
            for s in (f + empty_frame(r), empty_frame(r) + f + good_frame(r)):
                i = s.index(inner, s.index(f) + 1)
                yield rx_trace("frame", [x for x in (s[:i], s[i:i + len(inner)], s[i + len(inner):]) if x])
    # every single bit error of some frames, a good frame after it
    for f in [empty_frame(r)] + [good_frame(r, 4) for _ in range({"quick": 3, "thorough": 30}[size])]:
        steps_level = "frame"
        for pos in range(4, len(f)):
            for bit in range(8):
                g = bytearray(f)
                g[pos] ^= 1 << bit
                yield rx_trace(steps_level, [bytes(g), empty_frame(r)])


def c03(r, size):
    m = {"quick": 600, "thorough": 6000}[size]
    for i in range(m):
        parts = []
        nbad = 0
        for _ in range(r.randrange(2, 8)):
            if r.random() < 0.5:
                parts.append(bad_frame(r))
                nbad += 1
            else:
                parts.append(r.choice([good_frame, good_frame, empty_frame])(r))
        if not nbad:
            parts.insert(r.randrange(len(parts)), bad_frame(r))
        parts.append(good_frame(r))
        s = b"".join(parts)
        ro = None
        if r.random() < 0.4:
            k = r.randrange(1, 4)
            ro = (lambda k: lambda n: n % k == 0)(k)
        chunks = parts if r.random() < 0.3 else cuts(r, s, r.choice(["one", "one", "bytes", "rnd"]))
        yield rx_trace("msg", chunks, ro, pauses(r))
    # many bad frames in a row, of one kind and mixed; however many, a good one still counts
    for i in range({"quick": 12, "thorough": 60}[size]):
        n = r.choice([12, 40, 130, 300])
        if i % 2:
            parts = [bad_frame(r) for _ in range(n)]
        else:
            f = bad_frame(r)
            parts = [f] * n
        for k in range(3):
            parts.insert(r.randrange(len(parts)), good_frame(r))
        parts.append(good_frame(r))
        chunks = r.choice([parts, [b"".join(parts)], cuts(r, b"".join(parts), "rnd")])
        yield rx_trace("msg", chunks, r.choice([None, None, lambda n: True]), pauses(r))


def c04(r, size):
    m = {"quick": 6, "thorough": 60}[size]
    for ty, c, params in RECEIVABLE:
        frames = []
        for k in range(m):
            d = wire_data(params, gen_values(r, params, [4, 12, 30][k % 3]))
            if len(d) <= 255:
                frames.append(frame(ty, c["ss"], c["id"], d))
        for bits in ("INT8", "UINT8"):  # every extreme in every place
            for i, (_, t) in enumerate(params):
                if t != bits:
                    continue
                for x in (0, 0x7F, 0x80, 0xFF):
                    vals = gen_values(r, params, 3)
                    nxt = params[i + 1][1] if i + 1 < len(params) else None
                    if nxt not in VARIABLE:
                        vals[i] = x
                        frames.append(frame(ty, c["ss"], c["id"], wire_data(params, vals)))
        for other in range(4):  # as the other kinds of frame
            if other not in (ty, 3) and not any(t in UNREADABLE for _, t in c["req"]):
                d = wire_data(c["req"], gen_values(r, c["req"]))
                frames.append(frame(other, c["ss"], c["id"], d))
        if any(t in VARIABLE for _, t in params):
            for ln in (0, 1, 2):
                d = wire_data(params, gen_values(r, params, 4, ln))
                if len(d) <= 250:
                    frames.append(frame(ty, c["ss"], c["id"], d))
        # every truncation of one of them, and surplus bytes
        d = wire_data(params, gen_values(r, params, 5, 3))
        for n in range(len(d)):
            frames.append(frame(ty, c["ss"], c["id"], d[:n]))
        for n in (1, 3, r.randrange(4, 20), 60):
            if len(d) + n <= 250:
                frames.append(frame(ty, c["ss"], c["id"], d + bytes(r.randrange(256) for _ in range(n))))
        yield rx_trace("msg", frames)


@guarded
def send_trace(r, c, count):
    """Issue a command directly, record the bytes, feed them back."""
    link = Link("msg")
    w = link.w
    written = []
    w.on_write = lambda tr, data: written.append(bytes(data))
    steps = []
    for k in range(count):
        vals = gen_values(r, c["req"], [4, 12, 60, 240][k % 4], None)
        if len(wire_data(c["req"], vals)) > 250:
            continue
        payload = {n: py_value(r, t, v) for (n, t), v in zip(c["req"], vals)}
        del written[:]
        task = w.start(10 + k, link.api.request(c["ss"], c["name"], payload))
        w.loop.settle()
        task.cancel()
        w.loop.settle()
        w.loop.advance(1)
        if task.done() and not task.cancelled():
            task.exception()
        wire = b"".join(written)
        step = {
            "ss": c["ss"],
            "name": c["name"],
            "p": {n: spec_value(t, v) for (n, t), v in zip(c["req"], vals)},
            "wire": list(wire),
            "out": [],
            "esc": 0,
        }
        if wire:
            got = link.chunk(wire)
            step["out"], step["esc"] = got["out"], got["esc"]
        steps.append(step)
    w.close()
    return {"kind": "tx", "steps": steps}


def c02(r, size):
    m = {"quick": 8, "thorough": 80}[size]
    for c in TABLE.values():
        if all(t in WRITABLE for _, t in c["req"]):
            yield send_trace(r, c, m)
    yield frame_trace(r, size)


@guarded
def frame_trace(r, size):
    """Frames as such: every payload length."""
    from zigpy_cc.uart import UnpiFrame

    link = Link("frame")
    steps = []
    for n in list(range(0, 251, 1 if size == "thorough" else 7)) + [250]:
        ty, ss, cid = r.randrange(4), r.choice(SUBSYSTEMS), r.randrange(256)
        d = bytes(r.choice([0xFE, r.randrange(256)]) for _ in range(n))
        wire = UnpiFrame(ty, ss, cid, d).to_buffer()
        got = link.chunk(wire)
        steps.append(
            {"ty": ty, "ss": ss, "id": cid, "data": list(d), "wire": list(wire),
             "out": got["out"], "esc": got["esc"]}
        )
    link.w.close()
    return {"kind": "txframe", "steps": steps}


if __name__ == "__main__":
    prop, seed, size, out = sys.argv[1:5]
    r = random.Random(int(seed) * 1000 + int(prop[1:]))
    only = int(os.environ.get("ONLY", "0"))
    n = written = failures = 0
    with open(out, "w") as f:
        for tr in {"C01": c01, "C02": c02, "C03": c03, "C04": c04}[prop](r, size):
            if tr["steps"]:
                n += 1
                if only in (0, n):
                    f.write(json.dumps(tr) + "\n")
                    written += 1
                failures += tr["kind"] in ("hangs", "fails")
                if failures >= 5:
                    break
    print(written)
