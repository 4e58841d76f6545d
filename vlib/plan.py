"""What decides which property: models, schedules, recordings and clauses."""

# ------------------------------------------------------------------ models
# name -> module, configuration, constants replaced in the tier
MODELS = {
    "unpi": dict(module="UnpiMC", cfg="UnpiMC.cfg", thorough={"MaxLen": 10}),
    "codec": dict(module="CodecMC", cfg="CodecMC.cfg", thorough={"MaxList": 3}),
    "startup": dict(module="StartupMC", cfg="StartupMC.cfg",
                    thorough={"EpCases": '{"none", "most", "all"}', "MaxFaults": 2}),
    "link": dict(module="LinkMC", cfg="LinkMC.cfg",
                 thorough={"Losses": 3, "Faults": 2, "Horizon": 60000}),
    "link-calls": dict(module="LinkMC", cfg="LinkMC_calls.cfg",
                       thorough={"Losses": 2, "Stops": 1}),
}
for _m, _deep in (
    ("sync", {"MaxCalls": 3, "MaxFrames": 3}), ("reset", {"MaxCalls": 3, "MaxFrames": 2}),
    ("wait", {"MaxCalls": 3, "MaxFrames": 3}), ("zdo", {"MaxTicks": 2}),
    ("app", {"MaxFrames": 3}), ("led", {"MaxTicks": 2}), ("join", {"MaxFrames": 4}),
):
    MODELS["host-" + _m] = dict(module="HostMC", cfg="HostMC_%s.cfg" % _m, thorough=_deep)


def menu(name, limit, prods=None, deep=None, deep_limit=None):
    return dict(module="HostGen", cfg="HostGen_%s.cfg" % name, menu=name, limit=limit,
                over=prods and {"Prod": prods}, deep=deep, deep_limit=deep_limit or 120000)


STARTUP_GEN = dict(module="StartupGen", cfg="StartupGen.cfg", limit=6000)
LINK_GEN = dict(module="LinkGen", cfg="LinkGen.cfg", limit=None)


def host(focus, quick, thorough, gens=()):
    return dict(family="host", focus=focus, quick=quick, thorough=thorough, gens=gens)


def startup(focus, quick, thorough, gens=(STARTUP_GEN,)):
    return dict(family="startup", focus=focus, quick=quick, thorough=thorough, gens=gens)


def link(focus, quick, thorough, gens=()):
    return dict(family="link", focus=focus, quick=quick, thorough=thorough, gens=gens)


def wire(focus):
    return dict(family="wire", focus=focus, quick="quick", thorough="thorough", gens=())


BASE = ["virtual time: the event loop's clock only moves when nothing is ready to run",
        "the serial port is a stand-in which keeps asyncio's transport contract"]
A_WIRE = BASE + ["frames with more than 250 payload bytes are not sent by an adapter"]
A_HOST = BASE + ["no two devices with the same network address are known at once",
                 "a reply to a request which was cancelled or failed at that very instant may go either way"]
A_START = BASE + ["the adapter behaves like spec/Znp.tla; no backup file is configured"]
A_LINK = BASE + ["a loss during the very first start is up to the caller of that start"]

PLAN = {
    "C01": dict(models=["unpi"], runs=[wire("C01")], assumptions=A_WIRE),
    "C02": dict(models=["unpi", "codec"], runs=[wire("C02")], assumptions=A_WIRE),
    "C03": dict(models=["unpi", "codec"], runs=[wire("C03"), host("C03", 700, 12000)], assumptions=A_WIRE + A_HOST[2:]),
    "C04": dict(models=["codec"], runs=[wire("C04")], assumptions=A_WIRE),
    "C05": dict(models=["host-sync", "host-reset"],
                runs=[host("C05", 900, 15000, (menu("sync", 4000), menu("reset", 3000), menu("led", 3000)))],
                assumptions=A_HOST),
    "C06": dict(models=["host-sync", "host-reset"],
                runs=[host("C06", 900, 15000, (menu("sync", 5000), menu("reset", 3000)))], assumptions=A_HOST),
    "C07": dict(models=["host-sync", "host-reset", "link-calls"],
                runs=[host("C07", 900, 15000, (menu("sync", 4000), menu("reset", 2000), menu("zdo", 3000))),
                      link("C07", 400, 6000)],
                assumptions=A_HOST + A_LINK[2:]),
    "C08": dict(models=["host-reset", "host-wait"],
                runs=[host("C08", 900, 15000, (menu("reset", 4000), menu("wait", 5000)))], assumptions=A_HOST),
    "C09": dict(models=["host-zdo", "link-calls"],
                runs=[host("C09", 900, 15000, (menu("zdo", 9000), menu("join", 2000))), link("C09", 400, 6000)],
                assumptions=A_HOST + A_LINK[2:]),
    "C10": dict(models=["host-zdo", "host-app"],
                runs=[host("C10", 900, 15000, (menu("zdo", 7000), menu("app", 4000)))], assumptions=A_HOST),
    "C11": dict(models=["host-join"], runs=[host("C11", 900, 15000, (menu("join", 5000),)), link("C11", 300, 5000)],
                assumptions=A_HOST + A_LINK[2:]),
    "C12": dict(models=["host-join"], runs=[host("C12", 900, 15000, (menu("join", 8000),))], assumptions=A_HOST),
    "C13": dict(models=["host-app"], runs=[host("C13", 1200, 20000, (menu("app", 5000),))], assumptions=A_HOST),
    "C14": dict(models=["host-app"], runs=[host("C14", 900, 15000, (menu("app", 7000),))], assumptions=A_HOST),
    "C21": dict(models=["host-led"],
                runs=[host("C21", 900, 15000, (menu("led", 5000), menu("led", 3000, prods=1))),
                      startup("C21", 120, 2000, ())],
                assumptions=A_HOST + A_START[2:]),
    "C15": dict(models=["startup"], runs=[startup("C15", 400, 6000)], assumptions=A_START),
    "C16": dict(models=["startup"], runs=[startup("C16", 400, 6000)], assumptions=A_START),
    "C17": dict(models=["startup"], runs=[startup("C17", 400, 6000)], assumptions=A_START),
    "C18": dict(models=["startup"], runs=[startup("C18", 400, 6000)], assumptions=A_START),
    "C23": dict(models=["startup"], runs=[startup("C23", 400, 6000)], assumptions=A_START),
    "C19": dict(models=["link", "link-calls"], runs=[link("C19", 1200, 20000, (LINK_GEN,))], assumptions=A_LINK),
    "C20": dict(models=["link"], runs=[link("C20", 2000, 30000)], assumptions=A_LINK),
    "C22": dict(models=["link"], runs=[link("C22", 2000, 30000)], assumptions=A_LINK),
}

# ------------------------------------------------------------------ clauses
# which properties a broken clause of the specification breaks
HOSTS = "C03 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21"
STARTS = "C15 C16 C17 C18 C23"
LINKS = "C19 C20 C22"
_T = {
    "wire": {
        "wrong-frames-delivered": "C01 C03 C04",
        "content-altered": "C01 C03 C04",
        "error-escapes-to-transport": "C01 C02 C03 C04",
        "wrong-bytes-written": "C02",
        "not-read-back": "C02",
        "driver-fails": "C01 C02 C03 C04",
        "driver-hangs": "C01 C02 C03 C04",
        "uninterpretable": "C01 C02 C03 C04",
    },
    "host": {
        "message-not-delivered": "C03 C09 C10 C11 C12",
        "command-not-sent": "C03 C05 C07 C08 C10 C13 C14 C21",
        "call-not-ended": "C03 C05 C06 C07 C08 C10 C13 C14 C21",
        "no-timeout": "C03 C07 C08 C10",
        "malformed-output": "C05 C13 C21",
        "sent-after-cancel": "C05 C07 C10 C13",
        "sent-after-close": "C05 C07",
        "wrong-frame": "C05 C13 C21",
        "sent-twice": "C05 C13 C14 C21",
        "unrequested-frame": "C05 C09 C13 C14 C21",
        "second-outstanding": "C05 C06 C07 C08",
        "out-of-order": "C05 C07",
        "led-out-of-order": "C05 C21",
        "too-many-in-progress": "C14",
        "wrong-result": "C03 C06 C07 C08 C10 C13 C14 C21",
        "no-settle-time": "C14",
        "early-timeout": "C03 C06 C07 C08 C10",
        "ended-without-answer": "C03 C06 C07 C08 C10 C14",
        "ended-without-being-sent": "C03 C05 C06 C07 C08 C10 C13 C14 C21",
        "ended-twice": HOSTS,
        "delivered-out-of-order": "C03 C09 C11 C12",
        "unexpected-delivery": "C03 C09 C10 C11 C12",
        "wrong-transaction-number": "C03 C09 C10 C12",
        "wrong-delivery": "C03 C09 C10 C11 C12",
        "error-escapes-to-transport": HOSTS,
        "driver-fails": HOSTS,
        "driver-hangs": HOSTS,
        "uninterpretable": HOSTS,
    },
    "startup": {
        "unknown-command": STARTS,
        "carried-on-after-failure": "C23",
        "acts-after-the-end": "C23 C16",
        "acts-unasked": "C23 C16",
        "led-not-supported": "C21",
        "touched-a-matching-network": "C16",
        "started-a-running-stack": "C16",
        "matching-network-not-resumed": "C16 C23",
        "formed-without-permission": "C15 C16",
        "marked-before-stored": "C15 C17",
        "marked-before-formed": "C15 C17",
        "registered-again": "C18",
        "wrong-endpoint": "C18",
        "group-added-again": "C18",
        "endpoint-missing": "C18",
        "group-missing": "C18",
        "wrong-address": "C18",
        "no-coordinator-device": "C18",
        "start-never-ends": STARTS,
        "waits-too-long": "C23",
        "no-recovery-after-interruption": "C15 C17 C23",
        "start-fails-without-cause": "C15 C17 C18 C23",
        "success-after-failure": "C23 C15 C17",
        "half-written-network-taken": "C15 C17",
        "wrong-network": "C15 C17",
        "not-marked": "C15 C17",
        "not-running": "C15 C17 C23",
        "formed-on-other-channels": "C15 C17",
        "formed-another-network": "C15 C17",
        "zstack12-pan-id-ignored": "C15 C17",
        "unset-pan-ext-id-ignored": "C15 C17",
        "driver-fails": STARTS,
        "uninterpretable": STARTS,
    },
    "link": {
        "not-reopened": "C19",
        "attempt-never-given-up": "C19",
        "port-left-open": "C19 C20 C22",
        "two-ports": "C19 C20 C22",
        "two-attempts": "C19 C20 C22",
        "opened-again": "C19 C20 C22",
        "reopened-at-wrong-time": "C19",
        "opened-after-close": "C19 C20",
        "opened-unasked": "C19 C22",
        "wrote-to-old-port": "C19 C22",
        "closed-a-good-link": "C19 C22",
        "success-after-failure": "C19",
        "start-fails-without-cause": "C19 C22",
        "start-never-ends": LINKS,
        "error-escapes": LINKS,
        "not-started-again": "C19",
        "call-not-sent": "C07 C19",
        "call-not-ended": "C07",
        "call-ended-twice": "C07",
        "call-fails-without-cause": "C07 C19",
        "call-fails-though-accepted": "C07",
        "call-ok-without-acceptance": "C07",
        "asked-twice": "C07",
        "asked-after-end": "C07",
        "reply-not-told": "C09",
        "told-unasked": "C09 C11",
        "told-wrong-number": "C09",
        "message-not-told": "C11",
        "wrong-port-or-settings": "C22",
        "stray-bytes": "C22",
        "no-wake-up": "C22",
        "command-too-early": "C22",
        "probe-too-late": "C20",
        "probe-ignores-cancel": "C20",
        "probe-true-without-answer": "C20",
        "probe-false-despite-answer": "C20",
        "probe-raises": "C20",
        "probe-leaves-port-open": "C20",
        "driver-fails": LINKS + " C07 C09 C11",
        "uninterpretable": LINKS + " C07 C09 C11",
    },
}
CLAUSES = {f: {c: frozenset(ps.split()) for c, ps in t.items()} for f, t in _T.items()}
# clauses which belong to known findings; of no concern to other properties
FINDING_CLAUSES = {"zstack12-pan-id-ignored", "unset-pan-ext-id-ignored"}
