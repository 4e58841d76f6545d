"""Run scenarios one after another and write down what happened in each.

A wall clock limit for one scenario: a driver which loops for ever is a finding.
"""
import asyncio
import json
import os
import random
import signal
import sys
import traceback


class Hang(BaseException):
    pass


def run(fn, seconds=20):
    """(result of fn or None, None or "hangs" or the exception)"""
    rang = []

    def on_alarm(*_):
        rang.append(1)
        raise Hang()

    res, exc = None, None
    old = signal.signal(signal.SIGALRM, on_alarm)
    # keeps ringing: the first one may be swallowed by what it interrupts
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        res = fn()
    except Hang:
        pass
    except (Exception, asyncio.CancelledError) as e:  # noqa
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return (None, "hangs") if rang else (res, exc)


def record(jobs, out, failed):
    """jobs: [(seed, fn(r) -> trace)]; failed("fails" or "hangs") -> trace.

    ONLY=n runs the n-th alone (to replay it).  After a few failures the rest
    is left out: they are violations, and enough of them.
    """
    import world

    only = int(os.environ.get("ONLY", "0"))
    failures = n = 0
    with open(out, "w") as f:
        for i, (seed, job) in enumerate(jobs):
            if only and i + 1 != only:
                continue
            tr, exc = run(lambda: job(random.Random(seed)))
            if exc is not None:
                failures += 1
                print("recording %d: %r" % (i + 1, exc), file=sys.stderr)
                if exc != "hangs" and failures < 4:
                    traceback.print_exception(type(exc), exc, exc.__traceback__, file=sys.stderr)
                tr = failed("hangs" if exc == "hangs" else "fails")
                try:
                    world.CURRENT.close()
                except BaseException:  # noqa
                    pass
            f.write(json.dumps(tr) + "\n")
            f.flush()
            n += 1
            if failures >= 5:
                break
    print(n)
