"""An asyncio event loop with virtual time, stepped by hand.

Time is an integer number of milliseconds which only moves when the harness says so;
a scenario decides after how many loop iterations the next outside event happens.
"""
import asyncio
import asyncio.events
import heapq
import selectors


class _NullSelector(selectors.BaseSelector):
    def __init__(self):
        self._map = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, 0, events, data)
        self._map[fileobj] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_key(self, fileobj):
        return self._map[fileobj]

    def select(self, timeout=None):
        return []

    def close(self):
        pass

    def get_map(self):
        return self._map


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.ms = 0
        self.loop_errors = []
        super().__init__(_NullSelector())
        self.set_exception_handler(lambda loop, ctx: self.loop_errors.append(ctx))

    # no self pipe: nothing wakes this loop from another thread
    def _make_self_pipe(self):
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass

    def time(self):
        return self.ms / 1000.0

    def iterate(self):
        """Run one iteration at the current time."""
        asyncio.events._set_running_loop(self)
        try:
            self._run_once()
        finally:
            asyncio.events._set_running_loop(None)

    def _next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        return self._scheduled[0]._when if self._scheduled else None

    def due(self):
        """Is there anything to do without time passing?"""
        if self._ready:
            return True
        w = self._next_timer()
        return w is not None and w < self.time() + self._clock_resolution

    def next_timer_ms(self):
        w = self._next_timer()
        if w is None:
            return None
        ms = int(round(w * 1000))
        if ms / 1000.0 + self._clock_resolution <= w:
            ms += 1
        return ms

    def settle(self, limit=10000):
        """Run until nothing is left to do at the current time."""
        n = 0
        while self.due():
            self.iterate()
            n += 1
            if n > limit:
                raise RuntimeError("event loop does not come to rest")
        return n

    def advance(self, ms):
        """Let ms milliseconds pass, running every timer at its time."""
        end = self.ms + ms
        while True:
            self.settle()
            nxt = self.next_timer_ms()
            if nxt is None or nxt > end:
                break
            self.ms = max(self.ms, nxt)
        self.ms = end

    def call_in_loop(self, fn, *args):
        """Call fn as if from a callback of this loop."""
        outer = asyncio.events._get_running_loop()
        asyncio.events._set_running_loop(self)
        try:
            return fn(*args)
        finally:
            asyncio.events._set_running_loop(outer)
