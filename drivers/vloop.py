"""An asyncio event loop on virtual time: when nothing is ready, time jumps to the next timer.
Sockets are real; everything a driver runs (client and scripted peer) lives in this one loop, so a
written byte is readable at once and no virtual time passes while bytes are under way."""
import asyncio, selectors, time

class VSelector(selectors.DefaultSelector):
    def __init__(self, clock):
        super().__init__(); self.clock = clock
    def select(self, timeout=None):
        ev = super().select(0)
        if ev or timeout == 0: return ev
        ev = super().select(0.0002)            # grace for the kernel
        if ev: return ev
        if timeout is None:
            return super().select(0.05)
        self.clock.now += timeout
        return []

class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.clock = CLOCK
        super().__init__(VSelector(CLOCK))
        self._clock_resolution = 1e-9
    def time(self):
        return self.clock.now

class Clock:
    now = 1000.0
CLOCK = Clock()
REAL_TIME = time.time
REAL_MONO = time.monotonic

def install():
    """time.time()/monotonic() follow the virtual clock (heartbeats use time.time())."""
    time.time = lambda: 1.7e9 + CLOCK.now
    time.monotonic = lambda: CLOCK.now
    time.perf_counter = lambda: CLOCK.now

def run(coro):
    loop = VLoop()
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            ts = asyncio.all_tasks(loop)
            for t in ts: t.cancel()
            if ts: loop.run_until_complete(asyncio.gather(*ts, return_exceptions=True))
        finally:
            loop.close()
