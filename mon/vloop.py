"""An asyncio event loop on virtual time.

Time stands still while anything can run and jumps to the next timer when
nothing can, so hours of timeouts run in milliseconds and every delay is
exact.  The order in which callbacks run is asyncio's own: no interleaving is
manufactured that a real loop could not produce.
"""
import asyncio
import gc
import math
import selectors
import time
import warnings

_real_time = time.time
_real_monotonic = time.monotonic
EPOCH = 1_700_000_000.0


class Deadlock(Exception):
    """Nothing can run and no timer is pending."""


class Spin(Exception):
    """Very many loop iterations without time advancing."""


class _VSelector(selectors.DefaultSelector):
    vloop = None

    def select(self, timeout=None):
        loop = self.vloop
        evs = super().select(0)
        if evs:
            loop._still += 1
            if loop._still > loop.spin_limit:
                raise Spin(f"{loop._still} iterations at virtual time {loop._vnow}")
            return evs
        if timeout is None:
            # Perhaps a thread will wake us
            evs = super().select(loop.thread_grace)
            if evs:
                return evs
            raise Deadlock(f"nothing can run at virtual time {loop._vnow}")
        if timeout <= 0:
            loop._still += 1
            if not loop._ready:
                # A timer is due within the precision of the clock, which never stands still
                loop._vnow = math.nextafter(loop._vnow, math.inf)
            if loop._still > loop.spin_limit:
                raise Spin(f"{loop._still} iterations at virtual time {loop._vnow}")
            return evs
        loop._advance()
        return evs


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, start=1000.0, spin_limit=200_000, thread_grace=0.0):
        self._vnow = start
        self._still = 0
        self.spin_limit = spin_limit
        self.thread_grace = thread_grace
        self.on_advance = []  # called just before time moves: a quiescent point
        self.errors = []
        sel = _VSelector()
        sel.vloop = self
        super().__init__(sel)
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self._vnow

    def _advance(self):
        self._still = 0
        for f in list(self.on_advance):
            f()
        if self._ready:
            return
        sched = self._scheduled
        if sched:
            self._vnow = max(self._vnow, sched[0]._when)


_active = None


def _vtime():
    return _real_time() if _active is None else EPOCH + _active._vnow


def _vmono():
    return _real_monotonic() if _active is None else _active._vnow


def install_clock():
    """Route time.time/time.monotonic through the active virtual loop."""
    time.time = _vtime
    time.monotonic = _vmono


def close_loop(loop, cancel=True):
    global _active
    try:
        if cancel:
            for _ in range(3):
                tasks = asyncio.all_tasks(loop)
                if not tasks:
                    break
                for t in tasks:
                    t.cancel()
                try:
                    loop.run_until_complete(asyncio.wait(tasks, timeout=100))
                except (Deadlock, Spin):
                    break
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except (Deadlock, Spin, RuntimeError):
                pass
    finally:
        loop.close()
        asyncio.set_event_loop(None)
        _active = None


def run(coro_fn, horizon=None, start=1000.0, spin_limit=200_000, thread_grace=0.0):
    """Run coro_fn(loop) to completion on a fresh virtual loop."""
    global _active
    install_clock()
    loop = VirtualLoop(start, spin_limit, thread_grace)
    asyncio.set_event_loop(loop)
    _active = loop
    try:
        main = loop.create_task(coro_fn(loop))
        return loop.run_until_complete(main)
    finally:
        close_loop(loop)


def activate(loop):
    global _active
    _active = loop


def quiet():
    """Abandoned tasks of crashed incarnations are expected."""
    warnings.simplefilter("ignore")
