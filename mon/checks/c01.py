"""C01: online monitor of the work queue's call/return history."""
import asyncio

from mon import core, vloop

RULE = (
    "random schedules of producers (put, put_after, put_backoff, reset), consumers "
    "(get, hold, task_done; some cancelled or timed out at random instants, also in "
    "the same loop turn as a put) and close on the real WorkQueue under virtual time; "
    "non-trivial: at least one item was re-added while held, or a waiting get was "
    "cancelled, or a delayed put merged; distinct by the full event history"
)
EPS = 2e-9


class Monitor:
    def __init__(self, ck, loop, base, mx):
        self.ck, self.loop = ck, loop
        self.pending, self.maybe, self.held, self.due, self.fails = {}, set(), {}, {}, {}
        self.base, self.mx = base, mx
        self.waiting = {}
        self.closed = False
        self.ev = []
        self.merged = self.readded = self.cancelled = 0
        self.queue = None
        self.tail_order = []

    def log(self, *e):
        self.ev.append((round(self.loop.time(), 6),) + e)

    def bad(self, key, msg):
        raise core.Violation(key, msg, self.ev[-80:])

    def put(self, item):
        self.log("put", item)
        if self.pending.get(item):
            self.merged += 1
        if item in self.held:
            self.readded += 1
        self.pending[item] = True

    def put_after(self, item, d):
        now = self.loop.time()
        self.log("put_after", item, d)
        if d <= 0:
            if item in self.due and self.due[item] <= now + EPS:
                return
            self.due.pop(item, None)
            self.put(item)
            return
        if item in self.due and self.due[item] <= now + d:
            self.merged += 1
            return
        self.due[item] = now + d

    def got(self, item, c):
        now = self.loop.time()
        self.log("got", item, c)
        if self.closed:
            self.bad("get-after-close", f"get returned {item!r} after close")
        if item in self.held:
            self.bad("concurrent-processing", f"{item!r} handed to consumer {c} while consumer {self.held[item]} still holds it")
        ok = self.pending.get(item)
        d = self.due.get(item)
        if d is not None and d <= now + EPS:
            del self.due[item]
            if ok:
                self.maybe.add(item)
            ok = True
        elif not ok and item in self.maybe:
            self.maybe.discard(item)
            ok = True
        if not ok:
            when = f"; its delayed put is due at {d}" if d is not None else ""
            self.bad("spurious-delivery", f"{item!r} handed out at {now} without a put since it was last handed out{when}")
        self.pending[item] = False
        self.held[item] = c
        self.ck.count("deliveries")

    def quiescent(self):
        now = self.loop.time()
        for i, d in list(self.due.items()):
            if d <= now + EPS:
                self.pending[i] = True
                del self.due[i]
        self.ck.count("quiescent_points")
        if self.closed:
            if self.waiting:
                self.bad("close-leaves-waiter", f"consumers {sorted(self.waiting)} still blocked after close")
            return
        ready = [i for i, p in self.pending.items() if p and i not in self.held]
        if ready and self.waiting:
            self.bad("stranded-item", f"items {ready} are queued at {now} and consumers {sorted(self.waiting)} are waiting, but nothing will run")
        if self.queue is not None and not self.maybe:
            if self.queue.is_empty() != (not any(self.pending.values())):
                self.bad("is-empty", f"is_empty() is {self.queue.is_empty()} with queued {[i for i, p in self.pending.items() if p]}")


async def scenario(ck, rng, loop):
    from dask_gateway_server.workqueue import Backoff, WorkQueue, WorkQueueClosed

    base, mx = rng.choice([(0.01, 0.5), (0.1, 300), (1, 2)])
    m = Monitor(ck, loop, base, mx)
    q = m.queue = WorkQueue(backoff=Backoff(base_delay=base, max_delay=mx))
    loop.on_advance.append(m.quiescent)
    items = [f"i{k}" for k in range(rng.randint(1, 4))]
    ncons = rng.randint(2, 4)
    delays = rng.choice([[0, 0.01, 0.02], [0, 0, 0.01, 0.5], [0.001, 1, 5]])
    steps = rng.randint(4, 30)
    draining = False

    async def pause(d=None):
        d = rng.choice(delays) if d is None else d
        if d:
            # Jitter, so that no two timers coincide and the order is known
            await asyncio.sleep(d * (1 + rng.random() / 10))
        else:
            for _ in range(rng.randint(0, 3)):
                await asyncio.sleep(0)

    def timeout():
        if draining:
            return 5000
        soon = [d - loop.time() for d in m.due.values() if d > loop.time()]
        if soon and rng.random() < 0.5:
            return rng.choice(soon)  # expires in the turn in which an item is queued
        return rng.choice(delays) * (1 + rng.random() / 10) + 0.005

    async def consumer(c, polite):
        while True:
            m.waiting[c] = True
            m.log("get?", c)
            try:
                if polite == "wait_for":
                    item = await asyncio.wait_for(q.get(), timeout())
                else:
                    item = await q.get()
            except asyncio.TimeoutError:
                m.waiting.pop(c)
                m.log("timeout", c)
                m.cancelled += 1
                continue
            except asyncio.CancelledError:
                m.waiting.pop(c, None)
                m.log("cancelled", c)
                m.cancelled += 1
                raise
            except WorkQueueClosed:
                m.waiting.pop(c)
                m.log("closed", c)
                if not m.closed:
                    m.bad("closed-early", "get raised WorkQueueClosed before close")
                return
            m.waiting.pop(c)
            m.got(item, c)
            try:
                await pause()
            finally:
                del m.held[item]
                m.log("done", item, c)
                act = rng.random()
                if act < 0.15:
                    backoff(item)
                elif act < 0.3:
                    q.reset_backoff(item)
                    m.fails.pop(item, None)
                q.task_done(item)

    def backoff(item):
        n = m.fails.get(item, 0)
        if q.failures(item) != n:
            m.bad("failure-count", f"failures({item!r}) is {q.failures(item)}, {n} recorded")
        m.fails[item] = n + 1
        m.put_after(item, min(base * 2**n, mx))
        q.put_backoff(item)

    tasks = {}
    n = 0

    def spawn(polite):
        nonlocal n
        n += 1
        tasks[n] = loop.create_task(consumer(n, polite))

    for _ in range(ncons):
        spawn(rng.choice(["", "", "wait_for"]))

    def one_put():
        item = rng.choice(items)
        r = rng.random()
        if r < 0.55:
            m.put(item)
            q.put(item)
        elif r < 0.9:
            d = rng.choice([0, -1, 0.005, 0.01, 0.02, 0.3, 2])
            d *= 1 + rng.random() / 10
            m.put_after(item, d)
            q.put_after(item, d)
        else:
            backoff(item)

    async def producer():
        for _ in range(steps):
            for _ in range(rng.randint(1, 3)):
                one_put()
            if any(not t.done() for t in tasks.values()) and rng.random() < 0.4:
                k = rng.choice([k for k, t in tasks.items() if not t.done()])
                m.log("cancel", k)
                tasks[k].cancel()
                if rng.random() < 0.5:
                    one_put()
                if rng.random() < 0.5:
                    await pause()
            await pause()
            if sum(not t.done() for t in tasks.values()) < rng.randint(2, 5):
                spawn(rng.choice(["", "wait_for"]))

    prods = [loop.create_task(producer()) for _ in range(rng.randint(1, 2))]
    await asyncio.gather(*prods)
    draining = True
    closing = rng.random() < 0.3
    if closing:
        await pause()
        m.closed = True
        m.log("close")
        q.close()
        await asyncio.sleep(1)
        try:
            got = await asyncio.wait_for(q.get(), 5)
            m.bad("get-after-close", f"get returned {got!r} after close")
        except WorkQueueClosed:
            pass
        except asyncio.TimeoutError:
            m.bad("get-after-close", "get blocks after close")
    else:
        spawn("")
        await asyncio.sleep(2000)
        left = [i for i, p in m.pending.items() if p]
        if left or m.due:
            m.bad("lost-item", f"items {left} / delayed {m.due} were never handed out")
    for t in tasks.values():
        if t.done() and not t.cancelled() and t.exception():
            raise t.exception()
    loop.on_advance.clear()
    for t in tasks.values():
        t.cancel()
    ck.count("readded_while_held", m.readded)
    ck.count("merged", m.merged)
    ck.count("cancelled_gets", m.cancelled)
    ck.count("closed_queues", closing)
    ck.case(m.ev, bool(m.readded or m.merged or m.cancelled), sample={"history_head": m.ev[:12], "events": len(m.ev)} if len(m.ev) > 30 else None)


def body(ck):
    budget = ck.budget(20, 600)
    i = 0
    while ck.elapsed() < budget and not ck.stop():
        rng = ck.rng("case", i)
        ck.run_case(f"case {i}", lambda: vloop.run(lambda loop: scenario(ck, rng, loop)))
        i += 1
    ck.need(deliveries=1000, readded_while_held=50, merged=50, cancelled_gets=50, closed_queues=5)


if __name__ == "__main__":
    core.main("C01", RULE, body, assumptions=["one event loop, as the code is used"])
