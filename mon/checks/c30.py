"""C30: background-task utilities cancel, wake and evict exactly as promised."""
import asyncio
import copy

from mon import core, vloop

RULE = (
    "task pools, cancel groups, flags and caches driven by random programs under a virtual clock: tasks that sleep, clean up "
    "for a while when cancelled, fail while doing so, start further tasks, are cancelled on their own, and enter and leave "
    "blocks; closing, cancelling and setting at random moments; the ends of every task, entry, block and wait are judged "
    "against small models; non-trivial: something was cancelled, released or evicted; distinct by the program's outcome"
)


def pool_case(ck, i, r):
    from dask_gateway_server.utils import TaskPool

    async def main(loop):
        pool = TaskPool()
        tasks, log = [], []
        kinds = ["sleep", "cleanup", "fail", "spawner", "late", "short", "swallow", "instant", "parent"]
        closing = [None]
        closed = [False]

        def spawn(kind, dur, depth=0):
            rec = {"kind": kind, "cancelled": 0, "ended": None, "n": len(tasks), "at": loop.time()}
            co = body(rec, kind, dur, depth)
            how = r.randint(0, 2)
            arg = co if how == 0 else asyncio.ensure_future(co)
            out = pool.spawn(arg)
            if how and out is not arg:
                raise core.Violation("pool-spawn", "spawning a task gave another task back")
            tasks.append((rec, out))
            out.add_done_callback(lambda t: rec.__setitem__("ended", loop.time()))
            return out

        async def body(rec, kind, dur, depth):
            try:
                if kind == "instant":
                    return
                if kind == "parent":
                    await asyncio.sleep(dur / 2)
                    if depth < 2:
                        spawn("sleep", dur, depth + 1)
                await asyncio.sleep(dur)
            except asyncio.CancelledError:
                rec["cancelled"] += 1
                if kind == "cleanup":
                    await asyncio.sleep(r.choice([0, 0.5, 7]))
                elif kind == "fail":
                    raise ValueError("in cleanup")
                elif kind == "late":
                    try:
                        await asyncio.sleep(3)
                    finally:
                        rec["late"] = True
                elif kind == "swallow":
                    await asyncio.sleep(2)
                    return
                elif kind == "spawner" and depth < 3:
                    spawn(r.choice(["sleep", "cleanup", "spawner"]), 1000, depth + 1)
                    if r.random() < 0.5:
                        await asyncio.sleep(r.choice([0, 1]))
                        spawn("sleep", 1000, depth + 1)
                raise

        outside = asyncio.ensure_future(asyncio.sleep(50))
        n = r.randint(0, 12)
        for _ in range(n):
            if r.random() < 0.4:
                await asyncio.sleep(r.choice([0, 0.1, 1, 5]))
            spawn(r.choice(kinds), r.choice([0.5, 2, 20, 1000]))
        if r.random() < 0.8:
            await asyncio.sleep(r.choice([0, 0, 0.5, 2, 3, 30]))
        alive = [(rec, t) for rec, t in tasks if not t.done()]
        closing[0] = loop.time()
        closers = [asyncio.ensure_future(pool.close()) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.2:
            await asyncio.sleep(0)
            if not closers[0].done():
                spawn("sleep", 1000)
        try:
            await asyncio.wait_for(closers[0], 500)
        except asyncio.TimeoutError:
            raise core.Violation("pool-close-hangs", "closing a task pool had not returned after 500 s", [rec for rec, t in tasks])
        left = [rec for rec, t in tasks if not t.done()]
        if left:
            raise core.Violation("pool-task-left", f"{len(left)} tasks of the pool were still running when closing it returned: {left[:3]}", [rec for rec, t in tasks])
        for rec, t in alive:
            if not rec["cancelled"] and not t.cancelled() and (rec["ended"] or loop.time()) > closing[0]:
                raise core.Violation("pool-not-cancelled", f"a task of the pool was not cancelled by closing it: {rec}", [rec for rec, t in tasks])
        for rec, t in tasks:
            if (rec["ended"] or loop.time()) < closing[0] and (rec["cancelled"] or t.cancelled()):
                raise core.Violation("pool-cancelled-early", f"{rec}", None)
        if outside.cancelled() or (outside.done() and loop.time() < 50):
            raise core.Violation("pool-cancels-others", "a task outside the pool was cancelled", None)
        for c in closers:
            await asyncio.wait_for(c, 500)
        await asyncio.wait_for(pool.close(), 500)  # nothing left to do
        outside.cancel()
        ck.count("pool tasks", len(tasks))
        ck.count("pool tasks cancelled", sum(rec["cancelled"] > 0 or t.cancelled() for rec, t in tasks))
        ck.count("pool tasks started while closing", sum(rec["at"] >= closing[0] and rec["n"] >= n for rec, t in tasks))
        return [(rec["kind"], rec["cancelled"], t.cancelled()) for rec, t in tasks], bool(alive)

    return vloop.run(main)


def group_case(ck, i, r):
    from dask_gateway_server.utils import CancelGroup

    async def main(loop):
        group = CancelGroup()
        blocks = []  # every attempt to enter
        cancel_at = [None]
        in_cancel = [None]

        async def user(k, steps):
            for kind, dur, out in steps:
                rec = {"user": k, "kind": kind, "asked": loop.time(), "after_cancel": in_cancel[0] is not None, "state": "entering", "cancelled": False, "left": None}
                blocks.append(rec)
                try:
                    async with group.cancellable():
                        rec["state"] = "inside"
                        try:
                            if kind == "nested":
                                async with group.cancellable():
                                    await asyncio.sleep(dur)
                            elif kind == "busy":
                                for _ in range(int(dur * 2)):
                                    await asyncio.sleep(0.5)
                            elif kind == "nowait":
                                pass
                            elif kind == "raise":
                                await asyncio.sleep(dur)
                                raise ValueError("inside")
                            else:
                                await asyncio.sleep(dur)
                        except asyncio.CancelledError:
                            rec["cancelled"] = True
                            if kind == "cleanup":
                                await asyncio.sleep(r.choice([0, 1, 6]))
                            raise
                        finally:
                            rec["state"] = "left"
                            rec["left"] = loop.time()
                except ValueError:
                    pass
                except asyncio.CancelledError:
                    if rec["state"] == "entering":
                        rec["state"] = "refused"
                    return
                rec2 = {"user": k, "kind": "outside", "cancelled": False, "state": "inside"}
                blocks.append(rec2)
                try:
                    await asyncio.sleep(out)
                except asyncio.CancelledError:
                    rec2["cancelled"] = True
                    raise
                finally:
                    rec2["state"] = "left"

        users = []
        for k in range(r.randint(0, 8)):
            steps = [(r.choice(["sleep", "cleanup", "nested", "busy", "nowait", "raise"]), r.choice([0.5, 1, 3, 20]), r.choice([0, 0.5, 5])) for _ in range(r.randint(1, 5))]
            users.append(asyncio.ensure_future(user(k, steps)))
            if r.random() < 0.3:
                await asyncio.sleep(r.choice([0, 0.5]))
        await asyncio.sleep(r.choice([0, 0.5, 1, 1.5, 3, 8, 40]))
        alone = None
        if users and r.random() < 0.3:
            alone = r.randrange(len(users))
            users[alone].cancel()
            await asyncio.sleep(r.choice([0, 0.2]))
        inside = [b for b in blocks if b["state"] == "inside" and b["kind"] != "outside" and b["user"] != alone]
        outside = [b for b in blocks if b["state"] == "inside" and b["kind"] == "outside" and b["user"] != alone]
        in_cancel[0] = loop.time()
        # nothing ran between taking stock and the call: it runs in this task
        try:
            await asyncio.wait_for(group.cancel(), 500) if r.random() < 0.5 else await group.cancel()
        except asyncio.TimeoutError:
            raise core.Violation("group-hangs", "cancelling a group had not returned after 500 s", blocks)
        for b in inside:
            if b["state"] != "left":
                raise core.Violation("group-not-awaited", f"cancelling the group returned while a block it cancelled was still running: {b}", blocks)
            if not b["cancelled"] and b["left"] > in_cancel[0]:
                raise core.Violation("group-not-cancelled", f"a block inside the group was not cancelled: {b}", blocks)
        try:
            async with group.cancellable():
                raise core.Violation("group-entered", "a block entered the group after it was cancelled", blocks)
        except asyncio.CancelledError:
            pass
        await asyncio.sleep(100)
        for b in outside:
            if b["cancelled"]:
                raise core.Violation("group-cancels-others", "a task outside every block was cancelled by the group", blocks)
        for b in blocks:
            if b["kind"] != "outside" and b["after_cancel"] and b["state"] != "refused":
                raise core.Violation("group-entered", f"a block entered the group after it was cancelled: {b}", blocks)
        ck.count("blocks", len(blocks))
        ck.count("blocks cancelled", len(inside))
        ck.count("tasks outside at the cancel", len(outside))
        for u in users:
            u.cancel()
        return [(b["kind"], b["state"], b["cancelled"]) for b in blocks], bool(inside)

    return vloop.run(main)


def flag_case(ck, i, r):
    from dask_gateway_server.utils import Flag

    async def main(loop):
        flag = Flag()
        recs = []
        set_at = [None]

        async def waiter(rec, how):
            try:
                if how == "timeout":
                    await asyncio.wait_for(wrap(flag), rec["timeout"])
                elif how == "asyncwait":
                    t = asyncio.ensure_future(wrap(flag))
                    await asyncio.wait([t], timeout=rec["timeout"])
                    if not t.done():
                        t.cancel()
                        rec["out"] = "timeout"
                        return
                else:
                    await flag
                rec["out"], rec["t"] = "released", loop.time()
            except asyncio.TimeoutError:
                rec["out"] = "timeout"
            except asyncio.CancelledError:
                rec["out"] = "cancelled"
                raise

        async def wrap(f):
            await f

        end = r.choice([None, 0, 1, 5, 5, 5])
        plan = sorted([(r.choice([0, 0.5, 1, 3, 5, 6, 9]), "wait") for _ in range(r.randint(1, 12))]
                      + [(r.choice([0.2, 1, 4, 5]), "cancel") for _ in range(r.randint(0, 5))]
                      + ([(end, "set")] * r.choice([1, 1, 2]) if end is not None else []), key=lambda x: x[0])
        start = loop.time()
        waits = []
        for at, what in plan:
            d = start + at - loop.time()
            if d > 0:
                await asyncio.sleep(d)
            if what == "wait":
                rec = {"asked": loop.time(), "timeout": r.choice([2, 50]), "out": None, "by_us": False}
                how = r.choice(["plain", "plain", "timeout", "asyncwait"])
                rec["how"] = how
                recs.append(rec)
                waits.append((rec, asyncio.ensure_future(waiter(rec, how))))
            elif what == "cancel" and waits:
                rec, t = r.choice(waits)
                if not t.done():
                    rec["by_us"] = True
                    t.cancel()
            elif what == "set":
                flag.set()
                if set_at[0] is None:
                    set_at[0] = loop.time()
            if flag.is_set() != (set_at[0] is not None):
                raise core.Violation("flag-is-set", f"is_set() is {flag.is_set()}, set at {set_at[0]}", recs)
        await asyncio.sleep(100)
        for rec, t in waits:
            if rec["by_us"]:
                continue
            limit = rec["timeout"] if rec["how"] != "plain" else float("inf")
            if set_at[0] is None:
                if rec["out"] not in (None, "timeout"):
                    raise core.Violation("flag-early", f"a waiter ended as {rec['out']} though the flag was never set", recs)
                continue
            due = max(set_at[0], rec["asked"])
            if due < rec["asked"] + limit - 0.01:
                if rec["out"] != "released" or rec["t"] != due:
                    raise core.Violation("flag-waiter", f"a waiter since {rec['asked']} of a flag set at {set_at[0]}: {rec}", recs)
        ck.count("waits released", sum(x["out"] == "released" for x in recs))
        ck.count("waits cancelled", sum(x["by_us"] for x in recs))
        for rec, t in waits:
            t.cancel()
        return [(x["how"], x["out"]) for x in recs], any(x["out"] == "released" for x in recs)

    return vloop.run(main)


def lru_case(ck, i, r):
    from dask_gateway_server.utils import LRUCache

    size = r.choice([1, 1, 2, 3, 4, 7])
    keys = [f"k{j}" for j in range(size + r.randint(1, 4))]
    lru = LRUCache(size)
    model = []  # least recently used first: (key, value)
    ops = []
    evicted = 0
    for n in range(r.randint(5, 60)):
        op = r.choice(["put", "put", "put", "get", "get", "discard"])
        k = r.choice(keys)
        have = dict(model)
        if op == "put":
            lru.put(k, n)
            ops.append(("put", k, n))
            model = [(a, b) for a, b in model if a != k] + [(k, n)]
            if len(model) > size:
                model.pop(0)
                evicted += 1
        elif op == "get":
            got = lru.get(k)
            ops.append(("get", k, got))
            if got != have.get(k):
                raise core.Violation("lru-value", f"get({k}) gave {got}, the last value put is {have.get(k)}", ops)
            if k in have:
                model = [(a, b) for a, b in model if a != k] + [(k, have[k])]
        else:
            lru.discard(k)
            ops.append(("discard", k))
            model = [(a, b) for a, b in model if a != k]
        probe = copy.deepcopy(lru)
        holds = {q: probe.get(q) for q in keys}
        holds = {q: v for q, v in holds.items() if v is not None}
        if len(holds) > size:
            raise core.Violation("lru-size", f"the cache of size {size} holds {len(holds)} entries", ops)
        if holds != dict(model):
            raise core.Violation("lru-evicts-wrong", f"after {ops[-1]} the cache holds {holds}, expected {dict(model)}", ops)
    ck.count("cache operations", len(ops))
    ck.count("cache evictions", evicted)
    return ops, evicted > 0


KINDS = [pool_case, group_case, flag_case, lru_case]


def case(ck, i):
    r = ck.rng(i)
    f = KINDS[r.randrange(len(KINDS))]
    sig, nontrivial = f(ck, i, r)
    ck.count(f.__name__)
    ck.case((f.__name__, sig), nontrivial=nontrivial, sample={"kind": f.__name__, "outcome": repr(sig)[:200]} if i < 4 else None)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(20, 600))
    ck.need(**{"pool tasks cancelled": 500, "blocks cancelled": 500, "waits released": 500, "cache evictions": 500,
               "pool tasks started while closing": 50})


if __name__ == "__main__":
    core.main("C30", RULE, body, assumptions=[
        "a task pool or group is not closed from within a task of its own",
        "a cache's contents are read by get() on a copy",
    ])
