"""C29: API calls never exceed the configured rate and burst."""
import asyncio
import itertools

from mon import core, vloop

RULE = (
    "random rates and bursts, and calls asked for in bursts, trickles, long silences, exactly at the rate, and cancelled "
    "while waiting, made on a limiter directly and through rate-limited clients sharing it, under a virtual clock; every "
    "grant is timed and judged against the window bound and the earliest time the earlier grants allow; non-trivial: some "
    "call had to wait; distinct by (rate, burst, pattern of grants)"
)


def pattern(r, rate, burst):
    """Times (from now) at which calls are asked for, and which are cancelled when."""
    t, out = 0.0, []
    unit = 1.0 / rate
    for _ in range(r.randint(2, 7)):
        kind = r.choice(["burst", "burst", "over", "trickle", "exact", "fast", "random"])
        n = r.randint(1, int(min(3 * burst + 5, 120)))
        for _ in range(n):
            out.append(t)
            if kind == "trickle":
                t += unit * r.uniform(1, 2)
            elif kind == "exact":
                t += unit
            elif kind == "fast":
                t += unit * r.uniform(0, 0.9)
            elif kind == "random":
                t += r.expovariate(rate)
        if kind == "over":
            out.extend([t] * int(burst))
        x = r.random()
        if x < 0.35:
            t += burst * unit * r.uniform(0.1, 1.2)
        elif x < 0.7:
            t += (burst + n) * unit * r.uniform(0.5, 4) + r.choice([0, 0, 3600])
    if len(out) > 400:
        out = out[:400]
    cancels = [r.random() < 0.08 for _ in out] if r.random() < 0.3 else [False] * len(out)
    return [(a, unit * r.choice([0, 0.5, 3, burst]) if c else None) for a, c in zip(out, cancels)]


def judge(ck, rate, burst, log, what):
    """log: (asked, granted or None), in the order asked."""
    eps = 1e-6 + 1e-9 * max([a for a, g in log], default=0)
    grants = [g for a, g in log if g is not None]
    wit = {"rate": rate, "burst": burst, "log": log[:300]}
    for a, b in zip(grants, grants[1:]):
        if b < a - eps:
            raise core.Violation("order", f"{what}: a call asked later was let through {a - b:.6f}s earlier", wit)
    for i in range(len(grants)):
        for j in range(i, len(grants)):
            allowed = burst + rate * (grants[j] - grants[i])
            if j - i + 1 > allowed + 1e-6 + eps * rate:
                raise core.Violation(
                    "over-the-limit",
                    f"{what}: {j - i + 1} calls within {grants[j] - grants[i]:.6f}s at rate {rate}, burst {burst} (at most {allowed:.3f})",
                    wit,
                )
    # Earliest possible, given what was let through before (cancelled calls may have taken their turn)
    seen = []
    waited = 0
    for k, (a, g) in enumerate(log):
        need = a
        if seen:
            need = max(need, seen[-1])
        for j, s in enumerate(seen):
            n = len(seen) - j + 1
            if n > burst:
                need = max(need, s + (n - burst) / rate)
            else:
                break
        if g is None:
            seen.append(need)
            continue
        if g > a + eps:
            waited += 1
        if g > need + eps + 1e-9 * len(seen):
            raise core.Violation(
                "waits-too-long",
                f"{what}: call {k} asked at {a:.6f} was let through at {g:.6f}, {g - need:.6f}s later than needed (rate {rate}, burst {burst})",
                wit,
            )
        seen.append(max(g, need) if g > need else g)
    return waited


class FakeApi:
    def __init__(self, loop, log):
        self.loop, self.log = loop, log
        self.api_client = object()
        self._private = 1

    async def list_things(self, *args, **kwargs):
        self.log(kwargs.pop("ident"))
        return ("list", args, kwargs)

    async def create_thing(self, *args, **kwargs):
        self.log(kwargs.pop("ident"))
        await asyncio.sleep(0.5)
        return ("create", args, kwargs)

    async def failing(self, *args, **kwargs):
        self.log(kwargs.pop("ident"))
        raise KeyError("expected")


def case(ck, i):
    from dask_gateway_server.backends.kubernetes.utils import RateLimitedClient
    from dask_gateway_server.utils import RateLimiter

    r = ck.rng(i)
    rate = r.choice([1, 2, 5, 10, 50, 100, 0.1, 0.5, 3, 7.5, 1000])
    burst = r.choice([1, 1, 2, 3, 5, 10, 20, 50, 100])
    default = r.random() < 0.05
    if default:
        rate, burst = 10, 100
    plan = pattern(r, rate, burst)
    through = r.random() < 0.5

    async def main(loop):
        if default:
            lim = RateLimiter()
        elif r.random() < 0.5:
            lim = RateLimiter(rate, burst)
        else:
            lim = RateLimiter(rate=rate, burst=burst)
        if r.random() < 0.3:
            await asyncio.sleep(r.uniform(0, 100))  # idle at first
        start = loop.time()
        asked, granted = {}, {}
        order = []
        if through:
            note = lambda k: granted.__setitem__(k, loop.time())
            apis = [FakeApi(loop, note) for _ in range(2)]
            clients = [RateLimitedClient(a, lim) for a in apis]
            for c, a in zip(clients, apis):
                if c.api_client is not a.api_client:
                    raise core.Violation("wrapper", "the wrapped client's api_client is not the client's own")
                for bad in ("missing", "_private"):
                    if hasattr(c, bad):
                        raise core.Violation("wrapper", f"the wrapped client answers {bad}")

        async def ask(k):
            asked[k] = loop.time()
            order.append(k)
            if not through:
                await lim.acquire()
                granted[k] = loop.time()
                return
            c = clients[k % 2]
            kind = r2.choice(["list_things", "create_thing", "failing"])
            try:
                res = await getattr(c, kind)(k, "x", ident=k, other=3)
            except KeyError as exc:
                if kind != "failing" or exc.args != ("expected",):
                    raise core.Violation("wrapper", f"{kind} raised {exc!r}")
            else:
                if res != ({"list_things": "list", "create_thing": "create"}.get(kind), (k, "x"), {"other": 3}):
                    raise core.Violation("wrapper", f"{kind} answered {res!r}")

        r2 = ck.rng(i, "calls")
        tasks = []
        for k, (at, cancel) in enumerate(plan):
            delay = start + at - loop.time()
            if delay > 0:
                await asyncio.sleep(delay)
            t = asyncio.ensure_future(ask(k))
            tasks.append(t)
            if cancel is not None:
                loop.call_later(cancel, t.cancel)
        for t in tasks:
            try:
                await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
        return [(asked[k], granted.get(k)) for k in order]

    log = vloop.run(main)
    waited = judge(ck, rate, burst, log, "client" if through else "limiter")
    ck.count("calls", len(log))
    ck.count("calls that waited", waited)
    ck.count("calls cancelled", sum(g is None for a, g in log))
    ck.count("through a client" if through else "directly")
    ck.case((rate, burst, through, [round(g - log[0][0], 3) for a, g in log[:40] if g is not None]), nontrivial=waited > 0,
            sample={"rate": rate, "burst": burst, "calls": len(log), "waited": waited} if i < 3 else None)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(20, 600))
    ck.need(**{"calls that waited": 2000, "through a client": 20, "directly": 20})


if __name__ == "__main__":
    core.main("C29", RULE, body, assumptions=[
        "a call cancelled while it waits may use up its turn",
        "the clock the limiter and the event loop read is one virtual clock",
    ])
