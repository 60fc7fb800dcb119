"""C13: scale and adapt requests are clipped and delivered, or refused."""
import json
import math

from aiohttp import web
from traitlets.config import Config

from mon import core, dbworld, gw as gwmod, vloop, vnet

RULE = (
    "running clusters with different worker limits, a scripted scheduler endpoint for each on an "
    "in-memory network under the gateway's real HTTP client, and random scale and adapt requests, "
    "with values of right and wrong types, while each delivery attempt succeeds, is refused, reset, "
    "answered with an error, or times out as scripted; non-trivial: the request was clipped, refused "
    "or needed a retry; distinct by (request, limit, attempts, answer)"
)
OUTCOMES = ["ok", "ok", "slow", "e500", "e401", "e404", "refuse", "reset", "drop", "hang", "cut"]
MISSING = object()


def config(retries):
    from dask_gateway_server.options import Integer, Options

    c = Config()
    c.Backend.cluster_options = Options(
        Integer("limit", default=-1), handler=lambda o: {"cluster_max_workers": o.limit} if o.limit >= 0 else {}
    )
    c.Backend.scheduler_api_retries = retries
    return c


def numbers(r, limit):
    near = [0, 1, 2, 7, 2**40] + ([limit, limit + 1, max(0, limit - 1)] if limit is not None else [])
    x = r.random()
    if x < 0.65:
        return r.choice(near)
    return r.choice([-1, -(2**40), 1.0, 2.5, -0.5, "3", "", "abc", "a\nb", None, [1], [], {}, {"a": 1}, float("nan"), float("inf"), float("-inf"), MISSING])


def natural(v):
    return type(v) is int and v >= 0


class Sched:
    """A scheduler's command endpoint."""

    def __init__(self, net, name, host, r):
        self.net, self.name, self.host, self.r = net, name, host, r
        self.got = []
        self.attempts = []  # what happened at each
        self.plan = []
        vnet.serve(net, host, 9000, self.handle)

    def next(self):
        return self.plan.pop(0) if self.plan else "ok"

    def connect_fault(self):
        """Called for each new connection; the outcome of an attempt may be decided here."""
        if self.plan and self.plan[0] in ("refuse", "reset"):
            self.attempts.append(self.plan.pop(0))
            return self.attempts[-1]

    async def handle(self, req):
        how = self.next()
        self.attempts.append(how)
        body = await req.read()
        self.got.append((req.method, req.path, req.headers.get("Authorization"), body, how))
        if how == "slow":
            import asyncio
            await asyncio.sleep(self.r.uniform(0, 100))
        elif how == "hang":
            import asyncio
            await asyncio.sleep(1e6)
        elif how in ("drop", "refuse", "reset"):
            req.transport.abort()
        elif how == "cut":
            req.transport.write(b"HTTP/1.1 20")
            req.transport.close()
        elif how[0] == "e":
            return web.Response(status=int(how[1:]), headers={"Connection": "close"})
        # Connections are not kept: every attempt is one connection
        return web.json_response({}, headers={"Connection": "close"})


def case(ck, i):
    r = ck.rng("case", i)
    dbworld.prepare((ck.seed, i))
    retries = r.choice([0, 1, 2, 3, 3, 5])
    p = dict(c_start=(0, 0), c_connect=(0, 1), w_start=(0, 0), heartbeat_timeout=1e9, max_age=1e9, poll=0.0,
             check_timeouts_period=1e6, cluster_status_period=1e6, worker_status_period=1e6, hb_interval=50, stop=(0, 5))
    hist = []

    async def main(loop):
        net = vnet.Net(loop)
        w = dbworld.World((ck.seed, i), p)
        sim = dbworld.Sim(w, loop)
        await sim.boot(extra=config(retries))
        if sim.backend.scheduler_api_retries != retries:
            ck.violation("retries-not-configurable", f"configured {retries} attempts, got {sim.backend.scheduler_api_retries}", hist)
        limits = [r.choice([None, 0, 1, 3, 10, 1000]) for _ in range(3)]
        for k, lim in enumerate(limits):
            w.at(loop.time() + k, "create", f"u{k}", {"limit": -1 if lim is None else lim})
        await sim.pump(loop.time() + 10)
        scheds = {}
        for k, n in enumerate(w.names):
            host = w.sched[n]["addr"].split("//")[1].split(":")[0]
            scheds[n] = Sched(net, n, host, r)
        by_host = {(s.host, 9000): s for s in scheds.values()}
        net.fault = lambda addr: by_host[addr].connect_fault() if addr in by_host else None
        for n in w.names:
            got = sim.status_now(n)
            if got != "RUNNING":
                raise core.Inconclusive(f"set-up: cluster is {got}")
        for step in range(r.choice([5, 12])):
            await one(ck, r, sim, w, scheds, limits, retries, hist)
            await sim.pump(loop.time() + r.uniform(0, 20))
        await sim.gw.backend.session.close()

    vloop.run(main)


async def one(ck, r, sim, w, scheds, limits, retries, hist):
    k = r.randrange(len(w.names))
    n = w.names[k]
    limit, s = limits[k], scheds[n]
    if sim.status_now(n) == "RUNNING" and r.random() < 0.06:
        await sim.do_delete(n, "user")
    running = sim.status_now(n) == "RUNNING"
    if not running and r.random() < 0.6:
        return
    op = r.choice(["scale", "adapt"])
    body = {}
    if op == "scale":
        v = numbers(r, limit)
        if v is not MISSING:
            body["count"] = v
    else:
        for key in ("minimum", "maximum"):
            v = r.choice([None, MISSING, numbers(r, limit), numbers(r, limit)])
            if v is not MISSING:
                body[key] = v
        if r.random() < 0.7:
            body["active"] = r.choice([True, True, True, False])
    raw = None
    x = r.random()
    if x < 0.05:
        raw = r.choice([b"", b"{", b"[]", b"3", b"null", b'"x"', b"\xff", b"[1,2]"])
    elif x < 0.1:
        body["op"] = r.choice(["adapt", "scale", "close"])
        body["token"] = "x"
    fails = []
    if r.random() < 0.5:
        fails = [r.choice(OUTCOMES) for _ in range(r.choice([1, 2, retries, retries + 1]))]
    s.plan = list(fails)
    s.got, s.attempts = [], []
    others = {m: len(q.attempts) for m, q in scheds.items() if m != n}
    t0 = sim.loop.time()
    resp = await sim.request("POST", f"/api/v1/clusters/{n}/{op}", gwmod.basic(w.owner[n]), body=raw if raw is not None else json.dumps(body).encode())
    took = sim.loop.time() - t0
    label = (op, repr(body) if raw is None else raw, limit, running, tuple(s.attempts), resp.status)
    hist.append(label + (round(took, 2), repr(resp.exc) if resp.exc else resp.body[:200]))
    ck.count("requests")

    def bad(key, msg):
        raise core.Violation(key, f"{op} {raw if raw is not None else body} to a {'running' if running else 'finished'} cluster with limit {limit}, {retries} attempts allowed, faults {fails}: answered {resp.status} {resp.body[:200]} {resp.exc!r}; {msg}", hist[-10:])

    for m, q in scheds.items():
        if m != n and len(q.attempts) != others[m]:
            bad("delivered-elsewhere", f"an attempt was made at another cluster's scheduler: {q.got[-1:]}")
    for method, path, auth, data, how in s.got:
        if auth != f"token {w.token[n]}":
            bad("not-authenticated", f"delivered with Authorization {auth}")
        if method != "POST" or path != "/api/comm":
            bad("delivered-elsewhere", f"delivered as {method} {path}")
    # Is the request one to deliver, and as what
    valid = None
    if raw is not None:
        valid = False
    elif op == "scale":
        valid = natural(body.get("count"))
    else:
        ok = [body.get(key) is None or natural(body[key]) for key in ("minimum", "maximum")]
        valid = all(ok)
        if valid and None not in (body.get("minimum"), body.get("maximum")) and body["minimum"] > body["maximum"]:
            valid = None  # refuse, or pass on as it is
    if valid is False:
        ck.count("invalid_values")
        if resp.status < 400:
            bad("invalid-accepted", f"accepted, delivered {[g[3] for g in s.got]}")
        if s.attempts:
            bad("invalid-delivered", f"delivered {[g[3] for g in s.got]}")
        if raw is None and (resp.exc is not None or resp.status >= 500):
            bad("invalid-crashes", "not refused but crashed")
        now = sim.status_now(n)
        if running and now != "RUNNING":
            bad("refused-with-effect", f"the cluster is {now}")
        ck.case(label, True)
        return
    if valid is None and 400 <= resp.status < 500 and not s.attempts:
        ck.count("inverted_bounds_refused")
        return
    if not running:
        ck.count("not_running_refused")
        if resp.status not in (409, 404, 422):
            bad("finished-accepted", "not refused")
        if s.attempts:
            bad("finished-delivered", f"delivered {s.attempts}")
        ck.case(label, True)
        return
    good = ("ok", "slow")
    total = max(1, retries)
    expect = []
    for f in fails + ["ok"] * 10:
        expect.append(f)
        if f in good or len(expect) == total:
            break
    success = expect[-1] in good
    if s.attempts != expect:
        bad("wrong-attempts", f"attempts {s.attempts}, the retry rule gives {expect}")
    ck.count("attempts", len(expect))
    ck.count("retried", len(expect) > 1)
    cap = math.inf if limit is None else limit
    for g in s.got:
        try:
            m = json.loads(g[3])
        except Exception:
            bad("bad-message", f"delivered {g[3]}")
        if m.get("op") != op:
            bad("wrong-operation", f"delivered {m}")
        if op == "scale":
            want = min(body["count"], cap)
            if not natural(m.get("count")) or m["count"] != want:
                bad("wrong-count", f"delivered {m}, wanted {want}")
        else:
            lo = body.get("minimum") or 0
            hi = math.inf if body.get("maximum") is None else body["maximum"]
            want = (min(lo, cap), min(hi, cap))
            got = (m.get("minimum") or 0, math.inf if m.get("maximum") is None else m["maximum"])
            if got != want or bool(m.get("active")) != bool(body.get("active", True)):
                bad("wrong-bounds", f"delivered {m}, wanted {want}")
    if success:
        if resp.status != 200:
            bad("delivered-but-refused", "delivered but refused")
        if op == "scale":
            clipped = body["count"] > cap
        else:
            # A bound left out is not a request beyond the limit
            clipped = (body.get("minimum") or 0) > cap or (body.get("maximum") or 0) > cap
        said = resp.json.get("msg")
        if bool(said) != clipped or bool(resp.json.get("ok")) == clipped:
            bad("clip-not-told" if clipped else "clip-told", f"the request was {'' if clipped else 'not '}clipped")
        ck.count("clipped", clipped)
        ck.count("delivered")
        if sim.status_now(n) != "RUNNING":
            bad("delivered-but-failed", f"the cluster is {sim.status_now(n)}")
    else:
        ck.count("undeliverable")
        if resp.status != 409:
            bad("undelivered-accepted", "could not be delivered")
        if sim.status_now(n) not in ("STOPPING", "FAILED"):
            bad("undelivered-not-failed", f"the cluster is {sim.status_now(n)}")
        await sim.pump(sim.loop.time() + 60)
        if sim.status_now(n) != "FAILED":
            bad("undelivered-not-failed", f"after a minute the cluster is {sim.status_now(n)}")
    ck.case(label, len(expect) > 1 or not success or clipped, sample=list(label) if ck.evaluations < 4 else None)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(30, 900))
    ck.need(requests=2000, invalid_values=500, delivered=500, clipped=200, retried=200, undeliverable=100, not_running_refused=50)


if __name__ == "__main__":
    core.main("C13", RULE, body, assumptions=["aiohttp's client is trusted; the network under it is simulated"])
