"""C24: the scheduler service reports its true state and carries out scale requests."""
import asyncio
import contextlib
import json
import logging
import os
import types

from mon import core, vloop

RULE = (
    "the real service in virtual time between a scheduler whose workers come, go, are lost and retire slowly or not at all, and a gateway that "
    "answers slowly, fails or is away, while scale and adapt requests arrive at any moment, also in the middle of a heartbeat; every message, "
    "retirement and shutdown is judged as it is made; and the real service in a real distributed scheduler with real workers, commanded over HTTP "
    "by a scripted gateway; non-trivial: a scale request was reported; distinct by the history"
)
EPS = 0.02


class WS:
    def __init__(self, name, address):
        self.name, self.address = name, address
        self.processing = {}
        self.status = "running"


class Scheduler:
    """What the service uses of distributed.Scheduler."""

    def __init__(self, sim):
        self.sim = sim
        self.address = "tls://10.0.0.1:8786"
        self.services = {"dashboard": types.SimpleNamespace(port=8787)}
        self.workers = {}
        self.plugins = []
        self.unrunnable, self.queued = set(), set()
        self.transition_log = []
        self.loop = types.SimpleNamespace(time=lambda: vloop._vtime(), asyncio_loop=sim.loop)
        self.time_started = vloop._vtime()
        self.target = 0
        self.serial = 0

    def add_plugin(self, plugin, *args, **kwargs):
        self.plugins.append(plugin)

    def workers_to_close(self, *args, target=None, n=None, attribute="address", **kw):
        r = self.sim.r
        k = len(self.workers) - target if target is not None else n
        pool = [getattr(w, attribute) for w in self.workers.values()]
        r.shuffle(pool)
        if r.random() < 0.3 and not self.sim.calm:
            k -= r.choice([1, 2])
        return pool[:max(0, k)]

    async def retire_workers(self, names=None, workers=None, remove=True, close_workers=False, **kw):
        return await self.sim.retire(list(names))

    def adaptive_target(self, *args, **kwargs):
        if self.sim.stopped:
            self.sim.bad("after-stop", "a stopped service goes on scaling adaptively")
        if self.target is None:
            raise RuntimeError("injected: no target")
        self.sim.settled = True
        return self.target

    # driven by the harness
    def act(self):
        self.transition_log.append(("key", "a", "b", {}, "s", vloop._vtime()))
        self.sim.idle_since = self.sim.loop.time()

    def add(self, name):
        self.serial += 1
        w = WS(name, f"tls://10.0.1.1:{40000 + self.serial}")
        self.workers[w.address] = w
        self.sim.ever.add(name)
        self.sim.announced.discard(name)
        for p in self.plugins:
            p.add_worker(self, w.address)
        self.sim.arrived(w)

    def drop(self, w):
        if w.address in self.workers:
            del self.workers[w.address]
            if w.processing:
                w.processing.clear()
                self.act()
            for p in self.plugins:
                p.remove_worker(self, w.address, stimulus_id="x")


class Gateway:
    token = "the-token"

    def __init__(self, sim):
        self.sim = sim

    async def heartbeat(self, msg):
        await self.sim.heartbeat(json.loads(json.dumps(msg)))

    async def shutdown(self):
        await self.sim.shutdown()


class Sim:
    def __init__(self, ck, r, loop):
        from dask_gateway.scheduler_preload import GatewaySchedulerService

        self.ck, self.r, self.loop = ck, r, loop
        self.hist = []
        self.first = None
        self.ever = set()
        self.calm = False
        self.stopped = False
        self.period = r.choice([0, 0, 15, 15, 2, 0.5])
        self.maxgap = self.period or 3600
        self.idle = r.choice([0, 0, 20, 100])
        self.adaptive_period = r.choice([0.5, 3])
        self.scheduler = Scheduler(self)
        self.gateway = Gateway(self)
        self.down = 0  # probability that a heartbeat fails
        self.lat = 0
        self.retire_how = "ok"
        self.sending = None  # a heartbeat is being sent, or its workers retired
        self.last_ok = None
        self.beats = self.reported = 0
        self.fails = 0
        self.due = []  # [deadline, what]: heartbeats that must come
        self.next_due = None
        self.settled = False  # an adaptive target was computed since
        self.asked = None  # (count, since) the last explicit request
        self.bounds = None  # while adaptive
        self.counts = [(loop.time(), 0)]
        self.told = set()
        self.announced = set()  # workers to be closed
        self.retiring = 0
        self.idle_since = loop.time()
        self.last_shutdown_call = None
        self.shut = []
        self.t_adapt = None
        self.service = GatewaySchedulerService(self.scheduler, io_loop=self.scheduler.loop, gateway=self.gateway, adaptive_period=self.adaptive_period,
                                               idle_timeout=self.idle, heartbeat_period=self.period)

    def bad(self, key, detail):
        if self.first is None:
            self.first = core.Violation(key, f"at {self.loop.time():.2f}: {detail}", self.hist[-150:])

    def check(self):
        if self.first:
            raise self.first

    def say(self, *what):
        self.hist.append((round(self.loop.time(), 2),) + what)

    def names(self):
        return {w.name for w in self.scheduler.workers.values()}

    # -- what the gateway sees -------------------------------------------------
    async def heartbeat(self, msg):
        now = self.loop.time()
        self.beats += 1
        here = self.names()
        self.say("heartbeat", msg.get("count"), sorted(msg.get("active_workers", ())), sorted(msg.get("closing_workers", ())), len(msg.get("closed_workers", ())))
        if self.stopped:
            return self.bad("after-stop", "a stopped service sends a heartbeat")
        if self.sending:
            self.bad("two-heartbeats", "two heartbeats are sent at once")
        try:
            a, c, d = (list(msg[k]) for k in ("active_workers", "closing_workers", "closed_workers"))
        except KeyError as exc:
            return self.bad("message", f"the heartbeat lacks {exc}")
        if len(set(a)) + len(set(c)) + len(set(d)) != len(a) + len(c) + len(d) or set(a) & set(c) or set(d) & (set(a) | set(c)):
            self.bad("partition", f"a worker is reported twice: active {a}, closing {c}, closed {d}")
        elif set(a) | set(c) != here:
            self.bad("partition", f"active {a} and closing {c} are reported; there are {sorted(here)}")
        elif set(d) != self.ever - here:
            self.bad("partition", f"closed {sorted(d)} is reported; gone are {sorted(self.ever - here)}")
        if len(c) > max(0, len(here) - msg["count"]):
            self.bad("closes-too-many", f"{len(c)} of {len(here)} workers are to be closed, {msg['count']} are requested")
        if (msg.get("scheduler_address"), msg.get("dashboard_address"), msg.get("api_address")) != (self.scheduler.address, "http://10.0.0.1:8787", self.api):
            self.bad("addresses", f"the addresses are reported as {[msg.get(k) for k in ('scheduler_address', 'dashboard_address', 'api_address')]}")
        if self.asked is not None and msg["count"] != self.asked[0]:
            if now > self.asked[1] + EPS:
                self.bad("count", f"{self.asked[0]} workers were requested, {msg['count']} are reported")
        if self.bounds is not None:
            self.adapted(msg["count"])
        if msg["count"] != self.counts[-1][1]:
            self.counts.append((now, msg["count"]))
            self.reported += 1
        for d_ in self.due:
            if now > d_[0] + EPS:
                self.bad("late", f"{d_[1]}; a heartbeat was due at {d_[0]:.2f}")
        self.due[:] = [d_ for d_ in self.due if d_[2] is not None and d_[2] != msg["count"]]
        if self.next_due is not None and now > self.next_due + EPS:
            self.bad("late", f"the next heartbeat was due at {self.next_due:.2f}")
        self.next_due = None
        self.sending = True
        self.sent_count = msg["count"]
        ok = False
        try:
            lat = self.r.choice([0, self.lat])
            if lat:
                await asyncio.sleep(lat)
            if self.r.random() < self.down:
                self.ck.count("heartbeats failed")
                raise RuntimeError("injected: the gateway failed")
            ok = True
            self.told = set(c)
            self.announced |= self.told
        finally:
            if not self.stopped:
                if ok and not c:
                    self.ended(True)
                elif not ok:
                    self.ended(False)
                else:
                    # the retirement follows at once
                    self.expect_retire = set(c)
                    self.retire_by = self.loop.time()

    def ended(self, ok):
        """A heartbeat, with all it involves, is over."""
        now = self.loop.time()
        self.sending = None
        if ok:
            self.fails = 0
            self.last_ok = now
            gap = self.maxgap
        else:
            self.fails += 1
            gap = min(0.25 * 2 ** self.fails, self.maxgap)
        self.next_due = now + gap
        if self.calm:
            self.next_due = now + self.maxgap
        # what arrived meanwhile is to be told at once
        for d in self.due:
            d[0] = max(d[0], now if ok else now + gap)
        self.say("heartbeat over", ok)

    async def retire(self, names):
        names = set(names)
        self.say("retire", sorted(names))
        if self.stopped:
            return self.bad("after-stop", "a stopped service retires workers")
        if not self.sending:
            self.bad("retire-untold", f"{sorted(names)} are retired though no heartbeat told the gateway just now")
        if not names <= self.told:
            self.bad("retire-untold", f"{sorted(names)} are retired, the gateway was told of {sorted(self.told)}")
        self.told = set()
        self.ck.count("retirements")
        ok = False
        try:
            for name in sorted(names):
                if self.lat:
                    await asyncio.sleep(self.r.uniform(0, self.lat))
                if self.retire_how == "fail" and self.r.random() < 0.5:
                    self.announced -= names & self.names()
                    raise RuntimeError("injected: not retired")
                if self.retire_how == "stay" and self.r.random() < 0.5:
                    continue
                for w in [w for w in self.scheduler.workers.values() if w.name == name]:
                    self.scheduler.drop(w)
            ok = True
        finally:
            if not self.stopped:
                self.ended(ok)

    async def shutdown(self):
        now = self.loop.time()
        self.say("shutdown")
        if not self.idle:
            self.bad("shutdown", "a cluster without idle timeout is shut down")
        elif self.busy():
            self.bad("shutdown-busy", f"the cluster is shut down while {self.busy()}")
        elif now - self.idle_since < self.idle - EPS:
            self.bad("shutdown-early", f"the cluster is shut down {now - self.idle_since:.1f}s after its last activity, its idle timeout is {self.idle}s")
        self.shut.append(now)
        self.last_shutdown_call = now
        self.ck.count("shutdowns")
        if self.lat:
            await asyncio.sleep(self.r.choice([0, self.lat]))
        if self.r.random() < self.down:
            self.ck.count("shutdowns failed")
            raise RuntimeError("injected: the gateway failed")

    def busy(self):
        s = self.scheduler
        if any(w.processing for w in s.workers.values()):
            return "a worker is processing"
        if s.unrunnable:
            return "a task waits for a worker that can run it"
        if s.queued:
            return "a task is queued"
        return None

    def arrived(self, w):
        n = self.counts_now()
        if n is not None and len(self.scheduler.workers) > n:
            self.must(3, f"worker {w.name} is surplus")

    def counts_now(self):
        return self.asked[0] if self.asked else None

    def must(self, within, why, count=None):
        now = self.loop.time()
        if self.service_on:
            self.due.append([now + within, f"{why} since {now:.2f}", count])

    def overdue(self):
        """Deadlines that have passed with no heartbeat at all."""
        now = self.loop.time()
        if self.sending or not self.service_on or self.stopped:
            return
        for d in self.due:
            if now > d[0] + EPS:
                self.bad("late", f"{d[1]}; a heartbeat was due at {d[0]:.2f}")
        if self.next_due is not None and now > self.next_due + EPS:
            self.bad("late", f"the next heartbeat was due at {self.next_due:.2f}")
        if self.idle and not self.busy():
            ref = max(self.idle_since + self.idle, (self.last_shutdown_call or 0) + 2 * self.lat)
            if now > ref + self.idle / 2 + 2 * self.lat + EPS:
                self.bad("not-shut-down", f"the cluster is idle since {self.idle_since:.1f}, its idle timeout is {self.idle}s, and was last shut down {self.last_shutdown_call}")

    # -- requests --------------------------------------------------------------------
    async def scale(self, n):
        self.say("scale", n)
        self.bounds = None
        self.asked = (n, self.loop.time())
        self.due[:] = [d for d in self.due if d[2] is None]
        if self.counts[-1][1] != n:
            self.must(0, f"scaling to {n} was requested", n)
            if self.sending:
                self.ck.count("requests during a heartbeat")
        await self.command(self.service.scale(n))
        self.ck.count("scales")

    async def adapt(self, **kw):
        self.say("adapt", kw)
        now = self.loop.time()
        if kw.get("active", True):
            b = (kw.get("minimum"), kw.get("maximum"))
            self.bounds = [b, now]
            self.settled = False
            self.asked = None
        else:
            self.bounds = None
            self.asked = None
        self.due[:] = [d for d in self.due if d[2] is None]
        await self.command(self.service.adapt(**kw))

    async def command(self, coro):
        try:
            await coro
        except Exception as exc:
            self.bad("command", f"a command fails: {exc!r}")

    def adapted(self, count):
        """A count reported while scaling is adaptive is within bounds, unless it is that of before."""
        (lo, hi), since = self.bounds
        if lo is not None and hi is not None and lo > hi:
            return
        if not self.settled:
            return
        if lo is not None and count < lo or hi is not None and count > hi:
            self.bad("adaptive-bounds", f"{count} workers are requested, within {lo} and {hi} was asked at {since:.2f}")
        self.ck.count("adaptive counts judged")


def case(ck, i):
    r = ck.rng(i)

    async def main(loop):
        await run(ck, i, r, loop)

    try:
        vloop.run(main, spin_limit=50_000)
    except vloop.Spin as exc:
        raise core.Violation("spins", f"the service works without end and without waiting: {exc}")


async def run(ck, i, r, loop):
    from tornado import web

    s = Sim(ck, r, loop)
    s.service_on = False
    sch = s.scheduler

    # the HTTP side is exercised with real sockets
    real_listen = web.Application.listen
    web.Application.listen = lambda self, *a, **k: types.SimpleNamespace(_sockets={0: types.SimpleNamespace(getsockname=lambda: ("10.0.0.1", 8788))}, stop=lambda: None)
    try:
        s.service.listen(("10.0.0.1", 0))
    finally:
        web.Application.listen = real_listen
    s.api = "http://10.0.0.1:8788"
    s.service_on = True
    s.next_due = loop.time() + (0.25 if s.period else 3600)
    s.idle_since = loop.time()
    serial = 0

    def weather():
        s.down = r.choice([0, 0, 0.3, 0.9])
        s.lat = r.choice([0, 0.05, 1, 5])
        s.retire_how = r.choice(["ok", "ok", "fail", "stay"])

    if r.random() < 0.8:
        weather()
    for _ in range(r.randint(20, 120)):
        await asyncio.sleep(r.choice([0, 0, 0.01, 0.1, 0.3, 1, 3, 8, 20]))
        s.overdue()
        s.check()
        x = r.random()
        if x < 0.25:
            await s.scale(r.choice([0, 1, 2, 3, 5, 8]))
        elif x < 0.33:
            kw = r.choice([{}, {"minimum": 1}, {"maximum": 3}, {"minimum": 1, "maximum": 4}, {"minimum": 2, "maximum": 2}, {"active": False}, {"minimum": 0, "maximum": 0}])
            await s.adapt(**kw)
        elif x < 0.45:
            sch.target = r.choice([0, 1, 2, 3, 5, 9, None])
        elif x < 0.62:
            serial += 1
            sch.add(f"w{serial}" if r.random() < 0.9 or not (s.ever - s.names()) else r.choice(sorted(s.ever - s.names())))
        elif x < 0.70:
            if sch.workers:
                w = r.choice(sorted(sch.workers.values(), key=lambda w: w.address))
                sch.drop(w)
                s.ck.count("workers lost")
                if s.period:
                    if not s.sending and w.name not in s.announced:
                        s.must(3, f"worker {w.name} was lost")
        elif x < 0.82:
            # work comes and goes; what ends leaves a trace in the log
            what = r.choice(["processing", "unrunnable", "queued"])
            if what == "processing":
                if sch.workers:
                    w = r.choice(sorted(sch.workers.values(), key=lambda w: w.address))
                    w.processing = {} if w.processing else {"t": 1}
            else:
                pool = getattr(sch, what)
                pool.clear() if pool else pool.add("t")
            sch.act()
        elif x < 0.92:
            weather()
        else:
            await asyncio.sleep(r.choice([30, 100, 300]))
    # at rest, what was asked last is what the gateway was told
    s.down = s.lat = 0
    s.retire_how = "ok"
    s.calm = True
    n = r.choice([0, 1, 3])
    mode = r.random()
    if mode < 0.5:
        await s.scale(n)
        await asyncio.sleep(s.maxgap * 2 + 40)
        s.overdue()
        s.check()
        want = n
    else:
        lo, hi = r.choice([(None, None), (1, 4), (2, 2), (None, 3)])
        t = sch.target = r.choice([0, 1, 3, 7])
        await s.adapt(minimum=lo, maximum=hi)
        want = t
        want = want if lo is None else max(lo, want)
        want = want if hi is None else min(hi, want)
        await asyncio.sleep(s.maxgap * 2 + 6 * s.adaptive_period + 40)
        s.overdue()
        s.check()
    if s.counts[-1][1] != want:
        s.bad("count-at-rest", f"{want} workers are {'requested' if mode < 0.5 else 'the adaptive target'}, the gateway was last told {s.counts[-1][1]}")
    if mode < 0.5 and len(sch.workers) > want and s.service_on:
        s.bad("surplus-at-rest", f"{len(sch.workers)} workers are left, {want} are requested")
    if mode >= 0.5:
        await s.scale(6)
        sch.target = 0
        await asyncio.sleep(20 * s.adaptive_period)
        s.check()
        if s.counts[-1][1] != 6:
            s.bad("count-at-rest", f"6 workers were requested explicitly, the gateway was last told {s.counts[-1][1]}")
    if r.random() < 0.3:
        await s.adapt()
        await asyncio.sleep(r.choice([0, 0.1, 10]))
    s.stopped = True
    s.service.stop()
    await asyncio.sleep(0)
    before = len(s.hist)
    await asyncio.sleep(2 * s.maxgap + 100)
    s.check()
    ck.count("heartbeats", s.beats)
    ck.count("counts reported", s.reported)
    ck.case(s.hist, nontrivial=s.reported > 0, sample={"heartbeats": s.beats, "retired": sum(h[1] == "retire" for h in s.hist), "workers": len(s.ever)} if i < 3 else None)


# -- the real scheduler -----------------------------------------------------------------
def real(ck, i):
    asyncio.run(asyncio.wait_for(real_run(ck, ck.rng("real", i)), 100))


async def real_run(ck, r):
    import aiohttp
    from aiohttp import web
    from distributed import Client, Scheduler, Worker

    from dask_gateway import scheduler_preload

    beats, deletes = [], []
    fail = {"beat": 0, "delete": 0}
    hold = asyncio.Event()
    hold.set()
    arrived = asyncio.Event()

    async def beat(request):
        msg = await request.json()
        beats.append((request.headers.get("Authorization"), msg, {w.name for w in sched.workers.values()}))
        arrived.set()
        await hold.wait()
        if fail["beat"] > 0:
            fail["beat"] -= 1
            return web.Response(status=500)
        return web.Response()

    async def delete(request):
        deletes.append((request.headers.get("Authorization"), asyncio.get_running_loop().time()))
        if fail["delete"] > 0:
            fail["delete"] -= 1
            return web.Response(status=500)
        return web.Response(status=204)

    app = web.Application()
    app.router.add_post("/api/v1/clusters/c1/heartbeat", beat)
    app.router.add_delete("/api/v1/clusters/c1", delete)
    runner = web.AppRunner(app)
    await runner.setup()
    site = web.TCPSite(runner, "127.0.0.1", 0)
    await site.start()
    port = site._server.sockets[0].getsockname()[1]
    env = {"DASK_GATEWAY_CLUSTER_NAME": "c1", "DASK_GATEWAY_API_URL": f"http://127.0.0.1:{port}/api", "DASK_GATEWAY_API_TOKEN": "secret token"}
    env["DASK_GATEWAY_API_TOKEN"] = "secret-token"
    old = dict(os.environ)
    os.environ.update(env)

    def want(cond, key, what):
        if not cond:
            raise core.Violation(key, f"with a real scheduler: {what}; heartbeats {[(m['count'], m['active_workers'], m['closing_workers'], m['closed_workers']) for _, m, _ in beats][-6:]}")

    async def until(cond, seconds=10):
        t = asyncio.get_running_loop().time()
        while not cond():
            if asyncio.get_running_loop().time() - t > seconds:
                return False
            await asyncio.sleep(0.01)
        return True

    idle = 1.2 if r.random() < 0.5 else 0
    period = r.choice([0, 15])
    workers = []
    sched = await Scheduler(port=0, dashboard=False, dashboard_address=None, host="127.0.0.1")
    try:
        scheduler_preload.dask_setup.callback(sched, 0.2, period, idle, "127.0.0.1:0")
        service = sched.services["gateway"]
        url = f"{service.api_address}/api/comm" if hasattr(service, "api_address") else None
        if period:
            want(await until(lambda: beats, 5), "no-heartbeat", "no heartbeat within 5 s")
            url = beats[0][1]["api_address"] + "/api/comm"
        async with aiohttp.ClientSession() as http:
            async def post(msg, auth="token secret-token", json_=True, path=""):
                async with http.post(url + path, json=msg, headers={"Authorization": auth} if auth else {}) as resp:
                    return resp.status

            async with http.get(url.replace("comm", "health")) as resp:
                want(resp.status == 200, "health", f"health is answered {resp.status}")
            for auth in (None, "token wrong", "token", "token ", "Basic secret-token", "secret-token", "tokensecret-token", "token secret-token x"):
                n = len(beats)
                st = await post({"op": "scale", "count": 9}, auth)
                want(400 <= st < 500, "foreign-token", f"a command with {auth!r} is answered {st}")
                ck.count("commands refused")
            if idle:
                # Work that waits for workers is no idleness
                want(not any(m["count"] == 9 for _, m, _ in beats), "foreign-token", "a refused command was carried out")
                async with Client(sched.address, asynchronous=True) as client:
                    futs = client.map(lambda x: x, range(8), pure=False)
                    if not await until(lambda: sched.tasks, 5):
                        raise core.Inconclusive("tasks did not arrive")
                    await asyncio.sleep(idle * 2.6)
                    want(not deletes, "shutdown-busy", f"the cluster is shut down while {len(sched.tasks)} tasks wait for workers")
                    ck.count("busy periods judged")
                    for f in futs:
                        f.release()
                    del futs
                    await until(lambda: not sched.tasks, 5)
                fail["delete"] = r.choice([0, 1])
                need = fail["delete"] + 1
                want(await until(lambda: len(deletes) >= need, idle * 4 + 5), "not-shut-down", f"an idle cluster is shut down {len(deletes)} times, {need - 1} of which failed")
                want(all(a == "token secret-token" for a, _ in deletes), "foreign-token", f"shutdown is asked with {deletes[0][0]}")
                ck.count("idle shutdowns judged")
                return
            # workers
            async def add(name):
                w = await Worker(sched.address, name=name, nthreads=1, dashboard=False, dashboard_address=None, host="127.0.0.1")
                workers.append(w)

            def told(n, **kw):
                return any(m["count"] == n for _, m, _ in beats)

            k = r.choice([2, 3])
            want(await post({"op": "scale", "count": k}) == 200, "command", "a scale command is not answered 200")
            want(await until(lambda: told(k)), "scale-untold", f"scaling to {k} is not reported")
            await asyncio.gather(*(add(f"w{j}") for j in range(k)))
            # a request in the middle of a heartbeat
            hold.clear()
            arrived.clear()
            beats.clear()
            await post({"op": "scale", "count": k + 5})
            want(await until(arrived.is_set), "scale-untold", f"scaling to {k + 5} is not reported")
            await post({"op": "scale", "count": k - 1})
            await asyncio.sleep(r.choice([0, 0.1]))
            hold.set()
            want(await until(lambda: told(k - 1), 5), "scale-untold", f"scaling to {k - 1}, requested during a heartbeat, is not reported")
            want(await until(lambda: len(sched.workers) == k - 1), "not-retired", f"{len(sched.workers)} workers are left, {k - 1} are requested")
            want(await until(lambda: not [w for w in workers if w.status.name == "running"] or len([w for w in workers if w.status.name == "running"]) == k - 1), "not-retired", "retired workers run on")
            # adaptive, with work for many
            fail["beat"] = r.choice([0, 1])
            await post({"op": "adapt", "minimum": 0, "maximum": k})
            want(await until(lambda: beats and beats[-1][1]["count"] == 0, 8), "adaptive", "an idle adaptive cluster is not scaled to 0")
            async with Client(sched.address, asynchronous=True) as client:
                futs = [client.submit(lambda x: x, j, pure=False) for j in range(20)]
                want(await until(lambda: beats[-1][1]["count"] >= 1, 8), "adaptive", "an adaptive cluster with work is not scaled up")
                want(max(m["count"] for _, m, _ in beats[-2:]) <= k, "adaptive", f"an adaptive cluster of at most {k} is scaled to {beats[-1][1]['count']}")
                await post({"op": "scale", "count": 1})
                want(await until(lambda: beats[-1][1]["count"] == 1), "scale-untold", "scaling to 1 is not reported")
                await asyncio.sleep(1)
                want(beats[-1][1]["count"] == 1, "adaptive", "adaptive scaling goes on after an explicit request")
                for f in futs:
                    f.release()
            for auth, m, here in beats:
                want(auth == "token secret-token", "foreign-token", f"heartbeats carry {auth!r}")
                a, c, d = (m[x] for x in ("active_workers", "closing_workers", "closed_workers"))
                want(len(a) + len(c) + len(d) == len(set(a) | set(c) | set(d)), "partition", f"active {a}, closing {c}, closed {d}")
            ck.count("real sessions judged")
    finally:
        with contextlib.suppress(Exception):
            await asyncio.gather(*(w.close() for w in workers))
        await sched.close()
        await runner.cleanup()
        os.environ.clear()
        os.environ.update(old)
    ck.case(("real", k if not idle else 0, period, idle), nontrivial=True)


def prepare(ck):
    logging.disable(logging.CRITICAL)


def both(ck, i):
    if i % 40 == 7:
        real(ck, i)
    else:
        case(ck, i)


def body(ck):
    prepare(ck)
    import dask
    import distributed  # noqa: F401  (before forking)

    ck.pool(lambda i: both(ck, i), ck.budget(25, 900))
    ck.need(**{"heartbeats": 5000, "counts reported": 500, "retirements": 100, "heartbeats failed": 200, "requests during a heartbeat": 50, "shutdowns": 50, "real sessions judged": 3, "busy periods judged": 3})


if __name__ == "__main__":
    core.main("C24", RULE, body, assumptions=[
        "the simulated scheduler answers as distributed.Scheduler does; the runs with a real one confirm the parts they use",
        "retirement is part of the heartbeat that announced it",
    ])
