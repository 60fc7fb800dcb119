"""A simulated outside world for the database-backed gateway.

The gateway is the real application.  Around it: a fake cluster backend whose
start/stop/check calls take time, fail and hang as scripted, schedulers and
workers that connect, heartbeat, scale and die, and users.  World state is plain
data (so that it can be cloned at a crash point); the driver (Sim) is rebuilt
around it.  Everything that crosses the boundary is logged; oracles read only
the log.
"""
import asyncio
import copy
import hashlib
import heapq
import random

from traitlets.config import Config

from dask_gateway_server import models
from mon import core, gw as gwmod, vloop

DEFAULTS = dict(
    heartbeat_period=15,
    heartbeat_timeout=30.0,
    cluster_start_timeout=60.0,
    worker_start_timeout=60.0,
    check_timeouts_period=15.0,
    cluster_status_period=30.0,
    worker_status_period=30.0,
    parallelism=20,
    backoff=0.1,
    backoff_max=300.0,
    failure_limit=3,
    max_workers=None,
    bulk=False,
    stop_on_shutdown=True,
    max_age=3600.0 * 24,
    cleanup_period=600.0,
    # backend behaviour, for kinds c(luster) and w(orker)
    c_start=(0.0, 5.0), w_start=(0.0, 5.0),
    c_connect=(0.0, 10.0), w_connect=(0.0, 10.0),
    stages=(1, 3), tail=(0.0, 1.0),
    c_error=0.0, w_error=0.0, c_hang=0.0, w_hang=0.0,
    c_noconnect=0.0, w_noconnect=0.0, c_die=0.0, w_die=0.0,
    stop=(0.0, 3.0), stop_error=0.0,
    check=(0.0, 2.0), check_error=0.0, false_negative=0.0, c_false_negative=0.0,
    retire=(0.0, 3.0),
    hb_lost=0.0, hb_interval=None,
    poll=0.05,
    users=("alice", "bob"),
)


class World:
    def __init__(self, seed, params):
        self.rng = random.Random(repr(seed))
        self.p = dict(DEFAULTS, **params)
        self.seq = 0
        self.agenda = []
        self.log = []
        self.res = {}  # resource id -> dict
        self.sched = {}  # cluster -> dict
        self.names = []
        self.owner = {}
        self.token = {}
        self.last = {}  # cluster -> last (status, stop_time set) seen
        self.inc = 0
        self.nplan = 0
        self.calm = False

    def clone(self):
        log, self.log = self.log, None
        try:
            w = copy.deepcopy(self)
        finally:
            self.log = log
        w.log = list(log)
        return w

    def at(self, t, kind, *args):
        self.seq += 1
        heapq.heappush(self.agenda, (t, self.seq, kind, args))

    def u(self, rng):
        return self.rng.uniform(*rng)

    def plan(self, kind):
        """What this start call will do."""
        p, r = self.p, self.rng
        self.nplan += 1
        k = kind[0]
        n = r.randint(*p["stages"])
        plan = {
            "n": self.nplan,
            "stages": [self.u(p[f"{k}_start"]) / n for _ in range(n)],
            "tail": r.choice([0, 0, self.u(p["tail"])]),
            "outcome": "ok",
            "fail_at": None,
            "connect": self.u(p[f"{k}_connect"]),
            "die": None,
        }
        if r.random() < 0.3:
            plan["stages"][0] = 0
        if not self.calm:
            x = r.random()
            if x < p[f"{k}_error"]:
                plan["outcome"] = "error"
                plan["fail_at"] = r.randint(0, n)
            elif x < p[f"{k}_error"] + p[f"{k}_hang"]:
                plan["outcome"] = "hang"
                plan["fail_at"] = r.randint(0, n)
            if r.random() < p[f"{k}_noconnect"]:
                plan["connect"] = None
            if r.random() < p[f"{k}_die"]:
                plan["die"] = self.u((0, 20))
        return plan


class Sim:
    """Drives one World around one gateway incarnation."""

    def __init__(self, world, loop):
        self.w = world
        self.loop = loop
        self.gw = None
        self.kick = asyncio.Event()
        self.tasks = set()
        self.on_log = []
        self.orng = random.Random(world.rng.random())
        self.broken = None
        self.errors = []  # unexpected exceptions in driver code
        self.snap_restart = False

    # -- log -------------------------------------------------------------
    def log(self, kind, **kw):
        kw["inc"] = self.w.inc
        self.w.log.append((self.loop.time(), kind, kw))
        for f in self.on_log:
            f(kind, kw)

    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.tasks.add(t)

        def done(t):
            self.tasks.discard(t)
            if not t.cancelled() and t.exception() is not None:
                self.errors.append(t.exception())

        t.add_done_callback(done)
        return t

    # -- the gateway -----------------------------------------------------
    def config(self, url, extra=None):
        p = self.w.p
        c = Config()
        c.Backend = Config()
        b = c.DBBackendBase
        b.db_url = url
        if not url.endswith("://"):
            b.db_encrypt_keys = [KEY]
        b.cluster_heartbeat_period = p["heartbeat_period"]
        b.cluster_heartbeat_timeout = p["heartbeat_timeout"]
        b.cluster_start_timeout = p["cluster_start_timeout"]
        b.worker_start_timeout = p["worker_start_timeout"]
        b.check_timeouts_period = p["check_timeouts_period"]
        b.cluster_status_period = p["cluster_status_period"]
        b.worker_status_period = p["worker_status_period"]
        b.parallelism = p["parallelism"]
        b.backoff_base_delay = p["backoff"]
        b.backoff_max_delay = p["backoff_max"]
        b.worker_start_failure_limit = p["failure_limit"]
        b.stop_clusters_on_shutdown = p["stop_on_shutdown"]
        b.db_cluster_max_age = p["max_age"]
        b.db_cleanup_period = p["cleanup_period"]
        if p["max_workers"] is not None:
            c.ClusterConfig.cluster_max_workers = p["max_workers"]
        if extra:
            c.merge(extra)
        return c

    async def boot(self, url="sqlite://", extra=None, log_sink=None):
        self.w.inc += 1
        self.log("boot")
        self.gw = await gwmod.build(
            make_backend(self), self.config(url, extra), log_sink=log_sink
        )
        self.loop.on_advance.append(self.observe)
        return self.gw

    @property
    def backend(self):
        return self.gw.backend

    def request(self, method, path, headers=None, js=None, body=b""):
        return gwmod.request(self.gw.app, method, path, headers, body=body, js=js)

    async def shutdown(self, limit=100_000):
        """Orderly shutdown of the gateway, in the order the application does."""
        self.log("shutdown")
        try:
            await asyncio.wait_for(self.gw.backend.cleanup(), limit)
            self.log("shutdown_end", ok=True)
        except asyncio.TimeoutError:
            self.log("shutdown_end", ok=False)
        self.observe()
        await self.gw.authenticator.cleanup()
        if self.observe in self.loop.on_advance:
            self.loop.on_advance.remove(self.observe)

    # -- observation -----------------------------------------------------
    def observe(self):
        """At a quiescent point: what the API would say about each cluster."""
        if self.gw is None or self.broken:
            return
        for name in self.w.names:
            try:
                done, m = gwmod.sync(self.backend.get_cluster(name))
            except Exception as exc:
                self.log("get_error", name=name, exc=f"{type(exc).__name__}: {exc}")
                self.broken = exc
                return
            if not done:
                continue
            now = None if m is None else (m.status.name, m.stop_time is not None)
            if self.w.last.get(name, 0) != now:
                self.w.last[name] = now
                self.log("seen", name=name, status=now and now[0], stopped=now and now[1])
        if self.orng.random() < self.w.p["poll"]:
            self.poll()

    def fingerprint(self, name):
        """What must be the same of a cluster for as long as it is known."""
        done, m = gwmod.sync(self.backend.get_cluster(name))
        if not done or m is None:
            return None
        cred = hashlib.sha256(repr((m.token, m.tls_cert, m.tls_key)).encode()).hexdigest()[:12]
        return (m.name, m.username, repr(m.options), repr(sorted(dict(m.config).items())), cred, m.start_time)

    def routes(self, label):
        done, r = gwmod.sync(gwmod.request(self.gw.app, "GET", "/api/v1/routes", gwmod.token("proxy-token")))
        if done and r.status == 200:
            self.log("routes", label=label, routes=sorted((x["kind"], x.get("sni") or x.get("path"), x["target"]) for x in r.json["routes"]))
        else:
            self.log("routes_error", code=r.status if done else None)

    def status_now(self, name):
        try:
            done, m = gwmod.sync(self.backend.get_cluster(name))
        except Exception:
            return "ERROR"
        return m.status.name if done and m is not None else None

    def poll(self):
        """The same through HTTP, with lists: everything at one instant."""
        app = self.gw.app
        statuses = ["pending", "running", "stopping", "stopped", "failed"]
        get = {}

        def call(path, user):
            done, r = gwmod.sync(gwmod.request(app, "GET", path, gwmod.basic(user)))
            if not done:
                raise core.Inconclusive(f"GET {path} suspended")
            if r.status != 200:
                self.log("api_error", path=path, code=r.status, exc=repr(r.exc))
                return None
            return r.json

        for name in self.w.names:
            user = self.w.owner[name]
            if self.w.last.get(name) is None:
                continue  # forgotten after its maximum age
            get[name] = call(f"/api/v1/clusters/{name}", user)
            m = get[name]
            if m is not None:
                self.log("got", name=name, status=m["status"], stop_time=m["stop_time"] is not None)
        users = sorted(set(self.w.owner.values()) | {"mallory"})
        for user in users:
            mine = {n: g for n, g in get.items() if self.w.owner[n] == user and g}
            flt = self.orng.sample(statuses, self.orng.randint(1, 5))
            for sel, path in [
                (["PENDING", "RUNNING"], "/api/v1/clusters/"),
                ([s.upper() for s in flt], "/api/v1/clusters/?status=" + ",".join(flt)),
            ]:
                got = call(path, user)
                if got is None:
                    continue
                want = {n: g for n, g in mine.items() if g["status"] in sel}
                if got != want:
                    self.log("list_mismatch", user=user, path=path, got=sorted(got), want=sorted(want))
        self.log("polled", n=len(get))

    # -- agenda ----------------------------------------------------------
    def at(self, t, kind, *args):
        self.w.at(t, kind, *args)
        self.kick.set()

    def after(self, d, kind, *args):
        self.at(self.loop.time() + d, kind, *args)

    async def pump(self, until):
        """Run the world until the given time."""
        w = self.w
        while self.loop.time() < until and not self.errors and not self.broken:
            nxt = w.agenda[0][0] if w.agenda else until
            if nxt > self.loop.time():
                self.kick.clear()
                try:
                    await asyncio.wait_for(self.kick.wait(), min(nxt, until) - self.loop.time())
                except asyncio.TimeoutError:
                    pass
                continue
            if nxt > until:
                break
            _, _, kind, args = heapq.heappop(w.agenda)
            getattr(self, "ev_" + kind)(*args)
        if self.errors:
            raise self.errors[0]

    def discover(self):
        """After a restart: which clusters the gateway knows, and whether they are the same."""
        done, ms = gwmod.sync(self.backend.list_clusters(statuses=list(models.ClusterStatus)))
        for m in ms:
            if m.name not in self.w.names:
                # Its creation was never acknowledged
                self.w.names.append(m.name)
                self.w.owner[m.name] = m.username
                self.log("discovered", name=m.name, user=m.username, status=m.status.name)
        for name in self.w.names:
            self.log("restored", name=name, print=self.fingerprint(name))

    def restore(self):
        """After a crash: what was in flight is lost, the world goes on."""
        now = self.loop.time()
        w = self.w
        w.agenda = [e for e in w.agenda if e[2] != "hb"]
        heapq.heapify(w.agenda)
        for name, s in w.sched.items():
            s["busy"] = False
            if s["up"]:
                self.hb_soon(name, w.u((0, 5)))
        for i, e in enumerate(w.agenda):
            if e[0] < now:
                w.agenda[i] = (now,) + e[1:]
        heapq.heapify(w.agenda)

    # -- users -----------------------------------------------------------
    def ev_create(self, user, options):
        self.spawn(self.do_create(user, options))

    async def do_create(self, user, options):
        r = await self.request("POST", "/api/v1/clusters/", gwmod.basic(user), js={"cluster_options": options} if options else {})
        if r.status != 201:
            self.log("create_refused", user=user, code=r.status, body=r.body.decode(), exc=repr(r.exc))
            return
        name = r.json["name"]
        self.w.names.append(name)
        self.w.owner[name] = user
        self.log("created", name=name, user=user, print=self.fingerprint(name))

    def ev_delete(self, idx, how):
        if idx < len(self.w.names):
            self.spawn(self.do_delete(self.w.names[idx], how))

    async def do_delete(self, name, how):
        tok = self.w.token.get(name)
        h = gwmod.token(tok) if how == "token" and tok else gwmod.basic(self.w.owner[name])
        self.log("delete_asked", name=name)
        r = await self.request("DELETE", f"/api/v1/clusters/{name}", h)
        self.log("delete", name=name, code=r.status)

    def ev_wait(self, idx):
        if idx < len(self.w.names):
            self.spawn(self.do_wait(self.w.names[idx]))

    async def do_wait(self, name):
        r = await self.request("GET", f"/api/v1/clusters/{name}?wait", gwmod.basic(self.w.owner[name]))
        if r.status == 200:
            self.log("got", name=name, status=r.json["status"], stop_time=r.json["stop_time"] is not None)
        else:
            self.log("api_error", path="wait", code=r.status, exc=repr(r.exc))

    def ev_scale(self, idx, count):
        if idx < len(self.w.names):
            s = self.w.sched.get(self.w.names[idx])
            if s and s["up"]:
                s["count"] = count
                self.log("scale", name=self.w.names[idx], count=count)
                self.hb_soon(self.w.names[idx], 0)
            elif s is None and self.loop.time() < 1e9:
                # Not there yet: the request would be refused; try later
                self.w.sched_wish = getattr(self.w, "sched_wish", {})
                self.w.sched_wish[self.w.names[idx]] = count

    def ev_kill_sched(self, idx):
        if idx < len(self.w.names):
            self.die_sched(self.w.names[idx])

    def ev_kill_worker(self, idx, pending):
        if idx >= len(self.w.names):
            return
        name = self.w.names[idx]
        live = [r for r in self.w.res.values() if r["kind"] == "worker" and r["cluster"] == name and r["alive"] and r["proc"]]
        live = [r for r in live if r["connected"] != pending]
        if live:
            self.die(self.w.rng.choice(live)["id"], "killed")

    def ev_mute(self, idx, duration):
        """A scheduler that is alive but cannot reach the gateway for a while."""
        if idx < len(self.w.names):
            s = self.w.sched.get(self.w.names[idx])
            if s:
                s["mute"] = self.loop.time() + duration
                self.log("mute", name=self.w.names[idx], until=s["mute"])

    def ev_call(self, fn):
        fn(self)

    # -- processes -------------------------------------------------------
    def make(self, kind, name, cluster, plan, proc):
        rid = f"r{len(self.w.res)}"
        self.w.res[rid] = dict(id=rid, kind=kind, name=name, cluster=cluster, alive=True, proc=proc, connected=False)
        self.log("spawn", rid=rid, rkind=kind, name=name, cluster=cluster, proc=proc)
        if proc:
            if plan["die"] is not None:
                self.after(plan["die"], "die", rid)
            if plan["connect"] is not None:
                self.after(plan["connect"], "connect", rid)
        return rid

    def ev_die(self, rid):
        if not self.w.calm and self.w.res[rid]["alive"] and not self.w.res[rid]["connected"]:
            self.die(rid, "died")

    def die(self, rid, why):
        r = self.w.res[rid]
        if not r["alive"]:
            return
        r["alive"] = False
        s = self.w.sched.get(r["cluster"])
        soon = False
        if not r["proc"]:
            pass
        elif r["kind"] == "cluster":
            if s:
                s["up"] = False
        elif s and r["connected"] and r["name"] in s["active"]:
            s["active"].remove(r["name"])
            s["closed"].append(r["name"])
            if r["name"] in s["closing"]:
                s["closing"].remove(r["name"])
            elif s["up"]:
                soon = True
        self.log("dead", rid=rid, rkind=r["kind"], name=r["name"], cluster=r["cluster"], why=why)
        if soon:
            self.hb_soon(r["cluster"], 0)

    def die_sched(self, cluster):
        for r in list(self.w.res.values()):
            if r["kind"] == "cluster" and r["cluster"] == cluster and r["proc"] and r["alive"]:
                self.die(r["id"], "killed")

    def ev_connect(self, rid):
        r = self.w.res[rid]
        if not r["alive"]:
            return
        if r["kind"] == "cluster":
            if r["cluster"] in self.w.sched:
                self.log("second_scheduler", name=r["cluster"])
                return
            r["connected"] = True
            wish = getattr(self.w, "sched_wish", {}).get(r["cluster"], 0)
            self.w.sched[r["cluster"]] = dict(
                up=True, count=wish, active=[], closing=[], closed=[], busy=False, mute=0.0,
                addr=f"tls://10.0.0.{len(self.w.sched) + 1}:8786", gen=0, backoff=0.25,
            )
            self.log("up", name=r["cluster"], count=wish)
            self.hb_soon(r["cluster"], 0.25)
        else:
            s = self.w.sched.get(r["cluster"])
            if not s or not s["up"]:
                return
            if r["name"] in s["active"]:
                # The scheduler does not accept two workers of one name
                self.die(rid, "refused")
                return
            r["connected"] = True
            s["active"].append(r["name"])
            self.log("joined", name=r["name"], cluster=r["cluster"])
            if len(s["active"]) > s["count"]:
                self.hb_soon(r["cluster"], 0)

    def ev_retired(self, cluster, workers):
        s = self.w.sched[cluster]
        s["busy"] = False
        for n in workers:
            for r in list(self.w.res.values()):
                if r["name"] == n and r["kind"] == "worker" and r["proc"]:
                    self.die(r["id"], "retired")
        p = self.w.p
        self.hb_soon(cluster, 0 if s.pop("again", False) else p["hb_interval"] or p["heartbeat_period"])

    # -- heartbeats ------------------------------------------------------
    def hb_soon(self, cluster, delay):
        s = self.w.sched[cluster]
        s["gen"] += 1
        self.after(delay, "hb", cluster, s["gen"])

    def ev_hb(self, cluster, gen):
        s = self.w.sched[cluster]
        if not s["up"] or gen != s["gen"]:
            return
        if s["busy"]:
            s["again"] = True
            return
        s["busy"] = True
        self.spawn(self.do_hb(cluster))

    async def do_hb(self, cluster):
        w, p = self.w, self.w.p
        s = w.sched[cluster]
        closing = []
        if s["count"] < len(s["active"]):
            n = len(s["active"]) - s["count"]
            closing = w.rng.sample(s["active"], n)
        msg = {
            "scheduler_address": s["addr"],
            "dashboard_address": s["addr"].replace("tls", "http").replace("8786", "8787"),
            "api_address": s["addr"].replace("tls", "http").replace("8786", "9000"),
            "count": s["count"],
            "active_workers": [a for a in s["active"] if a not in closing],
            "closing_workers": list(closing),
            "closed_workers": list(s["closed"]),
        }
        lost = "before" if self.loop.time() < s["mute"] else None
        if lost is None and not w.calm and w.rng.random() < p["hb_lost"]:
            lost = w.rng.choice(["before", "after"])
        code = 599
        if lost != "before":
            r = await self.request("POST", f"/api/v1/clusters/{cluster}/heartbeat", gwmod.token(w.token[cluster]), js=msg)
            code = r.status
            self.log("hb", name=cluster, count=msg["count"], active=tuple(msg["active_workers"]), closing=tuple(closing), closed=tuple(msg["closed_workers"]), code=code, exc=repr(r.exc) if r.exc else None)
        if code == 200 and lost is None:
            s["backoff"] = 0.25
            nxt = p["hb_interval"] or p["heartbeat_period"]
            if closing:
                s["closing"] = list(set(s["closing"]) | set(closing))
                self.after(w.u(p["retire"]), "retired", cluster, closing)
                return
        else:
            s["backoff"] = min(s["backoff"] * 2, p["hb_interval"] or p["heartbeat_period"])
            nxt = s["backoff"]
        s["busy"] = False
        self.hb_soon(cluster, 0 if s.pop("again", False) else nxt)


KEY = "c2VjcmV0LXNlY3JldC1zZWNyZXQtc2VjcmV0LXNlY3I="


def make_backend(sim_):
    from dask_gateway_server.backends.db_base import DBBackendBase

    class FakeBackend(DBBackendBase):
        sim = sim_
        supports_bulk_shutdown = sim_.w.p["bulk"]

        async def do_setup(self):
            pass

        async def do_cleanup(self):
            self.sim.log("do_cleanup")

        async def _start(self, kind, obj, cluster):
            sim, w = self.sim, self.sim.w
            name = obj.name
            w.token[cluster.name] = cluster.token
            plan = w.plan(kind)
            sim.log("start", wkind=kind, name=name, cluster=cluster.name, api=sim.status_now(cluster.name), prior=copy.deepcopy(obj.state), planned=plan["outcome"])
            rids = []
            n = len(plan["stages"])
            try:
                for i, delay in enumerate(plan["stages"]):
                    await asyncio.sleep(delay)
                    if plan["fail_at"] == i:
                        await self._fail(kind, name, cluster, plan)
                    rids.append(sim.make(kind, name, cluster.name, plan, i == n - 1))
                    state = {"rids": list(rids), "plan": plan["n"]}
                    sim.log("yield", wkind=kind, name=name, cluster=cluster.name, state=copy.deepcopy(state))
                    yield state
                await asyncio.sleep(plan["tail"])
                if plan["fail_at"] == n:
                    await self._fail(kind, name, cluster, plan)
            except asyncio.CancelledError:
                sim.log("start_end", wkind=kind, name=name, cluster=cluster.name, outcome="timeout")
                raise
            sim.log("start_end", wkind=kind, name=name, cluster=cluster.name, outcome="ok")

        async def _fail(self, kind, name, cluster, plan):
            if plan["outcome"] == "hang":
                await asyncio.sleep(1e8)
            self.sim.log("start_end", wkind=kind, name=name, cluster=cluster.name, outcome="error")
            raise RuntimeError("scripted start failure")

        async def _stop(self, kind, obj, cluster):
            sim, w = self.sim, self.sim.w
            state = copy.deepcopy(obj.state)
            sim.log("stop", wkind=kind, name=obj.name, cluster=cluster.name, state=state, api=sim.status_now(cluster.name))
            await asyncio.sleep(w.u(w.p["stop"]))
            for rid in (state or {}).get("rids", []):
                sim.die(rid, "stopped")
            if kind == "cluster" and self.supports_bulk_shutdown:
                for r in list(w.res.values()):
                    if r["cluster"] == cluster.name and r["alive"]:
                        sim.die(r["id"], "bulk")
            if not w.calm and w.rng.random() < w.p["stop_error"]:
                sim.log("stop_end", wkind=kind, name=obj.name, ok=False)
                raise RuntimeError("scripted stop failure")
            sim.log("stop_end", wkind=kind, name=obj.name, ok=True)

        async def _check(self, kind, objs):
            sim, w = self.sim, self.sim.w
            names = [o.name for o in objs]
            out = []
            for o in objs:
                rids = (o.state or {}).get("rids", [])
                ok = any(w.res[r]["alive"] and w.res[r]["proc"] for r in rids)
                if ok and not w.calm and not any(w.res[r]["connected"] for r in rids) and w.rng.random() < w.p["false_negative" if kind == "worker" else "c_false_negative"]:
                    ok = False
                out.append(ok)
            sim.log("check", wkind=kind, names=names)
            await asyncio.sleep(w.u(w.p["check"]))
            if not w.calm and w.rng.random() < w.p["check_error"]:
                sim.log("check_end", wkind=kind, ok=None)
                raise RuntimeError("scripted check failure")
            sim.log("check_end", wkind=kind, ok=dict(zip(names, out)), of=sorted({getattr(o, "cluster", o).name for o in objs}))
            return out

        def do_start_cluster(self, cluster):
            return self._start("cluster", cluster, cluster)

        async def do_stop_cluster(self, cluster):
            await self._stop("cluster", cluster, cluster)

        async def do_check_clusters(self, clusters):
            return await self._check("cluster", clusters)

        def do_start_worker(self, worker):
            return self._start("worker", worker, worker.cluster)

        async def do_stop_worker(self, worker):
            await self._stop("worker", worker, worker.cluster)

        async def do_check_workers(self, workers):
            return await self._check("worker", workers)

    return FakeBackend


# -- scenario scripts ------------------------------------------------------
def script(world, t0, horizon, nclusters, p_delete=0.5, kills=True, scales=(1, 4), counts=(0, 4), waits=True):
    """Random users' actions, put on the agenda."""
    r = world.rng
    for i in range(nclusters):
        t = t0 + r.uniform(0, horizon * 0.3)
        world.at(t, "create", r.choice(world.p["users"]), {})
        for _ in range(r.randint(*scales)):
            world.at(t + r.uniform(0, horizon), "scale", i, r.randint(*counts))
        if waits:
            world.at(t + r.uniform(0, horizon), "wait", i)
        if kills:
            if r.random() < 0.15:
                world.at(t + r.uniform(0, horizon), "kill_sched", i)
            for _ in range(r.choice([0, 0, 1, 3])):
                world.at(t + r.uniform(0, horizon), "kill_worker", i, r.random() < 0.4)
            if r.random() < 0.15:
                world.at(t + r.uniform(0, horizon), "mute", i, r.choice([5, 40, 100]))
        if r.random() < p_delete:
            when = t + r.choice([r.uniform(0, 0.01), r.uniform(0, 10), r.uniform(0, horizon)])
            for _ in range(r.choice([1, 1, 2])):
                world.at(when, "delete", i, r.choice(["user", "token"]))
                when += r.uniform(0, 5)


def mixed(r, **over):
    """Hostile parameters of every kind."""
    fail = r.choice([0, 0, 0.1, 0.4])
    p = dict(
        parallelism=r.choice([1, 2, 20]),
        bulk=r.random() < 0.4,
        failure_limit=r.choice([1, 2, 3, 100]),
        max_workers=r.choice([None, None, 2, 5]),
        heartbeat_period=r.choice([5, 15]),
        cluster_start_timeout=r.choice([10.0, 60.0]),
        worker_start_timeout=r.choice([8.0, 60.0]),
        check_timeouts_period=r.choice([2.0, 15.0]),
        cluster_status_period=r.choice([1.0, 7.0, 30.0]),
        worker_status_period=r.choice([1.0, 7.0, 30.0]),
        c_start=r.choice([(0, 0), (0, 2), (0, 12)]),
        w_start=r.choice([(0, 0), (0, 2), (0, 12)]),
        c_connect=r.choice([(0, 0), (0, 3), (0, 15)]),
        w_connect=r.choice([(0, 0), (0, 3), (0, 15)]),
        c_error=r.choice([0, 0, fail]), w_error=r.choice([0, fail]),
        c_hang=r.choice([0, 0, fail / 2]), w_hang=r.choice([0, 0, fail / 2]),
        c_noconnect=r.choice([0, 0, fail / 2]), w_noconnect=r.choice([0, fail / 2]),
        c_die=r.choice([0, 0, fail / 2]), w_die=r.choice([0, fail]),
        stop=r.choice([(0, 0), (0, 2), (1, 15)]),
        stop_error=r.choice([0, 0, 0.3]),
        check=r.choice([(0, 0), (0, 3), (2, 20)]),
        check_error=r.choice([0, 0, 0.3]),
        retire=r.choice([(0, 1), (0, 8)]),
        hb_lost=r.choice([0, 0, 0.1]),
    )
    p["heartbeat_timeout"] = p["heartbeat_period"] * 2.0 + 1
    p.update(over)
    return p


def prepare(seed):
    gwmod.cheap_keys()
    gwmod.seeded_uuids(repr(seed))


def run(seed, params, setup, horizon, drain=400.0, url="sqlite://", shutdown=True, start=1000.0, hooks=(), spin=400_000, poll_end=True):
    """One scenario in one gateway incarnation; returns the world."""
    gwmod.cheap_keys()
    gwmod.seeded_uuids(repr(seed))
    out = {}

    async def main(loop):
        w = World(seed, params)
        sim = Sim(w, loop)
        out["w"], out["sim"] = w, sim
        await sim.boot(url)
        for h in hooks:
            h(sim)
        setup(w, loop.time(), sim)
        await sim.pump(loop.time() + horizon)
        w.calm = True
        sim.log("calm")
        await sim.pump(loop.time() + drain)
        if poll_end:
            sim.observe()
            sim.poll()
        sim.log("drained")
        if shutdown:
            await sim.shutdown()
        else:
            await sim.gw.backend.session.close()
        await asyncio.sleep(0)

    vloop.run(main, start=start, spin_limit=spin)
    return out["w"]


def tail(log, n=60, name=None):
    out, beats = [], {}
    for t, kind, d in log:
        if kind == "hb":
            # One of a row of equal heartbeats is enough
            same = beats.get(d["name"]) == d
            beats[d["name"]] = d
            if same:
                continue
        if kind in ("polled", "got") or (kind == "seen" and d.get("status") is None):
            continue
        if name is None or d.get("name") == name or d.get("cluster") == name or kind in ("boot", "shutdown", "crash", "shutdown_end") or name in d.get("of", ()):
            out.append((round(t, 4), kind, {k: v for k, v in d.items() if k != "inc"}))
    return out[-n:]


def signature(log):
    """The order of boundary events, without times and names."""
    ids = {}

    def num(x):
        return ids.setdefault(x, len(ids))

    sig = []
    for t, kind, d in log:
        if kind in ("polled", "got", "check"):
            continue
        sig.append((kind, num(d.get("name")), d.get("status"), d.get("outcome"), d.get("code"), d.get("count")))
    return sig
