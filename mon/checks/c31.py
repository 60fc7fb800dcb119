"""C31: on YARN each cluster is one application, judged and killed as such."""
import asyncio
import base64
import contextvars
import logging
import os
import shutil
import stat
import sys
import tempfile
import threading
import types

from mon import core, gw, vloop

RULE = (
    "the real server with the YARN backend on virtual time, and a stand-in for the skein library that keeps applications and containers; submissions and "
    "queries are slow, fail or outlast the timeouts, applications and containers end, several clusters share the server, the gateway restarts; every "
    "specification, call and status is judged; non-trivial: an application was submitted; distinct by the calls made"
)
USERS = ("alice", "bob")
GRACE = 30
WORLD = None  # the case in progress


# A stand-in for skein ---------------------------------------------------------


class Later(BaseException):
    """The call takes this much longer"""


class Record:
    fields = ()

    def __init__(self, *args, **kwargs):
        self.__dict__.update(kwargs)
        for k, v in zip(self.fields, args):
            setattr(self, k, v)


class Security(Record):
    fields = ("cert_file", "key_file", "cert_bytes", "key_bytes")

    @classmethod
    def new_credentials(cls):
        return cls(cert_bytes=b"own", key_bytes=b"own")


class File(Record):
    fields = ("source", "type", "visibility", "size", "timestamp")

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class ConnectionError_(Exception):
    pass


class State(str):
    """An enumeration whose members compare with their names"""


class Client:
    def __init__(self, address=None, security=None, keytab=None, principal=None, **kwargs):
        WORLD.call("client", None)
        self.keytab, self.principal, self.closed = keytab, principal, False
        WORLD.clients.append(self)

    def submit(self, spec):
        return WORLD.submit(self, spec)

    def application_report(self, app_id):
        return WORLD.report(app_id)

    def kill_application(self, app_id, user=""):
        WORLD.kill(app_id)

    def close(self):
        self.closed = True


class ApplicationClient:
    def __init__(self, address, app_id, security=None):
        self.address, self.id, self.security = address, app_id, security

    def add_container(self, service, env=None):
        return WORLD.add_container(self, service, env)

    def kill_container(self, id):
        WORLD.kill_container(self, id)

    def get_containers(self, services=None, states=None):
        return WORLD.get_containers(self, services, states)


def fake_skein():
    m = types.ModuleType("skein")
    m.Client, m.ApplicationClient, m.Security, m.File = Client, ApplicationClient, Security, File
    m.Master, m.Service, m.Resources, m.ApplicationSpec = (
        type(n, (Record,), {"fields": f})
        for n, f in (("Master", ("resources", "script", "files", "env")), ("Service", ("resources", "script", "instances", "files", "env")), ("Resources", ("memory", "vcores")), ("ApplicationSpec", ("services", "master")))
    )
    ex = m.exceptions = types.ModuleType("skein.exceptions")
    for mod in (m, ex):
        mod.ConnectionError = ConnectionError_
        mod.SkeinError = Exception
        mod.DaemonError = mod.DaemonNotRunningError = mod.ApplicationError = mod.ApplicationNotRunningError = ConnectionError_
    sys.modules["skein"], sys.modules["skein.exceptions"] = m, ex


# What YARN does ---------------------------------------------------------------

_threaded = contextvars.ContextVar("threaded", default=False)


class World:
    def __init__(self, ck, r, loop):
        self.ck, self.r, self.loop = ck, r, loop
        self.apps = {}
        self.clients = []
        self.calls = []
        self.problems = []
        self.slow = {}  # kind -> seconds, once
        self.fail = {}  # kind -> applications (None: all)
        self.cfg = None
        self.seq = 0

    def bad(self, key, detail):
        self.problems.append((key, detail))

    def check(self):
        if self.problems:
            key, detail = self.problems[0]
            raise core.Violation(key, detail, {"calls": self.calls[-60:], "problems": self.problems[:10], "config": self.cfg})

    def call(self, kind, app, *what):
        """A call over the network arrives"""
        here = _threaded.get() or threading.current_thread() is not threading.main_thread()
        if not here:
            self.bad("blocking", f"YARN is called ({kind}) in the event loop, nothing else is served until it answers")
        if kind in self.slow:
            raise Later(self.slow.pop(kind))
        failing = kind in self.fail and (self.fail[kind] is None or app in self.fail[kind])
        self.calls.append((round(self.loop.time(), 2), kind, app, *what, *(["fails"] if failing else [])))
        if failing:
            raise ConnectionError_(f"{kind} failed")

    def executor(self, _, f, *args):
        """Threads: what they run takes time, and can't be interrupted"""
        fut = self.loop.create_future()
        delay = self.r.choice([0, 0.001, 0.01, 0.05, 0.2])
        def go():
            t = _threaded.set(True)
            try:
                x = f(*args)
            except Later as exc:
                self.loop.call_later(exc.args[0], go)
            except BaseException as exc:  # noqa: B036
                if not fut.cancelled():
                    fut.set_exception(exc)
            else:
                if not fut.cancelled():
                    fut.set_result(x)
            finally:
                _threaded.reset(t)

        self.loop.call_later(delay, go)
        return fut

    # the resource manager
    def submit(self, client, spec):
        name = spec.master.env.get("DASK_GATEWAY_CLUSTER_NAME")
        self.call("submit", None, name)
        if client.closed:
            raise ConnectionError_("the client is closed")
        files = {}
        for where, fs in (("scheduler", spec.master.files), ("worker", spec.services["dask.worker"].files)):
            for k, v in fs.items():
                path = v if isinstance(v, str) else None
                if path is None or path.startswith("hdfs://"):
                    files[where, k] = v.__dict__ if path is None else path
                    continue
                with open(path, "rb") as f:  # missing: the submission fails
                    files[where, k] = f.read()
                if "PRIVATE KEY" in repr(files[where, k]) and stat.S_IMODE(os.stat(path).st_mode) & 0o77:
                    self.bad("secret", f"the file with the key of {name} can be read by others")
        self.seq += 1
        app_id = f"application_15_{self.seq:04d}"
        self.apps[app_id] = {
            "id": app_id, "name": name, "spec": spec, "files": files, "state": "ACCEPTED", "containers": {}, "killed": False,
            "host": f"10.1.0.{self.seq}", "port": 4000 + self.seq, "running_at": self.loop.time() + self.r.choice([0, 0.5, 5]),
        }
        return app_id

    def state(self, a):
        if a["state"] == "ACCEPTED" and self.loop.time() >= a["running_at"]:
            a["state"] = "RUNNING"
        return a["state"]

    def alive(self, a):
        return self.state(a) in ("ACCEPTED", "RUNNING")

    def report(self, app_id):
        self.call("report", app_id)
        a = self.apps.get(app_id)
        if a is None:
            self.bad("application", f"the state of the application {app_id!r} is asked, there is none")
            raise ValueError("no such application")
        if a.get("forgotten"):
            raise ValueError("no such application")
        up = self.state(a) == "RUNNING"
        return types.SimpleNamespace(id=app_id, state=State(a["state"]), host=a["host"] if up else None, port=a["port"] if up else None, final_status=State("UNDEFINED"), user=a["spec"].user)

    def kill(self, app_id):
        self.call("kill", app_id)
        a = self.apps.get(app_id)
        if a is None:
            self.bad("application", f"the application {app_id!r} is killed, there is none")
            return
        a["killed"] = True
        if self.alive(a):
            a["state"] = "KILLED"
        for k in a["containers"].values():
            k["alive"] = False

    # the application masters
    def master(self, kind, client, *what):
        self.call(kind, client.id, *what)
        a = self.apps.get(client.id)
        sec = client.security
        if a is None:
            self.bad("application", f"{kind} is asked of {client.id}, there is no such application")
            raise ConnectionError_("no such application")
        if client.address != f"{a['host']}:{a['port']}":
            self.bad("application", f"{kind} is asked of {client.id} at {client.address}, it is at {a['host']}:{a['port']}")
        own = a["spec"].master.security
        if sec is None or (sec.cert_bytes, sec.key_bytes) != (own.cert_bytes, own.key_bytes):
            self.bad("credentials", f"{kind} is asked of {client.id} with credentials that are not its own")
        if self.state(a) != "RUNNING":
            raise ConnectionError_("the application is not running")
        return a

    def add_container(self, client, service, env):
        name = (env or {}).get("DASK_GATEWAY_WORKER_NAME")
        a = self.master("add", client, name)
        if service != "dask.worker":
            self.bad("worker", f"a container of {service!r} is added")
        if any(k["worker"] == name for k in a["containers"].values()):
            self.bad("submitted-twice", f"a second container is added for the worker {name}")
        if any(k["worker"] == name for b in self.apps.values() if b is not a for k in b["containers"].values()):
            self.bad("worker", f"the worker {name} has containers in two applications")
        if not name or (env or {}).get("DASK_GATEWAY_SCHEDULER_ADDRESS") != a.get("scheduler"):
            self.bad("worker", f"a container is added with {env}, the scheduler is at {a.get('scheduler')}")
        cid = f"dask.worker_{len(a['containers'])}"
        a["containers"][cid] = {"id": cid, "worker": name, "alive": True, "killed": False}
        return types.SimpleNamespace(id=cid, state=State("REQUESTED"))

    def kill_container(self, client, cid):
        a = self.master("kill_container", client, cid)
        k = a["containers"].get(cid)
        if k is None:
            self.bad("worker", f"the container {cid!r} of {client.id} is killed, there is none")
            raise ValueError("no such container")
        k["killed"] = True
        if not k["alive"]:
            raise ValueError("the container has completed")
        k["alive"] = False

    def get_containers(self, client, services, states):
        a = self.master("containers", client)
        if services is not None and "dask.worker" not in services:
            self.bad("worker", f"the containers of {services} are asked for")
        return [types.SimpleNamespace(id=k["id"], state=State("RUNNING"), service_name="dask.worker") for k in a["containers"].values() if k["alive"]]


# The case -----------------------------------------------------------------------


def judge_spec(w, a, cfg, users):
    spec, name = a["spec"], a["name"]
    user = users.get(name)
    svc = spec.services["dask.worker"]
    if getattr(spec, "user", None) != user:
        w.bad("user", f"the application of a cluster of {user} runs as {getattr(spec, "user", None)!r}")
    if getattr(spec, "queue", "default") != cfg.get("queue", "default"):
        w.bad("queue", f"an application is submitted to the queue {getattr(spec, "queue", None)!r}, not {cfg.get('queue', 'default')!r}")
    if set(spec.services) != {"dask.worker"} or svc.instances != 0 or svc.max_restarts != 0 or svc.allow_failures is not True:
        w.bad("worker", f"the service of the workers has {svc.instances} instances, {svc.max_restarts} restarts, failures allowed: {svc.allow_failures}")
    if a.get("token") is None:
        a["token"] = spec.master.env.get("DASK_GATEWAY_API_TOKEN")
    for role, x in (("scheduler", spec.master), ("worker", svc)):
        want = {"DASK_GATEWAY_CLUSTER_NAME": name, "DASK_GATEWAY_API_URL": "http://gateway.example:8000/api", "DASK_GATEWAY_API_TOKEN": a["token"], "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True",
                "DASK_DISTRIBUTED__COMM__TLS__CA_FILE": "dask.crt", f"DASK_DISTRIBUTED__COMM__TLS__{role.upper()}__KEY": "dask.pem", f"DASK_DISTRIBUTED__COMM__TLS__{role.upper()}__CERT": "dask.crt"}
        want.update(cfg.get("environment", {}))
        for k, v in want.items():
            if x.env.get(k) != v:
                w.bad("environment", f"the {role} of {name} runs with {k}={x.env.get(k)!r}, not {v!r}")
        res = x.resources
        if res.vcores != cfg[role + "_cores"] or str(res.memory).split() != [str(cfg[role + "_memory"]), "b"]:
            w.bad("resources", f"the {role} of {name} is given {res.vcores} cores and {res.memory!r}, configured are {cfg[role + '_cores']} and {cfg[role + '_memory']} bytes")
        lines = x.script.strip().splitlines()
        setup = cfg.get(role + "_setup")
        if setup and setup not in lines[:-1]:
            w.bad("script", f"the {role} of {name} runs without its set-up: {lines}")
        need = {"scheduler": ["dask_gateway.scheduler_preload"], "worker": ["$DASK_GATEWAY_WORKER_NAME", "$DASK_GATEWAY_SCHEDULER_ADDRESS"]}[role]
        if not lines or not all(n in lines[-1] for n in need):
            w.bad("script", f"the {role} of {name} runs {lines[-1:]}")
        if a["token"] and a["token"] in x.script or "PRIVATE" in x.script:
            w.bad("secret", f"the script of the {role} of {name} has secrets in it")
        crt, key = a["files"].get((role, "dask.crt")), a["files"].get((role, "dask.pem"))
        own = spec.master.security
        if not isinstance(crt, bytes) or b"CERTIFICATE" not in crt or not isinstance(key, bytes) or b"PRIVATE KEY" not in key:
            w.bad("credentials", f"the {role} of {name} is given the files {str(a['files'])[:300]}")
        elif (own.cert_bytes, own.key_bytes) != (crt, key):
            w.bad("credentials", f"the credentials of the application of {name} are not those given to its {role}")
        got = {k for where, k in a["files"] if where == role}
        if got != {"dask.crt", "dask.pem", *cfg.get("localize_files", {})}:
            w.bad("files", f"the {role} of {name} is given the files {sorted(got)}")
        for k, v in cfg.get("localize_files", {}).items():
            if a["files"].get((role, k)) != (v if isinstance(v, dict) else v):
                w.bad("files", f"the {role} of {name} is given {a['files'].get((role, k))!r} for {k}")
    w.ck.count("specifications judged")


def case(ck, i):
    global WORLD
    r = ck.rng(i)
    gw.seeded_uuids(repr((ck.seed, i)))
    top = tempfile.mkdtemp(prefix="c31-")
    temp, tempfile.tempdir = tempfile.tempdir, top
    try:
        async def main(loop):
            global WORLD
            w = WORLD = World(ck, r, loop)
            loop.run_in_executor = w.executor
            try:
                await run(ck, i, r, w, top)
            except core.Violation:
                raise
            w.check()

        vloop.run(main, spin_limit=400_000, thread_grace=0.05)
    finally:
        tempfile.tempdir = temp
        WORLD = None
        shutil.rmtree(top, ignore_errors=True)


class Server:
    def __init__(self, w, cfg, top, client):
        self.w, self.cfg, self.top, self.client = w, cfg, top, client

    async def start(self):
        from dask_gateway_server.backends.yarn import YarnBackend
        from traitlets.config import Config

        c = Config()
        b = c.DBBackendBase
        b.db_url = f"sqlite:///{self.top}/gw.sqlite"
        b.db_encrypt_keys = [base64.urlsafe_b64encode(bytes(32))]
        b.cluster_status_period = b.worker_status_period = 2.0
        b.check_timeouts_period = 5.0
        b.backoff_base_delay, b.backoff_max_delay = 0.05, 0.2
        b.stop_clusters_on_shutdown = False
        b.cluster_start_timeout, b.worker_start_timeout = 1200, 120
        b.cluster_heartbeat_period, b.cluster_heartbeat_timeout = 300, 30000
        b.parallelism = 4
        b.api_url = "http://gateway.example:8000/api"
        c.DaskGateway.address = "127.0.0.1:0"
        c.YarnBackend.update(self.client)
        for k, v in self.cfg.items():
            setattr(c.YarnClusterConfig, k, v)
        n = len(self.w.clients)
        self.gw = await gw.build(YarnBackend, c)
        cl = self.w.clients[n:]
        want = {k: self.client.get(k) for k in ("principal", "keytab")}
        if len(cl) != 1 or {k: getattr(cl[0], k) for k in want} != want:
            self.w.bad("kerberos", f"YARN is used as {[(x.principal, x.keytab) for x in cl]}, configured is {want}")

    async def stop(self):
        await asyncio.wait_for(self.gw.backend.cleanup(), 120)
        await self.gw.authenticator.cleanup()
        if not self.w.clients[-1].closed:
            self.w.bad("client", "the client of YARN is not closed when the gateway stops")

    async def api(self, method, path, headers, js=None):
        return await gw.request(self.gw.app, method, path, headers, js=js)

    async def report(self, user, name):
        return (await self.api("GET", f"/api/v1/clusters/{name}", gw.basic(user))).json


async def until(w, cond, seconds):
    """Wait in virtual time"""
    end = w.loop.time() + seconds
    while True:
        x = cond()
        if asyncio.iscoroutine(x):
            x = await x
        if x or w.loop.time() > end:
            return x
        await asyncio.sleep(0.1)


async def run(ck, i, r, w, top):
    extra = os.path.join(top, "my.conf")
    with open(extra, "w") as f:
        f.write("extra")
    cfg = w.cfg = {"scheduler_cores": r.choice([1, 2]), "worker_cores": r.choice([1, 3]), "scheduler_memory": r.choice([2 << 30, 5 * 10 ** 8]), "worker_memory": r.choice([4 << 30, 123456789]), "cluster_max_workers": 6}
    if r.random() < 0.5:
        cfg["environment"] = {"MY_VAR": "my value"}
    if r.random() < 0.5:
        cfg["worker_setup"], cfg["scheduler_setup"] = "source env/bin/activate # worker", "source env/bin/activate"
    if r.random() < 0.5:
        cfg["queue"] = "the-queue"
    if r.random() < 0.5:
        cfg["localize_files"] = {"env": "hdfs://nn/env.tar.gz", "other": {"source": "hdfs://nn/other", "type": "archive"}}
    client = {"principal": "gateway@REALM", "keytab": "/gateway.keytab"} if r.random() < 0.5 else {}
    if r.random() < 0.4:
        client["app_client_cache_max_size"] = 1
    s = Server(w, cfg, top, client)
    await s.start()
    clusters, users = {}, {}
    judged = set()

    def apps(name):
        return [a for a in w.apps.values() if a["name"] == name]

    def settle():
        for a in list(w.apps.values()):
            if a["id"] not in judged:
                judged.add(a["id"])
                judge_spec(w, a, cfg, users)
        for name in clusters:
            if len(apps(name)) > 1:
                w.bad("submitted-twice", f"{name} is submitted as {[a['id'] for a in apps(name)]}")
        w.check()

    async def status(c):
        return (await s.report(c["user"], c["name"]))["status"]

    async def beat(c, count, active=(), closed=(), closing=()):
        c["scheduler"] = f"tls://{c['app']['host']}:8786"
        c["app"]["scheduler"] = c["scheduler"]
        c["count"] = count
        resp = await s.api("POST", f"/api/v1/clusters/{c['name']}/heartbeat", gw.token(c["app"]["token"]),
                           js={"scheduler_address": c["scheduler"], "dashboard_address": "http://10.0.0.1:8787", "api_address": "http://10.0.0.1:8788", "count": count,
                               "active_workers": list(active), "closing_workers": list(closing), "closed_workers": list(closed)})
        if resp.status != 200:
            w.bad("token", f"a heartbeat with the token given to the application is answered {resp.status}")

    def pods(c, alive=True):
        return [k for k in c["app"]["containers"].values() if k["alive"] or not alive]

    async def calm(c, seconds, what):
        """The cluster and its workers are alive and stay so"""
        kills = sum(1 for x in w.calls if x[1] in ("kill", "kill_container"))
        before = await status(c)
        had = {k["id"] for k in pods(c)}
        await asyncio.sleep(seconds)
        after = await status(c)
        lost = had - {k["id"] for k in pods(c)}
        if after != before or lost or sum(1 for x in w.calls if x[1] in ("kill", "kill_container")) > kills:
            w.bad("killed-alive", f"{what}, and of a cluster that was {before} and is {after} the containers {sorted(lost)} are killed")
        w.check()

    # clusters are created
    for _ in range(r.choice([1, 2, 3, 3])):
        user = r.choice(USERS)
        trouble = r.choice([None] * 6 + ["fails"] + ["outlasts"] * 3 * (not clusters))
        if trouble == "fails":
            w.fail["submit"] = None
        elif trouble == "outlasts":
            w.slow["submit"] = r.choice([300, 1210, 1400])
        resp = await s.api("POST", "/api/v1/clusters/", gw.basic(user), js={"cluster_options": {}})
        if resp.status != 201:
            raise core.Inconclusive(f"no cluster is created: {resp}")
        name = resp.json["name"]
        users[name] = user
        c = {"name": name, "user": user, "state": "pending", "app": None}
        clusters[name] = c
        await until(w, lambda: any(x[1] == "submit" and x[3] == name for x in w.calls), 2000)
        await asyncio.sleep(1)
        w.fail.pop("submit", None)
        settle()
        mine = apps(name)
        now = await status(c)
        if trouble == "fails":
            if mine or now not in ("FAILED", "STOPPED"):
                w.bad("no-failure", f"the submission of a cluster fails, and it is {now}")
            c["state"] = "failed"
            ck.count("failed submissions judged")
        elif trouble == "outlasts" and now in ("FAILED", "STOPPED", "STOPPING"):
            # what was submitted after all is killed
            if not await until(w, lambda: all(not w.alive(a) for a in apps(name)), GRACE):
                w.bad("not-killed", f"a cluster whose submission outlasts the timeout is {now}, and its application runs on")
            c["state"] = "failed"
            ck.count("submissions that outlast the timeout")
        elif len(mine) != 1:
            w.bad("not-submitted", f"a cluster is {now} with the applications {[a['id'] for a in mine]}")
        w.check()
        if c["state"] == "pending":
            c["app"] = mine[0]
            if now != "PENDING":
                w.bad("killed-alive", f"the application of a cluster is submitted, and the cluster is {now}")
        left = [f for f in os.listdir(top) if f not in ("gw.sqlite", "gw.sqlite-journal", "gw.sqlite-wal", "gw.sqlite-shm", "my.conf")]
        if left:
            w.bad("files-left", f"after the submission the files {left} are left")
    w.check()
    live = [c for c in clusters.values() if c["state"] == "pending"]

    def others(c):
        return [x for x in live if x is not c and x["state"] in ("pending", "running")]

    # before they report
    for c in list(live):
        x = r.random()
        if x < 0.25:
            w.fail["report"] = None if r.random() < 0.5 else {c["app"]["id"]}
            await calm(c, 8, "queries fail")
            w.fail.clear()
            ck.count("failed queries judged")
        elif x < 0.5:
            n = sum(1 for y in w.calls if y[1] == "report" and y[2] == c["app"]["id"])
            await calm(c, 8, "the application is alive")
            if sum(1 for y in w.calls if y[1] == "report" and y[2] == c["app"]["id"]) <= n:
                w.bad("not-asked", "the state of the application of a pending cluster is not asked for 8 s")
            ck.count("live applications judged")
        elif x < 0.7:
            broken = others(c) and r.random() < 0.6
            if broken:
                w.fail["report"] = {y["app"]["id"] for y in others(c)}
            c["app"]["state"] = r.choice(["FAILED", "KILLED", "FINISHED"])

            async def failed():
                return await status(c) == "FAILED"

            if not await until(w, failed, GRACE):
                w.bad("dead-unnoticed", f"the application of a cluster is {c['app']['state']}, and {GRACE} s later the cluster is {await status(c)}" + (" (queries about others fail)" if broken else ""))
            c["state"] = "dead"
            w.fail.clear()
            ck.count("dead applications judged")
            for y in others(c):
                await calm(y, 1, "the application of another cluster ended")
        settle()

    if r.random() < 0.3:
        await s.stop()
        s = Server(w, cfg, top, client)
        await s.start()
        ck.count("restarts")
    # they report, and ask for workers
    for c in live:
        if c["state"] != "pending" or r.random() < 0.15:
            continue
        k = r.choice([1, 2, 3])
        await until(w, lambda: w.state(c["app"]) == "RUNNING", 10)
        outlast = r.random() < 0.3 and c is live[0]
        if outlast:
            w.slow["add"] = 125
        await beat(c, k)
        c["state"] = "running"

        async def running():
            return await status(c) == "RUNNING"

        if not await until(w, running, GRACE):
            w.bad("not-running", f"after its heartbeat a cluster is {await status(c)}")
        if outlast:
            w.slow.clear()
            await asyncio.sleep(160)  # whatever was slow is over
            c["died"] = 1
            ck.count("additions that outlast the timeout")
            if not await until(w, lambda: len(pods(c)) == k, GRACE):
                w.bad("not-killed", f"a worker whose addition outlasts the timeout runs on, {k} are requested and {len(pods(c))} run")
        elif not await until(w, lambda: len(pods(c)) >= k, GRACE):
            w.bad("not-submitted", f"{k} workers are requested, there are {len(pods(c))}")
        await asyncio.sleep(1)
        if len(pods(c)) > k:
            w.bad("submitted-twice", f"{k} workers are requested, there are {len(pods(c))} containers")
        settle()
    run_ = [c for c in live if c["state"] == "running"]
    if run_:
        # several clusters have workers that have not reported
        for _ in range(r.choice([1, 2, 3])):
            c = r.choice(run_)
            x = r.random()
            if x < 0.3 and len(pods(c)) and c.get("died", 0) < 2:
                c["died"] = c.get("died", 0) + 1
                k = r.choice(pods(c))
                reported = c.get("reported", set())
                if k["worker"] in reported:
                    continue
                n = len(pods(c, alive=False))
                k["alive"] = False
                rest = [y for y in run_ if y is not c]
                had = {y["name"]: {z["id"] for z in pods(y)} for y in rest}
                broken = rest and r.random() < 0.5
                if broken:
                    w.fail["containers"] = {y["app"]["id"] for y in rest}
                if not await until(w, lambda: len(pods(c, alive=False)) > n, GRACE):
                    w.bad("dead-unnoticed", f"the container of a worker has ended, and {GRACE} s later none takes its place" + (" (queries about others fail)" if broken else ""))
                w.fail.clear()
                await asyncio.sleep(3)
                for y in rest:
                    gone = had[y["name"]] - {z["id"] for z in pods(y)}
                    if gone:
                        w.bad("killed-alive", f"the container of a worker of one cluster ended, and of another {sorted(gone)} are killed")
                ck.count("dead containers judged")
            elif x < 0.55:
                w.fail["containers"] = None
                if r.random() < 0.4:
                    w.fail["report"] = None
                    if client.get("app_client_cache_max_size") != 1 and r.random() < 0.5:
                        await s.stop()
                        s = Server(w, cfg, top, client)
                        await s.start()
                        ck.count("restarts")
                await calm(c, 10, "queries fail")
                w.fail.clear()
                ck.count("failed queries judged")
            elif x < 0.75:
                await calm(c, 10, "the workers are alive")
                ck.count("live containers judged")
            else:
                # some report, one is then closed
                names = {k["worker"] for k in pods(c)}
                if names:
                    await beat(c, c["count"], active=names)
                    c["reported"] = names
                    gone = r.choice(sorted(names))
                    await beat(c, c["count"] - 1, active=names - {gone}, closing=[gone])
                    await beat(c, c["count"], active=names - {gone}, closed=[gone])
                    c["reported"] = names - {gone}
                    if not await until(w, lambda: not [k for k in pods(c) if k["worker"] == gone], GRACE):
                        w.bad("not-killed", "the container of a worker that was scaled down runs on")
                    if len(pods(c)) > c["count"]:
                        w.bad("submitted-twice", f"{c['count']} workers are requested, there are {len(pods(c))} containers")
                    ck.count("workers scaled down")
            settle()
    if r.random() < 0.25:
        await s.stop()
        s = Server(w, cfg, top, client)
        await s.start()
        ck.count("restarts")
    # and are stopped
    for c in clusters.values():
        now = await status(c)
        if c["state"] in ("pending", "running") and now not in ("PENDING", "RUNNING"):
            w.bad("killed-alive", f"the application of a cluster is alive, and the cluster is {now}")
        trouble = r.choice([None, None, "ended", "forgotten"]) if c["app"] else None
        if trouble == "ended":
            c["app"]["state"] = "FINISHED"
        resp = await s.api("DELETE", f"/api/v1/clusters/{c['name']}", gw.basic(c["user"]))
        if resp.status not in (200, 204):
            w.bad("delete", f"stopping a cluster is answered {resp.status}")

        async def stopped():
            return await status(c) in ("STOPPED", "FAILED")

        if not await until(w, stopped, GRACE):
            w.bad("not-stopped", f"a cluster is {await status(c)} {GRACE} s after it was to be stopped")
        await asyncio.sleep(1)
        for a in apps(c["name"]):
            if w.alive(a):
                w.bad("not-killed", f"a cluster is {await status(c)}, and its application runs on")
            elif trouble is None and c["state"] in ("pending", "running") and not a["killed"]:
                w.bad("not-killed", "the application of a stopped cluster ended without being killed")
        for y in live:
            if y["state"] in ("pending", "running") and y is not c and y not in done(clusters, c) and not w.alive(y["app"]):
                w.bad("killed-other", "the application of another cluster is killed")
        c["state"] = "stopped"
        ck.count("stops judged")
        w.check()
    await s.stop()
    settle()
    ck.count("calls", len(w.calls))
    for n in {x[1] for x in w.calls}:
        ck.count(f"{n} calls", sum(1 for x in w.calls if x[1] == n))
    ck.case([(x[1], x[2], x[-1] == "fails") for x in w.calls], nontrivial=bool(w.apps), sample={"calls": w.calls[:15]} if i < 3 else None)


def done(clusters, c):
    """Those stopped before"""
    out = []
    for x in clusters.values():
        if x is c:
            break
        out.append(x)
    return out


def prepare(ck):
    logging.disable(logging.CRITICAL)
    gw.cheap_keys()
    fake_skein()


def body(ck):
    prepare(ck)
    import dask_gateway_server.backends.yarn  # noqa: F401  (before forking)

    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(**{"specifications judged": 300, "failed submissions judged": 30, "submissions that outlast the timeout": 20, "failed queries judged": 100, "live applications judged": 50,
               "dead applications judged": 50, "dead containers judged": 50, "live containers judged": 40, "workers scaled down": 40, "additions that outlast the timeout": 20,
               "restarts": 50, "stops judged": 300, "kill calls": 200, "kill_container calls": 40})


if __name__ == "__main__":
    core.main("C31", RULE, body, assumptions=[
        "the stand-in answers as skein does; an application or container that ended stays so",
        "calls that fail to stop something are not repeated by the gateway and not judged",
    ])
