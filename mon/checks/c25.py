"""C25: the client library reports clusters truthfully and cleans up what it created."""
import asyncio
import base64
import contextlib
import contextvars
import gc
import json
import logging
import os
import signal
import subprocess
import sys
import tempfile
import textwrap
import types
import warnings
from datetime import datetime

from mon import core, vloop, vnet

RULE = (
    "real clients of several users, with every authentication method, against a scripted gateway in virtual time whose clusters start, fail and "
    "vanish, whose sessions expire, and which refuses, errs, answers slowly, or drops connections; each result is compared with the answer given, "
    "each request with its user; clusters end in every way (context, close, shutdown, cancellation at any moment), and in real processes by exit, "
    "exception, interrupt and garbage collection; and a real session with a real scheduler; non-trivial: a result was judged; distinct by the history"
)
STATUS = ("PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED")
CERT = KEY = None


warned = contextvars.ContextVar("warned", default=[])


def keypair():
    global CERT, KEY
    if CERT is None:
        from dask_gateway_server.tls import new_keypair

        c, k = new_keypair("temp")
        CERT, KEY = c.decode(), k.decode()
    return CERT, KEY


# -- the scripted gateway ------------------------------------------------------------------
class Server:
    def __init__(self, ck, r, now, auth):
        self.ck, self.r, self.now, self.auth = ck, r, now, auth
        self.who = {}  # prefix -> user
        self.refused = set()  # prefixes whose credentials are not accepted
        self.cookies = {}
        self.clusters = {}
        self.log = []  # of all requests
        self.serial = 0
        self.rates = {"error": 0, "drop": 0, "slow": 0, "garbage": 0}
        self.first = None
        self.changed = asyncio.Event()

    def bad(self, key, detail):
        if self.first is None:
            self.first = core.Violation(key, detail, [str(e)[:300] for e in self.log[-40:]])

    def app(self):
        from aiohttp import web

        app = web.Application()
        app.router.add_route("*", "/{rest:.*}", self.handle)
        return app

    def identify(self, request, e):
        """The user of this request, or None; whose credentials must be right."""
        user = None
        h = request.headers.get("Authorization")
        kind = {"basic": "Basic", "jupyterhub": "jupyterhub", "kerberos": "Negotiate"}[self.auth]
        if h is not None:
            e["authorization"] = h
            try:
                k, v = h.split(" ", 1)
                v = base64.b64decode(v).decode() if k != "jupyterhub" else v
            except ValueError:
                k, v = None, h
            if k != kind:
                self.bad("credentials", f"an {self.auth} client sends {h!r}")
            elif v in self.secrets:
                user = self.secrets[v]
        cookie = request.cookies.get("dask-gateway")
        if user is None and cookie in self.cookies:
            user = self.cookies[cookie]
            e["cookie"] = True
        if user is not None and user != e["user"]:
            self.bad("other-user", f"{e['user']}'s client makes a request with the credentials of {user}: {e['method']} {e['path']}")
        return user

    async def handle(self, request):
        from aiohttp import web

        path = request.match_info["rest"]
        prefix, _, rest = path.partition("/")
        e = {"t": self.now(), "prefix": prefix, "user": self.who.get(prefix), "method": request.method, "path": "/" + rest, "query": request.query_string}
        with contextlib.suppress(Exception):
            e["json"] = await request.json()
        self.log.append(e)
        if e["user"] is None:
            self.bad("address", f"a request for {request.path_qs} is made, outside the address of any client")
            return web.Response(status=404)
        user = self.identify(request, e)
        if prefix in self.refused:
            user = None
        r = self.r
        try:
            if r.random() < self.rates["slow"]:
                await asyncio.sleep(r.choice([0.1, 2, 30]))
            if r.random() < self.rates["drop"]:
                if r.random() < 0.5 and user:
                    await self.answer(request, e, user)
                e["status"] = None
                self.ck.count("connections dropped")
                request.transport.abort()
                return web.Response(status=500)
            if user is None:
                e["status"] = 401
                return web.json_response({"error": "Authentication required"}, status=401, headers={"WWW-Authenticate": "Negotiate" if self.auth == "kerberos" else self.auth},
                                         reason="Authentication required")
            if r.random() < self.rates["error"]:
                return self.error(e, r.choice([400, 403, 404, 409, 422, 500, 502, 503]))
            resp = await self.answer(request, e, user)
            if r.random() < self.rates["garbage"] and e["status"] < 400 and e["status"] != 204 and request.method == "GET":
                e["status"], e["body"] = resp.status, "garbage"
                return web.Response(text="<html>hello</html>", content_type="text/html")
            if e.get("authorization") and not e.get("cookie") or r.random() < 0.1:
                if r.random() < 0.8:
                    self.serial += 1
                    token = f"cookie-{self.serial}"
                    self.cookies[token] = user
                    resp.set_cookie("dask-gateway", token, max_age=r.choice([None, 60, 3600]))
                if self.auth == "kerberos" and e.get("authorization"):
                    proof = f"proof-{user}" if r.random() > self.rates["error"] / 2 else r.choice([None, "proof-forged"])
                    e["proof"] = proof
                    if proof:
                        resp.headers["WWW-Authenticate"] = "Negotiate " + base64.b64encode(proof.encode()).decode()
            return resp
        except asyncio.CancelledError:
            e["gone"] = True
            raise

    def error(self, e, status, msg=None):
        from aiohttp import web

        self.serial += 1
        msg = msg or f"message {self.serial}"
        e["status"], e["message"] = status, msg
        how = self.r.choice(["json", "json", "text"])
        h = {}
        if self.auth == "kerberos" and e.get("authorization"):
            h["WWW-Authenticate"] = "Negotiate " + base64.b64encode(f"proof-{e['user']}".encode()).decode()
            e["proof"] = f"proof-{e['user']}"
        e["reason"] = self.r.random() < 0.7
        kw = {"reason": msg} if e["reason"] else {}
        if how == "json":
            return web.json_response({"error": msg}, status=status, headers=h, **kw)
        return web.Response(text=msg, status=status, headers=h, **kw)

    def record(self, c, full=True):
        st = self.status(c)
        out = {"name": c["name"], "dashboard_route": f"/clusters/{c['name']}/status" if st == "RUNNING" and c["dashboard"] else None, "status": st,
               "start_time": c["start"], "stop_time": c["stop"] if st in ("STOPPED", "FAILED") else None, "options": c["options"]}
        if full:
            run = st == "RUNNING"
            out["tls_cert"], out["tls_key"] = (c["cert"], c["key"]) if run else (None, None)
        return out

    def status(self, c):
        now = self.now()
        st = c["plan"][0][1]
        for t, s in c["plan"]:
            if now >= c["t0"] + t:
                st = s
        return st

    def create(self, user, options):
        r = self.r
        self.serial += 1
        name = f"c{self.serial:x}{r.randrange(1 << 32):08x}"
        plan = [(0, "PENDING")]
        t = r.choice([0, 0.2, 3, 25, 70])
        end = r.choice(["RUNNING"] * 5 + ["FAILED", "STOPPED", "gone"])
        if end == "STOPPED" and r.random() < 0.7:
            plan.append((t, "STOPPING"))
            t += r.choice([0.2, 3, 25])
        plan.append((t, end))
        if end == "RUNNING" and r.random() < 0.2:
            plan.append((t + r.choice([1, 10, 100]), "FAILED"))
        cert, key = keypair()
        self.clusters[name] = {"name": name, "user": user, "options": options, "plan": plan, "t0": self.now(), "start": int(1.7e12) + r.randrange(10 ** 10), "stop": int(1.71e12) + r.randrange(10 ** 10),
                               "dashboard": r.random() < 0.8, "cert": cert, "key": key}
        return name

    async def answer(self, request, e, user):
        from aiohttp import web

        m, p = e["method"], e["path"]
        parts = p.strip("/").split("/")

        def ok(body=None, status=200):
            e["status"], e["body"], e["answered"] = status, body, self.now()
            return web.Response(status=status) if body is None else web.json_response(body, status=status)

        if p == "/api/version" and m == "GET":
            return ok({"version": "1.2.3"})
        if p == "/api/v1/options" and m == "GET":
            return ok({"cluster_options": []})
        if p == "/api/v1/clusters/" and m == "GET":
            q = request.query.get("status")
            want = {s.upper() for s in q.split(",")} if q else {"PENDING", "RUNNING"}
            e["want"] = want
            return ok({c["name"]: self.record(c, False) for c in self.clusters.values() if c["user"] == user and self.status(c) in want})
        if p == "/api/v1/clusters/" and m == "POST":
            name = self.create(user, e["json"]["cluster_options"])
            e["created"] = name
            return ok({"name": name}, 201)
        if parts[:3] == ["api", "v1", "clusters"] and len(parts) in (4, 5):
            c = self.clusters.get(parts[3])
            if c is None or self.status(c) == "gone":
                return self.error(e, 404, f"Cluster {parts[3]} not found")
            if c["user"] != user:
                return self.error(e, 403, f"User {user} lacks permissions to view cluster {parts[3]}")
            if len(parts) == 4 and m == "GET":
                if "wait" in request.query:
                    end = self.now() + 20
                    while self.status(c) == "PENDING" and self.now() < end:
                        await asyncio.sleep(0.1)
                    if self.status(c) == "gone":
                        return self.error(e, 404, f"Cluster {parts[3]} not found")
                return ok(self.record(c))
            if len(parts) == 4 and m == "DELETE":
                c["plan"] = [(0, "STOPPING"), (1, "STOPPED")]
                c["t0"] = self.now()
                return ok(None, 204)
            if m == "POST" and parts[4] in ("scale", "adapt"):
                if self.status(c) != "RUNNING":
                    return self.error(e, 409, f"Cluster {parts[3]} is not running")
                x = self.r.random()
                if x < 0.2:
                    return ok({"ok": False, "msg": "limited to fewer"})
                return ok({"ok": True, "msg": None} if x < 0.8 else None)
        self.bad("request", f"no such request: {m} {p}")
        return self.error(e, 404)


# -- a fake kerberos --------------------------------------------------------------------------
class Kerberos(types.ModuleType):
    GSS_C_MUTUAL_FLAG, GSS_C_SEQUENCE_FLAG = 2, 8

    def __init__(self, user, host):
        super().__init__("kerberos")
        self.user, self.host = user, host

    def authGSSClientInit(self, service, gssflags=None, **kw):
        if service != "HTTP@" + self.host():
            raise RuntimeError(f"kerberos: no such service {service}")
        return 1, {"user": self.user(), "steps": 0}

    def authGSSClientStep(self, ctx, token):
        ctx["steps"] += 1
        if ctx["steps"] == 2:
            if base64.b64decode(token).decode() != f"proof-{ctx['user']}":
                raise RuntimeError("kerberos: the server is not who it claims")
        elif ctx["steps"] > 2:
            raise RuntimeError("kerberos: a step too many")

    def authGSSClientResponse(self, ctx):
        return base64.b64encode(f"ticket-{ctx['user']}".encode()).decode()


class NoConnector:
    async def connect(self, *a, **k):
        raise OSError("injected: no scheduler")


# -- cases --------------------------------------------------------------------------------------
def case(ck, i):
    r = ck.rng(i)
    import dask
    import distributed.comm.registry as registry
    from dask_gateway import comm  # noqa: F401

    backend = types.SimpleNamespace(get_connector=NoConnector, get_address_host=lambda loc: "h", resolve_address=lambda loc: loc, get_local_address_for=lambda loc: loc)
    old = registry.backends["gateway"]
    registry.backends["gateway"] = backend
    mods = {k: sys.modules.get(k) for k in ("kerberos",)}
    try:
        with dask.config.set({"distributed.comm.timeouts.connect": "1s"}), warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda message, *a, **k: warned.get().append(str(message))
            try:
                vloop.run(lambda loop: run(ck, i, r, loop), spin_limit=50_000)
            except vloop.Spin as exc:
                raise core.Violation("spins", f"the client works without end and without waiting: {exc}")
    finally:
        registry.backends["gateway"] = old
        for k, v in mods.items():
            if v is None:
                sys.modules.pop(k, None)


async def run(ck, i, r, loop):
    import dask
    from dask_gateway import BasicAuth, JupyterHubAuth, KerberosAuth

    net = vnet.Net(loop)
    auth = r.choice(["basic", "basic", "jupyterhub", "kerberos"])
    host = r.choice(["gw.local", "10.2.3.4"])
    srv = Server(ck, r, loop.time, auth)
    users = ["alice", "bob"]
    current = asyncio.Event  # noqa: F841
    secret = {u: {"basic": f"{u}:pw-{u}:x", "jupyterhub": f"token-of-{u}", "kerberos": f"ticket-{u}"}[auth] for u in users}
    srv.secrets = {v: k for k, v in secret.items()}
    runner = await vnet.serve_app(net, host, 8000, srv.app())
    proxied = r.random() < 0.15
    cfg = {"gateway.http-client.proxy": None}
    if proxied:
        await vnet.serve_app(net, "proxy.local", 3128, srv.app())
        net.unlisten(host, 8000)
        cfg["gateway.http-client.proxy"] = "http://proxy.local:3128"
    whom = contextvars.ContextVar("whom")
    if auth == "kerberos":
        sys.modules["kerberos"] = Kerberos(lambda: whom.get(), lambda: host)
    net.latency = (lambda: r.choice([0, 0.01, 0.3])) if r.random() < 0.3 else net.latency

    n = 0

    def make_auth(u):
        return {"basic": lambda: BasicAuth(u, f"pw-{u}:x"), "jupyterhub": lambda: JupyterHubAuth(f"token-of-{u}"), "kerberos": KerberosAuth}[auth]()

    def place(u):
        nonlocal n
        n += 1
        prefix = f"{u}-{n}"
        srv.who[prefix] = u
        return prefix, f"http://{host}:8000/{prefix}" + ("/" if r.random() < 0.2 else "")

    with dask.config.set(cfg):
        async def session(u):
            whom.set(u)
            for _ in range(r.randint(1, 3)):
                await (calls if r.random() < 0.5 else cluster)(ck, r, loop, srv, u, place, make_auth, host, net)
                if srv.first:
                    return

        async def weather():
            while True:
                for k, p in (("error", 0.2), ("drop", 0.1), ("slow", 0.2), ("garbage", 0.05)):
                    srv.rates[k] = p * r.choice([0, 0, 1, 2])
                if r.random() < 0.3:
                    srv.cookies.clear()
                await asyncio.sleep(r.choice([1, 20, 60]))

        w = asyncio.ensure_future(weather()) if r.random() < 0.8 else None
        tasks = [asyncio.ensure_future(session(r.choice(users))) for _ in range(r.choice([1, 2, 3]))]
        try:
            await asyncio.gather(*tasks)
        finally:
            if w:
                w.cancel()
            for t in tasks:
                t.cancel()
            await asyncio.gather(*tasks, return_exceptions=True)
    if srv.first:
        raise srv.first
    await asyncio.sleep(2)  # what is on its way arrives
    before = len(srv.log)
    await asyncio.sleep(200)
    late = srv.log[before:]
    if late:
        raise core.Violation("after-close", f"a closed client makes a request: {late[0]}")
    await runner.cleanup()
    ck.count("requests", len(srv.log))
    ck.case([(round(e["t"], 2), e["prefix"], e["method"], e["path"], e.get("status")) for e in srv.log], nontrivial=any(e.get("body") is not None for e in srv.log),
            sample={"auth": auth, "requests": len(srv.log)} if i < 3 else None)


def judge_requests(srv, reqs, what):
    """One operation sends its request once, again only after a 401; (verdict, last)."""
    answered = [e for e in reqs if e.get("status") is not None]
    n401 = [e for e in answered if e["status"] == 401]
    if len(n401) > 2 or len(answered) - len(n401) > 1:
        srv.bad("sent-twice", f"{what} sends its request {len(reqs)} times, answered {[e.get('status') for e in reqs]}")
    if len({(e["method"], e["path"], e["query"], json.dumps(e.get("json"))) for e in reqs}) > 1:
        srv.bad("request", f"{what} sends different requests: {[(e['method'], e['path']) for e in reqs]}")
    if sum("created" in e for e in reqs) > 1:
        srv.bad("sent-twice", f"{what} creates {[e['created'] for e in reqs if 'created' in e]}")
    for a, b in zip(reqs, reqs[1:]):
        if a.get("status") == 401 and not b.get("authorization"):
            srv.bad("credentials", f"after a 401 {what} asks again without credentials")
    if reqs and reqs[0].get("authorization"):
        pass
    return reqs[-1] if reqs else None


def judge_error(srv, e, exc, what):
    """The answer was an error: it is raised, as its kind, with its message."""
    from dask_gateway import GatewayClusterError, GatewayServerError

    st = e["status"]
    if exc is None:
        return srv.bad("swallowed", f"{what} is answered {st} ({e.get('message')}) and raises nothing")
    want = {404: ValueError, 422: ValueError, 409: GatewayClusterError, 500: GatewayServerError}.get(st)
    if want is not None and not (isinstance(exc, want) and e["message"] in str(exc)):
        srv.bad("error", f"{what} is answered {st} ({e['message']}) and raises {exc!r}")
    elif want is None and e.get("reason") and e.get("message") and e["message"] not in str(exc):
        srv.bad("error", f"{what} is answered {st} ({e['message']}) and raises {exc!r}")
    srv.ck.count("errors judged")


def judge_report(srv, rep, body, host, full, what, proxy=None, address=None):
    from dask_gateway import client

    st = body["status"]
    diffs = []

    def same(name, a, b):
        if a != b:
            diffs.append(f"{name} {a!r}, not {b!r}")

    same("name", rep.name, body["name"])
    same("status", getattr(rep.status, "name", rep.status), st)
    same("options", rep.options, body["options"])
    same("start_time", rep.start_time, datetime.fromtimestamp(body["start_time"] / 1000))
    same("stop_time", rep.stop_time, None if body["stop_time"] is None else datetime.fromtimestamp(body["stop_time"] / 1000))
    same("scheduler_address", rep.scheduler_address, f"gateway://{proxy}/{body['name']}" if st == "RUNNING" else None)
    same("dashboard_link", rep.dashboard_link, address + body["dashboard_route"] if body["dashboard_route"] else None)
    same("tls_key", rep.tls_key, body.get("tls_key"))
    same("tls_cert", rep.tls_cert, body.get("tls_cert"))
    sec = rep.security
    same("security", None if sec is None else (sec.tls_key, sec.tls_cert), (body["tls_key"], body["tls_cert"]) if body.get("tls_key") else None)
    if diffs:
        srv.bad("report", f"{what} is answered {json.dumps(body)[:300]} and returns {'; '.join(diffs)[:300]}")
    srv.ck.count("reports judged")
    assert client


async def attempt(coro):
    """(value, exception)"""
    try:
        return await coro, None
    except asyncio.CancelledError:
        raise
    except Exception as exc:
        return None, exc


async def calls(ck, r, loop, srv, u, place, make_auth, host, net):
    from dask_gateway import Gateway
    from dask_gateway.client import ClusterStatus

    prefix, address = place(u)
    base = address.rstrip("/")
    kw, proxy, public = {}, f"{host}:8000", base
    if r.random() < 0.08:
        srv.refused.add(prefix)
    x = r.random()
    if x < 0.2:
        kw["proxy_address"], proxy = 8786, f"{host}:8786"
    elif x < 0.4:
        kw["proxy_address"], proxy = r.choice([("tls://px.local:99", "px.local:99"), ("gateway://px.local:98", "px.local:98"), ("px.local:97", "px.local:97")])
    if r.random() < 0.3:
        kw["public_address"], public = r.choice([("https://pub.example/x/", "https://pub.example/x"), ("http://pub:1", "http://pub:1")])
    g = Gateway(address, auth=make_auth(u), asynchronous=True, **kw)
    mine = lambda: [c for c in srv.clusters.values() if c["user"] == u]  # noqa: E731
    try:
        for _ in range(r.randint(3, 14)):
            await asyncio.sleep(r.choice([0, 0, 0.1, 5, 40]))
            start = len(srv.log)
            op = r.choice(["list", "list", "get", "get", "submit", "stop", "scale", "adapt", "versions", "options"])
            pool = mine() if r.random() < 0.9 else list(srv.clusters.values())
            name = r.choice(pool)["name"] if pool and r.random() < 0.9 else "c0ffee"
            expect = {"list": ("GET", "/api/v1/clusters/"), "get": ("GET", f"/api/v1/clusters/{name}"), "submit": ("POST", "/api/v1/clusters/"), "stop": ("DELETE", f"/api/v1/clusters/{name}"),
                      "scale": ("POST", f"/api/v1/clusters/{name}/scale"), "adapt": ("POST", f"/api/v1/clusters/{name}/adapt"), "versions": ("GET", "/api/version"), "options": ("GET", "/api/v1/options")}[op]
            payload = None
            caught = []
            token = warned.set(caught)
            try:
                if op == "list":
                    k = r.randint(0, 3)
                    sts = r.sample(STATUS, k)
                    arg = None if not k else sts[0].lower() if k == 1 and r.random() < 0.5 else ClusterStatus[sts[0]] if k == 1 else [s if r.random() < 0.5 else ClusterStatus[s] for s in sts]
                    val, exc = await attempt(g.list_clusters(status=arg) if k else g.list_clusters())
                elif op == "get":
                    val, exc = await attempt(g.get_cluster(name))
                elif op == "submit":
                    payload = r.choice([{}, {"worker_cores": 2}, {"a": "x", "b": None, "c": [1, 2.5]}])
                    val, exc = await attempt(g.submit(**payload))
                    payload = {"cluster_options": payload}
                elif op == "stop":
                    val, exc = await attempt(g.stop_cluster(name))
                elif op == "scale":
                    payload = {"count": r.choice([0, 1, 17])}
                    val, exc = await attempt(g.scale_cluster(name, payload["count"]))
                elif op == "adapt":
                    payload = r.choice([{"minimum": None, "maximum": None, "active": False}, {"minimum": 0, "maximum": 5, "active": True}, {"minimum": 2, "maximum": None, "active": True}])
                    val, exc = await attempt(g.adapt_cluster(name, **payload))
                elif op == "versions":
                    val, exc = await attempt(g.get_versions())
                else:
                    val, exc = await attempt(g.cluster_options())
            finally:
                warned.reset(token)
            caught = [w for w in caught if "limited" in w]
            reqs = [e for e in srv.log[start:] if e["prefix"] == prefix]
            what = f"{u}'s {op}({name if op not in ('list', 'submit', 'versions', 'options') else ''})"
            e = judge_requests(srv, reqs, what)
            if e is None:
                if exc is None:
                    srv.bad("no-request", f"{what} returns {val!r} without a request")
                continue
            if (e["method"], e["path"].rstrip("/")) != (expect[0], expect[1].rstrip("/")):
                srv.bad("request", f"{what} requests {e['method']} {e['path']}")
            if payload is not None and e.get("json") != payload:
                srv.bad("request", f"{what} sends {e.get('json')}, not {payload}")
            st = e.get("status")
            ck.count("operations")
            if st is None:
                if exc is None:
                    srv.bad("swallowed", f"{what} gets no answer and raises nothing")
                continue
            if srv.auth == "kerberos" and e.get("authorization") and st != 401 and e.get("proof") != f"proof-{u}":
                if exc is None:
                    srv.bad("mutual", f"{what} accepts an answer whose sender has not proved itself ({e.get('proof')})")
                ck.count("forged answers refused")
                continue
            if st == 401:
                if len([x for x in reqs if x.get("status") == 401]) == 1 and all(x.get("status") for x in reqs):
                    srv.bad("no-credentials", f"{what} is asked for credentials, gives none, and raises {exc!r}")
                elif exc is None:
                    srv.bad("swallowed", f"{what} is answered 401 and raises nothing")
                continue
            if st >= 400:
                judge_error(srv, e, exc, what)
                continue
            body = e.get("body")
            if body == "garbage":
                if exc is None:
                    srv.bad("swallowed", f"{what} is answered nonsense and returns {val!r}")
                continue
            if exc is not None:
                srv.bad("raises", f"{what} is answered {st} {json.dumps(body)[:200]} and raises {exc!r}")
                continue
            if op == "list":
                if e["want"] != (set(sts) if k else {"PENDING", "RUNNING"}):
                    srv.bad("request", f"{what} of {sts or 'active clusters'} asks for {sorted(e['want'])}")
                if sorted(c.name for c in val) != sorted(body):
                    srv.bad("report", f"{what} returns {[c.name for c in val]}, the answer is {sorted(body)}")
                else:
                    for c in val:
                        judge_report(srv, c, body[c.name], host, False, what, proxy, public)
            elif op == "get":
                judge_report(srv, val, body, host, True, what, proxy, public)
            elif op == "submit" and val != body["name"]:
                srv.bad("report", f"{what} returns {val}, the answer is {body['name']}")
            elif op == "versions" and val.get("server") != body:
                srv.bad("report", f"{what} returns {val}, the answer is {body}")
            elif op in ("scale", "adapt"):
                said = bool(body) and not body["ok"]
                if bool(caught) != said:
                    srv.bad("swallowed", f"{what} is answered {body} and warns {caught}")
    finally:
        await g.close()


async def cluster(ck, r, loop, srv, u, place, make_auth, host, net):
    from dask_gateway import GatewayCluster, GatewayClusterError

    prefix, address = place(u)
    base = address.rstrip("/")
    mine = [c for c in srv.clusters.values() if c["user"] == u and srv.status(c) != "gone"]
    new = not mine or r.random() < 0.6
    soc = r.choice(["default", "default", True, False])
    kw = {} if soc == "default" else {"shutdown_on_close": soc}
    opts = {"worker_cores": r.randint(1, 4)} if r.random() < 0.3 else {}
    target = None if new else r.choice(mine)["name"]
    start = len(srv.log)
    common = dict(address=address, auth=make_auth(u), asynchronous=True)
    c = GatewayCluster(**common, **kw, **opts) if new else GatewayCluster.from_name(target, **common, **kw)
    shutdown = soc if soc != "default" else new
    what = f"{u}'s {'new cluster' if new else 'connection to ' + target} (shutdown_on_close {soc})"

    def reqs(method=None):
        return [e for e in srv.log[start:] if e["prefix"] == prefix and (method is None or e["method"] == method)]

    ending = r.choice(["context", "context-raises", "close", "close", "close-True", "close-False", "shutdown", "cancel", "cancel", "close-during", "twice"])
    exc = None
    cancelled = False

    async def begin():
        return await c

    task = asyncio.ensure_future(begin())
    if ending in ("cancel", "close-during"):
        done, _ = await asyncio.wait([task], timeout=r.choice([0, 0.001, 0.01, 0.05, 0.3, 1, 5, 21, 40]))
        if not done:
            cancelled, ended = True, loop.time()
            if ending == "cancel":
                task.cancel()
            else:
                await c.close()
            with contextlib.suppress(asyncio.TimeoutError):
                await asyncio.wait_for(asyncio.shield(asyncio.wait([task])), 2000)
            if not task.done():
                srv.bad("hangs", f"{what}: starting goes on after {ending}")
                task.cancel()
            ck.count("starts interrupted")
    if not cancelled:
        done, _ = await asyncio.wait([task], timeout=3000)
        if not done:
            srv.bad("hangs", f"{what} is neither started nor failed after 3000s; the last answers are {[e.get('body') and e['body'].get('status') for e in reqs('GET')][-3:]}")
            task.cancel()
            return
        exc = task.exception()
        gets = reqs("GET")
        posts = reqs("POST")
        last = (gets or posts or [None])[-1]
        if new:
            judge_requests(srv, posts, what)
        if last is None:
            srv.bad("no-request", f"{what} ends without a request")
        elif last.get("status") is None or last["status"] == 401 or last.get("body") == "garbage" or last.get("proof", f"proof-{u}") != f"proof-{u}" or srv.auth == "kerberos" and last.get("authorization") and "proof" not in last:
            if exc is None:
                srv.bad("swallowed", f"{what} starts though its last request was answered {last.get('status')} {last.get('body')}")
        elif last["status"] >= 400:
            judge_error(srv, last, exc, what)
        elif not gets:
            if exc is None:
                srv.bad("no-wait", f"{what} is started without asking whether it runs")
        else:
            st = last["body"]["status"]
            if st == "RUNNING":
                if exc is not None:
                    srv.bad("raises", f"{what} is running, and raises {exc!r}")
                else:
                    b = last["body"]
                    got = (c.name, c.scheduler_address, c.dashboard_link, c.security.tls_key, c.security.tls_cert)
                    want = (b["name"], f"gateway://{host}:8000/{b['name']}", base + b["dashboard_route"] if b["dashboard_route"] else None, b["tls_key"], b["tls_cert"])
                    if got != want:
                        srv.bad("report", f"{what} is at {got[:3]}, the answer is {want[:3]}")
                    ck.count("clusters connected")
            elif st in ("FAILED", "STOPPED"):
                if not isinstance(exc, GatewayClusterError):
                    srv.bad("no-error", f"{what} is {st}, and raises {exc!r}")
                ck.count("failed starts judged")
            else:
                srv.bad("no-wait", f"{what} is {st}, and {'raises ' + repr(exc) if exc else 'is taken as started'}")
        if exc is None and r.random() < 0.5:
            await attempt(c.scale(3) if r.random() < 0.5 else c.adapt(minimum=1))
            e = reqs("POST")[-1]
            if not e["path"].startswith(f"/api/v1/clusters/{c.name}/"):
                srv.bad("request", f"{what} is scaled with {e['path']}")
            await asyncio.sleep(r.choice([0, 3]))
    explicit = None
    if not cancelled and exc is None:
        if ending == "context":
            async with c:
                pass
        elif ending == "context-raises":
            with contextlib.suppress(ZeroDivisionError):
                async with c:
                    1 / 0
        elif ending in ("close-True", "shutdown"):
            explicit = True
            await (c.close(shutdown=True) if ending == "close-True" else c.shutdown())
        elif ending == "close-False":
            explicit = False
            await c.close(shutdown=False)
        elif ending == "twice":
            await asyncio.gather(c.close(), c.close())
        else:
            await c.close()
    if srv.first:
        return
    now = loop.time()
    want = shutdown if explicit is None else explicit
    created = [e["created"] for e in reqs("POST") if "created" in e]
    name = target if not new else created[0] if created else None
    deletes = reqs("DELETE")
    if any(e["path"] != f"/api/v1/clusters/{name}" for e in deletes):
        srv.bad("deletes-other", f"{what}, {name}, stops {[e['path'] for e in deletes]}")
    if not want and deletes:
        srv.bad("stopped", f"{what}, ended by {ending}, stops its cluster")
    elif want and name is not None and not deletes:
        # an answer that takes very long need not be waited for
        known = not new or any(e.get("status") == 201 and (not cancelled or e["answered"] < ended + 10) and e.get("proof", f"proof-{u}") == f"proof-{u}" for e in reqs("POST"))
        if known and not (srv.auth == "kerberos" and any(e.get("authorization") and "proof" not in e for e in reqs("POST"))):
            at = [e["t"] for e in reqs("POST") if "created" in e]
            srv.bad("left-running", f"{what}, ended by {ending} at {now:.2f}, does not stop cluster {name}, created at {at}")
    ck.count("endings judged")
    if cancelled and new and created and not reqs("GET"):
        ck.count("interrupted while submitting")


# -- real processes ------------------------------------------------------------------------------
SCRIPT = """
import sys, os, signal, threading, time, gc, atexit
NOAIODNS = {noaiodns}
if NOAIODNS:
    sys.modules["aiodns"] = None
import dask, logging
logging.disable(logging.CRITICAL)
dask.config.set({{"distributed.comm.timeouts.connect": "300ms"}})
from dask_gateway import Gateway, GatewayCluster, BasicAuth
auth = BasicAuth("alice", "pw")
A = "{address}"
def say(x):
    print(x, flush=True)
{body}
"""
ENDS = {
    # name: (body, deletes expected, exit code or None)
    "end of the script": ("c = GatewayCluster(A, auth=auth)", True, 0),
    "end of the script, of a function's cluster": ("def f():\n    return [GatewayCluster(A, auth=auth)]\nx = f(); x.append(x)", True, 0),
    "sys.exit(3)": ("c = GatewayCluster(A, auth=auth); sys.exit(3)", True, 3),
    "an exception": ("c = GatewayCluster(A, auth=auth); 1 / 0", True, 1),
    "close": ("c = GatewayCluster(A, auth=auth); c.close()", True, 0),
    "close twice": ("c = GatewayCluster(A, auth=auth); c.close(); c.close()", True, 0),
    "a context": ("with GatewayCluster(A, auth=auth) as c: pass\nsay('left'); time.sleep(1)", True, 0),
    "a context that raises": ("with GatewayCluster(A, auth=auth) as c: 1 / 0", True, 1),
    "garbage collection": ("c = GatewayCluster(A, auth=auth)\ndel c; gc.collect(); say('left'); time.sleep(1)", True, 0),
    "new_cluster of a gateway that goes": ("c = Gateway(A, auth=auth).new_cluster(); gc.collect()", True, 0),
    "a gateway closed first": ("g = Gateway(A, auth=auth); c = g.new_cluster(); g.close()", True, 0),
    "another thread": ("box = []\nt = threading.Thread(target=lambda: box.append(GatewayCluster(A, auth=auth))); t.start(); t.join()", True, 0),
    "an interrupt": ("c = GatewayCluster(A, auth=auth); os.kill(os.getpid(), signal.SIGINT); time.sleep(20)", True, None),
    "an interrupt in a context": ("with GatewayCluster(A, auth=auth) as c:\n    os.kill(os.getpid(), signal.SIGINT); time.sleep(20)", True, None),
    "an interrupt while starting": ("threading.Timer(0.7, os.kill, (os.getpid(), signal.SIGINT)).start()\nGatewayCluster(A, auth=auth, slow=True)", True, None),
    "an interrupt while submitting": ("threading.Timer(0.7, os.kill, (os.getpid(), signal.SIGINT)).start()\nGatewayCluster(A, auth=auth, slowsubmit=True)", True, None),
    "a cluster that fails": ("try:\n    GatewayCluster(A, auth=auth, fails=True)\nexcept Exception as exc: say(type(exc).__name__)", True, 0),
    "exit after a long time": ("c = GatewayCluster(A, auth=auth); time.sleep(11)", True, 0),
    "two clusters": ("c = GatewayCluster(A, auth=auth); d = GatewayCluster(A, auth=auth, shutdown_on_close=True)", True, 0),
    "close(shutdown=False)": ("c = GatewayCluster(A, auth=auth); c.close(shutdown=False)", False, 0),
    "shutdown_on_close=False": ("c = GatewayCluster(A, auth=auth, shutdown_on_close=False)", False, 0),
    "shutdown_on_close=False, in a context": ("with GatewayCluster(A, auth=auth, shutdown_on_close=False): pass", False, 0),
    "shutdown": ("c = GatewayCluster(A, auth=auth, shutdown_on_close=False); c.shutdown()", True, 0),
    "connect": ("c = Gateway(A, auth=auth).connect('other')", False, 0),
    "connect in a context": ("with Gateway(A, auth=auth).connect('other') as c: pass", False, 0),
    "connect that raises": ("c = GatewayCluster.from_name('other', address=A, auth=auth); 1 / 0", False, 1),
    "connect and garbage collection": ("c = GatewayCluster.from_name('other', address=A, auth=auth)\ndel c; gc.collect()", False, 0),
    "connect(shutdown_on_close=True)": ("c = Gateway(A, auth=auth).connect('other', shutdown_on_close=True)", True, 0),
    "connect, shutdown": ("c = Gateway(A, auth=auth).connect('other'); c.shutdown()", True, 0),
    "submit only": ("Gateway(A, auth=auth).submit()", False, 0),
}


def process(ck, i):
    end = sorted(ENDS)[i % len(ENDS)]
    for attempt in range(3):
        try:
            return asyncio.run(asyncio.wait_for(process_run(ck, ck.rng("process", i), end), 100))
        except core.Violation as exc:
            # Python loses an interrupt that comes while a finaliser runs
            if exc.key != "exit-hangs" or "interrupt" not in end or attempt == 2:
                raise
            ck.count("interrupts lost")


async def process_run(ck, r, end):
    from aiohttp import web

    body, want, code = ENDS[end]
    log, created = [], {}
    cert, key = keypair()
    shut = r.random() < 0.5 or "long" in end  # the server keeps no connection

    async def handle(request):
        p, m = request.path, request.method
        log.append((m, request.path_qs))
        if not request.headers.get("Authorization") and not request.cookies.get("dask-gateway"):
            log.pop()
            return web.Response(status=401, headers={"WWW-Authenticate": "Basic"})
        status = 200
        out = None
        if m == "POST" and p == "/api/v1/clusters/":
            opts = (await request.json())["cluster_options"]
            name = f"n{len(created)}"
            created[name] = opts
            if opts.get("slowsubmit"):
                await asyncio.sleep(2)
            out, status = {"name": name}, 201
        elif m == "DELETE":
            await asyncio.sleep(r.choice([0, 0.3]))
            status = 204
        else:
            name = p.split("/")[-1]
            opts = created.get(name, {})
            if opts.get("slow"):
                await asyncio.sleep(3)
            st = "FAILED" if opts.get("fails") else "PENDING" if opts.get("slow") else "RUNNING"
            run = st == "RUNNING"
            out = {"name": name, "status": st, "dashboard_route": None, "start_time": 1, "stop_time": None, "options": {}, "tls_cert": cert if run else None, "tls_key": key if run else None}
        resp = web.Response(status=204) if out is None else web.json_response(out, status=status)
        resp.set_cookie("dask-gateway", "x")
        if shut:
            resp.force_close()
        return resp

    app = web.Application()
    app.router.add_route("*", "/{rest:.*}", handle)
    runner = web.AppRunner(app)
    await runner.setup()
    site = web.TCPSite(runner, "127.0.0.1", 0)
    await site.start()
    port = site._server.sockets[0].getsockname()[1]
    host = "localhost" if "long" in end else r.choice(["localhost", "127.0.0.1"])
    script = SCRIPT.format(noaiodns="long" in end or r.random() < 0.5, address=f"http://{host}:{port}", body=body)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "script.py")
        with open(path, "w") as f:
            f.write(textwrap.dedent(script))
        env = dict(os.environ, DASK_CONFIG=d)
        proc = await asyncio.create_subprocess_exec(sys.executable, path, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        at_left = None
        out = b""
        try:
            async def read():
                nonlocal out, at_left
                while True:
                    line = await proc.stdout.readline()
                    if not line:
                        return
                    out += line
                    if line == b"left\n":
                        await asyncio.sleep(0.7)
                        at_left = list(log)

            try:
                await asyncio.wait_for(asyncio.gather(read(), proc.wait()), 60)
            except asyncio.TimeoutError:
                raise core.Violation("exit-hangs", f"a process whose cluster ends by {end} does not exit; it said {out[-300:]}")
        finally:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(proc.pid, signal.SIGKILL)
            await runner.cleanup()
    names = sorted(created) if "connect" not in end else ["other"]
    got = sorted({p.split("/")[-1] for m, p in log if m == "DELETE"})
    wanted = names if want else []
    tail = out.decode(errors="replace")[-300:]
    if not names and not any(m == "GET" for m, _ in log):
        raise core.Inconclusive(f"{end}: the process never reached the server: {tail}")
    if got != wanted:
        raise core.Violation("exit-left-running" if want else "exit-stopped", f"a process whose cluster ends by {end} stops {got}, not {wanted}; requests {log}; it said {tail}")
    if at_left is not None and want and not any(m == "DELETE" for m, _ in at_left):
        raise core.Violation("left-running", f"a cluster that ends by {end} is only stopped at exit")
    if end == "a cluster that fails" and b"GatewayClusterError" not in out:
        raise core.Violation("no-error", f"a cluster that failed to start raises {tail}")
    if code is not None and proc.returncode != code:
        raise core.Violation("exit-code", f"a process whose cluster ends by {end} exits {proc.returncode}: {tail}")
    if len([1 for m, p in log if m == "POST" and p == "/api/v1/clusters/"]) > (2 if "two" in end else 1):
        raise core.Violation("sent-twice", f"{end}: {log}")
    ck.count("processes judged")
    ck.case(("process", end, shut), nontrivial=True)


# -- a real scheduler ------------------------------------------------------------------------------
def real(ck, i):
    asyncio.run(asyncio.wait_for(real_run(ck, ck.rng("real", i)), 100))


async def real_run(ck, r):
    from aiohttp import web
    from distributed import Scheduler, Worker
    from distributed.security import Security

    from dask_gateway import GatewayCluster

    cert, key = keypair()
    log = []

    async def handle(request):
        log.append((request.method, request.path))
        if request.method == "POST":
            return web.json_response({"name": "k1"}, status=201)
        if request.method == "DELETE":
            return web.Response(status=204)
        return web.json_response({"name": "k1", "status": "RUNNING", "dashboard_route": "/clusters/k1/status", "start_time": 1, "stop_time": None, "options": {}, "tls_cert": cert, "tls_key": key})

    app = web.Application()
    app.router.add_route("*", "/{rest:.*}", handle)
    runner = web.AppRunner(app)
    await runner.setup()
    site = web.TCPSite(runner, "127.0.0.1", 0)
    await site.start()
    port = site._server.sockets[0].getsockname()[1]
    with tempfile.TemporaryDirectory() as d:
        cp, kp = os.path.join(d, "c"), os.path.join(d, "k")
        for p, x in ((cp, cert), (kp, key)):
            with open(p, "w") as f:
                f.write(x)
        sec = Security(tls_ca_file=cp, tls_scheduler_cert=cp, tls_scheduler_key=kp, tls_worker_cert=cp, tls_worker_key=kp, require_encryption=True)
        sched = await Scheduler(port=0, dashboard=False, dashboard_address=None, host="127.0.0.1", protocol="tls", security=sec)
        workers = []

        async def until(cond, key, what):
            t = asyncio.get_running_loop().time()
            while not cond():
                if asyncio.get_running_loop().time() - t > 15:
                    raise core.Violation(key, f"with a real scheduler: {what}")
                await asyncio.sleep(0.02)

        try:
            workers.append(await Worker(sched.address, name="w0", nthreads=1, security=sec, dashboard=False, dashboard_address=None, host="127.0.0.1"))
            before = set(os.listdir(tempfile.gettempdir()))
            sp = int(sched.address.rsplit(":", 1)[1])
            c = await GatewayCluster(f"http://127.0.0.1:{port}", proxy_address=sp, asynchronous=True)
            if c.scheduler_address != f"gateway://127.0.0.1:{sp}/k1":
                raise core.Violation("report", f"the scheduler's address is {c.scheduler_address}")
            await until(lambda: len(c.scheduler_info.get("workers", ())) == 1, "workers", f"one worker is there, the cluster knows of {len(c.scheduler_info.get('workers', ()))}")
            workers.append(await Worker(sched.address, name="w1", nthreads=1, security=sec, dashboard=False, dashboard_address=None, host="127.0.0.1"))
            await until(lambda: len(c.scheduler_info["workers"]) == 2, "workers", "a second worker is not noticed")
            client = await c.get_client(set_as_default=False)
            if await client.submit(lambda x: x + 1, 41) != 42:
                raise core.Violation("result", "41 + 1 is not 42")
            await workers.pop(0).close()
            await until(lambda: len(c.scheduler_info["workers"]) == 1, "workers", "a worker's end is not noticed")
            await client.close()
            left = [x for x in set(os.listdir(tempfile.gettempdir())) - before if has_key(os.path.join(tempfile.gettempdir(), x))]
            if left:
                raise core.Violation("key-left", f"the cluster's key is left in {left}")
            await c.close()
            if ("DELETE", "/api/v1/clusters/k1") not in log:
                raise core.Violation("left-running", "a closed cluster is not stopped")
            await until(lambda: not sched.clients or set(sched.clients) == {"fire-and-forget"}, "clients", "a client stays connected")
            ck.count("real sessions judged")
        finally:
            for w in workers:
                await w.close()
            await sched.close()
            await runner.cleanup()
    ck.case(("real", port), nontrivial=True)


def has_key(path):
    with contextlib.suppress(OSError):
        for root, _, files in os.walk(path):
            for f in files:
                with open(os.path.join(root, f), errors="replace") as fh:
                    if KEY.strip() in fh.read(100_000):
                        return True
    return False


def prepare(ck):
    logging.disable(logging.CRITICAL)
    keypair()


def both(ck, i):
    turn, lane = divmod(i, 8)
    n = turn // 3 * 8 + lane
    if turn == 0 and (lane == 0 or ck.tier == "thorough"):
        real(ck, i)  # before the network of this process is replaced
    elif turn % 3 == 1 and (n < len(ENDS) or ck.tier == "thorough"):
        process(ck, n)
    else:
        case(ck, i)
        gc.collect()


def body(ck):
    prepare(ck)
    import dask_gateway  # noqa: F401  (before forking)

    ck.pool(lambda i: both(ck, i), ck.budget(40, 900), seconds=320)
    ck.need(**{"requests": 2000, "operations": 500, "reports judged": 300, "errors judged": 100, "endings judged": 200, "clusters connected": 50, "failed starts judged": 10,
               "starts interrupted": 20, "processes judged": len(ENDS) - 2, "real sessions judged": 1})


if __name__ == "__main__":
    core.main("C25", RULE, body, assumptions=[
        "the scripted gateway answers as the real one does (C01-C15 judge that one)",
        "a cluster whose name the client never learned, because the answer to its submission was lost, cannot be stopped by it",
    ])
