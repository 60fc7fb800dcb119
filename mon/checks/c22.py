"""C22: the Kubernetes backend shows and changes exactly the caller's clusters."""
import asyncio
import base64
import contextvars
import json
import logging

from traitlets.config import Config

from mon import core, gw as gwmod, kube as kubemod, vloop, vnet

RULE = (
    "the real gateway application with the Kubernetes backend, over the real Kubernetes client, on a simulated API server whose clusters are "
    "advanced, changed and deleted by an actor in the controller's place; several users create, list, get, wait for, scale and stop clusters, "
    "their own, others', unknown and malformed ones; schedulers heartbeat; calls fail before or after their effect, watches lag and break, the "
    "gateway is restarted; every answer is judged against the history of the objects, every write against the request it was made for, and "
    "everything again after a calm; non-trivial: a cluster was seen running; distinct by the history"
)
INST = "i1"
LABEL = "gateway.dask.org/instance"
INC = contextvars.ContextVar("incarnation", default=0)
USERS = ["alice", "bob", "carol"]
TERMINAL = ("STOPPED", "FAILED")
OPTIONS = """
from dask_gateway_server.options import Options, Integer, String, Float, Mapping

def handler(options):
    out = {"worker_cores": options.cores, "image": options.image}
    if options.env:
        out["environment"] = options.env
    if options.cap:
        out["cluster_max_workers"] = options.cap
    if options.ns != "default":
        out["namespace"] = options.ns
    return out

c.Backend.cluster_options = Options(
    Float("cores", 1, min=0.5, max=8), String("image", "img:1"), Mapping("env", {}), Integer("cap", 0, min=0, max=100), String("ns", "default"), handler=handler)
"""


class Cl:
    """A DaskCluster object's versions as they were committed."""

    def __init__(self, key, t):
        self.key = key
        self.versions = []  # (time, object or None)
        self.seen = {}  # incarnation -> index of the newest version it has shown
        self.creds = None
        self.made_for = None


class World:
    def __init__(self, ck, r, loop, net):
        self.ck, self.r, self.loop, self.net = ck, r, loop, net
        self.kube = kubemod.Kube(loop, net, r)
        self.kube.on_commit.append(self.committed)
        self.kube.on_call.append(self.called)
        self.cls = {}
        self.hist = []
        self.first = None
        self.allowed = []  # writes that requests in progress may make: [predicate, what]
        self.gw = None
        self.inc = 0
        self.forwarded = []
        self.schedulers = {}
        self.running_seen = 0
        self.serial = 0

    def bad(self, key, detail):
        if self.first is None:
            self.first = core.Violation(key, f"at {self.loop.time():.2f}: {detail}", self.hist[-120:])

    def check(self):
        if self.first:
            raise self.first

    def say(self, *what):
        self.hist.append((round(self.loop.time(), 2),) + what)

    # -- the server ---------------------------------------------------------
    def committed(self, plural, typ, obj, old, by):
        if plural != "daskclusters":
            return
        key = f"{obj['metadata']['namespace']}.{obj['metadata']['name']}"
        cl = self.cls.setdefault(key, Cl(key, self.loop.time()))
        cl.versions.append((self.loop.time(), None if typ == "DELETED" else json.loads(json.dumps(obj))))
        self.say(typ, key, obj["spec"].get("active"), obj["spec"].get("replicas"), obj.get("status"), by)

    def called(self, call):
        call.append(self.inc)
        t, method, plural, ns, name, body = call[:6]
        if method in ("GET", "WATCH"):
            return
        self.say("call", method, plural, ns, name, body if method == "PATCH" else "")
        for a in self.allowed:
            if a[0](method, plural, ns, name, body):
                a[2] += 1
                return
        self.bad("unasked-write", f"{method} {plural} {ns}/{name} {str(body)[:400]}, which no request in progress asked for")

    def failed_between(self, t0):
        return any(c[6] not in ("ok", "watching", 404) for c in self.kube.calls if c[0] >= t0 - 1e-9 and c[1] not in ("WATCH",)) or self.kube.outage

    # -- states a user may be shown -------------------------------------------
    def shown(self, cl, obj):
        """What get returns for this version."""
        st = obj.get("status") or {}
        phase = st.get("phase", "Pending").upper()
        done = st.get("completionTime")
        out = {
            "name": cl.key, "status": phase, "start_time": int(kubemod.unstamp(obj["metadata"]["creationTimestamp"]) * 1000),
            "stop_time": int(kubemod.unstamp(done) * 1000) if done else None, "options": obj["spec"].get("options") or {},
            "dashboard_route": f"/clusters/{cl.key}/status" if phase == "RUNNING" and st.get("service") else None, "tls_cert": None, "tls_key": None,
        }
        if phase == "RUNNING":
            out["tls_cert"], out["tls_key"] = cl.creds["crt"], cl.creds["key"]
        return out

    def judge_shown(self, key, got, what, final=False, full=True):
        cl = self.cls.get(key)
        if cl is None or not any(o is not None for _, o in cl.versions):
            return self.bad("unknown-shown", f"{what} shows {key}, which never existed")
        if final and cl.versions[-1][1] is None:
            return self.bad("stale", f"{what} still shows {key}, deleted long ago")
        lo = len(cl.versions) - 1 if final else cl.seen.get(self.inc, 0)
        cand = None
        for k in range(lo, len(cl.versions)):
            o = cl.versions[k][1]
            if o is None:
                continue
            exp = self.shown(cl, o)
            if not full and "tls_cert" not in got:
                exp.pop("tls_cert"), exp.pop("tls_key")
            if exp == got:
                cand = k
                break
        if cand is None:
            states = [(round(t, 1), (o or {}).get("status") if o else "deleted") for t, o in cl.versions[max(0, lo - 3):]]
            diff = {f: (got.get(f), exp.get(f)) for f in set(got) | set(exp) if got.get(f) != exp.get(f)} if (exp := self.shown(cl, next(o for _, o in reversed(cl.versions) if o is not None))) else None
            return self.bad("wrong-shown", f"{what} shows {key} as it {'is not' if final else 'never was, or was before what had been shown'}: differences (shown, latest): {str(diff)[:500]}; states since: {str(states)[:700]}")
        if got["status"] == "RUNNING":
            self.running_seen += 1
        cl.seen[self.inc] = cand

    def may_be_missing(self, cl):
        """Not shown: deleted, or not known to this gateway yet."""
        return cl.versions[-1][1] is None or self.inc not in cl.seen

    def owner(self, key):
        cl = self.cls.get(key)
        o = next((o for _, o in reversed(cl.versions) if o is not None), None) if cl else None
        return o["spec"].get("username", "") if o else None

    def mine(self, key):
        cl = self.cls.get(key)
        o = next((o for _, o in cl.versions if o is not None), None) if cl else None
        return o is not None and o["metadata"].get("labels", {}).get(LABEL) == INST

    # -- the controller's place -------------------------------------------------
    def advance(self, key):
        kube, r = self.kube, self.r
        ns, name = key.split(".")
        o = kube.objs["daskclusters"].get((ns, name))
        if o is None:
            return
        cl = self.cls[key]
        st = dict(o.get("status") or {})
        phase = st.get("phase")
        if phase in ("Stopped", "Failed"):
            if r.random() < 0.3:
                kube.remove("daskclusters", (ns, name))
            return
        if phase is None:
            self.serial += 1
            cl.creds = {"crt": f"CERT {self.serial}", "key": f"KEY {self.serial}", "token": "tok%032x" % r.getrandbits(128)}
            sec = f"dask-credentials-{name}"
            kube.create("secrets", ns, {"metadata": {"name": sec}, "data": {k: base64.b64encode(v.encode()).decode() for k, v in
                                                                         {"dask.crt": cl.creds["crt"], "dask.pem": cl.creds["key"], "api-token": cl.creds["token"]}.items()}})
            new = {"phase": "Pending", "credentials": sec}
            if r.random() < 0.3:
                new = {"phase": "Pending", "credentials": sec, "schedulerPod": f"dask-scheduler-{name}"}
        elif not o["spec"].get("active", True) or r.random() < 0.15:
            new = dict(st, phase="Stopped" if not o["spec"].get("active", True) else "Failed", completionTime=kubemod.stamp())
            kube.remove("secrets", (ns, st["credentials"]))
        elif phase == "Pending":
            svc = f"dask-{name}"
            new = dict(st, phase="Running", service=svc, schedulerPod=f"dask-scheduler-{name}")
            self.scheduler(key, svc, ns)
        else:
            new = dict(st, note=r.random())

        def change(o):
            o["status"] = new

        kube.update("daskclusters", (ns, name), change)

    def scheduler(self, key, svc, ns):
        from aiohttp import web

        if key in self.schedulers:
            return
        self.schedulers[key] = []

        async def handle(request):
            body = await request.json()
            self.forwarded.append((key, request.path, request.headers.get("Authorization"), body))
            return web.Response()

        vnet.serve(self.net, f"{svc}.{ns}", 8788, handle)

    def foreign(self):
        """Objects made by others."""
        r = self.r
        self.serial += 1
        name = r.choice(["theirs", "x-1"]) + str(self.serial)
        ns = r.choice(["default", "other"])
        labels = {LABEL: r.choice(["i2", INST, INST])} if r.random() < 0.9 else {}
        spec = {"username": r.choice(USERS + ["dave"]), "options": r.choice([{}, None, {"a": 1}])}
        if r.random() < 0.3:
            spec = {"options": {}}
        self.kube.create("daskclusters", ns, {"apiVersion": "gateway.dask.org/v1alpha1", "kind": "DaskCluster", "metadata": {"name": name, "labels": labels}, "spec": spec})

    # -- the gateway --------------------------------------------------------------
    async def start(self):
        self.inc += 1
        inc = self.inc
        cfg = Config()
        cfg.KubeBackend.gateway_instance = INST
        cfg.KubeBackend.api_url = "http://gw.test/api"
        cfg.Proxy.externally_managed = True
        cfg.merge(self.config)

        async def go():
            INC.set(inc)
            self.gw = await gwmod.build("dask_gateway_server.backends.kubernetes.backend.KubeBackend", cfg)

        await self.loop.create_task(go())

    async def stop(self):
        gw, self.gw = self.gw, None
        t0 = self.loop.time()
        await gw.backend.cleanup()
        if self.loop.time() - t0 > 30:
            self.bad("slow-stop", f"stopping the backend took {self.loop.time() - t0:.0f}s")
        await asyncio.sleep(0.1)
        n = len(self.kube.calls)
        await asyncio.sleep(1)
        if len(self.kube.calls) != n:
            self.bad("after-stop", f"a backend that was stopped still calls the server: {str(self.kube.calls[n:])[:300]}")

    async def ask(self, user, method, path, headers=None, js=None, body=b""):
        hd = dict(gwmod.basic(user) if user else {}, **(headers or {}))
        t0 = self.loop.time()
        gw = self.gw
        resp = await gwmod.request(gw.app, method, path, hd, js=js, body=body)
        self.ck.count("requests")
        self.say(method, path, user, resp.status, resp.status >= 400 and repr(resp.exc or resp.body[:80]))
        if resp.status >= 500 and not self.failed_between(t0):
            self.bad("server-error", f"{method} {path} of {user} is answered {resp.status} ({resp.exc!r}) though no call to the server failed")
        return resp

    # -- requests and their verdicts ---------------------------------------------
    async def list(self, user, statuses=None, final=False):
        inc = self.inc
        q = "" if statuses is None else "?status=" + ",".join(statuses)
        before = dict((k, c.seen.get(inc)) for k, c in self.cls.items())
        resp = await self.ask(user, "GET", "/api/v1/clusters/" + q)
        if resp.status != 200 or inc != self.inc:
            if resp.status != 200:
                self.bad("list-failed", f"listing is answered {resp.status} {resp.exc!r}")
            return
        want = {s.upper() for s in statuses} if statuses is not None else {"PENDING", "RUNNING"}
        got = resp.json
        self.ck.count("lists judged")
        for key, d in got.items():
            if not self.mine(key) or self.owner(key) != user:
                self.bad("others-listed", f"the list of {user} shows {key} of {self.owner(key)!r}")
            elif d["status"] not in want:
                self.bad("filter", f"the list of {user} with statuses {statuses} shows {key}, {d['status']}")
            else:
                self.judge_shown(key, d, f"the list of {user}", final, full=False)
        for key, cl in self.cls.items():
            if key in got or not self.mine(key) or self.owner(key) != user:
                continue
            lo = len(cl.versions) - 1 if final else cl.seen.get(inc)
            if lo is None:
                continue  # not known to this gateway for sure
            if all(o is not None and self.shown(cl, o)["status"] in want for _, o in cl.versions[lo:]):
                self.bad("not-listed", f"the list of {user} with statuses {statuses} lacks {key}, which is {self.shown(cl, cl.versions[-1][1])['status']}")

    async def get(self, user, key, wait=False, final=False):
        inc = self.inc
        t0 = self.loop.time()
        resp = await self.ask(user, "GET", f"/api/v1/clusters/{key}" + ("?wait" if wait else ""))
        took = self.loop.time() - t0
        if took > 21 or not wait and took > 1e-6:
            self.bad("slow", f"getting {key} {'with wait ' if wait else ''}took {took:.1f}s")
        if inc != self.inc:
            return
        cl = self.cls.get(key)
        if resp.status == 200:
            self.ck.count("gets judged")
            if not self.mine(key) or self.owner(key) != user:
                self.bad("others-shown", f"{user} is shown {key} of {self.owner(key)!r}")
            elif resp.json is None or resp.json.get("name") != key:
                self.bad("wrong-shown", f"asked for {key}, {str(resp.json)[:200]} is shown")
            else:
                self.judge_shown(key, resp.json, f"get by {user}", final)
                if wait and took < 19.99 and resp.json["status"] == "PENDING":
                    self.bad("wait", f"waiting for {key} ended after {took:.1f}s while it was pending")
                if wait and final and resp.json["status"] != "PENDING" and took > 0.01:
                    self.bad("wait", f"waiting for {key}, which is {resp.json['status']}, took {took:.1f}s")
        elif resp.status == 403:
            if cl is None or not self.mine(key) or self.owner(key) == user:
                self.bad("forbidden", f"{user} is refused {key} of {self.owner(key)!r}")
        elif resp.status == 404:
            if cl is not None and self.mine(key) and (final and cl.versions[-1][1] is not None or not final and not self.may_be_missing(cl)):
                self.bad("not-found", f"{key} is not found, though it exists and had been seen")
        else:
            self.bad("get-failed", f"getting {key} is answered {resp.status} {resp.exc!r}")

    async def create(self, user):
        r = self.r
        valid = r.random() < 0.85
        opts = {}
        if r.random() < 0.7:
            opts["cores"] = r.choice([0.5, 1, 4.0, 8])
        if r.random() < 0.5:
            opts["image"] = r.choice(["a/b:c", "x"])
        if r.random() < 0.4:
            opts["env"] = {"K": r.choice(["v", "w w"])}
        if r.random() < 0.4:
            opts["cap"] = r.choice([0, 3, 100])
        if r.random() < 0.4:
            opts["ns"] = r.choice(["default", "dask"])
        if not valid:
            opts.update(r.choice([{"cores": 9}, {"cores": "x"}, {"cap": -1}, {"image": 3}, {"nope": 1}, {"cap": 1.5}]))
        self.serial += 1
        tag = f"t{self.serial}"
        full = {"cores": 1, "image": "img:1", "env": {}, "cap": 0, "ns": "default", **opts}
        full["env"] = dict(full["env"], TAG=tag)
        opts["env"] = full["env"]
        from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig

        conf = dict(worker_cores=full["cores"], image=full["image"], environment=full["env"])
        if full["cap"]:
            conf["cluster_max_workers"] = full["cap"]
        if full["ns"] != "default":
            conf["namespace"] = full["ns"]
        want = KubeClusterConfig(**conf).to_dict() if valid else None
        made = []

        def allow(method, plural, ns, name, body):
            if method != "POST" or plural != "daskclusters" or ((body["spec"].get("options") or {}).get("env") or {}).get("TAG") != tag:
                return False
            made.append(body)
            sp = body["spec"]
            if not valid:
                self.bad("invalid-created", f"a cluster is created with options {opts}")
            elif sp.get("username") != user or sp.get("options") != full:
                self.bad("created-wrong", f"the cluster of {user} with {full} is written as {str(sp)[:500]}")
            elif json.loads(json.dumps(want)) != sp.get("config"):
                diff = {k: (sp.get("config", {}).get(k), want.get(k)) for k in set(want) | set(sp.get("config", {})) if sp.get("config", {}).get(k) != want.get(k)}
                self.bad("created-wrong", f"the configuration of the cluster of {user} with {full} is written with {diff} (written, expected)")
            elif ns != full["ns"] or body["metadata"]["labels"].get(LABEL) != INST or sp.get("active", True) is not True:
                self.bad("created-wrong", f"the cluster of {user} is written to {ns} as {str(body)[:300]}")
            return True

        a = [allow, f"create of {user}", 0]
        self.allowed.append(a)
        resp = await self.ask(user, "POST", "/api/v1/clusters/", js={"cluster_options": opts})
        self.allowed.remove(a)
        if len(made) > 1:
            self.bad("created-twice", f"one request of {user} made {len(made)} clusters")
        if resp.status == 201:
            key = (resp.json or {}).get("name")
            cl = self.cls.get(key)
            self.ck.count("clusters created")
            if cl is None or len(made) != 1 or key != f"{full['ns']}.{made[0]['metadata']['name']}":
                self.bad("created-wrong", f"the answer names {key}, made was {[m['metadata']['name'] for m in made]}")
            return key
        if resp.status == 422:
            if valid:
                self.bad("valid-refused", f"valid options {opts} are refused: {resp.exc!r}")
            if made:
                self.bad("invalid-created", f"a refused request made {made}")
        elif resp.status < 500:
            self.bad("create-failed", f"creating is answered {resp.status} {resp.exc!r}")
        elif not valid:
            self.bad("create-failed", f"creating with invalid options {opts} is answered {resp.status} {resp.exc!r}")

    async def delete(self, user, key, token=None):
        inc = self.inc
        cl = self.cls.get(key)
        may = cl is not None and self.mine(key) and (token == cl.creds["token"] if token and cl.creds else self.owner(key) == user)
        # known to have ended: nothing to do
        known_over = cl is not None and inc in cl.seen and (o := cl.versions[cl.seen[inc]][1]) is not None and self.shown(cl, o)["status"] in TERMINAL
        known = cl is not None and inc in cl.seen and cl.versions[-1][1] is not None

        def allow(method, plural, ns, name, body):
            if method != "PATCH" or plural != "daskclusters" or f"{ns}.{name}" != key or not may:
                return False
            if known_over:
                self.bad("stopped-again", f"{key}, known to be {cl.versions[cl.seen[inc]][1]['status']['phase']}, is set inactive")
            return [(op["path"], op["value"]) for op in body if op["op"] != "test"] == [("/spec/active", False)]

        a = [allow, f"delete {key} by {user}", 0]
        self.allowed.append(a)
        resp = await self.ask(user if not token else None, "DELETE", f"/api/v1/clusters/{key}", gwmod.token(token) if token else None)
        self.allowed.remove(a)
        if inc != self.inc:
            return
        self.ck.count("stops judged")
        if resp.status == 204:
            if cl is not None and self.mine(key) and not may and inc in cl.seen and cl.versions[-1][1] is not None:
                self.bad("others-stopped", f"{user} may stop {key} of {self.owner(key)!r}")
            if may and known and not known_over and a[2] == 0:
                st = [(round(t, 1), (o.get("status") or {}).get("phase") if o else "deleted") for t, o in cl.versions]
                if not any(o is None or self.shown(cl, o)["status"] in TERMINAL for _, o in cl.versions):
                    self.bad("not-stopped", f"stopping {key} is answered 204 and nothing was done; its states {st}")
            if a[2] and known and cl.versions[-1][1] is not None and cl.versions[-1][1]["spec"].get("active") is not False:
                self.bad("not-stopped", f"stopping {key} is answered 204 and it is still active")
        elif resp.status == 403:
            if may or cl is None:
                self.bad("forbidden", f"{user} may not stop {key}")
        elif resp.status == 401:
            if not token or may and known and cl.seen.get(inc) is not None and self.shows_token(cl):
                self.bad("forbidden", f"a token of {key} is refused")
        elif resp.status < 500:
            self.bad("stop-failed", f"stopping {key} is answered {resp.status}")

    def shows_token(self, cl):
        o = cl.versions[cl.seen[self.inc]][1]
        return o is not None and self.shown(cl, o)["status"] == "RUNNING"

    async def heartbeat(self, key, good):
        r = self.r
        inc = self.inc
        cl = self.cls[key]
        token = cl.creds["token"] if good else r.choice(["x", "tok" + "0" * 32, ""] + [c.creds["token"] for c in self.cls.values() if c.creds and c is not cl])
        good = token == cl.creds["token"]
        count = r.choice([0, 1, 2, 5, 7, 100, 1000])
        cap = (next(o for _, o in cl.versions if o is not None)["spec"].get("config") or {}).get("cluster_max_workers")
        want = count if cap is None else min(count, cap)

        def allow(method, plural, ns, name, body):
            return good and method == "PATCH" and plural == "daskclusters" and f"{ns}.{name}" == key and [(op["path"], op["value"]) for op in body if op["op"] != "test"] == [("/spec/replicas", want)]

        a = [allow, f"heartbeat of {key}: {count}", 0]
        self.allowed.append(a)
        msg = {"count": count, "active_workers": [f"w{k}" for k in range(min(count, 3))], "closing_workers": [], "closed_workers": []}
        resp = await self.ask(None, "POST", f"/api/v1/clusters/{key}/heartbeat", gwmod.token(token), js=msg)
        self.allowed.remove(a)
        if inc != self.inc:
            return
        self.ck.count("heartbeats judged")
        if resp.status == 200:
            if not good:
                self.bad("heartbeat-accepted", f"a heartbeat of {key} with the token {token!r} is accepted")
            elif a[2] != 1:
                o = cl.versions[-1][1]
                if o is not None and a[2] or o is not None and inc in cl.seen and not any(v is None for _, v in cl.versions):
                    self.bad("heartbeat-lost", f"a heartbeat of {key} that requests {count} is accepted with {a[2]} writes")
        elif resp.status == 401:
            if good and cl.versions[-1][1] is not None and inc in cl.seen and self.shows_token(cl):
                self.bad("heartbeat-refused", f"a heartbeat of {key} with its token is refused")
        elif resp.status < 500:
            self.bad("heartbeat-failed", f"a heartbeat of {key} is answered {resp.status}")

    async def scale(self, user, key):
        r = self.r
        inc = self.inc
        cl = self.cls.get(key)
        count = r.choice([0, 1, 4, 50, 1000])
        n0 = len(self.forwarded)
        resp = await self.ask(user, "POST", f"/api/v1/clusters/{key}/scale", js={"count": count})
        if inc != self.inc:
            return
        sent = [f for f in self.forwarded[n0:] if f[3].get("op") == "scale" and f[0] == key]
        if resp.status == 200:
            if cl is None or self.owner(key) != user or not self.mine(key):
                return self.bad("others-scaled", f"{user} may scale {key} of {self.owner(key)!r}")
            self.ck.count("scales judged")
            cap = (next(o for _, o in cl.versions if o is not None)["spec"].get("config") or {}).get("cluster_max_workers")
            want = count if cap is None else min(count, cap)
            if not any(f[3].get("count") == want and f[2] == f"token {cl.creds['token']}" for f in sent):
                self.bad("scale-lost", f"scaling {key} to {count} is accepted; its scheduler was sent {sent}")
        elif resp.status == 409:
            if inc in cl.seen and all(o is not None and self.shown(cl, o)["status"] == "RUNNING" for _, o in cl.versions[cl.seen[inc]:]) and not self.failed_between(-1):
                self.bad("scale-refused", f"scaling {key}, which runs, is refused: {resp.exc!r}")
        elif resp.status == 403:
            if cl is None or self.owner(key) == user:
                self.bad("forbidden", f"{user} may not scale {key}")
        elif resp.status == 404:
            if cl is not None and self.mine(key) and not self.may_be_missing(cl):
                self.bad("not-found", f"{key} is not found, though it exists and had been seen")


def case(ck, i):
    r = ck.rng(i)

    async def main(loop):
        await run(ck, i, r, loop)

    try:
        vloop.run(main, spin_limit=50_000)
    except vloop.Spin as exc:
        raise core.Violation("spins", f"the backend works without end and without waiting: {exc}")


async def run(ck, i, r, loop):
    net = vnet.Net(loop)
    w = World(ck, r, loop, net)
    kube = w.kube
    cfg = Config()
    ns = {"c": cfg}
    exec(OPTIONS, ns)
    w.config = cfg
    faulty = r.random() < 0.7
    gwmod.seeded_uuids(r.getrandbits(64))

    def weather():
        hi = r.choice([0, 0, 0.05, 1]) if faulty else r.choice([0, 0.02])
        kube.latency = lambda: r.uniform(0, hi)
        if not faulty:
            return
        p = r.choice([0, 0, 0.1, 0.5])
        kinds = r.sample(["before", "after", "reset"], r.randint(1, 3))
        kube.fault = lambda method, plural, name: r.choice(kinds) if r.random() < p else None
        lag = r.choice([0, 0, 0.5, 10])
        kube.lag = lambda plural: r.uniform(0, lag)
        wf = r.choice([0, 0, 0.1, 0.3])
        kube.watch_fault = lambda plural: r.choice(["reset", "cut", "error", "gone", "early"]) if r.random() < wf else None
        kube.hold = r.choice([None, 60])

    for _ in range(r.randint(0, 3)):
        w.foreign()
    weather()
    kube.fault, kube.watch_fault = (lambda *a: None), (lambda p: None)
    await w.start()
    tasks = set()

    def go(co):
        t = loop.create_task(co)
        tasks.add(t)
        t.add_done_callback(tasks.discard)

    def some_key():
        keys = sorted(w.cls)
        x = r.random()
        if keys and x < 0.85:
            return r.choice(keys)
        return r.choice(["nope", "a.b.c", "default.unknown", "..%2f", "default.", ".x", "x" * 300, "%20", "default.%C3%BC"])

    steps = r.randint(30, 120)
    for _ in range(steps):
        await asyncio.sleep(r.choice([0, 0, 0.01, 0.2, 1, 3, 8]))
        w.check()
        user = r.choice(USERS)
        x = r.random()
        if x < 0.12:
            if len([c for c in w.cls.values() if c.versions[-1][1] is not None]) < 10:
                go(w.create(user))
        elif x < 0.27:
            go(w.list(user, r.choice([None, None, ["running"], ["pending", "stopped"], ["failed", "stopped"], ["stopping"], ["RUNNING", "Pending", "stopped", "failed"]])))
        elif x < 0.42:
            key = some_key()
            go(w.get(r.choice([user, w.owner(key) or user]), key, wait=r.random() < 0.3))
        elif x < 0.50:
            key = some_key()
            cl = w.cls.get(key)
            if cl is not None and cl.creds and r.random() < 0.3:
                await w.delete(None, key, token=r.choice([cl.creds["token"], "wrong"]))
            else:
                await w.delete(r.choice([user, w.owner(key) or user]), key)
        elif x < 0.60:
            keys = [k for k, c in sorted(w.cls.items()) if c.creds]
            if keys:
                await w.heartbeat(r.choice(keys), r.random() < 0.75)
        elif x < 0.66:
            key = some_key()
            await w.scale(r.choice([user, w.owner(key) or user]), key)
        elif x < 0.88:
            keys = [k for k, c in sorted(w.cls.items()) if c.versions[-1][1] is not None and w.mine(k)]
            if keys:
                w.advance(r.choice(keys))
        elif x < 0.91:
            w.foreign()
        elif x < 0.94:
            keys = [k for k, c in sorted(w.cls.items()) if c.versions[-1][1] is not None]
            if keys:
                ns_, name = r.choice(keys).split(".")
                if r.random() < 0.5:
                    kube.remove("daskclusters", (ns_, name))
                else:
                    kube.update("daskclusters", (ns_, name), lambda o: o["spec"].update(note=r.random()))
        elif x < 0.96 and faulty:
            kube.start_outage()
            await asyncio.sleep(r.choice([0.5, 5, 60]))
            kube.end_outage(compact=r.random() < 0.5)
        elif x < 0.98:
            if tasks:
                await asyncio.wait(set(tasks))
            await w.stop()
            ck.count("restarts")
            fl, wf = kube.fault, kube.watch_fault
            await w.start()
        elif faulty:
            weather()
    if tasks:
        await asyncio.wait(set(tasks))
    w.check()
    kube.calm()
    await asyncio.sleep(700)
    w.check()
    for user in USERS + ["dave"]:
        for st in (None, ["pending"], ["running"], ["stopped", "failed"]):
            await w.list(user, st, final=True)
    for key in sorted(w.cls):
        await w.get(w.owner(key) or "alice", key, final=True)
        if w.cls[key].versions[-1][1] is not None and r.random() < 0.5:
            await w.get(w.owner(key) or "alice", key, wait=True, final=True)
        await w.get("mallory", key, final=True)
    w.check()
    # those who wait are told at once
    pend = [k for k, c in sorted(w.cls.items()) if c.versions[-1][1] is not None and w.mine(k) and w.owner(k) in USERS and (c.versions[-1][1].get("status") or {}).get("phase") == "Pending"]
    for key in pend[:2]:
        async def waiter():
            t0 = loop.time()
            await w.get(w.owner(key), key, wait=True)
            return loop.time() - t0

        ts = [loop.create_task(waiter()) for _ in range(2)]
        d = r.choice([0, 3, 12])
        await asyncio.sleep(d)
        if r.random() < 0.3:
            kube.remove("daskclusters", tuple(key.split(".")))
        while w.cls[key].versions[-1][1] is not None and (w.cls[key].versions[-1][1].get("status") or {}).get("phase") == "Pending":
            w.advance(key)
        for t in ts:
            took = await t
            ck.count("waits judged")
            if not d - 0.01 <= took <= d + 0.5:
                w.bad("wait", f"{key} {'was deleted' if w.cls[key].versions[-1][1] is None else 'got ' + w.cls[key].versions[-1][1]['status']['phase']} {d}s after get with wait was asked, which was answered after {took:.1f}s")
    w.check()
    await w.stop()
    w.check()
    ck.case([h[1:4] for h in w.hist], nontrivial=w.running_seen > 0, sample={"clusters": len(w.cls), "requests": sum(1 for h in w.hist if h[1] in ("GET", "POST", "DELETE")), "incarnations": w.inc} if i < 3 else None)


def prepare(ck):
    logging.disable(logging.CRITICAL)
    kubemod.patch_modules()


def body(ck):
    prepare(ck)
    ck.pool(lambda i: case(ck, i), ck.budget(25, 900))
    ck.need(**{"clusters created": 100, "lists judged": 500, "gets judged": 300, "stops judged": 100, "heartbeats judged": 100, "scales judged": 20, "waits judged": 20})


if __name__ == "__main__":
    core.main("C22", RULE, body, assumptions=[
        "the watch is sequential: within one gateway process what is shown of a cluster never goes back",
        "after a restart of the gateway, clusters may be unknown until its first synchronisation",
        "errors are answered with 5xx only when a call to the Kubernetes API failed",
    ])
