"""The gateway and the controller, as deployed on Kubernetes: both real programs
with their configuration files on one simulated API server, with what is needed
of the rest: pods that start, names and services that lead to pods, Traefik.
"""
import asyncio
import base64
import contextvars
import os
import re
import urllib.parse

import kubernetes_asyncio.config
from kubernetes_asyncio import client as kclient

from mon import core, gw as gwmod, kube as kubemod, vnet

WHO = contextvars.ContextVar("who", default="nobody")
INSTANCE = "gateway.dask.org/instance"
CLUSTER = "gateway.dask.org/cluster"
COMP = "app.kubernetes.io/component"


class FakeServer:
    sockets = ()

    def close(self):
        pass

    async def wait_closed(self):
        pass


def patch():
    kubemod.patch_modules()

    def load(*args, **kwargs):
        c = kclient.Configuration()
        c.host = "http://10.9.0.1:80"
        c.api_key = {"BearerToken": WHO.get()}
        kclient.Configuration.set_default(c)

    async def load_kube(*args, **kwargs):
        load()

    kubernetes_asyncio.config.load_incluster_config = load
    kubernetes_asyncio.config.load_kube_config = load_kube


def selected(obj, selector):
    labels = obj["metadata"].get("labels") or {}
    return bool(selector) and all(labels.get(k) == v for k, v in selector.items())


class World:
    def __init__(self, ck, r, loop, d, gateway_text, controller_text, release_ns="default"):
        self.ck, self.r, self.loop, self.d = ck, r, loop, d
        self.texts = {"gateway": gateway_text, "controller": controller_text}
        self.release_ns = release_ns
        self.net = vnet.Net(loop)
        self.kube = kubemod.Kube(loop, self.net, r)
        self.kube.on_commit.append(self.committed)
        self.static = []  # objects of the release
        self.listening = {}  # who -> (host, port)
        self.scheduler_calls = []
        self.problems = []
        self.tasks = set()

        async def create_server(factory, host=None, port=None, **kwargs):
            self.listening[WHO.get()] = (host, port)
            return FakeServer()

        loop.create_server = create_server
        loop.add_signal_handler = lambda *args: None

    def bad(self, key, msg, witness=None):
        raise core.Violation(key, msg, witness)

    # -- the programs ------------------------------------------------------------
    async def start(self, which, argv=None):
        """Start one of the programs: with its configuration, or by this command line."""
        path = os.path.join(self.d, f"{which}.py")
        if argv is None:
            with open(path, "w") as f:
                f.write(self.texts[which])

        async def go():
            WHO.set(which)
            from dask_gateway_server.app import DaskGateway
            from dask_gateway_server.backends.kubernetes.controller import KubeController

            DaskGateway.clear_instance()
            KubeController.clear_instance()
            app = DaskGateway() if which == "gateway" or argv is not None else KubeController()
            try:
                app.initialize(["--config", path] if argv is None else argv)
            except SystemExit as e:  # would stop the loop if it left a task
                raise RuntimeError(f"exit {e.code}: {e.__context__}") from e
            app = app.subapp or app
            app.log.handlers[:] = []
            app.log.setLevel("CRITICAL")
            await app.setup()
            return app

        app = await self.loop.create_task(go())
        setattr(self, which, app)
        return app

    async def stop(self):
        for which in ("gateway", "controller"):
            app = getattr(self, which, None)
            if app is not None:
                await app.cleanup()

    # -- the rest of Kubernetes -----------------------------------------------------
    def committed(self, plural, typ, obj, old, by):
        ns, name = obj["metadata"]["namespace"], obj["metadata"]["name"]
        if plural == "pods" and typ == "ADDED":
            self.kube.spawn(self.life(ns, name, obj["metadata"]["uid"]))
        elif plural == "services" and typ == "ADDED":
            for p in obj["spec"].get("ports") or ():
                self.serve(name, ns, p["port"])

    async def life(self, ns, name, uid):
        r = self.r
        await asyncio.sleep(r.choice([0.1, 1, 3]))

        def up(o):
            o["status"] = {"phase": "Running", "podIP": "10.8.0.1", "containerStatuses": [
                {"name": c["name"], "image": c.get("image"), "imageID": "x", "restartCount": 0, "ready": True, "state": {"running": {"startedAt": kubemod.stamp()}}}
                for c in o["spec"]["containers"]]}

        o = self.kube.objs["pods"].get((ns, name))
        if o is not None and o["metadata"]["uid"] == uid and not o["metadata"].get("deletionTimestamp"):
            self.kube.update("pods", (ns, name), up)

    def pods_of(self, svc):
        ns = svc["metadata"]["namespace"]
        return [p for (n, _), p in sorted(self.kube.objs["pods"].items()) if n == ns and selected(p, svc["spec"].get("selector"))] + [
            p for p in self.release_pods() if p["metadata"]["namespace"] == ns and selected(p, svc["spec"].get("selector"))]

    def release_pods(self):
        """The pods of the release's deployments."""
        out = []
        for o in self.static:
            if o["kind"] == "Deployment":
                labels = o["spec"]["template"]["metadata"].get("labels") or {}
                if not all(labels.get(k) == v for k, v in o["spec"]["selector"]["matchLabels"].items()) or not o["spec"]["selector"]["matchLabels"]:
                    self.bad("deployment", f"the Deployment {o['metadata']['name']} does not select its own pods: {labels} against {o['spec']['selector']}")
                out.append({"kind": "Pod", "deployment": o["metadata"]["name"], "metadata": {"name": o["metadata"]["name"] + "-pod", "namespace": self.release_ns, "labels": labels}, "spec": o["spec"]["template"]["spec"]})
        return out

    def service(self, ns, name):
        for o in self.static:
            if o["kind"] == "Service" and o["metadata"]["name"] == name and ns == self.release_ns:
                return dict(o, metadata=dict(o["metadata"], namespace=ns))
        return self.kube.objs["services"].get((ns, name))

    def backend_of(self, ns, name, port):
        """(pod, port of the pod) that a service's port leads to, or a reason why to none."""
        svc = self.service(ns, name)
        if svc is None:
            return f"there is no service {name} in {ns}"
        for p in svc["spec"].get("ports") or ():
            if p["port"] == port or p.get("name") == port:
                break
        else:
            return f"the service {name} has no port {port}"
        pods = self.pods_of(svc)
        if len(pods) != 1:
            return f"the service {name} selects {[p['metadata']['name'] for p in pods]}"
        target = p.get("targetPort", p["port"])
        if isinstance(target, str):
            for c in pods[0]["spec"]["containers"]:
                for cp in c.get("ports") or ():
                    if cp.get("name") == target:
                        target = cp["containerPort"]
                        break
            if isinstance(target, str):
                return f"the pod {pods[0]['metadata']['name']} has no port called {target}"
        return pods[0], target

    def resolve(self, url):
        """(pod, port, path) of an address used inside the cluster."""
        u = urllib.parse.urlsplit(url)
        parts = (u.hostname or "").split(".")
        if len(parts) < 2:
            return f"{u.hostname} is no name of a service from another namespace"
        res = self.backend_of(parts[1], parts[0], u.port or 80)
        return res if isinstance(res, str) else res + (u.path,)

    def serve(self, name, ns, port):
        async def handle(request):
            from aiohttp import web

            res = self.backend_of(ns, name, port)
            body = await request.text()
            self.scheduler_calls.append((res, request.method, request.path, body, request.headers.get("Authorization")))
            return web.json_response({})

        try:
            vnet.serve(self.net, f"{name}.{ns}", port, handle)
        except Exception:
            pass

    # -- Traefik ------------------------------------------------------------------------
    def routes(self, kind):
        plural = {"IngressRoute": "ingressroutes", "IngressRouteTCP": "ingressroutetcps"}[kind]
        out = [dict(o, metadata=dict(o["metadata"], namespace=self.release_ns)) for o in self.static if o["kind"] == kind]
        return out + [o for _, o in sorted(self.kube.objs[plural].items())]

    def middleware(self, ns, name):
        for o in self.static:
            if o["kind"] == "Middleware" and o["metadata"]["name"] == name and ns == self.release_ns:
                return o
        return None

    def http(self, selector, entrypoint, path):
        """Where Traefik sends a request for this path: (pod, port, path) or a reason."""
        best = None
        for o in self.routes("IngressRoute"):
            if not selected(o, selector) or entrypoint not in (o["spec"].get("entryPoints") or [entrypoint]):
                continue
            for route in o["spec"]["routes"]:
                ms = [re.fullmatch(r"PathPrefix\(`([^`]*)`\)", x.strip()) for x in route["match"].split("||")]
                if None in ms:
                    return f"a rule that is not understood: {route['match']}"
                if route.get("kind") == "Rule" and any(path.startswith(m[1]) for m in ms) and (best is None or len(route["match"]) > len(best[0]["match"])):
                    best = (route, o)
        if best is None:
            return f"no route for {path} at {entrypoint}"
        route, o = best
        ns = o["metadata"]["namespace"]
        for ref in route.get("middlewares") or ():
            mw = self.middleware(ref.get("namespace", ns), ref["name"])
            if mw is None or not selected(mw, selector):
                return f"the middleware {ref} of {o['metadata']['name']} is unknown"
            spec = mw["spec"]
            if "stripPrefix" in spec:
                for p in spec["stripPrefix"]["prefixes"]:
                    if path.startswith(p):
                        path = path[len(p):]
                        break
            elif "stripPrefixRegex" in spec:
                for p in spec["stripPrefixRegex"]["regex"]:
                    m = re.search(p.strip(), path)
                    if m and m.start() == 0 and m.end() > 0:
                        path = path[m.end():]
                        break
            else:
                return f"a middleware that is not understood: {spec}"
            if not path.startswith("/"):
                path = "/" + path
        if len(route["services"]) != 1:
            return f"{o['metadata']['name']} has {len(route['services'])} services"
        svc = route["services"][0]
        if svc.get("kind") == "TraefikService":
            return "an internal service"
        res = self.backend_of(svc.get("namespace", ns), svc["name"], svc["port"])
        return res if isinstance(res, str) else res + (path,)

    def tcp(self, selector, entrypoint, sni):
        hits = []
        for o in self.routes("IngressRouteTCP"):
            if not selected(o, selector) or entrypoint not in (o["spec"].get("entryPoints") or [entrypoint]):
                continue
            for route in o["spec"]["routes"]:
                m = re.fullmatch(r"HostSNI\(`([^`]*)`\)", route["match"].strip())
                if m is None:
                    return f"a rule that is not understood: {route['match']}"
                if m[1] == sni:
                    hits.append((o, route))
        if len(hits) != 1:
            return f"{len(hits)} routes for {sni} at {entrypoint}"
        o, route = hits[0]
        if not (o["spec"].get("tls") or {}).get("passthrough"):
            return "the connection is not passed through"
        if len(route["services"]) != 1:
            return f"{len(route['services'])} services for {sni}"
        svc = route["services"][0]
        return self.backend_of(svc.get("namespace", o["metadata"]["namespace"]), svc["name"], svc["port"])

    # -- users and schedulers -----------------------------------------------------------
    async def ask(self, method, path, headers=None, js=None):
        async def go():
            WHO.set("gateway")
            return await gwmod.request(self.gateway.app, method, path, headers or {}, js=js)

        return await self.loop.create_task(go())

    async def until(self, cond, timeout, step=0.5):
        t0 = self.loop.time()
        while not cond():
            if self.loop.time() - t0 > timeout:
                return False
            await asyncio.sleep(step)
        return True

    def of(self, plural, ns, cluster, comp=None):
        return [o for (n, _), o in sorted(self.kube.objs[plural].items()) if n == ns and (o["metadata"].get("labels") or {}).get(CLUSTER) == cluster
                and (comp is None or o["metadata"]["labels"].get(COMP) == comp)]


def container(pod, name):
    for c in pod["spec"]["containers"]:
        if c["name"] == name:
            return c
    return None


def env_of(c):
    """What the process sees: the last of several of one name wins."""
    return {e["name"]: e.get("value", e.get("valueFrom")) for e in c.get("env") or ()}


def cmd_of(c):
    return list(c.get("command") or ()) + list(c.get("args") or ())


def cpu(q):
    q = str(q)
    return float(q[:-1]) / 1000 if q.endswith("m") else float(q)


def mem(q):
    q = str(q)
    for suffix, n in (("Ki", 2**10), ("Mi", 2**20), ("Gi", 2**30), ("Ti", 2**40), ("k", 1e3), ("M", 1e6), ("G", 1e9), ("T", 1e12)):
        if q.endswith(suffix):
            return float(q[: -len(suffix)]) * n
    return float(q)


def included(want, got, at=""):
    """What of `want` (merged in: maps by key, lists appended) is missing in `got`."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{at} is {got!r}"
        for k, v in want.items():
            if k not in got:
                return f"{at}.{k} is missing"
            res = included(v, got[k], f"{at}.{k}")
            if res:
                return res
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or (want and got[-len(want):] != want):
            return f"{at} does not end with {want}: {got!r}"
        return None
    return None if want == got and type(want) is type(got) else f"{at} is {got!r}, not {want!r}"


def args_of(cmd):
    """{option: value} of a command line of options with values."""
    out = {}
    for k, a in enumerate(cmd):
        if a.startswith("--"):
            if "=" in a:
                out[a.partition("=")[0]] = a.partition("=")[2]
            elif k + 1 < len(cmd):
                out[a] = cmd[k + 1]
    return out


def b64(s):
    return base64.b64decode(s)
