"""A simulated Kubernetes API server, served over the in-memory network to the
real kubernetes_asyncio client, with controllers of its own (owner-reference
garbage collection, endpoints, graceful deletion) and faults: lagging, broken,
expired and cut watches, failing calls before or after their effect, outages.
"""
import contextvars
import asyncio
import copy
import datetime
import json
import time

import kubernetes_asyncio.config
from aiohttp import web
from kubernetes_asyncio import client as kclient

from mon import vloop, vnet

vloop.EPOCH = vloop._real_time() - 1000
_real_datetime = datetime.datetime


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)


class VDatetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)


def patch_modules():
    """Point the code under test at this clock and this server."""
    from dask_gateway_server.backends.kubernetes import backend, controller, utils

    for mod in (backend, controller, utils):
        if getattr(mod, "datetime", None) is _real_datetime:
            mod.datetime = VDatetime

    def load(*args, **kwargs):
        c = kclient.Configuration()
        c.host = "http://10.9.0.1:80"
        kclient.Configuration.set_default(c)

    async def load_kube(*args, **kwargs):
        load()

    kubernetes_asyncio.config.load_incluster_config = load
    kubernetes_asyncio.config.load_kube_config = load_kube


def stamp(t=None):
    t = time.time() if t is None else t
    return _real_datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%SZ")


def unstamp(s):
    return _real_datetime.strptime(s, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=datetime.timezone.utc).timestamp()


KIND = {"pods": ("v1", "Pod"), "secrets": ("v1", "Secret"), "services": ("v1", "Service"), "endpoints": ("v1", "Endpoints"),
        "daskclusters": ("gateway.dask.org/v1alpha1", "DaskCluster"), "ingressroutes": ("traefik.io/v1alpha1", "IngressRoute"),
        "ingressroutetcps": ("traefik.io/v1alpha1", "IngressRouteTCP")}
GROUPS = {"daskclusters": ("gateway.dask.org", "v1alpha1"), "ingressroutes": ("traefik.io", "v1alpha1"), "ingressroutetcps": ("traefik.io", "v1alpha1")}


class Problem(Exception):
    def __init__(self, status, reason, message=""):
        self.status, self.reason, self.message = status, reason, message or reason


def json_patch(obj, ops):
    obj = copy.deepcopy(obj)
    for op in ops:
        parts = [p.replace("~1", "/").replace("~0", "~") for p in op["path"].split("/")[1:]]
        at = obj
        for p in parts[:-1]:
            at = at[int(p)] if isinstance(at, list) else at.get(p)
            if at is None:
                raise Problem(422, "Invalid", "the path does not exist")
        last = parts[-1]
        if op["op"] in ("add", "replace"):
            if op["op"] == "replace" and last not in at:
                raise Problem(422, "Invalid", "nothing to replace")
            if isinstance(at, list):
                at.append(op["value"])
            else:
                at[last] = op["value"]
        elif op["op"] == "remove":
            if last not in at:
                raise Problem(422, "Invalid", "nothing to remove")
            del at[last]
        elif op["op"] == "test":
            if at.get(last) != op["value"]:
                raise Problem(422, "Invalid", "test failed")
        else:
            raise Problem(400, "BadRequest", op["op"])
    return obj


def merge_patch(a, b):
    if not isinstance(b, dict):
        return b
    a = dict(a) if isinstance(a, dict) else {}
    for k, v in b.items():
        if v is None:
            a.pop(k, None)
        else:
            a[k] = merge_patch(a.get(k), v)
    return a


def matches(obj, selector):
    labels = obj["metadata"].get("labels") or {}
    for term in (selector or "").split(","):
        if not term:
            continue
        k, _, v = term.replace("==", "=").partition("=")
        if labels.get(k) != v:
            return False
    return True


class Kube:
    HOST, PORT = "10.9.0.1", 80

    def __init__(self, loop, net, r):
        self.loop, self.net, self.r = loop, net, r
        self.objs = {p: {} for p in KIND}
        self.rv = 100
        self.log = []  # (rv, plural, type, json text, labels-carrying object)
        self.compacted = 0
        self.next_uid = 0
        self.next_name = 0
        self.calls = []  # every request: [t, method, plural, namespace, name, body, outcome]
        self.deliveries = []
        self.wake = asyncio.Event()
        self.tasks = set()
        self.on_commit = []  # f(plural, type, obj, old, by)
        self.on_call = []
        self.authorize = lambda who, verb, group, resource, ns: True
        self.acting = None  # the call being carried out
        self.unheard = False
        self.gc_delay = lambda: r.choice([0, 0.2, 2])
        self.grace = lambda: r.choice([0, 1, 5, 30])
        self.latency = lambda: 0
        self.lag = lambda plural: 0
        self.fault = lambda method, plural, name: None  # None, "before", "after", "conflict", "reset"
        self.watch_fault = lambda plural: None  # None, "reset", "cut", "error", "gone", "early"
        self.hold = None  # a watch's life, instead of what the client asked for
        self.outage = False
        self.incarnation = 0  # of the client
        self.watching = {}
        loop.run_in_executor = self.inline  # the client looks for proxies in a thread
        vnet.serve(net, self.HOST, self.PORT, self.handle)

    def inline(self, executor, func, *args):
        fut = self.loop.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as exc:
            fut.set_exception(exc)
        return fut

    def spawn(self, co):
        t = self.loop.create_task(co, context=contextvars.Context())
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        return t

    # -- the store ---------------------------------------------------------
    def commit(self, plural, typ, obj, old=None, by="system"):
        self.rv += 1
        obj["metadata"]["resourceVersion"] = str(self.rv)
        self.log.append((self.rv, plural, typ, json.dumps(obj), obj if typ != "MODIFIED" else obj))
        key = (obj["metadata"]["namespace"], obj["metadata"]["name"])
        if typ == "DELETED":
            self.objs[plural].pop(key, None)
        else:
            self.objs[plural][key] = obj
        self.wake.set()
        self.wake = asyncio.Event()
        for f in self.on_commit:
            f(plural, typ, obj, old, by)
        return obj

    def create(self, plural, ns, obj, by="system"):
        obj = copy.deepcopy(obj)
        api, kind = KIND[plural]
        if plural in GROUPS and (obj.get("apiVersion"), obj.get("kind")) != (api, kind):
            raise Problem(400, "BadRequest", f"{obj.get('apiVersion')} {obj.get('kind')} is not {kind}")
        obj["apiVersion"], obj["kind"] = api, kind
        m = obj.setdefault("metadata", {})
        if m.get("namespace", ns) != ns:
            raise Problem(400, "BadRequest", "namespace mismatch")
        m["namespace"] = ns
        if not m.get("name"):
            if not m.get("generateName"):
                raise Problem(422, "Invalid", "no name")
            self.next_name += 1
            m["name"] = f"{m['generateName']}{self.next_name:05d}"
        if (ns, m["name"]) in self.objs[plural]:
            raise Problem(409, "AlreadyExists", f'{plural} "{m["name"]}" already exists')
        self.next_uid += 1
        m["uid"] = f"uid-{self.next_uid}"
        m["creationTimestamp"] = stamp()
        m["generation"] = 1
        if plural == "daskclusters":
            obj.pop("status", None)
        if plural == "pods":
            obj["status"] = {"phase": "Pending"}
        out = self.commit(plural, "ADDED", obj, by=by)
        if plural == "services":
            self.spawn(self.endpoints_of(ns, m["name"]))
        if m.get("ownerReferences"):
            self.spawn(self.collect(plural, ns, m["name"], m["uid"]))
        return out

    def update(self, plural, key, change, by="system"):
        """change(copy) edits the object in place."""
        old = self.objs[plural].get(key)
        if old is None:
            return None
        new = copy.deepcopy(old)
        new = change(new) or new
        if new == old:
            return old
        return self.commit(plural, "MODIFIED", new, old=old, by=by)

    def remove(self, plural, key, by="system"):
        """Really gone."""
        old = self.objs[plural].get(key)
        if old is None:
            return
        self.commit(plural, "DELETED", copy.deepcopy(old), old=old, by=by)
        uid = old["metadata"]["uid"]
        for pl, objs in self.objs.items():
            for (ns, name), o in list(objs.items()):
                if ns == key[0] and any(ref["uid"] == uid for ref in o["metadata"].get("ownerReferences") or ()):
                    self.spawn(self.collect(pl, ns, name, o["metadata"]["uid"]))
        if plural == "services" and key in self.objs["endpoints"]:
            self.remove("endpoints", key)

    def delete(self, plural, key, by="system"):
        """Ask for deletion, gracefully for running pods."""
        old = self.objs[plural].get(key)
        if old is None:
            raise Problem(404, "NotFound", f'{plural} "{key[1]}" not found')
        if plural == "pods" and old["status"].get("phase") not in ("Succeeded", "Failed") and old["status"].get("containerStatuses"):
            if old["metadata"].get("deletionTimestamp"):
                return
            grace = self.grace()
            if grace:
                def mark(o):
                    o["metadata"]["deletionTimestamp"] = stamp()
                    o["metadata"]["deletionGracePeriodSeconds"] = 30

                self.update(plural, key, mark, by=by)
                self.spawn(self.end_grace(plural, key, old["metadata"]["uid"], grace))
                return
        self.remove(plural, key, by=by)

    async def end_grace(self, plural, key, uid, grace):
        await asyncio.sleep(grace)
        o = self.objs[plural].get(key)
        if o is not None and o["metadata"]["uid"] == uid:
            self.remove(plural, key)

    async def collect(self, plural, ns, name, uid):
        """Garbage-collect the object if no owner exists."""
        await asyncio.sleep(self.gc_delay())
        o = self.objs[plural].get((ns, name))
        if o is None or o["metadata"]["uid"] != uid:
            return
        owners = {ref["uid"] for ref in o["metadata"].get("ownerReferences") or ()}
        if not any(x["metadata"]["uid"] in owners for objs in self.objs.values() for (n, _), x in objs.items() if n == ns):
            try:
                self.delete(plural, (ns, name), by="gc")
            except Problem:
                pass

    async def endpoints_of(self, ns, name):
        """The endpoints controller, for one service."""
        svc = self.objs["services"].get((ns, name))
        if svc is None:
            return
        uid = svc["metadata"]["uid"]
        while True:
            svc = self.objs["services"].get((ns, name))
            if svc is None or svc["metadata"]["uid"] != uid:
                return
            sel = svc["spec"].get("selector") or {}
            ready, unready = [], []
            for (n, pod), o in sorted(self.objs["pods"].items()):
                labels = o["metadata"].get("labels") or {}
                if n != ns or any(labels.get(k) != v for k, v in sel.items()) or o["status"].get("phase") != "Running" or o["metadata"].get("deletionTimestamp"):
                    continue
                ok = all(c.get("ready") for c in o["status"].get("containerStatuses") or ())
                (ready if ok else unready).append({"ip": "10.1.0.1", "targetRef": {"kind": "Pod", "name": pod}})
            subset = {"ports": [{"port": 8786}]}
            if ready:
                subset["addresses"] = ready
            if unready:
                subset["notReadyAddresses"] = unready
            subsets = [subset] if ready or unready else []
            cur = self.objs["endpoints"].get((ns, name))
            if cur is None:
                body = {"metadata": {"name": name, "labels": svc["metadata"].get("labels") or {}}}
                if subsets:
                    body["subsets"] = subsets
                self.create("endpoints", ns, body)
            elif cur.get("subsets", []) != subsets:
                def change(o):
                    if subsets:
                        o["subsets"] = subsets
                    else:
                        o.pop("subsets", None)

                self.update("endpoints", (ns, name), change)
            wake = self.wake
            await wake.wait()
            await asyncio.sleep(0.3)

    # -- requests ------------------------------------------------------------
    async def handle(self, request):
        parts = request.path.strip("/").split("/")
        sub = None
        if parts[0] == "api":
            rest = parts[2:]
        else:
            rest = parts[3:]
        ns = name = None
        if rest and rest[0] == "namespaces":
            ns, rest = rest[1], rest[2:]
        plural = rest[0]
        name = rest[1] if len(rest) > 1 else None
        sub = rest[2] if len(rest) > 2 else None
        body = None
        if request.can_read_body:
            text = await request.text()
            body = json.loads(text) if text else None
        watch = request.query.get("watch") in ("true", "True", "1")
        call = [self.loop.time(), "WATCH" if watch else request.method, plural, ns, name, body, None]
        self.calls.append(call)
        for f in self.on_call:
            f(call)
        try:
            if plural not in KIND:
                raise Problem(404, "NotFound")
            verb = "watch" if watch else {"GET": "get" if name else "list", "POST": "create", "PUT": "update", "PATCH": "patch", "DELETE": "delete" if name else "deletecollection"}.get(request.method, request.method)
            if not self.authorize(request.headers.get("Authorization"), verb, parts[1] if parts[0] == "apis" else "", f"{plural}/{sub}" if sub else plural, ns):
                raise Problem(403, "Forbidden", f"{plural} is forbidden")
            want = "/".join(parts[1:3]) if parts[0] == "apis" else parts[1]
            if want != KIND[plural][0]:
                raise Problem(404, "NotFound", "no such resource")
            if self.outage:
                if self.r.random() < 0.5:
                    call[6] = "reset"
                    request.transport.abort()
                    return web.Response()
                raise Problem(503, "ServiceUnavailable")
            lat = self.latency()
            if lat:
                await asyncio.sleep(lat)
            fault = None if watch else self.fault(request.method, plural, name)
            if fault == "before":
                raise Problem(self.r.choice([500, 503, 429, 504]), "InternalError", "injected")
            if fault == "conflict":
                raise Problem(409, "Conflict", "the object has been modified")
            if fault == "forbidden":
                raise Problem(403, "Forbidden", "exceeded quota")
            if fault == "reset":
                call[6] = "reset"
                request.transport.abort()
                return web.Response()
            if watch:
                return await self.watch(request, plural, ns, call)
            self.acting = call
            self.unheard = request.transport is None or request.transport.is_closing()  # who asked is not there to hear
            answer = self.act(request.method, plural, ns, name, sub, body, request)
            if lat:
                await asyncio.sleep(self.latency())
            if fault == "after":
                call[6] = "done, but failed"
                if self.r.random() < 0.5:
                    request.transport.abort()
                    return web.Response()
                raise Problem(self.r.choice([500, 504]), "Timeout", "injected after the effect")
            call[6] = "ok"
            return web.json_response(answer, status=201 if request.method == "POST" else 200)
        except Problem as exc:
            if call[6] is None:
                call[6] = exc.status
            return web.json_response(
                {"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Failure", "message": exc.message, "reason": exc.reason, "code": exc.status},
                status=exc.status)

    def act(self, method, plural, ns, name, sub, body, request):
        objs = self.objs[plural]
        if method == "GET" and name is None:
            items = [copy.deepcopy(o) for (n, _), o in sorted(objs.items()) if (ns is None or n == ns) and matches(o, request.query.get("labelSelector"))]
            for o in items:  # as the real server does for lists of built-in kinds
                if plural not in GROUPS:
                    o.pop("kind", None), o.pop("apiVersion", None)
            api, kind = KIND[plural]
            return {"kind": kind + "List", "apiVersion": api, "metadata": {"resourceVersion": str(self.rv)}, "items": items}
        if method == "GET":
            if (ns, name) not in objs:
                raise Problem(404, "NotFound", f'{plural} "{name}" not found')
            return objs[ns, name]
        if method == "POST":
            if name is not None:
                raise Problem(405, "MethodNotAllowed")
            return self.create(plural, ns, body, by="client")
        if method == "DELETE":
            self.delete(plural, (ns, name), by="client")
            return {"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Success"}
        if method == "PATCH":
            if (ns, name) not in objs:
                raise Problem(404, "NotFound", f'{plural} "{name}" not found')
            old = objs[ns, name]
            ctype = request.content_type
            if ctype == "application/json-patch+json":
                if not isinstance(body, list):
                    raise Problem(400, "BadRequest", "a JSON patch is a list")
                new = json_patch(old, body)
            elif ctype == "application/merge-patch+json":
                new = merge_patch(old, body)
            else:
                raise Problem(415, "UnsupportedMediaType", ctype)
            # the status is a subresource of its own
            if sub == "status":
                full = copy.deepcopy(old)
                if "status" in new:
                    full["status"] = new["status"]
                new = full
            elif sub is None:
                if "status" in old:
                    new["status"] = old["status"]
                else:
                    new.pop("status", None)
            else:
                raise Problem(404, "NotFound")
            new["metadata"] = dict(old["metadata"], labels=new["metadata"].get("labels"), annotations=new["metadata"].get("annotations"))
            for k in ("labels", "annotations"):
                if new["metadata"][k] is None:
                    del new["metadata"][k]
            if new == old:
                return old
            return self.commit(plural, "MODIFIED", new, old=old, by="client")
        raise Problem(405, "MethodNotAllowed")

    async def watch(self, request, plural, ns, call):
        rv = int(request.query.get("resourceVersion") or 0)
        life = float(request.query.get("timeoutSeconds") or 1800)
        if self.hold is not None:
            life = self.hold
        sel = request.query.get("labelSelector")
        end = self.loop.time() + life
        inc = self.incarnation
        if rv < self.compacted and self.r.random() < 0.3:
            raise Problem(410, "Expired", "too old resource version")
        resp = web.StreamResponse(headers={"Content-Type": "application/json"})
        resp.enable_chunked_encoding()
        await resp.prepare(request)
        call[6] = "watching"

        async def send(obj, cut=False):
            data = (json.dumps(obj) + "\n").encode()
            if cut:
                data = data[: self.r.randrange(1, len(data) - 1)]
            await resp.write(data)

        def status(code, reason):
            return {"type": "ERROR", "object": {"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Failure", "message": reason, "reason": reason, "code": code}}

        if rv < self.compacted:
            await send(status(410, "Expired"))
            call[6] = "expired"
            return resp
        pos = self.find(rv)
        token = object()
        self.watching[token] = plural
        try:
            while True:
                while pos < len(self.log):
                    if self.outage:
                        raise ConnectionResetError
                    erv, epl, typ, text, obj = self.log[pos]
                    if epl == plural and matches(obj, sel) and (ns is None or obj["metadata"]["namespace"] == ns):
                        how = self.watch_fault(plural)
                        if how == "reset":
                            raise ConnectionResetError
                        if how == "error":
                            await send(status(500, "InternalError"))
                            return resp
                        if how == "gone":
                            await send(status(410, "Expired"))
                            return resp
                        if how == "early":
                            return resp
                        ev = {"type": typ, "object": json.loads(text)}
                        if how == "cut":
                            await send(ev, cut=True)
                            raise ConnectionResetError
                        await send(ev)
                        self.deliveries.append((self.loop.time(), plural, erv, inc))
                    pos += 1
                left = end - self.loop.time()
                if left <= 1e-6:
                    return resp
                wake = self.wake
                try:
                    await asyncio.wait_for(wake.wait(), left)
                except asyncio.TimeoutError:
                    continue
                if self.outage:
                    raise ConnectionResetError
                lag = self.lag(plural)
                if lag:
                    await asyncio.sleep(lag)
        except ConnectionResetError:
            call[6] = "broken"
            if request.transport is not None:
                request.transport.abort()
            return resp
        finally:
            self.watching.pop(token, None)

    def find(self, rv):
        lo, hi = 0, len(self.log)
        while lo < hi:
            mid = (lo + hi) // 2
            if self.log[mid][0] <= rv:
                lo = mid + 1
            else:
                hi = mid
        return lo

    def start_outage(self):
        self.outage = True
        self.wake.set()
        self.wake = asyncio.Event()
        self.net.kill(self.HOST, self.PORT)

    def end_outage(self, compact=False):
        self.outage = False
        if compact:
            self.compacted = self.rv

    def calm(self):
        self.outage = False
        self.fault = lambda *a: None
        self.watch_fault = lambda p: None
        self.latency = lambda: 0
        self.lag = lambda p: 0
        self.hold = 900
        self.gc_delay = lambda: 0.2
        self.grace = lambda: 1
