"""C21: the Kubernetes controller drives each cluster to what was asked."""
import asyncio
import base64
import collections
import contextvars
import logging
import os
import shutil
import tempfile

from mon import core, kube as kubemod, vloop, vnet

RULE = (
    "the real controller, through the real Kubernetes client over an in-memory network, on a simulated API server with a "
    "scheduler, kubelet, endpoints controller and garbage collector of its own: clusters are created, scaled, stopped and "
    "deleted, pods stay unscheduled, fail, crash-loop, are evicted and deleted, readiness flaps, calls fail before or after "
    "their effect, conflict or exceed a quota, watches lag and break, and the controller is restarted or killed; every request "
    "and every change is judged as it happens, and the whole state after a calm period; non-trivial: a worker was created or a cluster ended; "
    "distinct by the history of changes"
)
INST = "i1"
INC = contextvars.ContextVar("incarnation", default=0)
COMP = "app.kubernetes.io/component"
CLUSTER = "gateway.dask.org/cluster"
WINDOW = 150.0


class FakeServer:
    sockets = ()

    def close(self):
        pass

    async def wait_closed(self):
        pass


def running_state(pod):
    for c in pod["status"].get("containerStatuses") or ():
        if c["name"] == pod["metadata"]["labels"].get(COMP):
            return next(iter(c["state"]), None), c["state"]
    return None, {}


def is_live(pod):
    """A worker that runs, or will."""
    if pod["metadata"].get("deletionTimestamp") or pod["status"].get("phase") in ("Succeeded", "Failed"):
        return False
    kind, state = running_state(pod)
    return not (kind == "terminated" and state["terminated"].get("exitCode") == 0)


class Cluster:
    def __init__(self, sim, ns, name, config):
        self.sim, self.ns, self.name, self.config = sim, ns, name, config
        self.key = f"{ns}.{name}"
        self.replicas = [(sim.loop.time(), 0)]
        self.active = True
        self.deleted = False
        self.phase = None
        self.completed = None
        self.terminal_at = None
        self.created = collections.Counter()  # objects the controller created, by role
        self.removed = set()  # roles the controller asked to delete
        self.ambiguous = 0
        self.zombie = False
        self.ever_running = self.ever_ready = False
        self.sched_ended = False
        self.ended_at = collections.deque()
        self.workers_made = 0

    def window(self, f):
        now = self.sim.loop.time()
        vals = [self.replicas[-1][1]]
        for k in range(len(self.replicas) - 1, -1, -1):
            vals.append(self.replicas[k][1])
            if self.replicas[k][0] < now - WINDOW:
                break
        return f(vals)


class Sim:
    def __init__(self, ck, r, loop, net):
        self.ck, self.r, self.loop, self.net = ck, r, loop, net
        self.kube = kubemod.Kube(loop, net, r)
        self.clusters = {}
        self.by_name = {}
        self.hist = []
        self.first = None
        self.calm_now = False
        self.alive = False
        self.quota = None
        self.tokens, self.keys = set(), set()
        self.kube.on_commit.append(self.committed)
        self.kube.on_call.append(self.called)
        self.in_flight = {}
        self.opts = {"unscheduled": r.choice([0.5, 5, 60, 900]), "fail": r.choice([0, 0, 0.15, 0.5]), "sched_fail": r.choice([0, 0, 0.15, 0.4]),
                     "sidecar": r.random() < 0.2, "slow": r.choice([0.2, 3, 20])}
        self.max_age = r.choice([24 * 3600, 24 * 3600, 400])

    # -- verdicts ---------------------------------------------------------
    def bad(self, key, detail, cl=None):
        if self.first is None:
            self.first = core.Violation(key, f"at {self.loop.time():.1f}: {detail}", self.hist[-150:])

    def check(self):
        if self.first:
            raise self.first

    def say(self, *what):
        self.hist.append((round(self.loop.time(), 2),) + what)

    # -- what the server sees ----------------------------------------------
    def role(self, plural, obj):
        comp = (obj["metadata"].get("labels") or {}).get(COMP)
        return {"pods": {"dask-scheduler": "scheduler", "dask-worker": "worker"}.get(comp, "pod?"), "secrets": "secret", "services": "service",
                "ingressroutes": "web route", "ingressroutetcps": "tcp route", "daskclusters": "record", "endpoints": "endpoints"}[plural]

    def cluster_of(self, obj, plural):
        if plural == "daskclusters":
            return self.clusters.get(f"{obj['metadata']['namespace']}.{obj['metadata']['name']}")
        name = (obj["metadata"].get("labels") or {}).get(CLUSTER)
        return self.clusters.get(f"{obj['metadata']['namespace']}.{name}")

    def workers(self, cl):
        return [p for (ns, _), p in self.kube.objs["pods"].items()
                if ns == cl.ns and p["metadata"]["labels"].get(CLUSTER) == cl.name and p["metadata"]["labels"].get(COMP) == "dask-worker"]

    def called(self, call):
        call.append(self.kube.incarnation)
        t, method, plural, ns, name, body = call[:6]
        if method in ("GET", "WATCH"):
            if method == "GET" and name is not None:
                self.say("call", method, plural, name)
            return
        self.say("call", method, plural, name or ((body or {}).get("metadata") or {}).get("name"), body if method == "PATCH" else "")
        if method == "PATCH" and plural != "daskclusters" or method == "PATCH" and any(not op["path"].startswith("/status") and op["op"] != "test" for op in body):
            self.bad("writes-spec", f"the controller changes {plural} {name}: {str(body)[:300]}")
        if method == "DELETE":
            self.deleting(plural, ns, name)

    def deleting(self, plural, ns, name):
        o = self.kube.objs[plural].get((ns, name))
        if plural == "daskclusters":
            if o is None:
                return
            cl = self.cluster_of(o, plural)
            if cl is None or o.get("status", {}).get("phase") not in ("Stopped", "Failed"):
                self.bad("record-deleted", f"the record of {name} is deleted, in phase {o.get('status', {}).get('phase')}")
            elif cl.terminal_at is not None and self.loop.time() - cl.terminal_at < self.max_age - 2:
                self.bad("record-deleted", f"the record of {name} is deleted {self.loop.time() - cl.terminal_at:.0f}s after the cluster ended (kept for {self.max_age}s)")
            else:
                self.ck.count("records expired")
            return
        if o is None:
            return
        cl = self.cluster_of(o, plural)
        role = self.role(plural, o)
        if cl is None:
            self.bad("foreign-deleted", f"{plural} {name}, which belongs to no cluster of this gateway, is deleted")
            return
        if role == "worker":
            live = [p for p in self.workers(cl) if is_live(p)]
            if not is_live(o):
                return
            now = self.loop.time()
            while cl.ended_at and cl.ended_at[0] < now - WINDOW:
                cl.ended_at.popleft()
            least = cl.window(min)
            if len(live) - 1 + len(cl.ended_at) < least:
                self.bad("surplus-overshoot", f"a live worker of {cl.key} is deleted, leaving {len(live) - 1} of at least {least} requested")
            kind, _ = running_state(o)
            since = o["metadata"].get("x-running-since")
            if kind == "running" and self.running_since.get(o["metadata"]["uid"], now) < now - WINDOW:
                pend = [p for p in live if running_state(p)[0] != "running"]
                self.bad("running-worker-deleted", f"a worker of {cl.key}, running for long, is deleted ({len(pend)} pending)")
            self.ck.count("surplus workers deleted")
        else:
            if cl.active and not cl.deleted and not cl.sched_ended and cl.phase not in ("Stopped", "Failed"):
                self.bad("deleted-alive", f"the {role} of {cl.key} is deleted though the cluster is active and its scheduler has not ended")
            cl.removed.add(role)

    running_since = None

    def committed(self, plural, typ, obj, old, by):
        cl = self.cluster_of(obj, plural)
        role = self.role(plural, obj)
        name = obj["metadata"]["name"]
        if plural == "pods":
            kind, _ = running_state(obj)
            self.say(typ, role, name, obj["status"].get("phase"), kind, "going" if obj["metadata"].get("deletionTimestamp") else "", by)
        elif plural == "endpoints":
            self.say(typ, role, name, obj.get("subsets"))
        elif plural == "daskclusters":
            self.say(typ, role, name, obj["spec"].get("replicas"), obj["spec"].get("active"), obj.get("status"), by)
        else:
            self.say(typ, role, name, by)
        if cl is None:
            return
        if plural == "pods":
            if typ == "ADDED" and by == "client":
                self.kube.spawn(self.life(obj["metadata"]["namespace"], name, obj["metadata"]["uid"], role, cl))
            kind, _ = running_state(obj)
            if kind == "running":
                self.running_since.setdefault(obj["metadata"]["uid"], self.loop.time())
                if role == "scheduler":
                    cl.ever_running = True
            else:
                self.running_since.pop(obj["metadata"]["uid"], None)
            if role == "worker" and old is not None and is_live(old) and (typ == "DELETED" or not is_live(obj)):
                cl.ended_at.append(self.loop.time())
            if role == "scheduler" and (typ == "DELETED" or obj["status"].get("phase") in ("Succeeded", "Failed") or kind == "terminated"):
                cl.sched_ended = True
        if plural == "endpoints" and typ != "DELETED":
            s = obj.get("subsets")
            if s and not any(x.get("notReadyAddresses") for x in s) and any(x.get("addresses") for x in s):
                cl.ever_ready = True
        if typ == "ADDED" and by == "client":
            self.made(plural, role, obj, cl)
        if plural == "daskclusters" and typ == "MODIFIED" and by == "client":
            self.status(obj, old, cl)
        if plural == "daskclusters" and typ == "DELETED":
            cl.deleted = True

    def made(self, plural, role, obj, cl):
        name = obj["metadata"]["name"]
        if self.kube.acting[7] != self.kube.incarnation or not self.alive:
            cl.zombie = True
            cl.ambiguous += 1
        elif self.kube.unheard:
            cl.ambiguous += 1
        cl.created[role] += 1
        owner = {ref["uid"] for ref in obj["metadata"].get("ownerReferences") or ()}
        if not owner:
            self.bad("no-owner", f"{plural} {name} has no owner to be removed with")
        if role == "worker":
            cl.workers_made += 1
            live = sum(is_live(p) for p in self.workers(cl))
            most = cl.window(max)
            if live > most + cl.ambiguous:
                self.bad("duplicate-workers", f"worker {name} of {cl.key} is created, the {live}th that lives; at most {most} were requested of late")
            self.ck.count("workers created")
        else:
            if cl.created[role] > 1 and role != "scheduler" and not cl.zombie and not cl.deleted and not cl.sched_ended:
                self.bad("created-twice", f"a second {role} was created for {cl.key}: {name}")
            if cl.removed & {"scheduler", "secret"} and not cl.zombie:
                self.bad("created-after-end", f"a {role} was created for {cl.key} after its {sorted(cl.removed)} had been removed")
            if cl.phase in ("Stopped", "Failed") and not cl.zombie:
                self.bad("created-after-end", f"a {role} was created for {cl.key}, which is {cl.phase}")
        try:
            self.content(plural, role, obj, cl)
        except core.Violation as exc:
            self.bad(exc.key, exc.detail)
        except (KeyError, TypeError, IndexError, AttributeError, StopIteration) as exc:
            self.bad("content", f"{plural} {name} lacks what it needs: {exc!r} in {str(obj)[:600]}")

    def content(self, plural, role, obj, cl):
        def want(cond, what):
            if not cond:
                raise core.Violation("content", f"the {role} of {cl.key}: {what}: {str(obj)[:1500]}")

        labels = obj["metadata"]["labels"]
        want(labels.get("gateway.dask.org/instance") == INST and labels.get(CLUSTER) == cl.name, "its labels")
        if plural == "pods":
            spec = obj["spec"]
            c = next(c for c in spec["containers"] if c["name"] == labels[COMP])
            env = {e["name"]: e for e in c["env"]}
            val = lambda k: env[k].get("value")
            want(val("DASK_GATEWAY_API_URL") == "http://gw.test/api", "the gateway's address")
            want(val("DASK_GATEWAY_CLUSTER_NAME") == cl.key, "the cluster's name")
            vols = {v["name"]: v for v in spec["volumes"]}
            secret_dir = next(m["mountPath"] for m in c["volumeMounts"] if "secret" in vols[m["name"]]).rstrip("/") + "/"
            sec = next(v["secret"]["secretName"] for v in vols.values() if "secret" in v)
            self.secret_names.setdefault(cl.key, set()).add(sec)
            want(val("DASK_GATEWAY_API_TOKEN") == secret_dir + "api-token", "the path of its token")
            want(val("DASK_DISTRIBUTED__COMM__TLS__CA_FILE") == secret_dir + "dask.crt", "the path of its certificate")
            r2 = {"scheduler": "SCHEDULER", "worker": "WORKER"}[role]
            want(val(f"DASK_DISTRIBUTED__COMM__TLS__{r2}__CERT") == secret_dir + "dask.crt" and val(f"DASK_DISTRIBUTED__COMM__TLS__{r2}__KEY") == secret_dir + "dask.pem", "the paths of its key pair")
            for k, v in cl.config["environment"].items():
                want(val(k) == v, f"the environment's {k}")
            want(c["image"] == cl.config["image"], "its image")
            res = c["resources"]
            want(res["requests"] == {"cpu": "%.3f" % cl.config[f"{role}_cores"], "memory": str(cl.config[f"{role}_memory"])}, "the resources requested")
            want(res["limits"] == {"cpu": "%.3f" % cl.config[f"{role}_cores_limit"], "memory": str(cl.config[f"{role}_memory_limit"])}, "the limits of its resources")
            for k, v in cl.config[f"{role}_extra_pod_labels"].items():
                want(labels.get(k) == v, f"the extra label {k}")
            for k, v in cl.config[f"{role}_extra_pod_annotations"].items():
                want(obj["metadata"]["annotations"].get(k) == v, f"the extra annotation {k}")
            for k, v in cl.config[f"{role}_extra_pod_config"].items():
                want(spec.get(k) == v, f"the extra {k}")
            for k, v in cl.config[f"{role}_extra_container_config"].items():
                want(c.get(k) == v, f"the container's extra {k}")
            args = c["args"]
            opt = lambda k: args[args.index(k) + 1]
            n = len(cl.config[f"{role}_cmd"])
            want(args[:n] == cl.config[f"{role}_cmd"], "its command")
            if role == "worker":
                svc = self.service_names.get(cl.key)
                want(svc is None or f"tls://{svc}.{cl.ns}:8786" in args, "the scheduler's address")
                want(opt("--nthreads") == str(cl.config["worker_threads"] or int(cl.config["worker_cores"])) and opt("--memory-limit") == str(cl.config["worker_memory_limit"]), "threads or memory")
                want(opt("--name") == "$(DASK_GATEWAY_WORKER_NAME)" and env["DASK_GATEWAY_WORKER_NAME"]["valueFrom"]["fieldRef"]["fieldPath"] == "metadata.name", "its name")
                sched = [ref for ref in obj["metadata"]["ownerReferences"] if ref["kind"] == "Pod"]
                want(len(sched) == 1, "its owner")
            else:
                want(opt("--protocol") == "tls" and opt("--port") == "8786" and opt("--dashboard-address") == ":8787" and opt("--dg-api-address") == ":8788", "its ports")
                want(opt("--preload") == "dask_gateway.scheduler_preload", "its preload")
                want(float(opt("--dg-idle-timeout")) == cl.config["idle_timeout"] and float(opt("--dg-adaptive-period")) == cl.config["adaptive_period"], "its periods")
        elif plural == "secrets":
            data = {k: base64.b64decode(v) for k, v in obj["data"].items()}
            token = data["api-token"].decode()
            want(len(token) >= 32 and token not in self.tokens, "a token of its own")
            self.tokens.add(token)
            want(data["dask.pem"] not in self.keys, "a key of its own")
            self.keys.add(data["dask.pem"])
            from cryptography import x509
            from cryptography.hazmat.primitives import serialization

            cert = x509.load_pem_x509_certificate(data["dask.crt"])
            key = serialization.load_pem_private_key(data["dask.pem"], None)
            want(cert.public_key().public_numbers() == key.public_key().public_numbers(), "a certificate that matches its key")
        elif plural == "services":
            self.service_names[cl.key] = obj["metadata"]["name"]
            sel = obj["spec"]["selector"]
            want(sel.get(CLUSTER) == cl.name and sel.get(COMP) == "dask-scheduler" and sel.get("gateway.dask.org/instance") == INST, "its selector")
            want({p["port"] for p in obj["spec"]["ports"]} >= {8786, 8787, 8788}, "its ports")
        elif plural == "ingressroutes":
            rt = obj["spec"]["routes"]
            want(len(rt) == 1 and rt[0]["match"] == f"PathPrefix(`/pre/clusters/{cl.key}/`)", "its path")
            svc = rt[0]["services"]
            want(len(svc) == 1 and svc[0]["name"] == self.service_names.get(cl.key) and svc[0].get("namespace", cl.ns) == cl.ns and svc[0]["port"] == 8787, "its target")
            want(obj["spec"]["entryPoints"] == ["web"] and rt[0].get("middlewares") == [{"name": "strip"}], "its entry point")
        elif plural == "ingressroutetcps":
            rt = obj["spec"]["routes"]
            want(len(rt) == 1 and rt[0]["match"] == f"HostSNI(`daskgateway-{cl.key}`)", "its name")
            svc = rt[0]["services"]
            want(len(svc) == 1 and svc[0]["name"] == self.service_names.get(cl.key) and svc[0].get("namespace", cl.ns) == cl.ns and svc[0]["port"] == 8786, "its target")
            want(obj["spec"]["entryPoints"] == ["tcp"] and obj["spec"]["tls"] == {"passthrough": True}, "its entry point")

    def status(self, obj, old, cl):
        st = obj.get("status") or {}
        was = (old.get("status") or {}).get("phase")
        phase = st.get("phase")
        if phase not in ("Pending", "Running", "Stopped", "Failed"):
            self.bad("phase", f"{cl.key} is reported {phase}")
        if was in ("Stopped", "Failed") and phase not in ("Stopped", "Failed"):
            self.bad("revived", f"{cl.key}, reported {was}, is reported {phase} again")
        if was == "Running" and phase == "Pending":
            self.bad("regressed", f"{cl.key}, reported Running, is reported Pending again")
        if phase == "Running" and was != "Running":
            self.ck.count("clusters running")
            missing = [x for x in ("secret", "scheduler", "service", "web route", "tcp route") if not cl.created[x]]
            if missing:
                self.bad("running-early", f"{cl.key} is reported Running without {missing}")
            if not cl.ever_running or not cl.ever_ready:
                self.bad("running-early", f"{cl.key} is reported Running though its scheduler was never {'ready' if cl.ever_running else 'running'}")
        if phase in ("Pending", "Running"):
            for field, plural in (("credentials", "secrets"), ("schedulerPod", "pods"), ("service", "services"), ("ingressroute", "ingressroutes"), ("ingressroutetcp", "ingressroutetcps")):
                if st.get(field) and not self.ever(plural, cl.ns, st[field]):
                    self.bad("status-names", f"{cl.key}'s {field} is reported as {st[field]}, which never existed")
        if phase in ("Stopped", "Failed"):
            if was not in ("Stopped", "Failed"):
                self.ck.count(f"clusters {phase.lower()}")
                cl.terminal_at = self.loop.time()
                if not st.get("completionTime"):
                    self.bad("no-completion-time", f"{cl.key} is reported {phase} without a completion time")
                else:
                    try:
                        t = kubemod.unstamp(st["completionTime"])
                    except ValueError:
                        self.bad("no-completion-time", f"{cl.key}'s completion time is {st['completionTime']}")
                    else:
                        now = vloop.EPOCH + self.loop.time()
                        if not now - WINDOW < t < now + 2:
                            self.bad("no-completion-time", f"{cl.key} is reported {phase} with a completion time {now - t:.0f}s ago")
                if phase == "Stopped" and cl.active:
                    self.bad("stopped-unasked", f"{cl.key} is reported Stopped though nobody stopped it")
                if phase == "Failed" and not cl.sched_ended and cl.active:
                    self.bad("failed-unasked", f"{cl.key} is reported Failed though its scheduler has not ended")
                if not cl.zombie:
                    for plural in ("pods", "secrets"):
                        for (ns, name), o in self.kube.objs[plural].items():
                            if self.cluster_of(o, plural) is cl and self.role(plural, o) in ("scheduler", "secret") and not o["metadata"].get("deletionTimestamp"):
                                self.bad("left-behind", f"{cl.key} is reported {phase} while its {self.role(plural, o)} {name} has not been removed")
        cl.phase = phase

    def ever(self, plural, ns, name):
        if (ns, name) in self.kube.objs[plural]:
            return True
        return any(pl == plural and o["metadata"]["name"] == name and o["metadata"]["namespace"] == ns for _, pl, _, _, o in self.kube.log)

    # -- the rest of Kubernetes ---------------------------------------------
    def set_pod(self, ns, name, uid, phase, state=None, ready=False, statuses=True, **more):
        o = self.kube.objs["pods"].get((ns, name))
        if o is None or o["metadata"]["uid"] != uid:
            return False
        kind, was = running_state(o)
        if o["status"].get("phase") in ("Succeeded", "Failed") or kind == "terminated" and was["terminated"]["exitCode"] == 0 and phase not in ("Succeeded", "Failed"):
            return False  # pods do not come back

        def change(o):
            st = {"phase": phase}
            st.update(more)
            if statuses:
                comp = o["metadata"]["labels"][COMP]
                main = {"name": comp, "image": "x", "imageID": "x", "restartCount": 0, "ready": ready, "state": state}
                st["containerStatuses"] = [main]
                if self.opts["sidecar"]:
                    st["containerStatuses"].insert(0, {"name": "sidecar", "image": "y", "imageID": "y", "restartCount": 0, "ready": True,
                                                       "state": {"running": {"startedAt": kubemod.stamp()}} if phase != "Pending" else {"waiting": {"reason": "ContainerCreating"}}})
            o["status"] = st

        self.kube.update("pods", (ns, name), change)
        return True

    def gone(self, ns, name, uid):
        o = self.kube.objs["pods"].get((ns, name))
        return o is None or o["metadata"]["uid"] != uid or o["metadata"].get("deletionTimestamp")

    async def life(self, ns, name, uid, role, cl):
        r, o = self.r, self.opts
        fast = lambda x: min(x, 1) if self.calm_now else x
        pod = (ns, name, uid)
        run = lambda: {"running": {"startedAt": kubemod.stamp()}}
        # not scheduled on a node yet
        wait = r.uniform(0, o["unscheduled"] if r.random() < 0.7 else 1)
        t = 0
        while t < wait and not (self.calm_now and t >= 1):
            await asyncio.sleep(min(2, wait - t) + 0.01)
            t += 2
        if self.gone(*pod):
            return
        fail = (o["fail"] if role == "worker" else o["sched_fail"]) if not self.calm_now else 0
        if r.random() < fail * 0.3:
            self.ck.count("pods rejected by the node")
            self.set_pod(*pod, "Failed", statuses=False, reason="OutOfcpu")
            return
        self.set_pod(*pod, "Pending", {"waiting": {"reason": "ContainerCreating"}})
        await asyncio.sleep(fast(r.uniform(0, o["slow"])))
        if self.gone(*pod) or not self.set_pod(*pod, "Running", run(), ready=False):
            return
        await asyncio.sleep(fast(r.uniform(0, o["slow"])))
        if self.gone(*pod):
            return
        self.set_pod(*pod, "Running", run(), ready=True)
        first = True
        while not self.gone(*pod):
            p = self.kube.objs["pods"][ns, name]
            if p["status"]["phase"] in ("Succeeded", "Failed"):
                return
            await asyncio.sleep(r.uniform(1, 40))
            if self.gone(*pod):
                return
            if self.calm_now:
                st = self.kube.objs["pods"][ns, name]["status"]
                if st["phase"] == "Running" and not all(c["ready"] for c in st["containerStatuses"]):
                    self.set_pod(*pod, "Running", run(), ready=True)
                return
            fail = o["fail"] if role == "worker" else o["sched_fail"]
            x = r.random()
            if x > fail:
                if role == "scheduler" and r.random() < 0.1:
                    self.set_pod(*pod, "Running", run(), ready=False)
                    await asyncio.sleep(r.uniform(0, 5))
                    if not self.gone(*pod):
                        self.set_pod(*pod, "Running", run(), ready=True)
                continue
            how = r.choice(["exit0", "exit1", "evicted", "evicted bare", "deleted", "crashloop"])
            self.ck.count(f"{role}s {how}")
            if how == "deleted":
                try:
                    self.kube.delete("pods", (ns, name))
                except kubemod.Problem:
                    pass
                return
            if how == "evicted bare":
                self.set_pod(*pod, "Failed", statuses=False, reason="Evicted")
                return
            term = {"terminated": {"exitCode": 0 if how == "exit0" else 1}}
            if how == "evicted":
                self.set_pod(*pod, "Failed", term, reason="Evicted")
                return
            if role == "scheduler":  # never restarted
                if r.random() < 0.3:
                    self.set_pod(*pod, "Running", term)
                    await asyncio.sleep(1)
                self.set_pod(*pod, "Succeeded" if how == "exit0" else "Failed", term)
                return
            if how == "exit0":
                await self.finish(*pod)
                return
            # restarted by the kubelet
            for _ in range(r.randint(1, 3)):
                self.set_pod(*pod, "Running", {"terminated": {"exitCode": 1}})
                await asyncio.sleep(fast(r.uniform(0, 2)))
                if self.gone(*pod):
                    return
                self.set_pod(*pod, "Running", {"waiting": {"reason": "CrashLoopBackOff"}})
                await asyncio.sleep(fast(r.uniform(0, 30)))
                if self.gone(*pod):
                    return
                self.set_pod(*pod, "Running", run(), ready=True)
                await asyncio.sleep(fast(r.uniform(0, 5)))
                if self.gone(*pod):
                    return

    async def finish(self, ns, name, uid):
        """The worker exits by itself, successfully."""
        done = {"terminated": {"exitCode": 0}}
        if self.r.random() < 0.5:
            self.set_pod(ns, name, uid, "Running", done)
            await asyncio.sleep(0.5)
            if self.gone(ns, name, uid):
                return
        self.set_pod(ns, name, uid, "Succeeded", done)

    async def dask(self):
        """Running schedulers retire workers beyond what is requested."""
        going = set()
        while True:
            await asyncio.sleep(self.r.uniform(1, 6))
            for cl in list(self.clusters.values()):
                if cl.phase != "Running" or cl.sched_ended:
                    continue
                run = [p for p in self.workers(cl) if is_live(p) and running_state(p)[0] == "running" and p["metadata"]["uid"] not in going]
                extra = len(run) - cl.replicas[-1][1]
                for p in run[:max(0, extra)]:
                    going.add(p["metadata"]["uid"])
                    self.ck.count("workers retired")
                    self.kube.spawn(self.finish(cl.ns, p["metadata"]["name"], p["metadata"]["uid"]))

    # -- users ----------------------------------------------------------------
    def new_cluster(self):
        from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig

        r = self.r
        conf = KubeClusterConfig(
            namespace=r.choice(["default", "dask"]), worker_cores=r.choice([1, 0.5, 2]), worker_memory=r.choice([2**31, 10**9]),
            scheduler_cores=r.choice([1, 0.25]), image=r.choice(["img:1", "repo/x:y"]), idle_timeout=r.choice([0, 600]),
            environment=r.choice([{}, {"A": "1", "B": "x y"}]), adaptive_period=r.choice([3, 0.5]),
            **r.choice([{}, {"worker_extra_pod_labels": {"team": "a"}, "worker_extra_pod_annotations": {"n": "1"}, "scheduler_extra_pod_labels": {"s": "b"}},
                        {"worker_extra_pod_config": {"nodeSelector": {"g": "1"}}, "scheduler_extra_pod_config": {"priorityClassName": "high"},
                         "worker_extra_container_config": {"workingDir": "/w"}, "scheduler_extra_container_config": {"workingDir": "/s"}},
                        {"worker_cores_limit": 4, "worker_memory_limit": 2**32, "scheduler_cores_limit": 3, "scheduler_memory_limit": 2**33}])).to_dict()
        name = "%032x" % r.getrandbits(128)
        ns = conf["namespace"]
        cl = Cluster(self, ns, name, conf)
        self.clusters[cl.key] = cl
        self.kube.create("daskclusters", ns, {
            "apiVersion": "gateway.dask.org/v1alpha1", "kind": "DaskCluster",
            "metadata": {"name": name, "labels": {"gateway.dask.org/instance": INST, CLUSTER: name}, "annotations": {}},
            "spec": {"username": "u", "options": {}, "config": conf}})
        return cl

    def scale(self, cl, n):
        def change(o):
            o["spec"]["replicas"] = n

        if self.kube.update("daskclusters", (cl.ns, cl.name), change) is not None:
            cl.replicas.append((self.loop.time(), n))

    def stop(self, cl):
        def change(o):
            o["spec"]["active"] = False

        cl.active = False
        self.kube.update("daskclusters", (cl.ns, cl.name), change)

    # -- the controller ---------------------------------------------------------
    async def start_controller(self):
        from dask_gateway_server.backends.kubernetes.controller import KubeController

        self.kube.incarnation += 1
        inc = self.kube.incarnation
        c = self.controller = KubeController()
        c.initialize(["--config", self.config_file, "--log-level", "CRITICAL"])
        self.alive = True

        async def go():
            INC.set(inc)
            await c.setup()

        t = self.loop.create_task(go())
        self.setup_task = t
        return t

    async def end_controller(self, kill):
        inc = self.kube.incarnation
        self.ck.count("controllers killed" if kill else "controllers stopped")
        if kill:
            self.alive = False
            for t in sorted(asyncio.all_tasks(self.loop), key=lambda t: (len(t.get_name()), t.get_name())):
                if t.get_context().get(INC, 0) == inc and t is not asyncio.current_task():
                    t.cancel()
            await asyncio.sleep(0)
            try:
                await self.controller.api_client.rest_client.pool_manager.close()
            except Exception:
                pass
        else:
            if not self.setup_task.done():
                self.setup_task.cancel()
                await asyncio.wait([self.setup_task])
            try:
                await asyncio.wait_for(self.stop_it(inc), 400)
            except asyncio.TimeoutError:
                self.bad("never-stops", "the controller had not stopped after 400 s")
            self.alive = False
            n0 = len(self.kube.calls)
            await asyncio.sleep(1)
            if len(self.kube.calls) != n0 and not self.first:
                self.bad("after-stop", f"a controller that was stopped still calls the server: {self.kube.calls[n0:][:2]}")

    async def stop_it(self, inc):
        INC.set(inc)
        await self.controller.cleanup()

    def settled(self):
        """What must hold once nothing has happened for long."""
        for cl in self.clusters.values():
            mine = collections.defaultdict(list)
            for plural, objs in self.kube.objs.items():
                for o in objs.values():
                    if self.cluster_of(o, plural) is cl:
                        mine[self.role(plural, o)].append(o)
            left = sorted(k for k in mine if k != "record")
            phase = mine["record"][0].get("status", {}).get("phase", "Pending") if mine["record"] else None
            self.ck.count("clusters judged at rest")
            if cl.deleted:
                if left:
                    self.bad("left-behind", f"{left} of {cl.key}, whose record was deleted, are left")
                continue
            ended = not cl.active or cl.sched_ended
            if ended:
                want = ("Stopped",) if not cl.sched_ended else ("Failed",) if cl.active else ("Stopped", "Failed")
                if phase not in want and not (phase in ("Stopped", "Failed") and not cl.active):
                    self.bad("not-ended", f"{cl.key} ({'active' if cl.active else 'set inactive'}, scheduler {'ended' if cl.sched_ended else 'not ended'}) is still {phase} after a long calm")
                if left and not cl.zombie:
                    self.bad("left-behind", f"{left} of {cl.key}, which is {phase}, are left")
                continue
            if phase != "Running":
                self.bad("not-running", f"{cl.key}, active with a running scheduler, is {phase} after a long calm; it has {dict((k, len(v)) for k, v in mine.items())}")
                continue
            for role in ("scheduler", "secret", "service", "web route", "tcp route"):
                if len(mine[role]) != 1:
                    self.bad("not-one", f"{cl.key} has {len(mine[role])} {role}s")
            for p in mine["scheduler"] + mine["worker"]:
                names = {v["secret"]["secretName"] for v in p["spec"]["volumes"] if "secret" in v}
                if names != {mine["secret"][0]["metadata"]["name"]} if mine["secret"] else True:
                    self.bad("content", f"a pod of {cl.key} mounts {names}, not the cluster's secret")
            live = [p for p in mine["worker"] if is_live(p)]
            n = cl.replicas[-1][1]
            if len(live) != n:
                self.bad("worker-count", f"{cl.key} has {len(live)} live workers after a long calm, {n} are requested ({len(mine['worker'])} pods in all)")
            elif len(mine["worker"]) != n:
                self.bad("ended-workers-left", f"{cl.key} has {len(mine['worker']) - n} ended worker pods left after a long calm")


def case(ck, i):
    r = ck.rng(i)
    d = tempfile.mkdtemp(prefix="verif-c21-")

    async def main(loop):
        await run(ck, i, r, loop, d)

    try:
        vloop.run(main, spin_limit=50_000)
    except vloop.Spin as exc:
        raise core.Violation("spins", f"the controller works without end and without waiting: {exc}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


async def run(ck, i, r, loop, d):
    async def create_server(*args, **kwargs):
        return FakeServer()

    loop.create_server = create_server
    loop.add_signal_handler = lambda *args: None
    net = vnet.Net(loop)
    sim = Sim(ck, r, loop, net)
    sim.running_since = {}
    sim.secret_names, sim.service_names = {}, {}
    kube = sim.kube
    sim.config_file = os.path.join(d, "config.py")
    with open(sim.config_file, "w") as f:
        f.write(f"c.KubeController.gateway_instance = {INST!r}\nc.KubeController.api_url = 'http://gw.test/api'\nc.KubeController.address = '127.0.0.1:8000'\n"
                f"c.KubeController.proxy_prefix = 'pre'\nc.KubeController.proxy_web_middlewares = [{{'name': 'strip'}}]\n"
                f"c.KubeController.completed_cluster_max_age = {sim.max_age}\nc.KubeController.completed_cluster_cleanup_period = {r.choice([60, 600])}\n"
                f"c.KubeController.parallelism = {r.choice([1, 3, 20])}\n")
    # other people's objects
    kube.create("pods", "default", {"metadata": {"name": "theirs", "labels": {"gateway.dask.org/instance": "i2", CLUSTER: "zzz", COMP: "dask-worker"}}, "spec": {"containers": [{"name": "dask-worker"}]}})
    faulty = r.random() < 0.8

    def weather():
        if not faulty:
            hi = r.choice([0, 0.05])
            kube.latency = lambda: r.uniform(0, hi)
            return
        p = r.choice([0, 0, 0.05, 0.3, 0.7])
        kinds = r.sample(["before", "after", "conflict", "reset", "forbidden"], r.randint(1, 4))

        def fault(method, plural, name):
            if r.random() >= p:
                return None
            k = r.choice(kinds)
            if k == "conflict" and method not in ("PATCH", "DELETE"):
                return None
            if k == "forbidden" and not (method == "POST" and plural == "pods"):
                return None
            if k == "after" and method == "POST":
                if plural == "pods":
                    for cl in sim.clusters.values():
                        cl.ambiguous += 1
            return k

        kube.fault = fault
        hi = r.choice([0, 0.02, 0.3, 2])
        kube.latency = lambda: r.uniform(0, hi)
        lags = {pl: r.choice([0, 0, 0.5, 5, 15]) for pl in kube.objs}
        kube.lag = lambda plural: r.uniform(0, lags[plural])
        w = r.choice([0, 0, 0.05, 0.3])
        kube.watch_fault = lambda plural: r.choice(["reset", "cut", "error", "gone", "early"]) if r.random() < w else None
        kube.hold = r.choice([None, 60])

    weather()
    for _ in range(r.choice([0, 1, 2])):
        sim.new_cluster()
    loop.create_task(sim.dask())
    setup = await sim.start_controller()
    steps = r.randint(4, 30)
    for _ in range(steps):
        await asyncio.sleep(r.choice([0, 0.01, 0.1, 0.5, 2, 10, 30]))
        sim.check()
        if r.random() < 0.25:
            weather()
        live = [c for c in sim.clusters.values() if c.active and not c.deleted]
        x = r.random()
        if x < 0.2 and len(sim.clusters) < 5:
            cl = sim.new_cluster()
            if r.random() < 0.5:
                sim.scale(cl, r.choice([1, 2, 5]))
            if r.random() < 0.15:
                await asyncio.sleep(r.choice([0, 0.01, 0.3]))
                sim.stop(cl)
        elif x < 0.55 and live:
            sim.scale(r.choice(live), r.choice([0, 1, 2, 3, 5, 8, 13]))
        elif x < 0.62 and live:
            sim.stop(r.choice(live))
        elif x < 0.65 and sim.clusters:
            cl = r.choice(list(sim.clusters.values()))
            if not cl.deleted:
                cl.deleted = True
                try:
                    kube.delete("daskclusters", (cl.ns, cl.name))
                except kubemod.Problem:
                    pass
        elif x < 0.75 and faulty:
            kube.start_outage()
            await asyncio.sleep(r.choice([0.5, 5, 60]))
            kube.end_outage(compact=r.random() < 0.5)
        elif x < 0.85:
            await sim.end_controller(r.random() < 0.5)
            await asyncio.sleep(r.choice([0, 1, 30]))
            sim.check()
            setup = await sim.start_controller()
        elif x < 0.95:
            pods = [k for k, p in kube.objs["pods"].items() if p["metadata"]["labels"].get(COMP) == "dask-worker" and p["metadata"]["labels"]["gateway.dask.org/instance"] == INST]
            if pods and sim.opts["fail"]:
                kube.delete("pods", r.choice(sorted(pods)))
        else:
            await asyncio.sleep(r.choice([100, 700]))
    # a long calm
    sim.calm_now = True
    for cl in sim.clusters.values():
        pass
    kube.calm()
    await asyncio.sleep(400)
    sim.check()
    await asyncio.sleep(1600)
    sim.check()
    if not setup.done():
        raise core.Violation("never-starts", "the controller had not started after a long calm", sim.hist[-100:])
    setup.result()
    sim.settled()
    sim.check()
    # with nothing in its way, whatever is asked now is done soon, however the answers and the reports are ordered
    for _ in range(3):
        lo, hi = r.choice([(0, 0), (0.2, 0.2), (0, 1), (1, 1)])
        kube.latency = lambda: r.uniform(lo, hi)
        for cl in sim.clusters.values():
            if cl.active and not cl.deleted and not cl.sched_ended:
                sim.scale(cl, r.choice([0, 1, 3, 6]))
                ck.count("requests to a cluster at rest")
        await asyncio.sleep(120)
        sim.check()
        sim.settled()
        sim.check()
    await sim.end_controller(False)
    sim.check()
    ck.count("API calls", len(kube.calls))
    made = sum(c.workers_made for c in sim.clusters.values())
    ck.case([h[1:4] for h in sim.hist], nontrivial=made > 0 or any(c.terminal_at for c in sim.clusters.values()),
            sample={"clusters": len(sim.clusters), "workers created": made, "calls": len(kube.calls), "incarnations": kube.incarnation} if i < 3 else None)


def prepare(ck):
    logging.disable(logging.CRITICAL)
    kubemod.patch_modules()


def body(ck):
    prepare(ck)
    ck.pool(lambda i: case(ck, i), ck.budget(45, 1500))
    ck.need(**{"clusters running": 50, "workers created": 300, "clusters stopped": 20, "clusters judged at rest": 100, "controllers killed": 20, "controllers stopped": 20})


if __name__ == "__main__":
    core.main("C21", RULE, body, assumptions=[
        "schedulers retire running workers beyond the count requested (C24), the controller removes pending ones",
        "a create call that reports failure after its effect, or takes effect after its controller was killed, may lead to one pod more",
        "the rest of Kubernetes (garbage collection by owner, graceful deletion, endpoints) behaves as simulated",
        "reaction to stale caches is judged against the requests of the last 150 s",
    ])
