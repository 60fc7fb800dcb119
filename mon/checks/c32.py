"""C32: on Kubernetes, a cluster's objects are those its configuration asks for."""
import asyncio
import copy
import json
import logging
import shutil
import tempfile

from mon import core, gw as gwmod, kworld, vloop
from mon.kworld import CLUSTER, COMP, INSTANCE, args_of, b64, cmd_of, container, cpu, env_of, included, mem

RULE = (
    "the real gateway and the real controller, each with a configuration file of its own, on one simulated API server: users create several "
    "clusters at once with options, their pods start, the clusters are scaled with their own credentials, and every pod, service, route and "
    "secret is judged against the configuration and options it comes from; routes and addresses are followed to the pod and port they lead to; "
    "non-trivial: a cluster was running with its workers and all its objects judged; distinct by the configuration and the options"
)
TOL = [{"key": "a", "operator": "Exists"}]


def chance(r, p):
    return r.random() < p


def extra_container(r):
    out = {}
    if chance(r, 0.4):
        out["env"] = [{"name": r.choice(["EXTRA", "FROM_FIELD"]), "value": r.choice(["1", "x y"])}]
    if chance(r, 0.4):
        out["resources"] = {r.choice(["limits", "requests"]): {"nvidia.com/gpu": "1"}}
    if chance(r, 0.3):
        out["securityContext"] = {"runAsUser": 1000, "capabilities": {"drop": ["ALL"]}}
    if chance(r, 0.3):
        out["volumeMounts"] = [{"name": "scratch", "mountPath": "/scratch"}]
    if chance(r, 0.2):
        out["imagePullPolicy"] = "Never"
    if chance(r, 0.2):
        out["lifecycle"] = {"preStop": {"exec": {"command": ["sleep", "1"]}}}
    if chance(r, 0.2):
        out["args"] = ["--extra-arg", "7"]
    if chance(r, 0.15):
        out["ports"] = [{"name": "more", "containerPort": 9999}]
    return out


def extra_pod(r):
    out = {}
    if chance(r, 0.4):
        out["tolerations"] = copy.deepcopy(TOL)
    if chance(r, 0.3):
        out["nodeSelector"] = {"disk": "ssd"}
    if chance(r, 0.4):
        out["volumes"] = [{"name": "scratch", "emptyDir": {}}]
    if chance(r, 0.3):
        out["containers"] = [{"name": "sidecar", "image": "side:1", "ports": [{"name": "side", "containerPort": 4444}]}]
    if chance(r, 0.2):
        out["serviceAccountName"] = "sa"
    if chance(r, 0.15):
        out["automountServiceAccountToken"] = True
    if chance(r, 0.2):
        out["imagePullSecrets"] = [{"name": "more"}]
    if chance(r, 0.2):
        out["affinity"] = {"nodeAffinity": {"requiredDuringSchedulingIgnoredDuringExecution": {"nodeSelectorTerms": [{"matchExpressions": [1]}]}}}
    return out


def labels(r, names):
    return {k: r.choice(["a", "b", "c-1"]) for k in names if chance(r, 0.5)}


def cluster_config(r):
    out = {"namespace": r.choice(["default", "dask"]), "image": r.choice(["img:1", "reg.io/x/y:2", "plain"])}
    for role in ("worker", "scheduler"):
        if chance(r, 0.6):
            out[f"{role}_cores"] = r.choice([0.25, 1, 1.5, 3, 16, 0.001])
        if chance(r, 0.4):
            out[f"{role}_cores_limit"] = r.choice([2, 4.5, 16])
        if chance(r, 0.6):
            out[f"{role}_memory"] = r.choice(["1 G", "512M", 12345678, "1.5 G"])
        if chance(r, 0.4):
            out[f"{role}_memory_limit"] = r.choice(["4 G", "6000M", 2**33])
        if chance(r, 0.5):
            out[f"{role}_extra_container_config"] = extra_container(r)
        if chance(r, 0.5):
            out[f"{role}_extra_pod_config"] = extra_pod(r)
        if chance(r, 0.5):
            out[f"{role}_extra_pod_labels"] = labels(r, ["team", "proj", "common"])
        if chance(r, 0.5):
            out[f"{role}_extra_pod_annotations"] = labels(r, ["note", "x.io/y", "canno"])
        if chance(r, 0.2):
            out[f"{role}_cmd"] = r.choice([[f"/opt/dask-{role}", "--verbose"], f"my-{role}"])
    if chance(r, 0.3):
        out["worker_threads"] = r.choice([1, 2, 7, 64])
    if chance(r, 0.5):
        out["environment"] = dict({"A": "1", "B": "x y=z"}, **(r.choice([{}, {"DASK_GATEWAY_CLUSTER_NAME": "theirs"}])))
    if chance(r, 0.4):
        out["image_pull_policy"] = r.choice(["Always", "IfNotPresent"])
    if chance(r, 0.4):
        out["image_pull_secrets"] = [{"name": n} for n in r.sample(["reg", "reg2"], r.randint(1, 2))]
    if chance(r, 0.5):
        out["idle_timeout"] = r.choice([0, 60, 600.0])
    if chance(r, 0.4):
        out["adaptive_period"] = r.choice([1.5, 10, 3])
    return out


OPTIONS = '''
from dask_gateway_server.options import Options, Float, Integer, Mapping, Select, String

def handler(options, user):
    out = {}
    if options.image:
        out["image"] = options.image
    if options.cores:
        out["worker_cores"] = options.cores
        out["worker_memory"] = "%d G" % (2 * options.cores)
    if options.env:
        out["environment"] = dict(options.env)
    if options.tag:
        for role in ("scheduler", "worker"):
            out[role + "_extra_pod_labels"] = {"user": user.name}
            out[role + "_extra_pod_annotations"] = {"tag": options.tag}
    if options.where:
        out["namespace"] = options.where
    return out

c.Backend.cluster_options = Options(
    String("image", default=""), Float("cores", default=0), Mapping("env", default={}), String("tag", default=""),
    Select("where", ["", "ns-a", "ns-b"], default=""), handler=handler,
)
'''


def handled(opts, user):
    out = {}
    if opts.get("image"):
        out["image"] = opts["image"]
    if opts.get("cores"):
        out["worker_cores"] = opts["cores"]
        out["worker_memory"] = "%d G" % (2 * opts["cores"])
    if opts.get("env"):
        out["environment"] = opts["env"]
    if opts.get("tag"):
        for role in ("scheduler", "worker"):
            out[f"{role}_extra_pod_labels"] = {"user": user}
            out[f"{role}_extra_pod_annotations"] = {"tag": opts["tag"]}
    if opts.get("where"):
        out["namespace"] = opts["where"]
    return out


def some_options(r):
    out = {}
    if chance(r, 0.4):
        out["image"] = r.choice(["mine:3", "other"])
    if chance(r, 0.4):
        out["cores"] = r.choice([1, 2.5, 4])
    if chance(r, 0.4):
        out["env"] = {"MINE": r.choice("xyz")}
    if chance(r, 0.4):
        out["tag"] = r.choice(["t1", "t2"])
    if chance(r, 0.4):
        out["where"] = r.choice(["ns-a", "ns-b"])
    return out


def bytes_of(v):
    if isinstance(v, (int, float)):
        return int(v)
    num, unit = v.replace(" ", "")[:-1], v[-1]
    return int(float(num) * {"K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}[unit])


def command(v):
    return v.split() if isinstance(v, str) else list(v)


def resources_of(exp, role):
    cores = exp.get(f"{role}_cores", 1)
    memory = bytes_of(exp.get(f"{role}_memory", "2 G"))
    return cores, exp.get(f"{role}_cores_limit", cores), memory, bytes_of(exp.get(f"{role}_memory_limit", memory))


def judge_pod(bad, exp, pod, role, ns, name, secret, api_url, site_labels, site_annotations, instance):
    who = f"the {role} pod of {ns}.{name} ({ {k: v for k, v in exp.items() if role in k or '_' not in k} })"
    comp = f"dask-{role}"
    extra_c, extra_p = exp.get(f"{role}_extra_container_config") or {}, exp.get(f"{role}_extra_pod_config") or {}
    spec, meta = pod["spec"], pod["metadata"]
    if meta["namespace"] != ns:
        bad("wrong-namespace", f"{who} is in {meta['namespace']}")
    c = container(pod, comp)
    if c is None:
        bad("no-container", f"{who} has no container {comp}")
    want = {INSTANCE: instance, CLUSTER: name, COMP: comp}
    want = dict(site_labels, **want)
    want.update(exp.get(f"{role}_extra_pod_labels") or {})
    if (meta.get("labels") or {}) != want:
        bad("wrong-labels", f"{who} has the labels {meta.get('labels')}, not {want}")
    want = dict(site_annotations, **(exp.get(f"{role}_extra_pod_annotations") or {}))
    if (meta.get("annotations") or {}) != want:
        bad("wrong-annotations", f"{who} has the annotations {meta.get('annotations')}, not {want}")
    if c.get("image") != exp["image"]:
        bad("wrong-image", f"{who} runs {c.get('image')}")
    pull = extra_c.get("imagePullPolicy") or exp.get("image_pull_policy")
    if c.get("imagePullPolicy") != pull:
        bad("wrong-pull-policy", f"{who} is pulled {c.get('imagePullPolicy')}, not {pull}")
    secrets = list(exp.get("image_pull_secrets") or []) + list(extra_p.get("imagePullSecrets") or [])
    if (spec.get("imagePullSecrets") or []) != secrets:
        bad("wrong-pull-secrets", f"{who} is pulled with {spec.get('imagePullSecrets')}, not {secrets}")
    # resources
    cores, cores_limit, memory, memory_limit = resources_of(exp, role)
    res = c.get("resources") or {}
    got = [cpu(res["requests"]["cpu"]), cpu(res["limits"]["cpu"]), mem(res["requests"]["memory"]), mem(res["limits"]["memory"])]
    if got != [cores, cores_limit, memory, memory_limit]:
        bad("wrong-resources", f"{who} gets {res}, not {[cores, cores_limit, memory, memory_limit]}")
    for kind in ("requests", "limits"):
        more = set(res[kind]) - {"cpu", "memory"} - set(((extra_c.get("resources") or {}).get(kind)) or ())
        if more:
            bad("wrong-resources", f"{who} has {more} in its {kind}, which nobody asked for")
    # what extra configuration merges in
    miss = included({k: v for k, v in extra_c.items() if k != "env"}, c, "container") or included({k: v for k, v in extra_p.items() if k != "containers"}, spec, "spec")
    if miss:
        bad("extra-lost", f"{who} does not have what its extra configuration adds: {miss}")
    names = [x["name"] for x in spec["containers"]]
    if sorted(names) != sorted([comp] + [x["name"] for x in extra_p.get("containers") or ()]):
        bad("wrong-containers", f"{who} has the containers {names}")
    for x in extra_p.get("containers") or ():
        if container(pod, x["name"]) != x:
            bad("extra-lost", f"{who} has the sidecar {container(pod, x['name'])}, not {x}")
    # security and life cycle
    if spec.get("automountServiceAccountToken") is not extra_p.get("automountServiceAccountToken", False):
        bad("service-account", f"{who} is given a service account token: {spec.get('automountServiceAccountToken')}")
    if (spec.get("restartPolicy") or "Always") != {"scheduler": "Never", "worker": "OnFailure"}[role]:
        bad("restart-policy", f"{who} has the restart policy {spec.get('restartPolicy')}")
    # credentials
    vols = {v["name"]: v for v in spec.get("volumes") or ()}
    creds = [m for m in c.get("volumeMounts") or () if "secret" in vols.get(m["name"], {})]
    if len(creds) != 1 or vols[creds[0]["name"]]["secret"]["secretName"] != secret["metadata"]["name"]:
        bad("wrong-secret", f"{who} mounts {[(m, vols.get(m['name'])) for m in creds]}, not {secret['metadata']['name']}")
    if creds[0].get("readOnly") is not True:
        bad("secret-writable", f"{who} mounts its credentials {creds[0]}")
    at = creds[0]["mountPath"].rstrip("/")
    env = env_of(c)

    def content(var):
        path = env.get(var)
        if not isinstance(path, str) or not path.startswith(at + "/") or path[len(at) + 1:] not in secret["data"]:
            bad("wrong-credentials", f"{who} looks for {var} at {path}; its secret has {sorted(secret['data'])} at {at}")
        return b64(secret["data"][path[len(at) + 1:]])

    token = content("DASK_GATEWAY_API_TOKEN")
    ca = content("DASK_DISTRIBUTED__COMM__TLS__CA_FILE")
    for side in ("SCHEDULER", "WORKER"):
        cert, key = content(f"DASK_DISTRIBUTED__COMM__TLS__{side}__CERT"), content(f"DASK_DISTRIBUTED__COMM__TLS__{side}__KEY")
        if cert != ca or b"CERTIFICATE" not in cert or b"PRIVATE KEY" not in key:
            bad("wrong-credentials", f"{who}: the certificate and key are {cert[:30]} and {key[:30]}")
    if len(token) < 16:
        bad("wrong-credentials", f"{who}: its token is {token!r}")
    # environment
    fixed = {"DASK_GATEWAY_CLUSTER_NAME": f"{ns}.{name}", "DASK_GATEWAY_API_URL": api_url}
    want = dict(exp.get("environment") or {}, **fixed)
    for e in extra_c.get("env") or ():
        want[e["name"]] = e["value"]
    for k, v in want.items():
        if env.get(k) != v:
            bad("wrong-environment", f"{who} sees {k}={env.get(k)!r}, not {v!r}")
    more = [k for k in env if k not in want and not k.startswith(("DASK_GATEWAY_", "DASK_DISTRIBUTED__"))]
    if more:
        bad("wrong-environment", f"{who} is given {more}, which nobody asked for")
    # the command
    cmd = cmd_of(c)
    base = command(exp.get(f"{role}_cmd", {"scheduler": "dask-scheduler", "worker": "dask-worker"}[role]))
    if cmd[: len(base)] != base:
        bad("wrong-command", f"{who} runs {cmd}")
    if role == "worker":
        got = env.get("DASK_GATEWAY_WORKER_NAME")
        args = args_of(cmd)
        if got != {"fieldRef": {"fieldPath": "metadata.name"}} and got != meta["name"] or args.get("--name") not in ("$(DASK_GATEWAY_WORKER_NAME)", meta["name"]):
            bad("wrong-worker-name", f"{who} is called {args.get('--name')} with {got}, not as its pod")
        threads = exp.get("worker_threads") or max(int(cores), 1)
        if args.get("--nthreads") != str(threads) or mem(args.get("--memory-limit", "-1").replace("B", "")) != memory_limit:
            bad("wrong-command", f"{who} runs {cmd}; it is to use {threads} threads and {memory_limit} bytes")
    else:
        args = args_of(cmd)
        if float(args.get("--dg-idle-timeout", "0")) != exp.get("idle_timeout", 0) or float(args.get("--dg-adaptive-period", "-1")) != exp.get("adaptive_period", 3):
            bad("wrong-command", f"{who} runs {cmd}")
        probe = (c.get("readinessProbe") or {}).get("httpGet") or {}
        if str(probe.get("port")) not in (args.get("--dg-api-address", "").rpartition(":")[2], "api") or probe.get("path") != "/api/health":
            bad("wrong-probe", f"{who} is probed at {probe}, its API is at {args.get('--dg-api-address')}")
    return token, args_of(cmd)


def judge_tls(bad, who, cert, key):
    from cryptography import x509
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_pem_private_key

    pub = lambda k: k.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    c, k = x509.load_pem_x509_certificate(cert), load_pem_private_key(key, None)
    if pub(c.public_key()) != pub(k.public_key()):
        bad("wrong-credentials", f"{who}: the key does not belong to the certificate")


def case(ck, i):
    r = ck.rng(i)
    d = tempfile.mkdtemp(prefix="verif-c32-")

    async def main(loop):
        await run(ck, i, r, loop, d)

    try:
        vloop.run(main, spin_limit=50_000)
    finally:
        shutil.rmtree(d, ignore_errors=True)


async def run(ck, i, r, loop, d):
    inst = r.choice(["i1", "rel-dask"])
    site = cluster_config(r)
    with_options = chance(r, 0.7)
    lab_b, ann_b = labels(r, ["common", "bk"]), labels(r, ["canno", "bk"])
    lab_c, ann_c = labels(r, ["common", "ct"]), labels(r, ["canno", "ct"])
    api_url = "http://api.gw:8000/api"
    prefix = r.choice(["", "/", "/x", "/a/b/", "x"])
    web, tcp = r.choice(["web", "websecure"]), r.choice(["tcp", "web"])
    mws = r.choice([[], [{"name": "strip", "namespace": "gw"}], [{"name": "one"}, {"name": "two", "namespace": "z"}]])
    gw_text = f"c.DaskGateway.backend_class = 'dask_gateway_server.backends.kubernetes.KubeBackend'\nc.KubeBackend.gateway_instance = {inst!r}\nc.KubeBackend.api_url = {api_url!r}\nc.DaskGateway.address = ':8000'\n"
    ct_text = f"c.KubeController.gateway_instance = {inst!r}\nc.KubeController.api_url = {api_url!r}\nc.KubeController.address = ':8000'\nc.KubeController.proxy_prefix = {prefix!r}\n"
    ct_text += f"c.KubeController.proxy_web_entrypoint = {web!r}\nc.KubeController.proxy_tcp_entrypoint = {tcp!r}\nc.KubeController.proxy_web_middlewares = {mws!r}\n"
    for k, v in site.items():
        gw_text += f"c.KubeClusterConfig.{k} = {v!r}\n"
    gw_text += f"c.KubeBackend.common_labels = {lab_b!r}\nc.KubeBackend.common_annotations = {ann_b!r}\n"
    ct_text += f"c.KubeController.common_labels = {lab_c!r}\nc.KubeController.common_annotations = {ann_c!r}\n"
    if with_options:
        gw_text += OPTIONS
    w = kworld.World(ck, r, loop, d, gw_text, ct_text)
    w.kube.latency = lambda: r.choice([0, 0, 0.01])

    def bad(key, msg):
        raise core.Violation(key, msg, {"site": site, "gateway": gw_text[-2000:], "controller": ct_text})

    await w.start("controller")
    await w.start("gateway")
    # several clusters at once
    plans = []
    for k in range(r.choice([1, 2, 3])):
        user = r.choice(["alice", "bob"])
        opts = some_options(r) if with_options else {}
        plans.append((user, opts))
    answers = await asyncio.gather(*(w.ask("POST", "/api/v1/clusters/", gwmod.basic(u), js={"cluster_options": o}) for u, o in plans))
    clusters = []
    for (user, opts), a in zip(plans, answers):
        if a.status != 201:
            bad("refused", f"a cluster of {user} with {opts} is refused: {a.status} {a.body[:300]} {a.exc!r}")
        exp = dict(site, **handled(opts, user))
        ns, _, name = a.json["name"].partition(".")
        if ns != exp["namespace"]:
            bad("wrong-namespace", f"the cluster of {user} is {a.json['name']}, it belongs in {exp['namespace']}")
        clusters.append((user, opts, exp, ns, name))
    secrets = {}
    for user, opts, exp, ns, name in clusters:
        key = f"{ns}.{name}"
        rec = w.kube.objs["daskclusters"].get((ns, name))
        if rec is None:
            bad("no-record", f"{key} has no record")
        if rec["metadata"].get("labels") != dict(lab_b, **{INSTANCE: inst, CLUSTER: name}) or (rec["metadata"].get("annotations") or {}) != ann_b:
            bad("wrong-labels", f"the record of {key} has {rec['metadata'].get('labels')} and {rec['metadata'].get('annotations')}")
        running = lambda: (w.kube.objs["daskclusters"].get((ns, name)) or {}).get("status", {}).get("phase") == "Running"
        if not await w.until(running, 120):
            bad("never-runs", f"{key} is not running: {rec and w.kube.objs['daskclusters'][ns, name].get('status')}")
        got = [w.of(p, ns, name, c) for p, c in (("secrets", None), ("services", None), ("ingressroutes", None), ("ingressroutetcps", None), ("pods", "dask-scheduler"))]
        if any(len(x) != 1 for x in got):
            bad("objects", f"{key} has {[len(x) for x in got]} secrets, services, routes, tcp routes and scheduler pods")
        (secret,), (service,), (route,), (tcproute,), (sched,) = got
        if (sched["metadata"]["namespace"], sched["metadata"].get("generateName")) != (ns, None):
            bad("objects", f"the scheduler pod of {key} is {sched['metadata']}")
        for o in (secret, service, route, tcproute):
            m = o["metadata"]
            lab = {k: v for k, v in m["labels"].items() if k != COMP}
            if lab != dict(lab_c, **{INSTANCE: inst, CLUSTER: name}) or (m.get("annotations") or {}) != ann_c:
                bad("wrong-labels", f"the {o['kind']} of {key} has {m['labels']} and {m.get('annotations')}, not the configured {lab_c} and {ann_c}")
        token, args = judge_pod(bad, exp, sched, "scheduler", ns, name, secret, api_url, lab_c, ann_c, inst)
        port = lambda opt: int(args[opt].rpartition(":")[2])
        ports = {"scheduler": port("--port"), "dashboard": port("--dashboard-address"), "api": port("--dg-api-address")}
        if ("host" in args and args["--host"] not in ("", "0.0.0.0")) or args.get("--protocol") != "tls" or len(set(ports.values())) != 3:
            bad("wrong-command", f"the scheduler of {key} runs with {args}")
        if service["spec"].get("clusterIP") != "None":
            bad("service", f"the service of {key} is {service['spec']}")
        # the user sees it, with these credentials
        a = await w.ask("GET", f"/api/v1/clusters/{key}?wait", gwmod.basic(user))
        got_tls = (a.json or {}).get("tls_cert"), (a.json or {}).get("tls_key")
        if a.status != 200 or a.json["status"] != "RUNNING":
            if not await w.until(lambda: False, 5) and (await w.ask("GET", f"/api/v1/clusters/{key}", gwmod.basic(user))).json["status"] != "RUNNING":
                bad("never-runs", f"{key} runs, and its user is told {a.status} {a.body[:200]}")
            a = await w.ask("GET", f"/api/v1/clusters/{key}", gwmod.basic(user))
            got_tls = a.json.get("tls_cert"), a.json.get("tls_key")
        mine = {b64(v) for v in secret["data"].values()}
        if any(x is None or x.encode() not in mine for x in got_tls):
            bad("wrong-credentials", f"the user of {key} is given other credentials than its pods: {str(got_tls)[:200]}")
        judge_tls(bad, key, got_tls[0].encode(), got_tls[1].encode())
        for x in mine:
            if x in secrets:
                bad("shared-credentials", f"{key} and {secrets[x]} share credentials")
            secrets[x] = key
        # the ways in
        sel = {INSTANCE: inst}
        pre = "/" + prefix.strip("/") if prefix.strip("/") else ""
        for entry, where in ((web, True), ({"web": "websecure", "websecure": "web"}[web], False)):
            spec = route["spec"]
            if (entry in spec["entryPoints"]) is not where:
                bad("wrong-route", f"the route of {key} is at {spec['entryPoints']}, {web} is configured")
        (rule,) = route["spec"]["routes"]
        if (rule.get("middlewares") or []) != mws:
            bad("wrong-route", f"the route of {key} has the middlewares {rule.get('middlewares')}, configured are {mws}")
        plain = copy.deepcopy(route)
        plain["spec"]["routes"][0]["middlewares"] = []
        keep, w.kube.objs["ingressroutes"][ns, route["metadata"]["name"]] = route, plain
        path = pre + (a.json["dashboard_route"] or "")
        res = w.http(sel, web, path)
        w.kube.objs["ingressroutes"][ns, route["metadata"]["name"]] = keep
        if isinstance(res, str) or res[0]["metadata"]["name"] != sched["metadata"]["name"] or res[0]["metadata"]["namespace"] != ns or res[1] != ports["dashboard"] or res[2] != path:
            bad("wrong-route", f"{path} of {key} leads to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1:])}, not to its dashboard")
        other = w.http(sel, web, pre + "/clusters/" + key + "0/status")
        if not isinstance(other, str):
            bad("wrong-route", f"the path of another cluster leads to {key}")
        res = w.tcp(sel, tcp, "daskgateway-" + key)
        if isinstance(res, str) or res[0]["metadata"]["name"] != sched["metadata"]["name"] or res[0]["metadata"]["namespace"] != ns or res[1] != ports["scheduler"]:
            bad("wrong-route", f"connections for {key} lead to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1])}, not to its scheduler")
        # the gateway reaches its scheduler
        n0 = len(w.scheduler_calls)
        a = await w.ask("POST", f"/api/v1/clusters/{key}/scale", gwmod.basic(user), js={"count": 2})
        calls = w.scheduler_calls[n0:]
        if a.status != 200 or len(calls) != 1 or isinstance(calls[0][0], str) or calls[0][0][0]["metadata"]["name"] != sched["metadata"]["name"] or calls[0][0][1] != ports["api"]:
            bad("scale", f"scaling {key} is answered {a.status} {a.body[:100]}; its scheduler got {[(c[0] if isinstance(c[0], str) else (c[0][0]['metadata']['name'], c[0][1]), c[2]) for c in calls]}")
        # as its scheduler asks, its workers come
        a = await w.ask("POST", f"/api/v1/clusters/{key}/heartbeat", gwmod.token(token.decode()), js={"count": 2, "active_workers": [], "closing_workers": [], "closed_workers": []})
        if a.status != 200:
            bad("heartbeat", f"a heartbeat of {key} with the token its pods are given is answered {a.status}")
        workers = lambda: w.of("pods", ns, name, "dask-worker")
        if not await w.until(lambda: len(workers()) >= 2, 60):
            bad("no-workers", f"{key} has {len(workers())} of 2 workers")
        for pod in workers():
            t, _ = judge_pod(bad, exp, pod, "worker", ns, name, secret, api_url, lab_c, ann_c, inst)
            addr = [x for x in cmd_of(container(pod, "dask-worker")) if x.startswith("tls://")]
            if len(addr) != 1:
                bad("wrong-command", f"a worker of {key} runs {cmd_of(container(pod, 'dask-worker'))}")
            res = w.resolve(addr[0])
            if isinstance(res, str) or res[0]["metadata"]["name"] != sched["metadata"]["name"] or res[0]["metadata"]["namespace"] != ns or res[1] != ports["scheduler"]:
                bad("wrong-command", f"the workers of {key} look for their scheduler at {addr[0]}: {res if isinstance(res, str) else res[0]['metadata']['name']}")
            ck.count("worker pods judged")
        ck.count("clusters judged")
    # what the first got must not have changed what the later ones were judged by; and secrets are nowhere else
    for user, opts, exp, ns, name in clusters:
        secret = w.of("secrets", ns, name)[0]
        for pod in w.of("pods", ns, name):
            judge_pod(bad, exp, pod, pod["metadata"]["labels"][COMP].partition("-")[2], ns, name, secret, api_url, lab_c, ann_c, inst)
    text = {pl: json.dumps([o for o in objs.values()]) for pl, objs in w.kube.objs.items() if pl != "secrets"}
    for x, key in secrets.items():
        if b"CERTIFICATE" in x:
            continue
        for pl, t in text.items():
            line = max(x.decode().split("\n"), key=len)
            if line in t:
                bad("secret-shown", f"a secret of {key} is written in {pl}")
    ck.count("options given", sum(1 for p in plans if p[1]))
    await w.stop()
    ck.case([site, plans], nontrivial=True, sample={"site": sorted(site), "clusters": len(plans)} if i < 3 else None)


def body(ck):
    logging.disable(logging.CRITICAL)
    kworld.patch()
    ck.pool(lambda i: case(ck, i), ck.budget(30, 900))
    ck.need(**{"clusters judged": 100, "worker pods judged": 200, "options given": 30})


if __name__ == "__main__":
    core.main("C32", RULE, body, assumptions=[
        "the rest of Kubernetes (services, volumes, DNS names of services) and Traefik's rules behave as simulated",
        "extra pod labels do not override those the objects are selected by",
    ])
