"""C33: what the Helm chart installs is the gateway its values describe, in working order."""
import base64
import copy
import json
import logging
import os
import re
import shutil
import sys
import tempfile
import types

import jsonschema
import yaml
from aiohttp import web

from mon import chart as chartmod, core, gw as gwmod, kworld, vloop, vnet
from mon.checks.c32 import OPTIONS, extra_container, extra_pod, handled, judge_pod, some_options
from mon.kworld import COMP, cmd_of, container

RULE = (
    "the chart's templates are rendered by Go's template engine with generated values, the rendered command lines are started with the rendered "
    "ConfigMaps and environment on a simulated API server that enforces the rendered roles, a user is authenticated the configured way and runs a "
    "cluster, and every request, connection and reference is followed through the rendered services, routes, middlewares and Traefik arguments to "
    "the process that is to get it; non-trivial: a cluster of the installed release was running; distinct by the values and release"
)
LABEL = re.compile(r"([A-Za-z0-9]([A-Za-z0-9_.-]{0,61}[A-Za-z0-9])?)?")
NAME = re.compile(r"[a-z0-9]([a-z0-9-]{0,61}[a-z0-9])?")
NAMESPACED = {"Deployment", "Service", "ConfigMap", "Secret", "ServiceAccount", "IngressRoute", "IngressRouteTCP", "Middleware", "Role", "RoleBinding"}
RWL = ("get", "list", "watch")
TRAEFIK_NEEDS = [("", x, v) for x in ("services", "secrets") for v in RWL] + [("discovery.k8s.io", "endpointslices", v) for v in ("list", "watch")] + [
    ("traefik.io", x, v) for x in ("ingressroutes", "ingressroutetcps", "ingressrouteudps", "middlewares", "middlewaretcps", "serverstransports",
                                   "serverstransporttcps", "tlsoptions", "tlsstores", "traefikservices") for v in RWL]
CUSTOM = '''
from traitlets import Unicode
from dask_gateway_server.auth import Authenticator, User, unauthorized

class SiteAuth(Authenticator):
    word = Unicode("unset", config=True)

    async def authenticate(self, request):
        kind, _, name = request.headers.get("Authorization", "").partition(" ")
        if kind != self.word:
            raise unauthorized("site")
        return User(name)
'''


def chance(r, p):
    return r.random() < p


def deep(d, path, v):
    ks = path.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def words(r, names=("team", "example.com/x", "checksum")):
    return {k: r.choice(["a", "b: c", "true", "12", "x's \"y\""]) for k in names if chance(r, 0.5)}


def component(r, v, who):
    """The settings of one component's pods."""
    put = lambda k, x: deep(v, f"{who}.{k}", x)
    if who != "controller" and chance(r, 0.3):
        put("replicas", r.choice([1, 2, 5]))
    if chance(r, 0.3):
        put("annotations", words(r))
    if chance(r, 0.3):
        put("resources", {"limits": {"cpu": r.choice([1, "500m"]), "memory": "1Gi"}, **({"requests": {"memory": "100Mi"}} if chance(r, 0.5) else {})})
    if chance(r, 0.4):
        put("image.name", r.choice(["reg.io/a/b", f"my-{who}"]))
        put("image.tag", r.choice(["1.2", "v3-rc", "2024.1.0"]))
    if chance(r, 0.5):
        put("image.pullPolicy", r.choice(["Always", "IfNotPresent", "Never"]))
    if chance(r, 0.3):
        put("imagePullSecrets", [{"name": n} for n in r.sample(["p1", "p2", f"p-{who}"], r.randint(1, 2))])
    if chance(r, 0.3):
        put("nodeSelector", {"disk": r.choice(["ssd", "hdd"]), **({"example.com/pool": who} if chance(r, 0.5) else {})})
    if chance(r, 0.3):
        put("tolerations", [{"key": who, "operator": "Exists"}] + ([{"key": "b", "operator": "Equal", "value": "c", "effect": "NoSchedule"}] if chance(r, 0.5) else []))
    if chance(r, 0.3):
        put("affinity", {"nodeAffinity": {"requiredDuringSchedulingIgnoredDuringExecution": {"nodeSelectorTerms": [{"matchExpressions": [{"key": who, "operator": "In", "values": ["a", "b"]}]}]}}})
    if chance(r, 0.4):
        put("loglevel", r.choice(["ERROR", "WARN", "INFO", "DEBUG"]))


def backend(r, v, exp):
    """Settings of the clusters: the values, and what is expected of the clusters."""
    put = lambda k, x: deep(v, f"gateway.backend.{k}", x)
    if chance(r, 0.5):
        name, tag = r.choice(["img", "reg.io:5000/x/y"]), r.choice(["1", "2024.1.0", ""])
        put("image.name", name)
        put("image.tag", tag)
        exp["image"] = f"{name}:{tag}" if tag else name
    if chance(r, 0.4):
        exp["image_pull_policy"] = r.choice(["Always", "Never"])
        put("image.pullPolicy", exp["image_pull_policy"])
    if chance(r, 0.4):
        exp["image_pull_secrets"] = [{"name": n} for n in r.sample(["reg", "reg2"], r.randint(1, 2))]
        put("imagePullSecrets", exp["image_pull_secrets"])
    if chance(r, 0.5):
        exp["namespace"] = r.choice(["dask", "users"])
        put("namespace", exp["namespace"])
    if chance(r, 0.5):
        exp["environment"] = {"A": "1", "B": r.choice(["x y=z", "a\"b'c", "<&>", "tab\there", "100%", "é\u2028z", "back\\slash\\n"])}
        put("environment", exp["environment"])
    for role in ("scheduler", "worker"):
        for what, choices in (("cores", ([0.25, 1, 1.5, 3], [4, 6.5])), ("memory", (["1 G", "512M", 12345678], ["4 G", 2**33]))):
            for kind, suffix, xs in (("request", "", choices[0]), ("limit", "_limit", choices[1])):
                if chance(r, 0.4):
                    exp[f"{role}_{what}{suffix}"] = r.choice(xs)
                    put(f"{role}.{what}.{kind}", exp[f"{role}_{what}{suffix}"])
        for field, make in (("Container", extra_container), ("Pod", extra_pod)):
            if chance(r, 0.3):
                exp[f"{role}_extra_{field.lower()}_config"] = make(r)
                put(f"{role}.extra{field}Config", exp[f"{role}_extra_{field.lower()}_config"])
    if chance(r, 0.3):
        exp["worker_threads"] = r.choice([1, 2, 7])
        put("worker.threads", exp["worker_threads"])


def make(r, i):
    """One installation: the values a site gives, and what it is to be."""
    v, exp, plan = {}, {"image": None}, types.SimpleNamespace()
    for who in ("gateway", "controller", "traefik"):
        component(r, v, who)
    backend(r, v, exp)
    plan.exp = exp
    if chance(r, 0.5):
        deep(v, "gateway.prefix", r.choice(["/", "/services/dask-gateway", "/x", "/a/b/", "/user.name"]))
    if chance(r, 0.3):
        deep(v, "gateway.service.annotations", words(r))
    if chance(r, 0.4):
        deep(v, "gateway.env", [{"name": "SITE_WORD", "value": r.choice(["w1", "two words"])}, {"name": "NODE", "valueFrom": {"fieldRef": {"fieldPath": "spec.nodeName"}}}])
    for probe in ("livenessProbe", "readinessProbe"):
        if chance(r, 0.3):
            deep(v, f"gateway.{probe}.enabled", False)
        if chance(r, 0.3):
            deep(v, f"gateway.{probe}.{r.choice(['initialDelaySeconds', 'periodSeconds', 'timeoutSeconds', 'failureThreshold'])}", r.randint(1, 30))
    # authentication
    plan.auth = r.choice(["simple", "simple", "jupyterhub", "jupyterhub", "kerberos", "custom"])
    plan.word, plan.files, plan.hub_url, plan.service = f"word{r.getrandbits(40):x}", {}, None, None
    if plan.auth != "simple" or chance(r, 0.3):
        deep(v, "gateway.auth.type", plan.auth)
    plan.password = None
    if plan.auth == "simple" and chance(r, 0.6):
        plan.password = r.choice([plan.word, "p\"a's\\s", "pass: #word", "12345"])
        deep(v, "gateway.auth.simple.password", plan.password)
    elif plan.auth == "kerberos":
        deep(v, "gateway.auth.kerberos.keytab", "/etc/krb5/http.keytab")
    elif plan.auth == "jupyterhub":
        plan.token_given = chance(r, 0.5)
        if plan.token_given:
            deep(v, "gateway.auth.jupyterhub.apiToken", plan.word)
        elif chance(r, 0.4):
            deep(v, "gateway.auth.jupyterhub.apiTokenFromSecretName", "my-hub")
            deep(v, "gateway.auth.jupyterhub.apiTokenFromSecretKey", "the-token")
        if chance(r, 0.5):
            plan.hub_url = r.choice(["http://hub.jhub:8081/hub/api", "http://proxy:80/base/hub/api"])
            deep(v, "gateway.auth.jupyterhub.apiUrl", plan.hub_url)
        if chance(r, 0.4):
            plan.service = "dask-gateway"
            deep(v, "gateway.auth.jupyterhub.jupyterhubServiceName", plan.service)
    elif plan.auth == "custom":
        plan.module = f"siteauth_{os.getpid()}_{i}"
        plan.files[f"extensions/gateway/{plan.module}.py"] = CUSTOM
        deep(v, "gateway.auth.custom.class", f"{plan.module}.SiteAuth")
        deep(v, "gateway.auth.custom.config", {"word": plan.word})
    # code of the site's own, in one piece or in several run in the order of their names
    plan.options = chance(r, 0.4)
    lines = {"z-last": "c.KubeClusterConfig.idle_timeout = 60\n# multi\nif True:\n    c.KubeClusterConfig.adaptive_period = 5", "a-first": "c.KubeClusterConfig.idle_timeout = 30\n"}
    x = r.random()
    if x < 0.3:
        deep(v, "gateway.extraConfig", lines if not plan.options else dict(lines, options=OPTIONS))
        exp["idle_timeout"], exp["adaptive_period"] = 60, 5
    elif x < 0.6 or plan.options:
        deep(v, "gateway.extraConfig", "c.KubeClusterConfig.idle_timeout = 45\n" + (OPTIONS if plan.options else ""))
        exp["idle_timeout"] = 45
    # the controller
    plan.controller = {}
    for key, trait, xs in (
        ("completedClusterMaxAge", "completed_cluster_max_age", [0, 20.5, 3600]), ("completedClusterCleanupPeriod", "completed_cluster_cleanup_period", [5, 30.5, 600]),
        ("backoffBaseDelay", "backoff_base_delay", [0.1, 0.05, 2]), ("backoffMaxDelay", "backoff_max_delay", [10, 300, 60.5]),
        ("k8sApiRateLimit", "k8s_api_rate_limit", [20, 50, 1000]), ("k8sApiRateLimitBurst", "k8s_api_rate_limit_burst", [10, 100, 2000]),
    ):
        if chance(r, 0.4):
            deep(v, f"controller.{key}", r.choice(xs))
        plan.controller[trait] = key
    if chance(r, 0.05):
        deep(v, "controller.enabled", False)
    # traefik
    if chance(r, 0.1):
        deep(v, "traefik.installTraefik", False)
    if chance(r, 0.3):
        deep(v, "traefik.dashboard", True)
    if chance(r, 0.3):
        deep(v, "traefik.additionalArguments", ["--accesslog=true"] + (["--x.y=\"q\""] if chance(r, 0.5) else []))
    if chance(r, 0.4):
        deep(v, "traefik.service.type", r.choice(["NodePort", "ClusterIP"]))
    if chance(r, 0.3):
        deep(v, "traefik.service.annotations", words(r))
    if chance(r, 0.2):
        deep(v, "traefik.service.spec", {"loadBalancerSourceRanges": ["10.0.0.0/8"]})
    if chance(r, 0.4):
        deep(v, "traefik.service.ports.web.port", r.choice([8000, 8080, 443]))
        deep(v, "traefik.service.ports.web.nodePort", r.choice([30080, None]))
    if chance(r, 0.5):
        deep(v, "traefik.service.ports.tcp.port", r.choice([8786, 10000]))
        deep(v, "traefik.service.ports.tcp.nodePort", r.choice([30786, None]))
    if chance(r, 0.1):
        deep(v, "rbac.enabled", False)
    for who in ("gateway", "controller", "traefik"):
        if chance(r, 0.12):
            deep(v, f"rbac.{who}.serviceAccountName", f"own-{who}")
    if chance(r, 0.2):
        deep(v, "nameOverride", r.choice(["dg", "dask-gateway-dev"]))
    if chance(r, 0.2):
        deep(v, "fullnameOverride", r.choice(["full", "f" * 50, "the-" + "n" * 59]))
    plan.values = v
    plan.release = r.choice(["dask-gateway", "rel", "my-dask-gateway", "r" * 53, "dhub"])
    plan.namespace = r.choice(["default", "dask", "jhub"])
    exp.setdefault("namespace", "default")
    if "backend" not in v.get("gateway", {}) or "namespace" not in v["gateway"]["backend"]:
        plan.namespace = "default"  # elsewhere there is no file to tell the gateway's namespace from
    return plan


def at(values, path, default=None):
    for k in path.split("."):
        if not isinstance(values, dict) or k not in values:
            return default
        values = values[k]
    return values


def clean(tree):
    """YAML's dates and such would be no JSON; what is compared is JSON."""
    return json.loads(json.dumps(tree))


class Install:
    """The objects of a rendered release."""

    def __init__(self, bad, chart, plan, objs):
        self.bad, self.plan, self.objs = bad, plan, objs
        self.values = chartmod.merged(chart.values, plan.values)
        self.ns = plan.namespace

    def get(self, kind, name):
        hits = [o for o in self.objs if o["kind"] == kind and o["metadata"]["name"] == name]
        return hits[0] if len(hits) == 1 else None

    def deployment(self, who):
        hits = [o for o in self.objs if o["kind"] == "Deployment" and o["spec"]["template"]["metadata"]["labels"].get(COMP) == who]
        if len(hits) != 1:
            self.bad("objects", f"{len(hits)} deployments of the {who} are rendered")
        return hits[0]

    def judge(self, chart):
        bad, v, plan = self.bad, self.values, self.plan
        seen = set()
        crds = {}
        for name in os.listdir(os.path.join(chart.dir, "crds")):
            with open(os.path.join(chart.dir, "crds", name)) as f:
                for o in yaml.safe_load_all(f):
                    if o:
                        for ver in o["spec"]["versions"]:
                            if ver["served"]:
                                crds[o["spec"]["group"] + "/" + ver["name"], o["spec"]["names"]["kind"]] = ver["schema"]["openAPIV3Schema"]
        self.crds = crds
        for o in self.objs:
            m = o["metadata"]
            key = o["kind"], m["name"]
            if key in seen:
                bad("objects", f"two objects are {key}")
            seen.add(key)
            if not isinstance(m["name"], str) or not NAME.fullmatch(m["name"]):
                bad("invalid-name", f"{o['kind']} {m['name']} is no valid name")
            if o["kind"] == "Service" and not m["name"][0].isalpha():
                bad("invalid-name", f"the service {m['name']} is no valid name")
            for labels in [m.get("labels") or {}] + ([o["spec"]["template"]["metadata"]["labels"], o["spec"]["selector"]["matchLabels"]] if o["kind"] == "Deployment" else []):
                for k, x in labels.items():
                    if not isinstance(x, str) or not LABEL.fullmatch(x):
                        bad("invalid-label", f"{key} has the label {k}={x!r}")
            if m.get("namespace") not in (None, self.ns):
                bad("objects", f"{key} is put in {m['namespace']}")
            for k, x in list((m.get("annotations") or {}).items()) + (list((o["spec"]["template"]["metadata"].get("annotations") or {}).items()) if o["kind"] == "Deployment" else []):
                if not isinstance(x, str):
                    bad("invalid-annotation", f"{key} has the annotation {k}={x!r}")
            if o["kind"] == "ConfigMap" and any(not isinstance(x, str) for x in o["data"].values()):
                bad("objects", f"the data of {key} is not all text")
            if "." in o["apiVersion"].partition("/")[0] and o["apiVersion"].split("/")[0] not in ("rbac.authorization.k8s.io",):
                self.fits(o)
        whos = ["gateway"] + ["controller"] * bool(at(v, "controller.enabled")) + ["traefik"] * bool(at(v, "traefik.installTraefik"))
        got = sorted(o["spec"]["template"]["metadata"]["labels"].get(COMP) for o in self.objs if o["kind"] == "Deployment")
        if got != sorted(whos):
            bad("objects", f"{got} are deployed, not {whos}")
        for who in whos:
            self.judge_deployment(who)
        for o in self.objs:
            if o["kind"] in ("RoleBinding", "ClusterRoleBinding"):
                if self.get(o["roleRef"]["kind"], o["roleRef"]["name"]) is None:
                    bad("dangling", f"{o['metadata']['name']} binds the role {o['roleRef']}, which there is none of")
                for s in o["subjects"]:
                    if self.get(s["kind"], s["name"]) is None or s.get("namespace") != self.ns:
                        bad("dangling", f"{o['metadata']['name']} binds {s}, which there is none of")
        # a token of JupyterHub's is nowhere but in the Secret
        if plan.auth == "jupyterhub" and plan.token_given:
            for o in self.objs:
                t = json.dumps(o)
                for form in (plan.word, base64.b64encode(plan.word.encode()).decode()):
                    if form in t and not (o["kind"] == "Secret" and form != plan.word):
                        bad("secret-shown", f"JupyterHub's token is written in {o['kind']} {o['metadata']['name']}")
        return whos

    def fits(self, o):
        """A custom object is of a kind and form its definition knows."""
        schema = self.crds.get((o["apiVersion"], o["kind"]))
        if schema is None:
            self.bad("no-crd", f"there is no definition of {o['apiVersion']} {o['kind']}")

        def walk(x, s, path):
            t = s.get("type")
            if s.get("x-kubernetes-int-or-string"):
                return None if isinstance(x, (int, str)) else f"{path} is {x!r}"
            ok = {"object": dict, "array": list, "string": str, "boolean": bool, "integer": int, "number": (int, float)}.get(t, object)
            if not isinstance(x, ok) or (t == "integer" and isinstance(x, bool)):
                return f"{path} is {x!r}, not of type {t}"
            if "enum" in s and x not in s["enum"]:
                return f"{path} is {x!r}, not in {s['enum']}"
            if isinstance(x, dict):
                for k in s.get("required", ()):
                    if k not in x:
                        return f"{path}.{k} is missing"
                props = s.get("properties", {})
                for k, y in x.items():
                    if path == "" and k in ("apiVersion", "kind", "metadata"):
                        continue
                    if k in props:
                        sub = props[k]
                    elif isinstance(s.get("additionalProperties"), dict):
                        sub = s["additionalProperties"]
                    elif s.get("x-kubernetes-preserve-unknown-fields") or s.get("additionalProperties") is True:
                        continue
                    else:
                        return f"{path}.{k} is not known and would be dropped"
                    res = walk(y, sub, f"{path}.{k}")
                    if res:
                        return res
            elif isinstance(x, list) and "items" in s:
                for k, y in enumerate(x):
                    res = walk(y, s["items"], f"{path}[{k}]")
                    if res:
                        return res
            return None

        res = walk(clean(dict(o)), schema, "")
        if res:
            self.bad("invalid-object", f"{o['kind']} {o['metadata']['name']}: {res}")

    def judge_deployment(self, who):
        bad, v = self.bad, self.values
        dep = self.deployment(who)
        spec = dep["spec"]["template"]["spec"]
        cs = spec["containers"]
        if len(cs) != 1:
            bad("objects", f"the {who} has {len(cs)} containers")
        c = cs[0]
        val = lambda k: at(v, f"{who}.{k}")
        same = lambda what, got, want: clean(got or None) == clean(want or None) or bad("wrong-setting", f"the {who}'s {what} is {got!r}; the values say {want!r}")
        same("replicas", dep["spec"]["replicas"], 1 if who == "controller" else val("replicas"))
        if who == "controller" and dep["spec"].get("strategy", {}).get("type") != "Recreate":
            bad("wrong-setting", "two controllers would run at once while one is replaced")
        same("image", c["image"], f"{val('image.name')}:{val('image.tag')}")
        same("pull policy", c.get("imagePullPolicy"), val("image.pullPolicy"))
        same("pull secrets", spec.get("imagePullSecrets"), val("imagePullSecrets"))
        same("resources", c.get("resources"), val("resources"))
        for key in ("nodeSelector", "tolerations", "affinity"):
            same(key, spec.get(key), val(key))
        ann = dep["spec"]["template"]["metadata"].get("annotations") or {}
        same("annotations", {k: x for k, x in ann.items() if not k.startswith("checksum/")}, val("annotations"))
        account = at(v, f"rbac.{who}.serviceAccountName")
        if at(v, "rbac.enabled"):
            got = spec.get("serviceAccountName")
            if account:
                same("service account", got, account)
            elif self.get("ServiceAccount", got) is None:
                bad("dangling", f"the {who} runs as {got}, which there is none of")
        elif "serviceAccountName" in spec:
            bad("dangling", f"the {who} runs as {spec['serviceAccountName']} without rbac")
        if not (at(v, "rbac.enabled") and not account):
            for o in self.objs:
                if o["kind"] in ("ClusterRoleBinding", "RoleBinding", "ServiceAccount") and o["metadata"]["name"].startswith({"gateway": "api-"}.get(who, who + "-")):
                    bad("objects", f"{o['kind']} {o['metadata']['name']} is made, though {who} brings its own")
        for vol in spec.get("volumes") or ():
            if "configMap" in vol and self.get("ConfigMap", vol["configMap"]["name"]) is None:
                bad("dangling", f"the {who} mounts {vol}, which there is none of")
        if who == "gateway":
            for probe in ("livenessProbe", "readinessProbe"):
                want = {k: x for k, x in at(v, f"gateway.{probe}").items() if k != "enabled"} if at(v, f"gateway.{probe}.enabled") else None
                got = c.get(probe)
                same(probe, got and {k: x for k, x in got.items() if k != "httpGet"}, want)
            svc = [o for o in self.objs if o["kind"] == "Service" and o["metadata"]["name"] == dep["metadata"]["name"]]
            if not svc:
                bad("objects", "the gateway has no service of its name")
            same("service's annotations", svc[0]["metadata"].get("annotations"), at(v, "gateway.service.annotations"))
        if who == "traefik":
            args = c["args"]
            if f"--log.level={val('loglevel')}" not in args:
                bad("wrong-setting", f"Traefik's log level is not {val('loglevel')}: {args}")
            extra = val("additionalArguments") or []
            if extra and args[-len(extra):] != extra:
                bad("wrong-setting", f"Traefik is not given {extra}: {args}")
            svc = [o for o in self.objs if o["kind"] == "Service" and o["metadata"]["name"] == dep["metadata"]["name"]]
            if len(svc) != 1:
                bad("objects", f"{len(svc)} services of Traefik")
            (svc,) = svc
            same("service's type", svc["spec"].get("type"), val("service.type"))
            same("service's annotations", svc["metadata"].get("annotations"), val("service.annotations"))
            for k, x in (val("service.spec") or {}).items():
                same(f"service's {k}", svc["spec"].get(k), x)
            ports = {p["name"]: p for p in svc["spec"]["ports"]}
            shared = str(val("service.ports.tcp.port")) == "web"
            want = {"web": (val("service.ports.web.port"), val("service.ports.web.nodePort"))}
            if not shared:
                want["tcp"] = val("service.ports.tcp.port"), val("service.ports.tcp.nodePort")
            if val("dashboard"):
                want["traefik"] = 9000, None
            got = {k: (p["port"], p.get("nodePort")) for k, p in ports.items()}
            if got != want:
                bad("wrong-setting", f"Traefik's service has the ports {got}, not {want}")
            cports = [p["containerPort"] for p in c["ports"]]
            if len(set(cports)) != len(cports):
                bad("wrong-setting", f"Traefik has the ports {c['ports']}")
            addr = [int(a.rpartition(":")[2]) for a in args if ".address=" in a]
            for probe in ("livenessProbe", "readinessProbe"):
                g = c[probe]["httpGet"]
                if g["path"] != "/ping" or g["port"] != 9000 or "--ping=true" not in args or 9000 not in addr:
                    bad("wrong-probe", f"Traefik is probed at {g}")
            if ("--api.insecure=true" in args) is not bool(val("dashboard")):
                bad("dashboard", f"Traefik's own dashboard is {val('dashboard')}: {args}")

    # -- permissions --------------------------------------------------------------
    def rules(self, who):
        """The rules that bind a component's account, or None if it brings its own."""
        v = self.values
        if not at(v, "rbac.enabled") or at(v, f"rbac.{who}.serviceAccountName"):
            return None
        account = self.deployment(who)["spec"]["template"]["spec"].get("serviceAccountName")
        out = []
        for o in self.objs:
            if o["kind"] == "ClusterRoleBinding" and any(s["kind"] == "ServiceAccount" and s["name"] == account and s.get("namespace") == self.ns for s in o["subjects"]):
                out += self.get(o["roleRef"]["kind"], o["roleRef"]["name"])["rules"]
        return out

    def may(self, who, verb, group, resource):
        rules = self.rules(who)
        if rules is None:
            return True
        fits = lambda xs, x: x in xs or "*" in xs
        return any(fits(x["apiGroups"], group) and fits(x["resources"], resource) and fits(x["verbs"], verb) for x in rules)

    def judge_roles(self, whos):
        bad = self.bad
        for who in whos:
            for rule in self.rules(who) or ():
                if "*" in rule["apiGroups"] or "*" in rule["resources"] or ("*" in rule["verbs"] and rule["apiGroups"] != ["gateway.dask.org"]):
                    bad("too-much", f"the {who} may do {rule}")
                if "escalate" in rule["verbs"] or "impersonate" in rule["verbs"] or "rbac.authorization.k8s.io" in rule["apiGroups"]:
                    bad("too-much", f"the {who} may do {rule}")
                if who == "traefik" and not set(rule["verbs"]) <= {"get", "list", "watch"} and not any(x.endswith("/status") for x in rule["resources"]):
                    bad("too-much", f"Traefik may do {rule}")
                if who == "gateway" and rule["apiGroups"] == [""] and not set(rule["verbs"]) <= {"get"}:
                    bad("too-much", f"the gateway may do {rule}")
        if "traefik" in whos:
            for group, resource, verb in TRAEFIK_NEEDS:
                if not self.may("traefik", verb, group, resource):
                    bad("denied", f"Traefik may not {verb} {resource} of {group!r}")


def misspelt(r, values):
    """The values with one of the known keys misspelt."""
    spots = []

    def walk(d, path):
        for k, x in d.items():
            spots.append(path + [k])
            if isinstance(x, dict) and k not in ("annotations", "resources", "nodeSelector", "affinity", "environment", "extraPodConfig", "extraContainerConfig", "config", "extraConfig", "livenessProbe", "readinessProbe", "spec", "global"):
                walk(x, path + [k])

    walk(values, [])
    path = r.choice([p for p in spots])
    out = copy.deepcopy(values)
    d = out
    for k in path[:-1]:
        d = d[k]
    d[path[-1] + "x"] = d.pop(path[-1])
    return ".".join(path), out


def case(ck, chart, i):
    r = ck.rng(i)
    plan = make(r, i)
    other = make(r, i)
    other.release, other.namespace = r.choice(["second", "dask-gateway-2"]), plan.namespace
    other.values.pop("fullnameOverride", None)
    other.values["rbac"] = {}

    def bad(key, msg, witness=None):
        raise core.Violation(key, msg, {"values": plan.values, "release": plan.release, "namespace": plan.namespace, "more": witness})

    values = chartmod.merged(chart.values, plan.values)
    validator = jsonschema.Draft7Validator(chart.schema)
    errs = [e.message for e in validator.iter_errors(values)]
    if errs:
        bad("schema", f"the schema refuses these values: {errs[:2]}")
    path, wrong = misspelt(r, values)
    if not list(validator.iter_errors(wrong)):
        bad("schema-lax", f"the schema accepts a misspelt {path}")
    # one thing changed at a time
    changes = []
    for who, key, x in (("gateway", "gateway.extraConfig", "c.KubeClusterConfig.idle_timeout = 77"), ("gateway", "gateway.backend.worker.cores.request", 2.75),
                        ("controller", "controller.completedClusterMaxAge", 4321), ("gateway", "gateway.auth.jupyterhub.apiToken", "changed")):
        w = copy.deepcopy(plan.values)
        deep(w, key, x)
        changes.append((who, key, w))
    jobs = [plan.values, plan.values] + [w for _, _, w in changes]
    outs = chart.render([{"values": w, "release": plan.release, "namespace": plan.namespace, "files": plan.files} for w in jobs] + [
        {"values": other.values, "release": other.release, "namespace": plan.namespace, "files": other.files}])
    for w, o in zip(jobs + [other.values], outs):
        if isinstance(o, str):
            bad("render", f"the chart does not render: {o}", w)
    if outs[0] != outs[1]:
        bad("unstable", "two renderings of the same values differ")
    try:
        objs = [chartmod.objects(o) for o in outs]
    except yaml.YAMLError as e:
        bad("render", f"the chart renders to what is no YAML: {e}")
    inst = Install(bad, chart, plan, objs[0])
    whos = inst.judge(chart)
    inst.judge_roles(whos)
    ck.count("objects judged", len(objs[0]))
    pod = lambda os_, who: [o["spec"]["template"] for o in os_ if o["kind"] == "Deployment" and o["spec"]["template"]["metadata"]["labels"].get(COMP) == who]
    for (who, key, _), changed in zip(changes, objs[2:]):
        if who not in whos or (key.endswith("apiToken") and plan.auth != "jupyterhub"):
            continue
        if pod(changed, who) == pod(objs[0], who):
            bad("no-restart", f"a change of {key} leaves the {who} running with its former configuration")
    a = {(o["kind"], o["metadata"]["name"]) for o in objs[0]}
    b = {(o["kind"], o["metadata"]["name"]) for o in objs[-1]}
    if plan.release != other.release and a & b:
        bad("objects", f"the releases {plan.release} and {other.release} both have {sorted(a & b)[:3]}")
    if "controller" not in whos:
        ck.count("installed without a controller")
        ck.case([plan.values], nontrivial=False)
        return
    d = tempfile.mkdtemp(prefix="verif-c33-")
    keep_env, keep_path, keep_mod = dict(os.environ), list(sys.path), set(sys.modules)

    async def main(loop):
        await run(ck, i, r, loop, d, bad, inst, plan, whos, objs[-1])

    try:
        vloop.run(main, spin_limit=50_000)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        os.environ.clear()
        os.environ.update(keep_env)
        sys.path[:] = keep_path
        for k in set(sys.modules) - keep_mod:
            if k.startswith("siteauth_"):
                del sys.modules[k]


class Sites:
    """Users of each kind of authentication."""

    def __init__(self, plan, net, bad):
        self.plan, self.bad, self.asked = plan, bad, []
        self.scopes = {}
        if plan.auth == "jupyterhub":
            url = plan.hub_url or "http://10.3.0.7:8081/hub/api"
            host, port = url.split("/")[2].split(":")
            vnet.serve(net, host, int(port), self.hub)
        elif plan.auth == "kerberos":
            m = types.ModuleType("kerberos")
            m.AUTH_GSS_COMPLETE = 1
            m.GSSError = type("GSSError", (Exception,), {})
            m.authGSSServerInit = lambda s: (1, {})
            m.authGSSServerStep = lambda ctx, key: ctx.update(p=key) or 1
            m.authGSSServerClean = lambda ctx: 1
            m.authGSSServerResponse = lambda ctx: "resp"
            m.authGSSServerUserName = lambda ctx: ctx["p"] + "@R"
            sys.modules["kerberos"] = m

    async def hub(self, request):
        self.asked.append((request.path, request.headers.get("Authorization")))
        kind, _, tok = (request.headers.get("Authorization") or "").partition(" ")
        base = "/" + (self.plan.hub_url or "http://x/hub/api").split("/", 3)[3]
        if request.path != base + "/user" or kind != "token" or not tok.startswith("tok-"):
            return web.json_response({}, status=403 if request.path.startswith(base) else 404)
        scopes = ["self"] + ([f"access:services!service={self.plan.service}"] if self.plan.service and not tok.endswith("-no") else [])
        return web.json_response({"kind": "user", "name": tok.split("-")[1], "groups": [], "admin": False, "scopes": scopes})

    def good(self, user):
        p = self.plan
        if p.auth == "simple":
            return gwmod.basic(user, p.password or "anything")
        if p.auth == "jupyterhub":
            return {"Authorization": f"jupyterhub tok-{user}"}
        if p.auth == "kerberos":
            return {"Authorization": f"Negotiate {user}"}
        return {"Authorization": f"{p.word} {user}"}

    def wrong(self, user):
        p = self.plan
        out = [{}, {"Authorization": f"unset {user}"}]
        if p.auth == "simple" and p.password:
            out.append(gwmod.basic(user, p.password + "x"))
        if p.auth == "jupyterhub":
            out.append({"Authorization": f"jupyterhub other-{user}"})
            if p.service:
                out.append({"Authorization": f"jupyterhub tok-{user}-no"})
        if p.auth != "simple":
            out.append(gwmod.basic(user, "x"))
        return out


def environment(inst, c, net_secrets):
    """What the container's process finds in its environment."""
    env = {}
    for e in c.get("env") or ():
        if "value" in e:
            if not isinstance(e["value"], str):
                inst.bad("wrong-setting", f"the variable {e} is no text")
            env[e["name"]] = e["value"]
        elif "secretKeyRef" in (e.get("valueFrom") or {}):
            ref = e["valueFrom"]["secretKeyRef"]
            o = inst.get("Secret", ref["name"])
            if o is not None:
                if ref["key"] not in o["data"]:
                    inst.bad("dangling", f"{e['name']} is read from {ref}; there is {sorted(o['data'])}")
                env[e["name"]] = base64.b64decode(o["data"][ref["key"]]).decode()
            elif (ref["name"], ref["key"]) in net_secrets:
                env[e["name"]] = net_secrets[ref["name"], ref["key"]]
            else:
                inst.bad("dangling", f"{e['name']} is read from {ref}, which there is none of")
        elif "fieldRef" in (e.get("valueFrom") or {}):
            env[e["name"]] = "n1"
    return env


def mounted(inst, who, d):
    """The container's files in a directory, and its command line with the names of those."""
    spec = inst.deployment(who)["spec"]["template"]["spec"]
    c = spec["containers"][0]
    vols = {x["name"]: x for x in spec.get("volumes") or ()}
    argv = cmd_of(c)
    for k, m in enumerate(c.get("volumeMounts") or ()):
        if m["name"] not in vols:
            inst.bad("dangling", f"the {who} mounts {m}, which it has no volume of")
        cm = inst.get("ConfigMap", vols[m["name"]]["configMap"]["name"])
        here = os.path.join(d, f"{who}-{k}")
        os.makedirs(here)
        for name, text in cm["data"].items():
            with open(os.path.join(here, name), "w") as f:
                f.write(text)
        at_ = m["mountPath"].rstrip("/")
        argv = [here + a[len(at_):] if a.startswith(at_ + "/") else a for a in argv]
    for a in argv:
        if a.startswith("/") and not os.path.exists(a):
            inst.bad("dangling", f"the {who} is started with {a}, which there is none of")
    return c, argv


async def run(ck, i, r, loop, d, bad, inst, plan, whos, second):
    w = kworld.World(ck, r, loop, d, None, None, release_ns=plan.namespace)
    w.static = inst.objs + (second if chance(r, 0.6) else [])
    w.kube.latency = lambda: r.choice([0, 0, 0.01])
    sites = Sites(plan, w.net, bad)
    denied = []

    def authorize(who, verb, group, resource, ns):
        if who not in ("gateway", "controller"):
            raise core.Inconclusive(f"a call of {who!r}")
        ok = inst.may(who, verb, group, resource)
        if not ok:
            denied.append((who, verb, group, resource))
        else:
            ck.count("calls authorized")
        return ok

    w.kube.authorize = authorize

    def permitted():
        if denied:
            bad("denied", f"the rendered roles do not let the {denied[0][0]} {denied[0][1]} {denied[0][3]} of {denied[0][2]!r}")

    hub_secrets = {("hub", "hub.services.dask-gateway.apiToken"): "from-hub", ("my-hub", "the-token"): "from-mine"}
    for e in ("JUPYTERHUB_API_TOKEN", "JUPYTERHUB_API_URL", "JUPYTERHUB_SERVICE_NAME", "KRB5_KTNAME", "HUB_SERVICE_HOST", "HUB_SERVICE_PORT", "SITE_WORD", "NODE"):
        os.environ.pop(e, None)
    v = inst.values
    for who in ("controller", "gateway"):
        c, argv = mounted(inst, who, d)
        env = environment(inst, c, hub_secrets)
        if who == "gateway" and plan.auth == "jupyterhub":
            want = plan.word if plan.token_given else hub_secrets[v["gateway"]["auth"]["jupyterhub"]["apiTokenFromSecretName"], v["gateway"]["auth"]["jupyterhub"]["apiTokenFromSecretKey"]]
            if env.get("JUPYTERHUB_API_TOKEN") != want:
                bad("wrong-setting", f"the gateway is given the token {env.get('JUPYTERHUB_API_TOKEN')!r} of JupyterHub, not {want!r}")
        if who == "gateway":
            for e in v["gateway"]["env"]:
                if e["name"] not in env or ("value" in e and env[e["name"]] != e["value"]):
                    bad("wrong-setting", f"the gateway sees {e['name']}={env.get(e['name'])!r}, not {e}")
            if plan.auth == "jupyterhub" and not plan.hub_url:
                env.update(HUB_SERVICE_HOST="10.3.0.7", HUB_SERVICE_PORT="8081")
        os.environ.update(env)
        if argv[0] != "dask-gateway-server":
            bad("wrong-command", f"the {who} runs {argv}")
        try:
            app = await w.start(who, argv[1:])
        except (core.Violation, core.Inconclusive):
            raise
        except (SystemExit, Exception) as e:
            permitted()
            bad("no-start", f"the {who} does not start with its rendered configuration: {type(e).__name__} {str(e)[:300]}")
        level = app.log_level if isinstance(app.log_level, str) else logging.getLevelName(app.log_level)
        if level.replace("WARNING", "WARN") != v[who]["loglevel"]:
            bad("wrong-setting", f"the {who}'s log level is {level}, not {v[who]['loglevel']}")
        host, port = w.listening.get(who, (None, None))
        ports = [p["containerPort"] for p in c["ports"]]
        if port not in ports or host not in ("", None, "0.0.0.0", "::"):
            bad("wrong-address", f"the {who} listens at {host}:{port}; its pod is known by {ports}")
        for probe in ("livenessProbe", "readinessProbe"):
            g = (c.get(probe) or {}).get("httpGet")
            if g:
                p = {x["name"]: x["containerPort"] for x in c["ports"]}.get(g["port"], g["port"])
                a = await w.ask("GET", g["path"])
                if p != port or a.status != 200:
                    bad("wrong-probe", f"the {who} is probed at {g}: {a.status}; it listens at {port}")
    for trait, key in plan.controller.items():
        if getattr(w.controller, trait) != v["controller"][key]:
            bad("wrong-setting", f"the controller's {trait} is {getattr(w.controller, trait)}, not {v['controller'][key]}")
    if plan.auth == "kerberos" and plan.exp is not None and not os.environ.get("KRB5_KTNAME", "").endswith("/etc/krb5/http.keytab"):
        bad("wrong-setting", f"the keytab is {os.environ.get('KRB5_KTNAME')}")
    gport = w.listening["gateway"][1]
    gpod = [p for p in w.release_pods() if p["metadata"]["labels"][COMP] == "gateway" and p["deployment"] == inst.deployment("gateway")["metadata"]["name"]][0]
    # -- the ways in --
    installed = "traefik" in whos
    shared = str(at(v, "traefik.service.ports.tcp.port")) == "web"
    if installed:
        targs = inst.deployment("traefik")["spec"]["template"]["spec"]["containers"][0]["args"]
        opts = dict(a[2:].partition("=")[::2] for a in targs)
        sel = dict(x.partition("=")[::2] for x in opts["providers.kubernetescrd.labelselector"].split(","))
        points = {}
        for k, x in opts.items():
            m = re.fullmatch(r"entrypoints\.(\w+)\.address", k)
            if m:
                points[int(x.rpartition(":")[2])] = m[1]
        tsvc = inst.get("Service", inst.deployment("traefik")["metadata"]["name"])
        if len(points) != sum(k.endswith(".address") for k in opts):
            bad("entrypoints", f"two entrypoints of Traefik are at one port: {opts}")

        def entry(port):
            res = w.backend_of(plan.namespace, tsvc["metadata"]["name"], port)
            if isinstance(res, str) or res[0]["deployment"] != inst.deployment("traefik")["metadata"]["name"] or res[1] not in points:
                bad("entrypoints", f"port {port} of Traefik's service leads to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1])}, entrypoints are {points}")
            return points[res[1]]

        web_point = entry(at(v, "traefik.service.ports.web.port"))
        tcp_point = web_point if shared else entry(at(v, "traefik.service.ports.tcp.port"))
        res = w.http(sel, "traefik", "/dashboard/")
        if at(v, "traefik.dashboard"):
            if res != "an internal service" or entry(9000) != "traefik" or opts.get("api.dashboard") != "true":
                bad("dashboard", f"Traefik's own dashboard is not to be seen: {res}")
        elif res == "an internal service":
            bad("dashboard", "Traefik's own dashboard is to be seen, which nobody asked for")
    else:
        sel, web_point, tcp_point, opts = {kworld.INSTANCE: w.gateway.backend.gateway_instance}, "web", "web" if shared else "tcp", None
    if w.http({kworld.INSTANCE: "another"}, web_point, "/") != f"no route for / at {web_point}":
        bad("wrong-route", "the routes would be taken by the Traefik of another release")
    prefix = v["gateway"]["prefix"]
    for path in ("/api/v1/clusters/", "/api/v1/clusters/a.b?wait", "/api/health"):
        res = w.http(sel, web_point, (prefix.rstrip("/") + path).split("?")[0])
        if isinstance(res, str) or res[0]["metadata"]["name"] != gpod["metadata"]["name"] or res[1] != gport or res[2] != path.split("?")[0]:
            bad("wrong-route", f"{prefix.rstrip('/') + path} leads to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1:])}, not to {path} of the gateway")
    # -- users --
    user = r.choice(["alice", "bob"])
    for h in sites.wrong(user):
        a = await w.ask("GET", "/api/v1/clusters/", h)
        if a.status < 400:
            bad("not-authenticated", f"a user of {plan.auth} with {h} is answered {a.status}")
    given = some_options(r) if plan.options else {}
    a = await w.ask("POST", "/api/v1/clusters/", sites.good(user), js={"cluster_options": given})
    permitted()
    if a.status != 201:
        bad("refused", f"a cluster of {user} with {sites.good(user)} and {given} is refused: {a.status} {a.body[:300]} {a.exc!r}")
    exp = dict(plan.exp, **handled(given, user))
    if exp["image"] is None:
        exp["image"] = "{name}:{tag}".format(**v["gateway"]["backend"]["image"])
    ns, _, name = a.json["name"].partition(".")
    key = a.json["name"]
    if ns != exp["namespace"]:
        bad("wrong-namespace", f"the cluster is {key}, it belongs in {exp['namespace']}")
    rec = lambda: w.kube.objs["daskclusters"].get((ns, name))
    running = lambda: ((rec() or {}).get("status") or {}).get("phase") == "Running"
    if not await w.until(running, 120):
        permitted()
        bad("never-runs", f"{key} is not running: {rec() and rec().get('status')}")
    permitted()
    for plural in ("daskclusters", "ingressroutes", "ingressroutetcps"):
        for o in w.kube.objs[plural].values():
            inst.fits(o)
    (secret,), (sched,) = w.of("secrets", ns, name), w.of("pods", ns, name, "dask-scheduler")
    env = kworld.env_of(container(sched, "dask-scheduler"))
    res = w.resolve(env.get("DASK_GATEWAY_API_URL") or "")
    if isinstance(res, str) or res[0]["metadata"]["name"] != gpod["metadata"]["name"] or res[1] != gport or res[2] != "/api":
        bad("wrong-api-url", f"the pods look for the gateway at {env.get('DASK_GATEWAY_API_URL')}: {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1:])}")
    url = env["DASK_GATEWAY_API_URL"]
    inst_label = w.controller.gateway_instance
    if w.gateway.backend.gateway_instance != inst_label:
        bad("wrong-setting", "gateway and controller are of different instances")
    lab = dict(w.controller.common_labels)
    token, args = judge_pod(bad, exp, sched, "scheduler", ns, name, secret, url, lab, {}, inst_label)
    a = await w.ask("GET", f"/api/v1/clusters/{key}", sites.good(user))
    if not await w.until(lambda: False, 5):
        a = await w.ask("GET", f"/api/v1/clusters/{key}", sites.good(user))
    if a.status != 200 or a.json["status"] != "RUNNING":
        bad("never-runs", f"{key} runs, and its user is told {a.status} {a.body[:200]}")
    port = lambda opt: int(args[opt].rpartition(":")[2])
    # the dashboard, under the address a client derives, reaches the scheduler with the prefix taken off
    if a.json.get("dashboard_route"):
        for sub in ("/status", "/sse/x"):
            path = prefix.rstrip("/") + a.json["dashboard_route"].removesuffix("/status") + sub
            res = w.http(sel, web_point, path)
            if isinstance(res, str) or res[0]["metadata"]["name"] != sched["metadata"]["name"] or res[1] != port("--dashboard-address") or res[2] != sub:
                bad("wrong-route", f"{path} of {key} leads to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1:])}, not to {sub} of its dashboard")
    else:
        bad("wrong-route", f"{key} has no dashboard: {a.body[:200]}")
    res = w.tcp(sel, tcp_point, f"daskgateway-{key}")
    if isinstance(res, str) or res[0]["metadata"]["name"] != sched["metadata"]["name"] or res[1] != port("--port"):
        bad("wrong-route", f"connections for {key} lead to {res if isinstance(res, str) else (res[0]['metadata']['name'], res[1])}, not to its scheduler")
    if installed and ns != plan.namespace and opts.get("providers.kubernetescrd.allowcrossnamespace") != "true":
        bad("wrong-route", f"Traefik does not follow the middleware of {plan.namespace} from {ns}")
    # workers
    a = await w.ask("POST", f"/api/v1/clusters/{key}/heartbeat", gwmod.token(token.decode()), js={"count": 1, "active_workers": [], "closing_workers": [], "closed_workers": []})
    if a.status != 200:
        bad("heartbeat", f"a heartbeat of {key} is answered {a.status}")
    workers = lambda: w.of("pods", ns, name, "dask-worker")
    if not await w.until(lambda: workers(), 60):
        permitted()
        bad("no-workers", f"{key} has none of its workers")
    for pod in workers():
        judge_pod(bad, exp, pod, "worker", ns, name, secret, url, lab, {}, inst_label)
        ck.count("worker pods judged")
    # the end
    a = await w.ask("DELETE", f"/api/v1/clusters/{key}", sites.good(user))
    left = lambda: [p for p in ("pods", "services", "ingressroutes", "ingressroutetcps", "secrets") if w.of(p, ns, name)]
    if a.status not in (200, 204) or not await w.until(lambda: not left(), 200):
        permitted()
        bad("left-behind", f"the stop of {key} is answered {a.status} and leaves {left()}")
    age, period = v["controller"]["completedClusterMaxAge"], v["controller"]["completedClusterCleanupPeriod"]
    if age + period < 5000:
        if not await w.until(lambda: rec() is None, age + period + 120, step=5):
            permitted()
            bad("left-behind", f"the record of {key} is still there, {age + period} s after its end")
        ck.count("records removed")
    permitted()
    ck.count("clusters run")
    ck.count(f"users of {plan.auth}")
    await w.stop()
    ck.case([plan.values, plan.release, plan.namespace], nontrivial=True, sample={"release": plan.release, "auth": plan.auth, "installed": whos} if i < 3 else None)


def body(ck):
    logging.disable(logging.CRITICAL)
    kworld.patch()
    chart = chartmod.Chart()
    try:
        ck.pool(lambda i: case(ck, chart, i), ck.budget(30, 900))
    finally:
        chart.close()
    ck.need(**{"clusters run": 60, "worker pods judged": 60, "calls authorized": 1000, "users of simple": 5, "users of jupyterhub": 5, "users of kerberos": 3, "users of custom": 3, "records removed": 3})


if __name__ == "__main__":
    core.main("C33", RULE, body, assumptions=[
        "Helm's functions behave as those of mon/helm/render.go, on Go's own template engine",
        "Kubernetes and Traefik behave as simulated; no image is pulled",
    ])
