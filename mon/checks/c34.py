"""C34: the client library connects where, and as whom, its configuration says."""
import asyncio
import base64
import logging
import os
import shutil
import socket
import ssl
import stat
import sys
import tempfile
import types

from mon import core, vloop, vnet

RULE = (
    "the real client library with random settings, each given as an argument, in the configuration, as a template of environment variables or not at "
    "all, against HTTP servers and proxies on an in-memory network that note where each request arrives, through what and with which credentials; and "
    "its scheduler connections, over real sockets, against TLS servers that note the server name asked for; non-trivial: a request or connection was "
    "answered; distinct by the settings"
)
HOSTS = ["gw.example", "10.2.3.4", "sub.gw.example"]


def chance(r, p):
    return r.random() < p


class Setting:
    """One setting, by some of the ways there are to give it; the argument goes first, then the configuration."""

    def __init__(self, r, name, values, arg=0.35, conf=0.5, template=True):
        self.value, self.arg, self.conf = None, None, None
        if chance(r, conf):
            v = r.choice(values)
            self.value = self.conf = v
            if template and chance(r, 0.4):
                if isinstance(v, int):
                    k = 0
                    rest = str(v)
                else:
                    k = r.randint(0, len(v))
                    rest = v[k:]
                var = f"VT_{name.upper()}_{r.randint(0, 99)}"
                os.environ[var] = rest
                self.conf = (v[:k] if not isinstance(v, int) else "") + "{" + var + "}"
        if chance(r, arg):
            self.value = self.arg = r.choice(values)


def netloc_of(address):
    rest = address.split("://", 1)[1].split("/", 1)[0]
    return rest


def host_port(netloc, default):
    if netloc.startswith("["):
        host, _, port = netloc[1:].partition("]")
        return f"[{host}]", int(port[1:]) if port else default
    host, _, port = netloc.partition(":")
    return host, int(port) if port else default


class Server:
    """A gateway, as far as the client is concerned; notes what reaches it."""

    def __init__(self, r):
        self.r, self.log, self.n = r, [], 0
        self.expect = None  # the Authorization header accepted
        self.posted = []
        self.spec = None

    def app(self, where):
        from aiohttp import web

        async def handle(request):
            target = request.raw_path
            self.log.append((where, request.headers.get("Host"), target, request.method, request.headers.get("Authorization"), request.headers.get("Proxy-Authorization")))
            if request.headers.get("Authorization") != self.expect:
                return web.json_response({}, status=401, headers={"WWW-Authenticate": "x"})
            path = request.path
            if path.endswith("/api/v1/options"):
                return web.json_response({"cluster_options": self.spec})
            if request.method == "POST" and path.endswith("/api/v1/clusters/"):
                self.posted.append((await request.json())["cluster_options"])
                self.n += 1
                return web.json_response({"name": f"c{self.n}"}, status=201)
            if path.endswith("/api/version"):
                return web.json_response({"version": "1"})
            info = lambda name, running: {"name": name, "dashboard_route": f"/clusters/{name}/status" if running else None, "status": "RUNNING" if running else "PENDING", "start_time": 1000, "stop_time": None, "options": {}, "tls_cert": None, "tls_key": None}
            if path.endswith("/api/v1/clusters/"):
                return web.json_response({"l1": info("l1", True), "l2": info("l2", False)})
            return web.json_response(info(path.rpartition("/")[2], True))

        async def low(request):
            return await handle(request)

        return low


def case(ck, i):
    r = ck.rng(i)
    keep = dict(os.environ)
    import dask

    for k in list(os.environ):
        if k.lower() in ("http_proxy", "https_proxy", "no_proxy", "all_proxy", "ftp_proxy") or k.startswith("JUPYTERHUB"):
            del os.environ[k]
    try:
        with dask.config.set({}):
            vloop.run(lambda loop: run(ck, i, r, loop), spin_limit=50_000)
    finally:
        os.environ.clear()
        os.environ.update(keep)
        sys.modules.pop("verif_auth34", None)


async def run(ck, i, r, loop):
    import dask
    from dask_gateway import BasicAuth, Gateway, JupyterHubAuth
    from dask_gateway.auth import GatewayAuth
    from dask_gateway_server import options as sopts

    net = vnet.Net(loop)
    srv = Server(r)
    spec = sopts.Options(sopts.String("image", default="srv"), sopts.Integer("cores", default=1), sopts.Bool("gpu", default=False), sopts.Mapping("env", default={}))
    srv.spec = spec.get_specification()
    host = r.choice(HOSTS)
    places = [f"http://{host}:8000", f"http://{host}:8000/", f"http://{host}:8000/services/dg", f"http://{host}", f"http://{host}/a/b/", "http://other.example:9000/x", "http://[fd00::7]:8000/p"]
    for p in places:
        h, port = host_port(netloc_of(p), 80)
        try:
            vnet.serve(net, h.strip("[]"), port, srv.app(f"{h}:{port}"))
        except Exception:
            pass
    address = Setting(r, "address", places, conf=0.9)
    proxy = Setting(r, "proxy", [8786, 443, 10000, f"tls://{host}:8786", "gateway://px.example:99", "px.example:98", "tcp://10.1.1.1:1", "tls://[fd00::9]:8786"])
    public = Setting(r, "public", ["https://pub.example", "https://pub.example/x/", "http://pub:1/"])
    cfg = {"gateway.address": address.conf, "gateway.proxy-address": proxy.conf, "gateway.public-address": public.conf}
    cfg = {k: v for k, v in cfg.items() if v is not None}
    kw = {k: v for k, v in (("address", address.arg), ("proxy_address", proxy.arg), ("public_address", public.arg)) if v is not None}
    # who: by the configured kind, or by an argument
    os.environ["LOGNAME"] = login = r.choice(["me", "login-name"])
    os.environ["WHO"], os.environ["WORD"] = r.choice(["alice", "bob"]), r.choice(["pw", "w:x y"])
    m = types.ModuleType("verif_auth34")

    class Custom(GatewayAuth):
        def __init__(self, badge="none", level=0):
            self.badge, self.level = badge, level

        def pre_request(self, resp):
            return {"Authorization": f"badge {self.badge} {self.level}"}, None

    m.Custom = Custom
    sys.modules["verif_auth34"] = m
    basic = lambda u, p: "Basic " + base64.b64encode(f"{u}:{p}".encode()).decode()
    kind = r.choice(["default", "default", "basic", "jupyterhub", "custom"])
    kwargs, args_expect = {}, None
    if kind in ("default", "basic"):
        user, word = login, ""
        if chance(r, 0.6):
            kwargs["username"] = r.choice(["{WHO}", "carol"])
            user = kwargs["username"].replace("{WHO}", os.environ["WHO"])
        if chance(r, 0.6):
            kwargs["password"] = r.choice(["{WORD}", "pw2", "x-{WORD}"])
            word = kwargs["password"].replace("{WORD}", os.environ["WORD"])
        srv.expect = basic(user, word)
    elif kind == "jupyterhub":
        os.environ["JUPYTERHUB_API_TOKEN"] = "hub-env"
        srv.expect = "jupyterhub hub-env"
        if chance(r, 0.5):
            kwargs["api_token"] = r.choice(["{WHO}-tok", "plain-tok"])
            srv.expect = "jupyterhub " + kwargs["api_token"].replace("{WHO}", os.environ["WHO"])
    else:
        srv.expect = "badge none 0"
        if chance(r, 0.7):
            kwargs.update(badge=r.choice(["{WHO}", "b1"]), level=r.choice([3, 7]))
            srv.expect = f"badge {kwargs['badge'].replace('{WHO}', os.environ['WHO'])} {kwargs['level']}"
    path = {"basic": "basic", "jupyterhub": "jupyterhub", "custom": "verif_auth34.Custom"}
    if kind != "default":
        if chance(r, 0.6):
            cfg["gateway.auth.type"] = path[kind]
        else:
            cfg["gateway.auth.type"] = r.choice(["basic", "jupyterhub", "kerberos", "verif_auth34.Custom", "no.such.Thing"])
            kw["auth"] = r.choice([path[kind], {"basic": BasicAuth, "jupyterhub": JupyterHubAuth, "custom": Custom}[kind]])
    if kwargs:
        cfg["gateway.auth.kwargs"] = kwargs
    if chance(r, 0.15):
        kw["auth"], srv.expect = BasicAuth("given", "g"), basic("given", "g")
    # through what
    through, want_pauth = None, None
    mode = r.choice(["default", "default", "true", "off", "given", "given-template"])
    envproxy = chance(r, 0.4)
    creds = chance(r, 0.5)
    url = lambda host: f"http://{'pu:p%40w@' if creds else ''}{host}:3128"
    for h in ("env.proxy", "given.proxy", "wrong.proxy"):
        vnet.serve(net, h, 3128, srv.app(h))
    if envproxy:
        os.environ[r.choice(["http_proxy", "HTTP_PROXY"])] = url("env.proxy")
        os.environ["https_proxy"] = "http://wrong.proxy:3128"
    if mode == "true":
        cfg["gateway.http-client.proxy"] = True
    elif mode == "off":
        cfg["gateway.http-client.proxy"] = r.choice([False, None])
    elif mode == "given":
        cfg["gateway.http-client.proxy"] = url("given.proxy")
    elif mode == "given-template":
        os.environ["PROXY_HOST"] = "given.proxy"
        cfg["gateway.http-client.proxy"] = url("{PROXY_HOST}")
    if mode in ("given", "given-template"):
        through = "given.proxy"
    elif mode in ("default", "true") and envproxy:
        through = "env.proxy"
    if through and creds:
        want_pauth = basic("pu", "p@w")
    # the clusters asked for
    local, local_value = {}, {}
    if chance(r, 0.6):
        for k, v in (("image", r.choice(["img-{WHO}", "mine"])), ("cores", 4), ("gpu", True), ("env", {"K": "v"})):
            if chance(r, 0.6):
                local[k] = v
                local_value[k] = v.replace("{WHO}", os.environ["WHO"]) if isinstance(v, str) else v
        cfg["gateway.cluster.options"] = local
    witness = {"config": {k: str(v) for k, v in cfg.items()}, "arguments": {k: str(v) for k, v in kw.items()}, "environment": {k: v for k, v in os.environ.items() if k.startswith("VT_") or "proxy" in k.lower()}}

    def bad(key, msg):
        raise core.Violation(key, msg, witness)

    with dask.config.set(cfg):
        if address.value is None:
            try:
                Gateway(asynchronous=True, **kw)
            except ValueError:
                ck.count("refused without an address")
                ck.case(["none", sorted(kw)], nontrivial=False)
                return
            bad("no-address", "a Gateway without any address is made")
        want_host, want_port = host_port(netloc_of(address.value), 80)
        base = "/" + address.value.split("://", 1)[1].partition("/")[2].strip("/")
        base = "" if base == "/" else base
        want_public = (public.value or address.value).rstrip("/")
        if proxy.value is None:
            want_proxy = f"{want_host}:{want_port}"
        elif isinstance(proxy.value, int):
            want_proxy = f"{want_host}:{proxy.value}"
        else:
            want_proxy = proxy.value.split("://")[-1]
        try:
            g = Gateway(asynchronous=True, **kw)
        except Exception as e:
            bad("refused", f"a Gateway of these settings is refused: {type(e).__name__} {e}")
        sent = 0

        def judge(op, route, method="GET"):
            nonlocal sent
            new = srv.log[sent:]
            sent = len(srv.log)
            if not new:
                bad("not-asked", f"{op} asks nothing")
            for where, hosthdr, target, meth, auth, pauth in new:
                exp_where = through or f"{want_host}:{want_port}"
                exp_target = base + route if not through else f"http://{want_host}{'' if want_port == 80 else ':' + str(want_port)}{base}{route}"
                if where != exp_where:
                    bad("wrong-place", f"{op} is sent to {where}, not to {exp_where}")
                if (target, meth) != (exp_target, method):
                    bad("wrong-request", f"{op} asks {meth} {target}, not {method} {exp_target}")
                if pauth != (want_pauth if through else None):
                    bad("wrong-proxy-credentials", f"{op} is sent with {pauth} through {through}")
                if auth not in (None, srv.expect):
                    bad("wrong-credentials", f"{op} is sent with {auth}, not {srv.expect}")

        async def do(op, coro, route, method="GET"):
            try:
                out = await asyncio.wait_for(coro, 200)
            except Exception as e:
                judge(op, route, method)
                bad("failed", f"{op} fails: {type(e).__name__} {e}")
            judge(op, route, method)
            ck.count("requests judged")
            return out

        try:
            rep = await do("get_cluster", g.get_cluster("abc"), "/api/v1/clusters/abc")
            if rep.scheduler_address != f"gateway://{want_proxy}/abc":
                bad("wrong-scheduler", f"the scheduler is said to be at {rep.scheduler_address}, not gateway://{want_proxy}/abc")
            if rep.dashboard_link != f"{want_public}/clusters/abc/status":
                bad("wrong-dashboard", f"the dashboard is said to be at {rep.dashboard_link}, not {want_public}/clusters/abc/status")
            for _ in range(r.randint(1, 4)):
                op = r.choice(["list", "options", "server-options", "submit", "submit-options", "versions"])
                if op == "list":
                    out = await do(op, g.list_clusters(), "/api/v1/clusters/")
                    got = {c.name: (c.scheduler_address, c.dashboard_link) for c in out}
                    if got != {"l1": (f"gateway://{want_proxy}/l1", f"{want_public}/clusters/l1/status"), "l2": (None, None)}:
                        bad("wrong-scheduler", f"the clusters are {got}")
                elif op == "options":
                    out = await do(op, g.cluster_options(), "/api/v1/options")
                    if dict(out) != dict({"image": "srv", "cores": 1, "gpu": False, "env": {}}, **local_value):
                        bad("wrong-options", f"the options are {dict(out)}; the configuration says {local}")
                elif op == "server-options":
                    out = await do(op, g.cluster_options(use_local_defaults=False), "/api/v1/options")
                    if dict(out) != {"image": "srv", "cores": 1, "gpu": False, "env": {}}:
                        bad("wrong-options", f"the server's options are {dict(out)}")
                elif op == "submit":
                    over = {k: v for k, v in (("image", "over"), ("cores", 9), ("gpu", False)) if chance(r, 0.4)}
                    await do(op, g.submit(**over), "/api/v1/clusters/", "POST")
                    if srv.posted[-1] != dict(local_value, **over):
                        bad("wrong-options", f"a cluster is asked for with {srv.posted[-1]}; configured are {local}, given {over}")
                elif op == "submit-options":
                    opts = await do(op, g.cluster_options(use_local_defaults=chance(r, 0.5)), "/api/v1/options")
                    opts.image = "set"
                    want = dict(opts)
                    over = {"cores": 9} if chance(r, 0.5) else {}
                    await do(op, g.submit(opts, **over), "/api/v1/clusters/", "POST")
                    if srv.posted[-1] != dict(want, **over):
                        bad("wrong-options", f"a cluster is asked for with {srv.posted[-1]}; set are {want}, given {over}")
                else:
                    await do(op, g._get_versions(), "/api/version")
            if dask.config.get("gateway.cluster.options") != local:
                bad("config-changed", f"the configuration is changed to {dask.config.get('gateway.cluster.options')}")
        finally:
            await g.close()
    for k, s in (("address", address), ("proxy", proxy), ("public", public)):
        ck.count(f"{k} by " + ("argument" if s.arg is not None else "template" if s.conf is not None and "{" in str(s.conf) else "configuration" if s.conf is not None else "default"))
    ck.count(f"authenticated as configured: {kind}")
    if through:
        ck.count("through a proxy")
    ck.case([sorted(cfg), sorted(kw), kind, mode, envproxy, address.value, str(proxy.value), public.value], nontrivial=True, sample=witness if i < 2 else None)


# -- scheduler connections ------------------------------------------------------------
def keypair(name):
    from dask_gateway_server.tls import new_keypair

    return [x.decode() if isinstance(x, bytes) else x for x in new_keypair(name)]


def real(ck, i):
    r = ck.rng(f"real{i}")
    d = tempfile.mkdtemp(prefix="verif-c34-")
    keep = tempfile.tempdir
    tempfile.tempdir = os.path.join(d, "tmp")
    os.mkdir(tempfile.tempdir)
    try:
        asyncio.run(asyncio.wait_for(connections(ck, i, r, d), 60))
    finally:
        tempfile.tempdir = keep
        shutil.rmtree(d, ignore_errors=True)


async def connections(ck, i, r, d):
    from dask_gateway import comm as _  # noqa: F401
    from dask_gateway.client import GatewaySecurity
    from distributed.comm import connect, listen

    name, other = r.choice(["c1", "ns.abc123", "f" * 32]), "another"
    certs = {n: keypair(n) for n in (name, other)}
    looked = []
    orig = ssl.SSLContext.load_cert_chain

    def load(self, certfile, keyfile=None, password=None):
        for p in (certfile, keyfile):
            if p and not p.startswith(os.path.join(d, "srv")):
                top = os.path.dirname(p)
                if stat.S_IMODE(os.stat(top).st_mode) & 0o077 and stat.S_IMODE(os.stat(p).st_mode) & 0o077:
                    raise core.Violation("key-exposed", f"the credentials lie in {p}, open to others", {})
                looked.append(p)
        return orig(self, certfile, keyfile, password)

    asked, servers = [], []
    hosts = ["127.0.0.1"]
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(("::1", 0))
        s.close()
        hosts.append("[::1]")
    except OSError:
        pass
    host = r.choice(hosts)

    async def serve(owner, log):
        cert, key = certs[owner]
        base = os.path.join(d, f"srv-{owner}")
        with open(base + ".crt", "w") as f:
            f.write(cert)
        with open(base + ".pem", "w") as f:
            f.write(key)
        ctx = ssl.create_default_context(ssl.Purpose.CLIENT_AUTH, cafile=base + ".crt")
        ctx.verify_mode = ssl.CERT_REQUIRED
        orig(ctx, base + ".crt", base + ".pem")
        ctx.sni_callback = lambda sock, server_name, c: log.append(server_name)

        async def handle(comm):
            try:
                while True:
                    await comm.write({"echo": await comm.read(), "by": owner})
            except Exception:
                pass

        listener = await listen(f"tls://{host}:0", handle, ssl_context=ctx)
        servers.append(listener)
        return int(listener.contact_address.rpartition(":")[2])

    ssl.SSLContext.load_cert_chain = load
    try:
        port = await serve(name, asked)
        wrong_port = await serve(other, [])
        sec = GatewaySecurity(tls_key=certs[name][1], tls_cert=certs[name][0])
        if certs[name][1].split("\n")[2] in repr(sec):
            raise core.Violation("key-shown", f"the key is shown by {sec!r}", {})
        try:
            args = sec.get_connection_args("client")
        except Exception as e:
            raise core.Violation("not-connected", f"no connection can be made as {name}: {type(e).__name__} {e}", {})
        if os.listdir(tempfile.tempdir):
            raise core.Violation("key-left", f"the credentials are left behind in {os.listdir(tempfile.tempdir)}", {})
        if not looked:
            raise core.Inconclusive("the credentials were not seen being loaded")
        address = f"gateway://{host}:{port}/{name}"
        try:
            c = await connect(address, timeout=20, **args)
            n = r.choice([1, 100, 200_000])
            await c.write({"x": "y" * n})
            got = await c.read()
            await c.close()
        except Exception as e:
            raise core.Violation("not-connected", f"{address} is not connected to: {type(e).__name__} {e}", {"address": address})
        if got["by"] != name or got["echo"]["x"] != "y" * n:
            raise core.Violation("garbled", f"{str(got)[:100]} comes back", {"address": address})
        if asked[-1] != f"daskgateway-{name}":
            raise core.Violation("wrong-name", f"the connection for {name} asks for {asked[-1]}", {"address": address})
        ck.count("connections made")
        # what is not that cluster, is not connected to
        for what, addr, a in (
            ("another cluster's scheduler", f"gateway://{host}:{wrong_port}/{name}", args),
            ("a scheduler, with another's credentials", address, GatewaySecurity(tls_key=certs[other][1], tls_cert=certs[other][0]).get_connection_args("client")),
            ("a scheduler, without credentials", address, {}),
            ("a scheduler, without a name", f"gateway://{host}:{port}", args),
        ):
            try:
                c = await connect(addr, timeout=1, **a)
            except Exception:
                ck.count("connections refused")
                continue
            try:
                await asyncio.wait_for(c.write({"x": 1}), 5)
                ans = await asyncio.wait_for(c.read(), 5)
            except Exception:
                ck.count("connections refused")
                continue
            finally:
                c.abort()
            raise core.Violation("connected", f"{what} answers {ans}", {"address": addr})
        if os.listdir(tempfile.tempdir):
            raise core.Violation("key-left", f"the credentials are left behind in {os.listdir(tempfile.tempdir)}", {})
    finally:
        ssl.SSLContext.load_cert_chain = orig
        for s in servers:
            s.stop()
    ck.case(["connection", name, host, i], nontrivial=True)


def body(ck):
    logging.disable(logging.CRITICAL)
    vnet.patch() if hasattr(vnet, "patch") else None
    ck.pool(lambda i: case(ck, i), ck.budget(20, 600))
    ck.pool(lambda i: real(ck, i), ck.budget(10, 200))
    ck.need(**{"requests judged": 1000, "through a proxy": 50, "address by template": 20, "proxy by template": 20, "public by template": 20, "connections made": 5, "connections refused": 15})


if __name__ == "__main__":
    core.main("C34", RULE, body, assumptions=["dask's configuration, aiohttp and urllib's reading of proxy variables are trusted"])
