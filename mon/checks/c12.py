"""C12: authentication identifies exactly the user whose credentials were accepted."""
import asyncio
import base64
import json
import sys
import types

from aiohttp import web
from traitlets.config import Config

from mon import core, dbworld, gw as gwmod, vloop, vnet

RULE = (
    "sequences of requests, some concurrent, to the real application by clients with good, bad, "
    "malformed and foreign credentials and fresh, expired, altered and foreign cookies, over minutes "
    "of virtual time, under each authenticator (password and no password; a scripted JupyterHub on an "
    "in-memory network that fails in every way; a scripted Kerberos library); the user each handler "
    "sees is compared with a model of accepted credentials and issued cookies; non-trivial: at least "
    "one cookie expired or one refusal; distinct by the sequence of (credentials, cookie state, answer)"
)
EPS = 0.01


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode()).decode()


class Simple:
    cls = "dask_gateway_server.auth.SimpleAuthenticator"

    def __init__(self, r):
        self.r = r
        self.password = r.choice([None, None, "", "secret", "se:cret", " p "])
        self.names = ["alice", "bob", "Bob", "", "a b", "alic", "x" * 300]

    def config(self, c):
        if self.password is not None:
            c.SimpleAuthenticator.password = self.password

    async def start(self, net):
        pass

    def credentials(self):
        """(headers, accepted as (name, groups, admin) or None, kind)."""
        r = self.r
        u = r.choice(self.names)
        x = r.random()
        if x < 0.5:
            good = self.password or r.choice(["", "x", "a:b"])
            return {"Authorization": "Basic " + b64(f"{u}:{good}")}, (u, set(), False), "good"
        if x < 0.7:
            pw = r.choice(["", "wrong", (self.password or "") + "x", (self.password or "x")[:-1], "SECRET", ":", "None"])
            if self.password and pw != self.password:
                return {"Authorization": "Basic " + b64(f"{u}:{pw}")}, None, "bad"
            return {"Authorization": "Basic " + b64(f"{u}:{pw}")}, (u, set(), False), "good"
        good = b64(f"{u}:{self.password or 'x'}")
        return {"Authorization": r.choice([
            "Basic", "Basic ", good, "Basic !!!", "Basic " + b64("nocolon"), "Basic " + b64(""), "Basic " + good[:-1] + "*", "Bearer " + good, "Negotiate " + good,
            "Basic " + b64(b"\xff\xfe\x80"), "jupyterhub " + good, "Basic\t", "token", "BasicX " + good, " ", "", "Basic a",
        ])}, None, "malformed"


class Hub:
    cls = "dask_gateway_server.auth.JupyterHubAuthenticator"

    def __init__(self, r):
        self.r = r
        self.scoped = r.choice([True, False])
        self.service = "gw"
        self.tokens = {}
        who = [("user", "alice"), ("user", "bob"), ("service", "alice"), ("user", "service:alice"), ("service", "user:bob"), ("user", "user:bob"), ("user", "a:b"), ("service", "x"), ("user", "ALICE")]
        for k in range(10):
            kind, name = r.choice(who)
            self.tokens[f"tok{k}{r.getrandbits(30)}"] = dict(
                kind=kind, name=name, groups=r.choice([[], ["g"], ["g", "h"]]), admin=r.random() < 0.3,
                scopes=r.choice([["access:services"], ["access:services!service=gw"], ["x", "access:services!service=gw"], ["access:services!service=gwx"], ["access:services!service="], [], ["access:service"], ["access:services!service=gw/x"]]),
                fault=r.choice([None] * 4 + ["403", "404", "401", "400", "500", "503", "junk", "list", "noname", "nokind", "nullscopes", "strscopes", "drop", "cut", "hang", "empty"]),
                slow=r.choice([0, 0, 0.1, 3]),
            )
        self.down = False
        self.names = {}

    def config(self, c):
        c.JupyterHubAuthenticator.jupyterhub_api_token = "gateway-own"
        c.JupyterHubAuthenticator.jupyterhub_api_url = "http://hub.local:8081/hub/api"
        if self.scoped:
            c.JupyterHubAuthenticator.jupyterhub_service_name = self.service
        else:
            c.JupyterHubAuthenticator.use_service_access_scopes = False

    async def start(self, net):
        vnet.serve(net, "hub.local", 8081, self.handle)
        net.fault = lambda addr: self.down and self.r.choice(["refuse", "reset"]) or None

    async def handle(self, req):
        auth = req.headers.get("Authorization", "")
        t = self.tokens.get(auth[6:]) if auth.startswith("token ") else None
        h = {"Connection": "close"}
        if req.path != "/hub/api/user" or t is None:
            return web.json_response({"message": "Forbidden"}, status=403, headers=h)
        await asyncio.sleep(t["slow"])
        f = t["fault"]
        data = dict(kind=t["kind"], name=t["name"], groups=t["groups"], admin=t["admin"], scopes=t["scopes"])
        if t["kind"] == "service":
            del data["groups"]
        if f is None:
            return web.json_response(data, headers=h)
        if f.isdigit():
            # A failure carries a believable body all the same
            return web.json_response(data, status=int(f), headers=h)
        if f == "hang":
            await asyncio.sleep(1e6)
        if f in ("drop", "cut"):
            if f == "cut":
                req.transport.write(b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n{"name": "alice", "kind": "user"')
            req.transport.abort()
            return web.Response(headers=h)
        if f in ("junk", "empty"):
            return web.Response(body=b"alice" if f == "junk" else b"", content_type="application/json", headers=h)
        if f == "list":
            return web.json_response([data], headers=h)
        if f == "noname":
            del data["name"]
        if f == "nokind":
            del data["kind"]
        if f == "nullscopes":
            data["scopes"] = None
        if f == "strscopes":
            data["scopes"] = "access:services"
        return web.json_response(data, headers=h)

    def change(self):
        r = self.r
        for t in self.tokens.values():
            if r.random() < 0.06:
                t["fault"] = r.choice([None, None, "403", "404", "500"])
            if r.random() < 0.02:
                t["groups"], t["admin"] = r.choice([[], ["z"]]), r.random() < 0.5
        if r.random() < 0.1:
            self.down = not self.down

    def credentials(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            tok = r.choice(list(self.tokens))
            t = self.tokens[tok]
            h = {"Authorization": "jupyterhub " + tok}
            if self.down:
                return h, None, "down"
            ok_scope = not self.scoped or {"access:services", "access:services!service=gw"} & set(t["scopes"])
            if t["fault"] is not None and not (t["fault"] == "nullscopes" and not self.scoped) and not (t["fault"] == "strscopes" and not self.scoped):
                return h, None, "hub-" + t["fault"]
            if not ok_scope or t["fault"] is not None and self.scoped:
                return h, None, "bad"
            groups = set() if t["kind"] == "service" else set(t["groups"])
            return h, ((t["kind"], t["name"]), groups, t["admin"]), "good"
        tok = r.choice(list(self.tokens))
        h = r.choice([
            "jupyterhub", "jupyterhub ", "jupyterhub nope", "jupyterhub " + tok[:-1], "Basic " + b64("alice:x"), "Bearer " + tok, "token " + tok,
            "", " ", "jupyterhub alice", tok, "jupyterhub gateway-own",
        ])
        # A token is refused by the hub in its own way; no token never gets there
        scheme, _, token = h.partition(" ")
        return {"Authorization": h}, None, "hub-unknown" if scheme == "jupyterhub" and token else "malformed"


class Kerberos:
    cls = "dask_gateway_server.auth.KerberosAuthenticator"

    def __init__(self, r):
        self.r = r
        self.live = 0
        self.tickets = {f"tick{k}{r.getrandbits(30)}": r.choice(["alice@R", "bob@R", "al/admin@R", "alice@R", "x", "gsserr", "rc"]) for k in range(6)}
        m = types.ModuleType("kerberos")
        m.AUTH_GSS_COMPLETE = 1

        class GSSError(Exception):
            pass

        m.GSSError = GSSError

        def init(service):
            self.live += 1
            return 1, {"service": service}

        def step(ctx, key):
            p = self.tickets.get(key)
            if p is None or p == "gsserr":
                raise GSSError("no")
            if p == "rc":
                return 0
            ctx["principal"], ctx["key"] = p, key
            return 1

        def clean(ctx):
            self.live -= 1
            ctx.clear()

        m.authGSSServerInit, m.authGSSServerStep, m.authGSSServerClean = init, step, clean
        m.authGSSServerResponse = lambda ctx: "resp-" + ctx["key"]
        m.authGSSServerUserName = lambda ctx: ctx["principal"]
        sys.modules["kerberos"] = m

    def config(self, c):
        pass

    async def start(self, net):
        pass

    def credentials(self):
        r = self.r
        x = r.random()
        tick = r.choice(list(self.tickets))
        if x < 0.65:
            p = self.tickets[tick]
            h = {"Authorization": "Negotiate " + tick}
            if p in ("gsserr", "rc"):
                return h, None, "krb"
            return h, (p.split("@")[0], set(), False), "good"
        h = r.choice([
            "Negotiate", "Negotiate ", "Negotiate nope", "Negotiate " + tick[:-1], "Basic " + b64("alice:x"), "negotiate" + tick, "", " ", tick, "Kerberos " + tick,
        ])
        return {"Authorization": h}, None, "krb" if h.split(" ")[0] == "Negotiate" else "malformed"


class Model:
    def __init__(self, auth, max_age):
        self.auth, self.max_age = auth, max_age
        self.issued = {}  # cookie -> dict(user, first, last)
        self.accepted = {}  # user -> list of (time, groups, admin)
        self.names = {}  # username -> identity


async def one(ck, r, sim, a, m, seen, hist, cookie_name):
    headers, accept, kind = a.credentials() if r.random() < 0.7 else ({}, None, "none")
    cookie, ckind = None, "no"
    if m.issued and r.random() < 0.6:
        cookie = r.choice(list(m.issued)[-8:])
        x = r.random()
        if x < 0.2:
            cookie = r.choice([cookie[:-1], cookie + "0", cookie.upper(), cookie[::-1], "", "alice", "None"])
            ckind = "altered"
        jar = [f"{cookie_name}={cookie}"]
        if x > 0.9:
            jar = [f"x{cookie_name}={cookie}"]
            ckind = "misnamed"
        if r.random() < 0.2:
            jar.insert(r.randint(0, 1), "other=1")
        headers = dict(headers, Cookie="; ".join(jar))
    elif r.random() < 0.1:
        headers = dict(headers, Cookie=r.choice([f"{cookie_name}=nope", "x=y", ";;;", f"{cookie_name}="]))
        ckind = "unknown"
    t0 = sim.loop.time()
    rid = f"r{len(hist)}-{r.getrandbits(40)}"
    headers["X-Verif"] = rid
    resp = await sim.request("GET", "/api/v1/options", headers)
    t1 = sim.loop.time()
    got = seen.pop(rid, None)
    entry = (kind, ckind, resp.status, got and got[0])
    hist.append((round(t0, 2), round(t1, 2), kind, ckind, {k: v[:70] for k, v in headers.items()}, resp.status, repr(resp.exc) if resp.exc else None, got and got[0]))
    ck.count("requests")
    ck.count("with_" + kind.split("-")[0])

    def bad(key, msg):
        raise core.Violation(key, f"{type(a).__name__}: {headers} ({kind}, cookie {ckind}) answered {resp.status} {resp.exc!r}; {msg}", hist[-15:])

    info = m.issued.get(cookie) if ckind == "no" and cookie else None
    fresh = info and t0 - info["first"] < m.max_age - EPS
    usable = info and t0 - info["last"] <= m.max_age + EPS
    if info:
        ck.count("cookies_fresh" if fresh else "cookies_expired" if not usable else "cookies_old")
    served = resp.status == 200
    if served != (got is not None):
        bad("handler-and-answer", f"handler saw {got}")
    # Who may it be
    if served:
        name, groups, admin = got
        ok = False
        if accept is not None:
            want, g, adm = accept
            if same(a, m, want, name, not usable) and g == groups and adm == admin:
                ok = True
        if not ok and usable and info["user"] == name:
            # The user as known when credentials were last accepted
            old = [x for x in m.accepted.get(name, []) if t0 - x[0] <= 2 * m.max_age + EPS]
            ok = any(x[1] == groups and x[2] == admin for x in old)
            if not ok:
                bad("cookie-other-rights", f"served as {got}, credentials were accepted with {m.accepted.get(name)}")
        if not ok:
            what = "an expired cookie of that user" if info and info["user"] == name else "neither"
            bad("wrong-user", f"served as {got}; credentials stand for {accept}, the cookie for {info}: {what}")
        ck.count("served")
    else:
        ck.count("refused")
        if accept is not None and not (info and fresh):
            bad("accepted-not-served", f"the credentials are those of {accept}")
        if fresh:
            bad("fresh-cookie-refused", f"the cookie was issued to {info['user']} {t0 - info['first']:.2f} s ago")
        strict = kind in ("none", "bad", "malformed")
        if strict and (resp.status != 401 or resp.exc is not None):
            bad("malformed-not-unauthorised" if kind == "malformed" else "bad-not-unauthorised", "not refused as unauthorised")
        if resp.status < 400:
            bad("not-refused", "no user, but not refused")
    # Cookies issued
    for k, v in (resp.cookies if resp.exc is None else {}).items():
        if k != cookie_name:
            continue
        if not served:
            bad("cookie-for-nobody", f"issued {v}")
        x = m.issued.setdefault(v, dict(user=got[0], first=t1, last=t1))
        if x["user"] != got[0]:
            bad("cookie-of-other", f"issued to {got[0]} the cookie of {x['user']}")
        x["last"] = t1
        m.issued[v] = m.issued.pop(v)
        if len(v) < 16:
            bad("cookie-guessable", f"issued {v!r}")
        ck.count("cookies_issued")
    if served and accept is not None and same(a, m, accept[0], got[0], not usable):
        m.accepted.setdefault(got[0], []).append((t1, got[1], got[2]))
        if isinstance(a, Kerberos) and not (info and usable):
            if resp.headers.get("WWW-Authenticate") != "Negotiate resp-" + headers["Authorization"].split()[1]:
                bad("negotiate-answer", f"WWW-Authenticate is {resp.headers.get('WWW-Authenticate')}")
    return entry


def same(a, m, want, name, sure):
    """Does this user name stand for this identity, and no other?"""
    if not isinstance(a, Hub):
        return want == name
    kind, plain = want
    if kind == "user" and ":" not in plain:
        return name == plain
    if not sure:
        # A cookie may have named the user
        return m.names.get(name) in (None, want)
    if m.names.setdefault(name, want) != want:
        raise core.Violation("identities-confused", f"{want} and {m.names[name]} are both user {name!r}", None)
    if any(name == p and k == "user" and ":" not in p for k, p in [want] + [(t["kind"], t["name"]) for t in a.tokens.values()] if (k, p) != want):
        raise core.Violation("identities-confused", f"{want} is user {name!r}, whose name it is", None)
    return all(n == name for n, w in m.names.items() if w == want)


def case(ck, i):
    r = ck.rng("case", i)
    dbworld.prepare((ck.seed, i))
    a = r.choice([Simple, Hub, Hub, Kerberos])(r)
    max_age = r.choice([2, 30, 300])
    hist, entries, seen = [], [], {}


    async def main(loop):
        net = vnet.Net(loop)
        w = dbworld.World((ck.seed, i), dict(poll=0.0, max_age=1e9))
        sim = dbworld.Sim(w, loop)
        c = sim.config("sqlite://")
        c.Authenticator.cache_max_age = max_age
        a.config(c)
        await a.start(net)
        sim.gw = await gwmod.build(dbworld.make_backend(sim), c, authenticator=a.cls)
        auth = sim.gw.authenticator
        real = sim.gw.backend.get_cluster_options

        async def spy(user):
            # What the handler was given, whatever request it belongs to
            rid = current()
            seen[rid] = (user.name, set(user.groups), bool(user.admin))
            return await real(user)

        sim.gw.backend.get_cluster_options = spy
        m = Model(a, max_age)
        for step in range(r.choice([8, 25])):
            n = r.choice([1, 1, 1, 2, 4])
            if isinstance(a, Hub):
                a.change()
            got = await asyncio.gather(*[loop.create_task(one(ck, r, sim, a, m, seen, hist, auth.cookie_name)) for _ in range(n)])
            entries.extend(got)
            await asyncio.sleep(r.choice([0, 0, 0.5, max_age / 3, max_age - 0.02, max_age + 0.02, max_age * 2]))
        if isinstance(a, Kerberos) and a.live:
            raise core.Violation("gss-context-leaked", f"{a.live} security contexts were not cleaned", hist[-10:])
        await sim.gw.backend.session.close()
        await auth.cleanup()

    _task_rid.clear()
    vloop.run(main)
    ck.case((type(a).__name__, entries), any(e[2] != 200 for e in entries), sample=[list(e) for e in entries[:12]] if i < 3 else None)


_task_rid = {}


def current():
    return _task_rid[asyncio.current_task()]


_real_request = gwmod.make_request


def _make_request(app, method, path, headers=None, *args, **kw):
    if headers and "X-Verif" in headers:
        _task_rid[asyncio.current_task()] = headers["X-Verif"]
    return _real_request(app, method, path, headers, *args, **kw)


gwmod.make_request = _make_request


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(30, 900))
    ck.need(requests=5000, served=1500, refused=1500, with_malformed=300, with_bad=100, with_hub=300, with_krb=200, cookies_issued=500, cookies_fresh=300, cookies_expired=300, cookies_old=10)


if __name__ == "__main__":
    core.main("C12", RULE, body, assumptions=["aiohttp's client and cookie parsing are trusted; JupyterHub and Kerberos are scripted"])
