"""C11: users reach only their own clusters, a token only its own cluster."""
import base64
import json

from traitlets.config import Config

from mon import core, dbworld, gw as gwmod, vloop, vnet

RULE = (
    "random requests to every endpoint of the real application, by every user, cluster token, "
    "proxy token, cookie, malformed header or nobody, about every cluster in every state, while "
    "clusters start, run, fail and stop; each answer is compared with an independent access rule, "
    "searched for every secret, name and option of other users' clusters, and every refused "
    "request for effects; non-trivial: clusters of at least two users in three different states; "
    "distinct by the sequence of (principal, endpoint, state, answer)"
)
USERS = ("alice", "bob", "bo", "Bob")
STATES = ["pending", "running", "stopping", "stopped", "failed"]


def options_config():
    from dask_gateway_server.options import Options, String

    c = Config()
    c.Backend.cluster_options = Options(String("tag", default=""), handler=lambda o: {"environment": {"TAG": o.tag}})
    return c


def lines(pem):
    """Lines of key or certificate that no other has."""
    ls = [x for x in pem.decode().split("\n") if len(x) == 64]
    return [ls[len(ls) // 2], ls[-1]]


class Probe:
    def __init__(self, ck, r, sim, net):
        self.ck, self.r, self.sim, self.net = ck, r, sim, net
        self.cookies = []  # (cookie header, user)
        self.sent = []
        self.hist = []
        self.secrets = {}
        self.states = set()

    # -- world -----------------------------------------------------------
    def backend(self):
        return self.sim.backend

    def model(self, name):
        done, m = gwmod.sync(self.backend().get_cluster(name))
        return m if done else None

    def learn(self):
        for n in self.sim.w.names:
            m = self.model(n)
            if m is None:
                continue
            if n not in self.secrets:
                self.secrets[n] = dict(token=m.token, tag=m.options["tag"], tls=lines(m.tls_cert) + lines(m.tls_key), owner=m.username)
                self.secrets[n]["raw"] = self.secrets[n]["tls"]
                # The harness has only so many RSA keys; lines of one that two clusters got prove nothing
                for k, v in self.secrets.items():
                    others = [x for o, z in self.secrets.items() if o != k for x in z["raw"]]
                    v["tls"] = [x for x in v["raw"] if x not in others]
                self.sim.w.token.setdefault(n, m.token)
            addr = self.sim.w.sched.get(n)
            if addr:
                host = addr["addr"].split("//")[1].split(":")[0]
                key = (self.net.ip(host), 9000)
                if key not in self.net.listeners:
                    vnet.serve(self.net, host, 9000, lambda req, n=n: self.deliver(n, req))

    async def deliver(self, name, req):
        from aiohttp import web

        self.sent.append((name, await req.json()))
        return web.json_response({})

    def snapshot(self):
        out = {}
        for n in self.sim.w.names:
            m = self.model(n)
            c = self.backend().db.get_cluster(n)
            out[n] = m and (m.status.name, m.username, m.token, json.dumps(m.options), m.scheduler_address, m.stop_time,
                            c.target, c.count, c.last_heartbeat, {k: (w.status, w.target) for k, w in c.workers.items()})
        out["n"] = len(self.backend().db.name_to_cluster)
        out["sent"] = len(self.sent)
        return out

    # -- requests ----------------------------------------------------------
    def principal(self):
        """Headers, and the set of principals they may be taken for (None: malformed)."""
        r = self.r
        names = list(self.secrets)
        who, h, odd = set(), {}, False
        x = r.random()
        if x < 0.12:
            pass
        elif x < 0.45:
            u = r.choice(USERS + ("mallory",))
            h = gwmod.basic(u, r.choice(["", "pw", "a:b"]))
            who.add(("user", u))
        elif x < 0.7 and names:
            n = r.choice(names)
            tok = self.secrets[n]["token"]
            y = r.random()
            if y < 0.6:
                h = gwmod.token(tok)
                who.add(("token", n))
            else:
                bad = r.choice([tok[:-1], tok + "0", tok.upper() if tok.upper() != tok else tok[1:], "", tok[::-1], n, "None", "null", "*"])
                if bad == tok:
                    bad = "x"
                h = {"Authorization": r.choice(["token ", "token  "]) + bad}
                odd = bad == ""
                if r.random() < 0.2:
                    h = {"Authorization": r.choice(["Bearer ", "Basic ", "jupyterhub ", "tok "]) + tok}
                    odd = True
        elif x < 0.78:
            h = gwmod.token("proxy-token")
            who.add(("proxy",))
        elif x < 0.88:
            odd = True
            h = {"Authorization": r.choice([
                "token", "Basic", "Basic !!!!", "", " ", "Basic " + base64.b64encode(b"nocolon").decode(), "Negotiate abc",
                "Basic " + base64.b64encode(b"\xff\xfe:x").decode(), "basic", "alice", ":", "token" * 500,
            ])}
        if self.cookies and r.random() < 0.25:
            c, u = r.choice(self.cookies)
            if r.random() < 0.6:
                h = dict(h, Cookie=c)
                who.add(("user", u))
            else:
                k, v = c.split("=", 1)
                h = dict(h, Cookie=r.choice([f"{k}={v[:-1]}", f"{k}={v}0", f"{k}=", f"x{k}={v}", f"{k}={u}", f"{k}={v[::-1]}x"]))
        return h, who, odd

    def endpoint(self):
        r = self.r
        names = list(self.secrets)
        name = r.choice(names) if names and r.random() < 0.9 else r.choice(["nope", "0" * 32, "a%2Fb", "..", "*", "a%0Ab"])
        kind = r.choice(["get", "get", "list", "create", "delete", "scale", "adapt", "heartbeat", "options", "routes", "health", "version", "listall"])
        base = "/api/v1/clusters/"
        if kind == "list":
            return kind, "GET", base, None, None
        if kind == "listall":
            sel = r.sample(STATES, r.randint(1, 5))
            return kind, "GET", base + "?status=" + ",".join(sel), None, tuple(sel)
        if kind == "create":
            tag = "%030x" % r.getrandbits(120)
            return kind, "POST", base, {"cluster_options": {"tag": tag}}, None
        if kind in ("options", "routes"):
            return kind, "GET", f"/api/v1/{kind}", None, None
        if kind in ("health", "version"):
            return kind, "GET", f"/api/{kind}", None, None
        if kind == "get":
            return kind, "GET", base + name, None, name
        if kind == "delete":
            return kind, "DELETE", base + name, None, name
        js = {
            "scale": {"count": r.choice([0, 1, 3])},
            "adapt": {"minimum": 0, "maximum": 2, "active": True},
            "heartbeat": {
                "scheduler_address": "tls://10.6.6.6:1", "dashboard_address": "http://10.6.6.6:2", "api_address": "http://10.6.6.6:9000",
                "count": 1, "active_workers": [], "closing_workers": [], "closed_workers": [],
            },
        }[kind]
        return kind, "POST", base + name + "/" + kind, js, name

    async def one(self):
        ck, sim = self.ck, self.sim
        self.learn()
        headers, who, odd = self.principal()
        kind, method, path, js, arg = self.endpoint()
        if kind == "create" and len(sim.w.names) >= 7:
            return
        if kind == "heartbeat" and arg in sim.w.sched:
            s = sim.w.sched[arg]
            js.update(scheduler_address=s["addr"], api_address=s["addr"].replace("tls", "http").replace("8786", "9000"), active_workers=list(s["active"]), closed_workers=list(s["closed"]), count=s["count"])
        before = self.snapshot()
        stat = before.get(arg) if isinstance(arg, str) else None
        owner = self.secrets[arg]["owner"] if isinstance(arg, str) and arg in self.secrets and stat else None
        users = {p[1] for p in who if p[0] == "user"}
        token_ok = ("token", arg) in who and stat is not None
        label = (tuple(sorted(str(p[0]) for p in who)) or ("odd" if odd else "none"), kind, stat and stat[0], "own" if owner in users else token_ok and "token")
        resp = await sim.request(method, path, headers, js=js)
        after = self.snapshot()
        text = resp.body.decode("utf-8", "replace") + repr(resp.headers) + repr(getattr(resp, "cookies", "") if resp.exc is None else "")
        self.hist.append((round(sim.loop.time(), 2), label, method, path, {k: v[:60] for k, v in headers.items()}, resp.status, repr(resp.exc) if resp.exc else None))
        ck.count("requests")
        ck.count(f"answers_{resp.status}")
        self.states.add(label + (resp.status,))

        def bad(key, msg):
            raise core.Violation(key, f"{method} {path} with {headers} ({label}): {msg}", {"requests": self.hist[-8:], "history": dbworld.tail(sim.w.log, 30, arg if isinstance(arg, str) else None)})

        # Who may do this
        allowed = False
        if kind in ("health", "version"):
            allowed = True
        elif kind == "routes":
            allowed = ("proxy",) in who
        elif kind in ("list", "listall", "options", "create"):
            allowed = bool(users)
        elif kind == "heartbeat":
            allowed = token_ok
        elif kind == "delete":
            allowed = owner in users or token_ok or (bool(users) and not owner)
        else:
            allowed = owner in users
        good = resp.status < 400
        if not allowed:
            ck.count("must_be_refused")
            if good:
                bad("not-refused", f"answered {resp.status}")
            if not users and not who & {("token", arg), ("proxy",)} and not odd and resp.status not in (401, 403):
                bad("not-refused-as-unauthorised", f"no valid credentials, answered {resp.status} {resp.exc!r}")
            if users and kind in ("get", "scale", "adapt", "delete"):
                ck.count("foreign_refused", owner is not None)
                if owner is not None and not odd and resp.status not in (401, 403, 404):
                    bad("not-refused-as-forbidden", f"of {owner}'s, answered {resp.status}")
            if before != after:
                x = sorted(k for k in before if before[k] != after.get(k)) + sorted(set(after) - set(before))
                if after.get("n") == before.get("n") + 0 and resp.exc is None and all(self.moved_by_itself(k, before, after) for k in x):
                    pass
                else:
                    bad("refused-with-effect", f"answered {resp.status} but changed {x}: {[before.get(k) for k in x]} to {[after.get(k) for k in x]}")
        else:
            ck.count("may_be_served")
            sure = kind in ("health", "version", "routes", "heartbeat") or token_ok or all(kind in ("list", "listall", "options", "create") or u == owner or owner is None for u in users)
            if sure and not odd and (resp.status in (401, 403) or resp.exc is not None):
                bad("refused-though-allowed", f"answered {resp.status} {resp.exc!r}")
            others = [n for n in self.secrets if n != arg]
            if kind in ("scale", "adapt"):
                for n, msg in self.sent[before["sent"]:]:
                    ck.count("deliveries")
                    if n != arg:
                        bad("delivered-to-other", f"{msg} was delivered to {n}")
            elif method != "GET":
                x = [n for n in others if not self.moved_by_itself(n, before, after)]
                if x:
                    bad("affects-other-cluster", f"changed {x[0]}: {before.get(x[0])} to {after.get(x[0])}")
            if kind == "delete" and owner and good:
                m = self.model(arg)
                if m is not None and m.status.name in ("PENDING", "RUNNING"):
                    bad("stop-not-done", f"answered {resp.status} but the cluster is {m.status.name}")
        # What the answer contains
        for n, s in self.secrets.items():
            mine = s["owner"] in users
            if s["token"] in text:
                bad("token-leaked", f"the answer contains the token of {n}")
            if not mine or not good:
                for what in ["tag"]:
                    if s[what] and s[what] in text:
                        bad("options-leaked", f"the answer contains the options of {s['owner']}'s cluster {n}")
                if any(x in text for x in s["tls"]):
                    bad("tls-leaked", f"the answer contains TLS credentials of {s['owner']}'s cluster {n}")
                if n in text and n != arg and not (kind == "routes" and good):
                    bad("name-leaked", f"the answer contains the name of {s['owner']}'s cluster {n}")
            elif any(x in text for x in s["tls"]):
                ck.count("tls_given")
                run = [b[n][0] for b in (before, after) if b.get(n)]
                if "RUNNING" not in run:
                    bad("tls-not-running", f"the answer contains TLS credentials of {n}, which is {run}")
        if good and kind in ("list", "listall"):
            sel = ["PENDING", "RUNNING"] if kind == "list" else [s.upper() for s in arg]
            wants = [sorted(n for n in self.secrets if before.get(n) and self.secrets[n]["owner"] == u and before[n][0] in sel) for u in users]
            if sorted(resp.json) not in wants:
                bad("list-wrong", f"lists {sorted(resp.json)} instead of {wants}")
            ck.count("lists_compared")
        if good and kind == "get":
            if resp.json["status"] == "RUNNING" and not (resp.json.get("tls_key") and resp.json.get("tls_cert")):
                bad("tls-missing", "the owner of a running cluster got no credentials")
        if good and kind == "create":
            n = resp.json["name"]
            u = [x for x in users if self.model(n) and self.model(n).username == x]
            if not u:
                bad("created-for-other", f"created a cluster for {self.model(n) and self.model(n).username}")
            sim.w.names.append(n)
            sim.w.owner[n] = u[0]
            sim.log("created", name=n, user=u[0], print=None)
        for k, v in (resp.cookies if resp.exc is None else {}).items():
            if users:
                u = next(iter(users)) if len(users) == 1 else None
                if u:
                    self.cookies.append((f"{k}={v}", u))
                    self.cookies = self.cookies[-10:]
            elif not who:
                bad("cookie-for-nobody", "a cookie was issued to a request without credentials")

    def moved_by_itself(self, k, before, after):
        """Changed by the passage of time while the request ran, not by it."""
        if before.get(k) == after.get(k):
            return True
        if k in ("n", "sent"):
            return False
        return self.t0 != self.sim.loop.time()


def case(ck, i):
    r = ck.rng("case", i)
    gwmod._keys or gwmod.cheap_keys(8)
    dbworld.prepare((ck.seed, i))
    over = dict(max_age=1e9, poll=0.0)
    p = dbworld.mixed(r, **over)
    p["users"] = USERS
    horizon = r.choice([30, 90])

    async def main(loop):
        net = vnet.Net(loop)
        w = dbworld.World((ck.seed, i), p)
        sim = dbworld.Sim(w, loop)
        await sim.boot(extra=options_config())
        t0 = loop.time()
        dbworld.script(w, t0, horizon, 4, p_delete=0.6, waits=False)
        w.agenda = [(t, s, k, (a[0], {"tag": "%030x" % r.getrandbits(120)}) if k == "create" else a) for t, s, k, a in w.agenda]
        pr = Probe(ck, r, sim, net)
        t = t0
        while t < t0 + horizon:
            t += r.uniform(0.2, 4)
            await sim.pump(t)
            for _ in range(r.choice([1, 2, 5])):
                pr.t0 = loop.time()
                await pr.one()
        await sim.gw.backend.session.close()
        states = {(s, u) for n in pr.secrets for s, u in [(w.last.get(n), pr.secrets[n]["owner"])]}
        ck.case([h[1:4] for h in pr.hist], len({u for _, u in states}) > 1, sample=[h[1:4] + h[5:6] for h in pr.hist[:20]] if i < 2 else None)
        ck.counters["distinct_decisions"] = 0
        for s in pr.states:
            ck.signatures.add("d:" + repr(s))

    vloop.run(main)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(30, 900))
    d = [s for s in ck.signatures if s.startswith("d:")]
    ck.signatures -= set(d)
    ck.counters["distinct_decisions"] = len(d)
    ck.need(requests=5000, must_be_refused=2000, foreign_refused=200, may_be_served=500, lists_compared=200, tls_given=20, distinct_decisions=300)


if __name__ == "__main__":
    core.main("C11", RULE, body, assumptions=["the socket and HTTP parser are trusted: requests enter at the application"])
