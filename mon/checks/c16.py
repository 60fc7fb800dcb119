"""C16: the proxy's routing table follows the gateway's through any fault.

Three kinds of execution.  (1) The real gateway side, on an in-memory network in
virtual time: watchers that fetch, watch, lag, break off and come back with old,
new or invented positions, through restarts of the gateway; each stream is compared
with the changes made.  (2) Whole lives of the gateway with clusters starting,
stopping and failing, whose routes are compared with the running clusters whenever
all is quiet.  (3) The real proxy binary and the real gateway side over TCP, with a
relay between that breaks, cuts, stalls and slows the stream, restarts of either
and tables of every size; when faults end the proxy must come to route by the table.
"""
import asyncio
import json
import os
import logging
import random

from aiohttp import web
from traitlets.config import Config

from dask_gateway_server.proxy import core as proxycore
from mon import core, dbworld, gw as gwmod, vloop, vnet

RULE = (
    "three kinds of execution: watchers of the real gateway side against the recorded changes, in virtual time; routes against running clusters over "
    "whole lives of the gateway; and the real proxy binary behind a faulty link, probed over HTTP and TLS until it routes by the gateway's table; "
    "distinct by the history of changes and faults"
)
logging.getLogger("aiohttp.server").setLevel(logging.CRITICAL)
TOK = "the-proxy-token"


def new_proxy(address, max_events=100, prefix="", token=TOK):
    return proxycore.Proxy(config=Config(), gateway_address=address, api_token=token, externally_managed=True, max_events=max_events, prefix=prefix)


class Table:
    """The changes asked of the gateway side, and the table they make."""

    def __init__(self, r, proxy, prefix, root):
        self.r, self.proxy, self.prefix = r, proxy, prefix
        self.ops = [("PUT", ("PATH", prefix + "/"), root)]
        self.now = {("PATH", prefix + "/"): root}
        self.versions = [dict(self.now)]
        self.calls = 0

    async def change(self, op, kind, name, target=None):
        self.calls += 1
        key = (kind, self.prefix + name if kind == "PATH" else name)
        kw = {"sni": name} if kind == "SNI" else {"path": name}
        if op == "PUT":
            await self.proxy.add_route(kind=kind, target=target, **kw)
        else:
            await self.proxy.remove_route(kind=kind, **kw)
        if op == "PUT":
            if self.now.get(key) == target:
                return
            self.now[key] = target
        else:
            if key not in self.now:
                return
            del self.now[key]
        self.ops.append((op, key, target))
        self.versions.append(dict(self.now))

    async def random(self, targets, names):
        r = self.r
        kind = r.choice(["SNI", "PATH"])
        name = r.choice(names)
        name = "/clusters/" + name if kind == "PATH" else name
        if r.random() < 0.6:
            await self.change("PUT", kind, name, r.choice(targets))
        else:
            await self.change("DELETE", kind, name)


def key_of(route):
    return (route["kind"], route["sni"] if route["kind"] == "SNI" else route["path"])


class Bad(Exception):
    pass


# -- (1) the gateway side -----------------------------------------------------
class Watcher:
    """A client of the routes API, as a proxy is one; checks all it is told."""

    def __init__(self, world, k):
        self.w, self.k = world, k
        self.r = random.Random(f"{world.seed}-{k}")
        self.table = None
        self.version = None  # the number of changes this table reflects
        self.life = None
        self.last_id = 0
        self.streaming = False
        self.told = 0

    async def http(self, path, headers):
        """Raw HTTP so that the stream can be stopped anywhere"""
        loop = asyncio.get_running_loop()
        reader = asyncio.StreamReader(limit=2**26)
        proto = asyncio.StreamReaderProtocol(reader)
        sock = await self.w.net.connect((self.w.host, 8000))
        transport, _ = await self.w.net.create_connection(lambda: proto, sock=sock)
        req = f"GET {path} HTTP/1.1\r\nHost: x\r\n" + "".join(f"{a}: {b}\r\n" for a, b in headers) + "\r\n"
        transport.write(req.encode())
        head = await reader.readuntil(b"\r\n\r\n")
        status = int(head.split(b" ")[1])
        low = dict(h.lower().split(": ", 1) for h in head.decode().split("\r\n")[1:] if ": " in h)
        return transport, reader, status, low

    async def body(self, reader, low):
        if "content-length" in low:
            return await reader.readexactly(int(low["content-length"]))
        out = b""
        async for c in self.chunks(reader):
            out += c
        return out

    async def chunks(self, reader):
        while True:
            n = int((await reader.readline()) or b"0", 16)
            data = await reader.readexactly(n + 2)
            if n == 0:
                return
            yield data[:-2]

    async def run(self):
        while not self.w.over:
            try:
                await self.session()
            except (OSError, asyncio.IncompleteReadError, EOFError, ValueError):
                pass
            self.streaming = False
            await asyncio.sleep(self.r.choice([0, 0.01, 0.5, 3]))

    async def session(self):
        w, r = self.w, self.r
        if self.table is None or r.random() < 0.15:
            await self.fetch()
        for _ in range(r.choice([1, 2, 5])):
            if not await self.watch():
                await asyncio.sleep(r.choice([0, 0.01]))
                await self.fetch()

    async def fetch(self):
        w = self.w
        lo, life, calls = len(w.t.ops), w.life, w.t.calls
        transport, reader, status, low = await self.http("/api/v1/routes", w.auth())
        if status != 200:
            raise Bad(f"GET routes answered {status}")
        msg = json.loads(await self.body(reader, low))
        transport.close()
        hi = len(w.t.ops)
        if life != w.life:
            self.table = None
            return
        table = {key_of(x): x["target"] for x in msg["routes"]}
        if len(table) != len(msg["routes"]):
            w.bad("duplicate-routes", f"the table has several routes of one name: {msg}")
        match = [v for v in range(hi, lo - 1, -1) if w.t.versions[v - 1] == table]
        if not match:
            w.bad("wrong-table", f"the routes given are not those of the gateway: {diff(w.t.versions[hi - 1], table)}")
        self.table, self.last_id, self.life = table, msg["id"], life
        self.fresh = w.t.calls if calls == w.t.calls else None
        # With the table comes the position; both may have come back to an earlier state
        self.version = match
        w.ck.count("fetches")

    async def watch(self):
        """True if the stream was served (until it broke)"""
        w, r = self.w, self.r
        x = r.random()
        expect = "follow"
        last = self.last_id
        if x < 0.06 and self.life == w.life:
            await self.fetch()
            if self.life != w.life:
                raise OSError
            last = self.last_id + r.choice([1, 2, 1000, 10**12])
            expect, calls = "newer", self.fresh
        elif x < 0.10:
            last = r.choice([0, 1, 5])
            expect = "ancient"
        elif x < 0.14:
            last = r.choice(["abc", "-1", "1.5", "", "%00", "9" * 40, "-" + "9" * 30])
            expect = "garbage"
        if self.life != w.life and expect == "follow":
            expect = "gone"
        life, t = w.life, w.t
        transport, reader, status, low = await self.http(f"/api/v1/routes?watch=1&last_id={last}", w.auth())
        if life != w.life:
            transport.close()
            raise OSError
        w.ck.count(f"watch_{expect}_{status}")
        if status == 410:
            transport.close()
            if expect == "follow" and w.ops_since(self) <= w.max_events // 2 - 1:
                # Not wrong in itself, but it may not go on for ever
                self.gone_in_a_row = getattr(self, "gone_in_a_row", 0) + 1
                if self.gone_in_a_row > 20 + w.max_events:
                    w.bad("always-gone", f"a watcher {w.ops_since(self)} changes behind is refused each time")
            else:
                self.gone_in_a_row = 0
            return False
        if status != 200:
            transport.close()
            if expect == "garbage" and 400 <= status < 500:
                return True
            w.bad("watch-refused", f"watch from {last} ({expect}) answered {status}")
        if expect == "newer":
            # Accepted only if such a position exists by now; anything it leads to must still be complete
            if calls == w.t.calls:
                w.bad("newer-accepted", f"a watch from {last}, which is ahead of all changes, was accepted")
            transport.close()
            return False
        if expect in ("ancient", "garbage"):
            # It may be given all there ever was
            self_table, versions, prev = {}, [0], None
        else:
            self_table, versions, prev = self.table, self.version, self.last_id
        self.streaming = True
        self.gone_in_a_row = 0
        stop_after = r.choice([None, None, 1, 3, 10])
        n = 0
        try:
            buf = b""
            async for chunk in self.chunks(reader):
                buf += chunk
                while b"\n" in buf:
                    line, _, buf = buf.partition(b"\n")
                    events = json.loads(line)["events"]
                    for e in events:
                        if prev is not None and e["id"] != prev + 1:
                            w.bad("ids", f"event {e['id']} follows {prev}")
                        prev = e["id"]
                        versions, self_table = self.apply(t, e, versions, self_table, expect, last)
                    if expect == "follow" or expect == "gone":
                        self.table, self.version, self.last_id, self.life = self_table, versions, prev, life
                    n += len(events)
                    w.ck.count("events", len(events))
                    if len(events) > 1:
                        w.ck.count("batches")
                if stop_after is not None and n >= stop_after:
                    transport.abort() if r.random() < 0.5 else transport.close()
                    return True
                if r.random() < 0.05 and not w.calm:
                    transport.pause_reading()
                    await asyncio.sleep(r.choice([0.1, 5, 50]))
                    transport.resume_reading()
        finally:
            transport.close()
            if expect in ("ancient", "garbage"):
                self.streaming = False
        return True

    def apply(self, t, e, versions, table, expect, last):
        """The event must be the next change (changes without effect may be told or not)"""
        w = self.w
        key, target = key_of(e["route"]), e["route"].get("target")
        if e["type"] == "PUT" and table.get(key) == target or e["type"] == "DELETE" and key not in table:
            return versions, table
        op = (e["type"], key, target if e["type"] == "PUT" else None)
        nxt = [v + 1 for v in versions if v < len(t.ops) and t.ops[v] == op]
        if not nxt:
            near = [t.ops[max(0, v - 1):v + 3] for v in versions[:3]]
            w.bad("wrong-event", f"watcher {self.k} (from {last}, {expect}), after change {versions[:5]} of {len(t.ops)} , was told {op}; the changes there: {near}")
        table = dict(table)
        if e["type"] == "PUT":
            table[key] = target
        else:
            del table[key]
        return nxt, table


def diff(want, got):
    return {repr(k): (want.get(k), got.get(k)) for k in set(want) | set(got) if want.get(k) != got.get(k)}


class Side:
    """The gateway side under test, with its watchers."""

    def __init__(self, ck, r, seed, loop):
        self.ck, self.r, self.seed = ck, r, seed
        self.net = vnet.Net(loop)
        self.host = "10.1.1.1"
        self.max_events = r.choice([1, 2, 3, 4, 7, 20, 100])
        self.prefix = r.choice(["", "", "/pre", "/a/b"])
        self.life = 0
        self.over = self.calm = False
        self.hist = [dict(max_events=self.max_events, prefix=self.prefix)]
        self.failures = []

    def auth(self):
        return [("Authorization", f"token {TOK}")]

    def bad(self, key, detail):
        self.failures.append((key, detail))
        raise Bad(key)

    def ops_since(self, watcher):
        return len(self.t.ops) - max(watcher.version)

    async def boot(self):
        self.life += 1
        app = web.Application()
        self.proxy = new_proxy(f"{self.host}:8000", self.max_events, self.prefix)
        await self.proxy.setup(app)
        self.t = Table(self.r, self.proxy, self.prefix, f"http://{self.host}:8000")
        self.runner = await vnet.serve_app(self.net, self.host, 8000, app)

    async def restart(self, names, targets):
        self.life += 1
        self.net.unlisten(self.host, 8000)
        how = self.r.choice(["kill", "close"])
        if how == "kill":
            self.net.kill(self.host, 8000)
        else:
            task = asyncio.ensure_future(self.runner.cleanup())
            await asyncio.sleep(self.r.choice([0, 0.1, 70]))
            self.net.kill(self.host, 8000)
            await task
        # A process takes longer to start than changes take to make
        await asyncio.sleep(self.r.choice([0.05, 2]))
        await self.boot()
        for _ in range(self.r.choice([0, 1, 5])):
            await self.t.random(targets, names)
        self.hist.append(("restart", how))
        self.ck.count("gateway_restarts")

    async def intruder(self):
        """Those without the token get nothing"""
        r = self.r
        headers = r.choice([
            [], [("Authorization", "")], [("Authorization", f"token {TOK}x")], [("Authorization", f"token {TOK[:-1]}")], [("Authorization", "token")],
            [("Authorization", "token ")], [("Authorization", TOK)], [("Authorization", f"Basic {TOK}")], [("Authorization", f"Bearer {TOK}")],
            [("Authorization", f"jupyterhub {TOK}")], [("Authorization", f"token {TOK.upper()}")], [("Cookie", f"token={TOK}")], [("Authorization", f"token {TOK} {TOK}")],
        ])
        path = "/api/v1/routes" + r.choice(["", "?watch=1&last_id=0", "?watch=1&last_id=zzz", f"?watch=1&last_id={self.proxy._next_id - 1}", f"?token={TOK}"])
        wt = Watcher(self, 999)
        transport, reader, status, low = await wt.http(path, headers)
        data = await wt.body(reader, low)
        transport.close()
        self.ck.count("intruders")
        if status not in (401, 403) or b"target" in data:
            self.bad("token-not-required", f"{path} with {headers} answered {status} {data[:200]}")


def side_case(ck, i, r):
    async def main(loop):
        w = Side(ck, r, f"{ck.seed}-{i}", loop)
        await w.boot()
        names = [f"c{k}" for k in range(r.choice([1, 3, 10]))]
        targets = [f"http://10.9.9.{k}:{k + 1}" for k in range(3)]
        ws = [Watcher(w, k) for k in range(r.choice([1, 3, 6]))]
        tasks = [asyncio.ensure_future(x.run()) for x in ws]

        def check():
            if w.failures:
                key, detail = w.failures[0]
                raise core.Violation(key, detail, w.hist)
            for t in tasks:
                if t.done() and t.exception():
                    raise t.exception()

        changes = 0
        for step in range(r.choice([10, 30, 60])):
            for _ in range(r.choice([1, 1, 2, 5, w.max_events, w.max_events + 1, 3 * w.max_events])):
                await w.t.random(targets, names)
                changes += 1
                if r.random() < 0.3:
                    await asyncio.sleep(r.choice([0, 0.001]))
            if r.random() < 0.2:
                try:
                    await w.intruder()
                except (OSError, asyncio.IncompleteReadError):
                    pass
            if r.random() < 0.06:
                await w.restart(names, targets)
            if r.random() < 0.1:
                w.net.kill(w.host, 8000)
                ck.count("connections_killed")
            await asyncio.sleep(r.choice([0, 0, 0.001, 0.02, 1, 6]))
            check()
        w.calm = True
        await asyncio.sleep(300)
        check()
        for x in ws:
            if x.streaming and x.table != w.t.now:
                raise core.Violation("not-told", f"watcher {x.k} is connected but {diff(w.t.now, x.table)} after 300 s of quiet", w.hist)
            ck.count("watchers_compared")
        w.over = True
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        n = len(w.proxy._watchers) if hasattr(w.proxy, "_watchers") else 0
        ck.count("changes", changes)
        ck.case((changes, len(w.t.ops), w.max_events, len(ws), w.life), True, sample=w.hist)
        w.net.kill(w.host, 8000)
        await w.runner.cleanup()

    vloop.run(main, start=r.uniform(1e3, 1e6))


# -- (2) routes of running clusters ---------------------------------------------
def lives_case(ck, i, r):
    p = dbworld.mixed(r, max_age=r.choice([60.0, 1e5]), cleanup_period=20.0)
    horizon = r.choice([60, 200])

    def setup(w, t0, sim):
        dbworld.script(w, t0, horizon, r.choice([2, 4, 8]), p_delete=0.5)
        real = sim.pump

        async def pump(until):
            await real(until)
            sim.observe()
            sim.routes("quiet" if w.calm else "busy")

        sim.pump = pump

    w = dbworld.run((ck.seed, i), p, setup, horizon, drain=400.0, start=r.uniform(1e3, 1e5))
    last = {}
    judged = False
    for t, kind, d in w.log:
        if kind == "seen":
            last[d["name"]] = d["status"]
        elif kind == "routes_error":
            raise core.Violation("routes-error", f"GET routes answered {d['code']}", dbworld.tail(w.log, 40))
        elif kind == "routes" and d["label"] == "quiet":
            judged = True
            exp = [("PATH", "/", None)]
            for n, s in last.items():
                if s == "RUNNING":
                    a = w.sched[n]["addr"]
                    exp += [("PATH", f"/clusters/{n}", a.replace("tls", "http").replace("8786", "8787")), ("SNI", n, a)]
            got = [(k, p, None if p == "/" else a) for k, p, a in d["routes"]]
            ck.count("route_tables")
            ck.count("routed_clusters", (len(got) - 1) // 2)
            ck.count("unrouted_clusters", len(last) - (len(got) - 1) // 2)
            if sorted(got, key=repr) != sorted(exp, key=repr):
                raise core.Violation("routes", f"at {t} the routes are {sorted(got, key=repr)}, the running clusters need {sorted(exp, key=repr)}", dbworld.tail(w.log, 60))
    ck.case(dbworld.signature(w.log), judged)


# -- (3) the real proxy -----------------------------------------------------------
class Relay:
    """The network between the proxy and the gateway."""

    def __init__(self, r, host, port):
        from mon import goproxy

        self.r = r
        self.to = (host, port)
        self.host, self.port = goproxy.address()
        self.conns = set()
        self.tasks = set()
        self.stalled = asyncio.Event()
        self.stalled.set()
        self.refuse = False
        self.slow = False
        self.budget = None  # bytes from the gateway until the next connection is cut

    async def start(self):
        self.server = await asyncio.start_server(self.serve, self.host, self.port)
        return self

    def cut(self):
        for w in list(self.conns):
            w.transport.abort()
        self.conns.clear()

    async def serve(self, reader, writer):
        task = asyncio.current_task()
        self.tasks.add(task)
        up = None
        try:
            if self.refuse:
                writer.transport.abort()
                return
            r2, up = await asyncio.open_connection(*self.to)
            self.conns |= {writer, up}

            async def pipe(src, dst, down):
                while data := await src.read(65536):
                    await self.stalled.wait()
                    if down and self.budget is not None:
                        if len(data) >= self.budget:
                            dst.write(data[: self.budget])
                            self.budget = None
                            await dst.drain()
                            dst.close()
                            return
                        self.budget -= len(data)
                    if self.slow:
                        for k in range(0, len(data), 100):
                            dst.write(data[k:k + 100])
                            await asyncio.sleep(0.001)
                    else:
                        dst.write(data)
                    await dst.drain()
                dst.close()

            a = asyncio.ensure_future(pipe(reader, up, False))
            b = asyncio.ensure_future(pipe(r2, writer, True))
            self.tasks |= {a, b}
            await asyncio.gather(a, b)
        except OSError:
            pass
        finally:
            self.tasks.discard(task)
            for x in (writer, up):
                if x is not None:
                    self.conns.discard(x)
                    x.close()

    async def close(self):
        self.server.close()
        self.cut()
        for t in list(self.tasks):
            t.cancel()


class Real:
    def __init__(self, ck, r, binary):
        self.ck, self.r, self.binary = ck, r, binary
        self.life = 0
        self.hist = []
        self.max_events = r.choice([2, 4, 10, 100, 5000])
        self.prefix = r.choice(["", "", "/pre"])

    async def boot_gateway(self):
        ck = self.ck

        @web.middleware
        async def seen(request, handler):
            what = "refused" if request.headers.get("Authorization") != f"token {TOK}" else "watch" if "watch" in request.query else "fetch"
            ck.count("proxy_" + what)
            try:
                return await handler(request)
            except web.HTTPGone:
                ck.count("proxy_gone")
                raise

        app = web.Application(middlewares=[seen])
        self.proxy = new_proxy("127.0.0.1:8000", self.max_events, self.prefix)
        await self.proxy.setup(app)
        root = self.webs[0].url
        await self.proxy.add_route(kind="PATH", path="/", target=root)
        self.t = Table(self.r, self.proxy, self.prefix, root)
        self.runner = web.AppRunner(app, shutdown_timeout=0.1)
        await self.runner.setup()
        site = web.TCPSite(self.runner, self.ghost, self.gport)
        await site.start()

    async def random(self):
        r, t = self.r, self.t
        name = r.choice(self.names)
        if r.random() < 0.5:
            if r.random() < 0.6:
                await t.change("PUT", "PATH", "/clusters/" + name, r.choice(self.webs[1:]).url)
            else:
                await t.change("DELETE", "PATH", "/clusters/" + name)
        elif r.random() < 0.6:
            s = r.choice(self.scheds)
            await t.change("PUT", "SNI", name, f"tls://{s[0]}:{s[1]}")
        else:
            await t.change("DELETE", "SNI", name)

    async def bulk(self):
        """More than any buffer holds, all at once"""
        n = self.r.choice([300, 800])
        pad = "x" * self.r.choice([10, 200])
        for k in range(n):
            await self.t.change("PUT", "PATH", f"/bulk/{k}-{pad}", self.webs[1].url)
        if self.r.random() < 0.5:
            for k in range(n):
                await self.t.change("DELETE", "PATH", f"/bulk/{k}-{pad}")

    # what the proxy does now
    async def probe_http(self, name):
        st, _, data = await self.http.request("GET", f"{self.prefix}/clusters/{name}/zz", timeout=20)
        if st == 200:
            msg = json.loads(data)
            return (msg["tag"], msg["target"])
        return st

    async def probe_sni(self, name):
        from mon import goproxy

        reader, writer = await asyncio.open_connection(*self.pp.tcp)
        try:
            writer.write(goproxy.client_hello(self.r, "daskgateway-" + name))
            data = await asyncio.wait_for(reader.read(100), 20)
            return data.decode()
        finally:
            writer.close()

    async def state(self):
        got = {}
        for name in self.names:
            got["PATH", name] = await self.probe_http(name)
            got["SNI", name] = await self.probe_sni(name)
        self.ck.count("probes", len(got))
        return got

    def wanted(self):
        want = {}
        by_url = {x.url: x.tag for x in self.webs}
        by_addr = {f"tls://{a}:{p}": tag for a, p, tag, _ in self.scheds}
        for name in self.names:
            u = self.t.now.get(("PATH", f"{self.prefix}/clusters/{name}"))
            want["PATH", name] = (by_url[u], "/zz") if u else ("root", f"/clusters/{name}/zz")
            a = self.t.now.get(("SNI", name))
            want["SNI", name] = by_addr[a] if a else ""
        return want

    async def converge(self, limit=45):
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        want = self.wanted()
        while True:
            got = None
            try:
                got = await self.state()
            except (OSError, asyncio.IncompleteReadError, asyncio.TimeoutError) as exc:
                got = {"error": repr(exc)}
            if got == want:
                break
            if not self.pp.alive():
                raise core.Violation("proxy-died", f"rc {self.pp.proc.poll()} {self.pp.output()[-800:]}", self.hist)
            if loop.time() - t0 > limit:
                raise core.Violation("not-converged", f"{limit} s after faults ended: (wanted, got) {diff(want, got)}; {self.pp.output()[-600:]}", self.hist)
            await asyncio.sleep(0.05)
        self.ck.count("converged")
        self.ck.count("converge_ms", int(1000 * (loop.time() - t0)))
        if self.r.random() < 0.4:
            # And stays so
            await asyncio.sleep(self.r.choice([0.1, 0.7]))
            got = await self.state()
            if got != want:
                raise core.Violation("table-changed", f"without any change: (wanted, got) {diff(want, got)}", self.hist)


def real_case(ck, i, r, binary):
    asyncio.run(asyncio.wait_for(real_history(ck, i, r, binary), 130))


async def real_history(ck, i, r, binary):
    from mon import goproxy

    w = Real(ck, r, binary)
    w.names = [f"c{k}" for k in range(r.choice([1, 4, 8]))]
    w.webs = [await goproxy.EchoHTTP(t).start() for t in ("root", "w1", "w2", "w3")]
    w.scheds = []
    for k in range(3):
        host, port = goproxy.address()

        async def serve(reader, writer, k=k):
            try:
                await reader.read(10)
                writer.write(f"s{k}".encode())
                await writer.drain()
            except OSError:
                pass
            writer.close()

        w.scheds.append((host, port, f"s{k}", await asyncio.start_server(serve, host, port)))
    w.ghost, w.gport = goproxy.address()
    relay = await Relay(r, w.ghost, w.gport).start()
    w.pp = goproxy.ProxyProc(binary, f"http://{relay.host}:{relay.port}/api/v1/routes", token=TOK)
    try:
        if r.random() < 0.7:
            await w.boot_gateway()
            w.pp.start()
        else:
            # The proxy is there first
            w.pp.start()
            await asyncio.sleep(0.3)
            await w.boot_gateway()
        await w.pp.ready()
        w.http = goproxy.Client(w.pp.http)
        for step in range(r.choice([2, 4, 6])):
            faults = []
            for _ in range(r.choice([1, 3, 8])):
                x = r.choice(["none", "none", "cut", "cut", "cut-in-line", "stall", "refuse", "slow", "gateway", "gateway", "gateway-down", "proxy", "proxy-term", "bulk", "lag-bulk"])
                faults.append(x)
                ck.count("fault_" + x)
                if x == "cut":
                    relay.cut()
                elif x == "cut-in-line":
                    relay.budget = r.choice([1, 50, 200, 400, 1000])
                elif x == "stall":
                    relay.stalled.clear()
                elif x == "refuse":
                    relay.refuse = True
                    relay.cut()
                elif x == "slow":
                    relay.slow = True
                elif x in ("gateway", "gateway-down"):
                    if r.random() < 0.3:
                        await w.runner.cleanup()
                    old = w.runner
                    for s in list(old.sites):
                        await s.stop()
                    keep = r.random() < 0.7
                    previous = dict(w.t.now)
                    relay.cut()
                    if x == "gateway-down":
                        await asyncio.sleep(r.choice([0.05, 0.7]))
                    await w.boot_gateway()
                    await old.cleanup()
                    # What it resumes
                    for (kind, name), target in previous.items():
                        if keep and r.random() < 0.8 and not name.endswith("/") and "/bulk/" not in name:
                            await w.t.change("PUT", kind, name[len(w.prefix):] if kind == "PATH" else name, target)
                elif x in ("proxy", "proxy-term"):
                    w.pp.kill() if x == "proxy" else (w.pp.proc.terminate(), w.pp.proc.wait(), w.pp.proc.stdin.close())
                    w.pp.start()
                elif x == "bulk":
                    await w.bulk()
                elif x == "lag-bulk":
                    # It comes back for what it missed, which is a lot
                    relay.stalled.clear()
                    await asyncio.sleep(0.01)
                    relay.cut()
                    await w.bulk()
                for _ in range(r.choice([0, 1, 3, 2 * w.max_events if w.max_events < 20 else 5])):
                    await w.random()
                    if r.random() < 0.3:
                        await asyncio.sleep(r.choice([0, 0.002, 0.02]))
                if r.random() < 0.5:
                    await asyncio.sleep(r.choice([0, 0.01, 0.1, 0.6]))
            w.hist.append(faults)
            relay.stalled.set()
            relay.refuse = relay.slow = False
            relay.budget = None
            await w.pp.ready()
            await w.converge()
            if w.pp.crashed():
                raise core.Violation("crash", w.pp.crashed(), w.hist)
        # Without faults a change is followed at once, on the open stream
        for _ in range(3):
            await w.random()
            await w.converge(20)
        ck.case(tuple(map(tuple, w.hist)) + (len(w.t.ops),), True, sample=w.hist)
    finally:
        w.pp.stop()
        await relay.close()
        for x in w.webs:
            await x.close()
        for x in w.scheds:
            x[3].close()
        if hasattr(w, "runner"):
            await w.runner.cleanup()


def case(ck, i, binary):
    r = ck.rng("case", i)
    if i % 8 in (0, 2, 5):
        real_case(ck, i, r, binary)
        ck.count("kind_real")
    elif i % 8 in (1, 3, 6):
        side_case(ck, i, r)
        ck.count("kind_watchers")
    else:
        lives_case(ck, i, r)
        ck.count("kind_lives")


def body(ck):
    from mon import goproxy

    binary = goproxy.build()
    ck.pool(lambda i: case(ck, i, binary), ck.budget(36, 400), seconds=150)
    ck.need(kind_real=10, kind_watchers=20, kind_lives=10, events=2000, watchers_compared=30, intruders=50, gateway_restarts=5, watch_follow_410=20, watch_gone_410=3, watch_newer_410=3,
            route_tables=10, routed_clusters=5, converged=30, proxy_gone=5, proxy_fetch=30, fault_cut=5, fault_stall=3, fault_gateway=3, fault_proxy=3, fault_bulk=3)


if __name__ == "__main__":
    core.main("C16", RULE, body, assumptions=["the clock is not set back by more than the down-time when the gateway restarts", "faults end: the bound of 45 s is counted from their end"])
