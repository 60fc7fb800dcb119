"""C18: scheduler connections go to the named cluster only, byte for byte.

The real proxy binary between scripted clients and stand-in schedulers that both
record every byte.  Crowds of connections at once: hellos of every size, cut into
records and packets in every way, payloads in both directions, half-closes in
every order, resets, routes changing meanwhile, and connections that must not get
to any scheduler, with the HTTP side on its own port or sharing it, plain or TLS.
"""
import asyncio
import os
import ssl
import tempfile

from mon import core, goproxy

RULE = "what a scheduler receives is exactly the bytes of connections naming its cluster, and back, to the end of each direction; all others reach no scheduler"


class Conn:
    """The script of one connection, and what was seen of it."""

    def __init__(self, r, kind, name, hello):
        self.kind, self.name, self.hello = kind, name, hello
        self.order = r.choice(["any", "any", "client-first", "server-first", "client-abort", "server-abort"])
        sizes = lambda: [r.choice([0, 1, 10, 100, 4096, 65536, 65537, 300_000 if r.random() < 0.3 else 5]) for _ in range(r.choice([0, 1, 2, 4]))]
        self.up = [r.randbytes(n) for n in sizes()]
        self.down = [r.randbytes(n) for n in sizes()]
        if self.order == "client-first":
            self.down = self.down or [b"after"]
        if self.order == "server-first":
            self.up = self.up or [b"after"]
        self.pauses = [r.choice([0, 0, 0.001, 0.02]) for _ in range(8)]
        self.got_up = self.got_down = b""
        self.eof_up = self.eof_down = None
        self.at = None  # the scheduler it reached
        self.targets = None  # those it may reach

    def describe(self):
        return f"{self.kind} connection for {self.name!r}, hello of {len(self.hello)} bytes, {self.order}, {[len(x) for x in self.up]} up, {[len(x) for x in self.down]} down"


class Scheduler:
    def __init__(self, world, tag):
        self.world, self.tag = world, tag
        self.host, self.port = goproxy.address()
        self.stray = []

    async def start(self):
        self.server = await asyncio.start_server(self.serve, self.host, self.port)
        return self

    async def serve(self, reader, writer):
        self.world.tasks.add(asyncio.current_task())
        got, conn = b"", None
        try:
            while conn is None:
                data = await reader.read(65536)
                if not data:
                    if got:
                        self.stray.append(got)
                    return
                got += data
                conn = next((c for c in self.world.conns if c.kind not in ("partial", "garbage") and got.startswith(c.hello)), None)
                if conn is None and len(got) > 100_000:
                    self.stray.append(got[:200])
                    return
            if conn.at is not None:
                self.stray.append(b"twice")
                return
            conn.at = self.tag
            conn.got_up = got

            async def read():
                try:
                    while True:
                        data = await reader.read(65536)
                        if not data:
                            conn.eof_up = "eof"
                            return
                        conn.got_up += data
                except OSError:
                    conn.eof_up = "reset"

            reading = asyncio.ensure_future(read())
            if conn.order == "client-first":
                await reading
            await play(writer, conn.down, conn.pauses, abort=conn.order == "server-abort")
            await reading
        except OSError:
            pass
        finally:
            self.world.tasks.discard(asyncio.current_task())
            writer.close()


async def play(writer, chunks, pauses, abort=False):
    try:
        for k, data in enumerate(chunks):
            writer.write(data)
            await writer.drain()
            if pauses[k % len(pauses)]:
                await asyncio.sleep(pauses[k % len(pauses)])
        if abort:
            writer.transport.abort()
        else:
            writer.write_eof()
    except OSError:
        pass


class World:
    def __init__(self):
        self.conns, self.tasks, self.scheds = [], set(), []


def certificate():
    from dask_gateway_server.tls import new_keypair

    return new_keypair("front")


async def run_client(w, c, addr, pieces, front):
    """Plays the client of a connection; returns when its direction down has ended."""
    try:
        reader, writer = await asyncio.open_connection(*addr)
    except OSError as exc:
        c.eof_down = f"refused {exc!r}"
        return
    try:
        for piece, pause in pieces:
            writer.write(piece)
            await writer.drain()
            if pause:
                await asyncio.sleep(pause)

        async def read():
            try:
                while True:
                    data = await reader.read(65536)
                    if not data:
                        c.eof_down = "eof"
                        return
                    c.got_down += data
            except OSError:
                c.eof_down = "reset"

        reading = asyncio.ensure_future(read())
        if c.order == "server-first":
            await reading
        if c.kind == "valid":
            await play(writer, c.up, c.pauses, abort=c.order == "client-abort")
        await reading
    except OSError:
        c.eof_down = c.eof_down or "reset"
    finally:
        writer.close()


def cut(r, data):
    """The pieces a stream of bytes is sent in."""
    mode = r.choice(["whole", "whole", "two", "bytes", "some"])
    if mode == "whole":
        return [(data, 0)]
    if mode == "two":
        k = r.choice([1, 2, 5, 6, 9, 43, len(data) - 1, r.randrange(1, len(data))]) if len(data) > 1 else 1
        return [(data[:k], r.choice([0.001, 0.02, 0.2])), (data[k:], 0)]
    if mode == "bytes":
        n = min(len(data), r.choice([8, 60]))
        return [(data[k:k + 1], 0.0005) for k in range(n)] + [(data[n:], 0)]
    out, k = [], 0
    while k < len(data):
        n = r.choice([1, 7, 100, 1000, 4096])
        out.append((data[k:k + n], 0.001 if len(data) < 20000 else 0))
        k += n
    return out


def case(ck, i, binary, cert):
    r = ck.rng("case", i)
    asyncio.run(asyncio.wait_for(history(ck, r, binary, cert), 80))


async def history(ck, r, binary, cert):
    w = World()
    gw = await goproxy.ScriptedGateway().start()
    web = await goproxy.EchoHTTP("web").start()
    mode = r.choice(["separate", "separate", "shared", "shared-tls", "separate-tls"])
    proxy = goproxy.ProxyProc(binary, gw.url, shared="shared" in mode, tls=cert[:2] if "tls" in mode else None).start()
    w.scheds = [await Scheduler(w, f"s{k}").start() for k in range(4)]
    hist = [mode]
    routes = {}  # name -> tag or "dead"
    dead = goproxy.address()
    names = ["c0", "c1", "c2", "0a1b2c3d4e5f60718293a4b5c6d7e8f9", "ns.cluster-x"]
    front = ssl.create_default_context(cafile=cert[0])
    front.check_hostname = False
    try:
        await proxy.ready()
        http = goproxy.Client(proxy.http, ssl=front if "tls" in mode else None)
        mark = 0

        def change(events, n):
            for _ in range(n):
                name = r.choice(names)
                if r.random() < 0.75 or name not in routes:
                    k = r.randrange(5)
                    tag = "dead" if k == 4 else f"s{k}"
                    host, port = dead if k == 4 else (w.scheds[k].host, w.scheds[k].port)
                    events.append(("PUT", {"kind": "SNI", "sni": name, "target": r.choice(["tls://", "tls://", ""]) + f"{host}:{port}"}))
                    routes[name] = tag
                else:
                    events.append(("DELETE", {"kind": "SNI", "sni": name}))
                    del routes[name]

        async def settle(events):
            nonlocal mark
            mark += 1
            gw.push(events + [("PUT", {"kind": "PATH", "path": f"/m{mark}", "target": web.url})])
            end = asyncio.get_running_loop().time() + 30
            while True:
                st, _, _ = await http.request("GET", f"/m{mark}")
                if st == 200:
                    return
                if asyncio.get_running_loop().time() > end:
                    raise core.Violation("not-applied", f"changes not applied after 30 s ({st})", hist)
                await asyncio.sleep(0.005)

        for step in range(r.choice([2, 3, 4])):
            events = []
            change(events, r.choice([1, 3, 6]))
            hist.append(events)
            await settle(events)
            fixed = dict(routes)
            w.conns = []
            jobs = []
            crowd = r.choice([1, 6, 20])
            churn = []
            if r.random() < 0.4:
                change(churn, r.choice([1, 2]))
            touched = {e[1].get("sni") for e in churn}
            for _ in range(crowd):
                x = r.random()
                size = r.choice([None, None, 300, 1000, 4090, 4091, 4092, 4096, 4097, 5000, 9000, 16000, 16384, 17000, 40000])
                record = r.choice([None, None, None, 1, 5, 100, 1000, 4096, 16384]) if (size or 0) < 9000 else r.choice([None, 4096, 16384, 1000])
                if x < 0.7:
                    name = r.choice(names)
                    hello = goproxy.client_hello(r, "daskgateway-" + name, size, record)
                    kind = "valid"
                    if name in touched:
                        kind = "valid"
                    elif name not in fixed:
                        kind = "unknown"
                    elif fixed[name] == "dead":
                        kind = "dead"
                    c = Conn(r, kind, name, hello)
                    c.targets = None if name in touched else {fixed.get(name)}
                else:
                    kind = r.choice(["unknown", "other", "nosni", "garbage", "http", "partial", "empty", "nearly"])
                    n = r.choice(names)
                    sni = {"unknown": "daskgateway-nope" + n, "other": r.choice([n, "example.org", "gateway-" + n, "xdaskgateway-" + n]), "nosni": None,
                           "empty": "daskgateway-", "nearly": r.choice(["daskgateway-" + n + "x", "daskgateway-" + n[:-1], "daskgateway" + n, "daskgateway-daskgateway-" + n])}.get(kind)
                    hello = goproxy.client_hello(r, sni, size, record)
                    if kind == "garbage":
                        hello = r.choice([b"\x16\x03\x01\x00\x05hello", b"\x16\x03\x01\xff\xff" + r.randbytes(100), r.randbytes(50), b"\x00" * 20, b"\x16" * 30, b"\x16\x03\x01\x02\x00\x01" + r.randbytes(511),
                                           hello[:60] + r.randbytes(300)])
                    if kind == "http":
                        hello = b"GET /m%d HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % mark
                    if kind == "partial":
                        hello = goproxy.client_hello(r, "daskgateway-" + n, size, record)
                        hello = hello[: r.randrange(1, len(hello))]
                    c = Conn(r, kind, n, hello)
                    c.targets = set()
                    c.order = "any"
                w.conns.append(c)
                jobs.append((c, cut(r, hello)))
            before_scheds = {s.tag: len(s.stray) for s in w.scheds}

            async def one(c, pieces):
                await asyncio.sleep(r.choice([0, 0, 0.005, 0.05]))
                task = run_client(w, c, proxy.tcp, pieces, front)
                if c.kind in ("garbage", "partial", "http", "nosni", "other", "empty", "nearly"):
                    # A client that stalls or babbles; it gives up at last
                    ends = c.kind not in ("garbage", "partial") and mode.startswith("separate") or mode == "shared" and c.kind == "http"
                    try:
                        await asyncio.wait_for(task, 20 if ends else r.choice([0.2, 0.5]))
                    except asyncio.TimeoutError:
                        c.eof_down = "gave up"
                else:
                    try:
                        await asyncio.wait_for(task, 40)
                    except asyncio.TimeoutError:
                        c.eof_down = "timeout"

            running = [asyncio.ensure_future(one(*j)) for j in jobs]
            if churn:
                await asyncio.sleep(r.choice([0, 0.01, 0.03]))
                hist.append(churn)
                gw.push(churn)
            await asyncio.gather(*running)
            await asyncio.sleep(0.02)
            # Schedulers may still be reading what is on its way
            end = asyncio.get_running_loop().time() + 20
            while any(c.at and c.eof_up is None for c in w.conns) and asyncio.get_running_loop().time() < end:
                await asyncio.sleep(0.02)
            judge(ck, w, proxy, mode, fixed, touched, hist)
            for s in w.scheds:
                if len(s.stray) > before_scheds[s.tag]:
                    raise core.Violation("stray", f"scheduler {s.tag} received {s.stray[-1][:200]!r}", hist)
        if r.random() < 0.5:
            await handshakes(ck, r, w, gw, proxy, settle, hist, cert)
        if mode.endswith("tls") or mode == "shared":
            st, _, data = await http.request("GET", f"/m{mark}/x")
            if st != 200:
                raise core.Violation("web-broken", f"the web side answers {st} ({mode})", hist)
            ck.count("web_shared")
        if proxy.crashed() or not proxy.alive():
            raise core.Violation("crash", f"{proxy.crashed()}", hist)
        ck.case(tuple(c.describe() for c in w.conns), True, sample=[c.describe() for c in w.conns[:4]])
    finally:
        proxy.stop()
        for t in list(w.tasks):
            t.cancel()
        await gw.close()
        await web.close()
        for s in w.scheds:
            s.server.close()


def judge(ck, w, proxy, mode, fixed, touched, hist):
    for c in w.conns:
        def bad(key, detail):
            raise core.Violation(key, f"{mode}: {c.describe()}: {detail}"[:1500], hist)

        ck.count("connections")
        ck.count("kind_" + c.kind)
        if c.kind not in ("valid",):
            if c.at is not None:
                bad("reached-scheduler", f"reached {c.at}")
            if c.kind in ("unknown", "dead", "empty") and c.eof_down in ("timeout", None):
                bad("not-closed", "the client was neither served nor closed")
            if c.kind in ("unknown", "dead") and c.got_down and c.name not in touched:
                bad("unknown-served", f"the client got {c.got_down[:100]!r}")
            if mode.startswith("separate") and c.got_down:
                bad("invalid-served", f"the client got {c.got_down[:100]!r}")
            if mode == "shared" and c.kind == "http" and not c.got_down.startswith(b"HTTP/1.1 200"):
                bad("http-not-served", f"the client got {c.got_down[:100]!r}, then {c.eof_down}")
            if mode.startswith("separate") and c.kind in ("http", "nosni", "other") and c.eof_down == "gave up":
                bad("not-closed", "the connection was left open")
            continue
        if c.targets is None:
            # Its route changed meanwhile
            if c.at is None:
                continue
        elif c.at is None:
            bad("not-routed", f"reached no scheduler, must be {fixed[c.name]}; the client saw {c.eof_down}")
        elif c.at not in c.targets:
            bad("wrong-scheduler", f"reached {c.at}, must be {fixed[c.name]}")
        up, down = c.hello + b"".join(c.up), b"".join(c.down)
        if not up.startswith(c.got_up):
            bad("bytes-up", f"{len(c.got_up)} bytes arrived at the scheduler that differ from the {len(up)} sent")
        if not down.startswith(c.got_down):
            bad("bytes-down", f"{len(c.got_down)} bytes arrived at the client that differ from the {len(down)} sent")
        if c.eof_down in ("timeout", None) or c.eof_up is None:
            bad("stuck", f"the client saw {c.eof_down} after {len(c.got_down)} of {len(down)} bytes, the scheduler {c.eof_up} after {len(c.got_up)} of {len(up)}")
        if c.order in ("client-abort", "server-abort"):
            ck.count("aborted")
            continue
        if c.got_up != up:
            bad("cut-up", f"{len(c.got_up)} of {len(up)} bytes arrived at the scheduler, then {c.eof_up}")
        if c.got_down != down:
            bad("cut-down", f"{len(c.got_down)} of {len(down)} bytes arrived at the client, then {c.eof_down}")
        if (c.eof_up, c.eof_down) != ("eof", "eof"):
            bad("not-clean", f"the client saw {c.eof_down}, the scheduler {c.eof_up}")
        ck.count("order_" + c.order)
        ck.count("bytes", len(up) + len(down))
        ck.count("passed")


async def handshakes(ck, r, w, gw, proxy, settle, hist, cert):
    """Real TLS through the proxy, with the scheduler's own certificate."""
    ctx = ssl.create_default_context(ssl.Purpose.CLIENT_AUTH)
    ctx.load_cert_chain(cert[0], cert[1])

    async def serve(reader, writer):
        try:
            while data := await reader.read(65536):
                writer.write(data[::-1])
                await writer.drain()
        except (OSError, ssl.SSLError):
            pass
        finally:
            writer.close()

    host, port = goproxy.address()
    server = await asyncio.start_server(serve, host, port, ssl=ctx)
    await settle([("PUT", {"kind": "SNI", "sni": "real", "target": f"tls://{host}:{port}"})])
    try:
        cc = ssl.create_default_context(cafile=cert[0])
        cc.check_hostname = False
        for _ in range(2):
            reader, writer = await asyncio.wait_for(asyncio.open_connection(*proxy.tcp, ssl=cc, server_hostname="daskgateway-real"), 20)
            data = r.randbytes(r.choice([1, 1000, 10_000]))
            writer.write(data)
            back = b""
            while len(back) < len(data):
                back += await asyncio.wait_for(reader.read(65536), 20)
            if sorted(back) != sorted(data):
                raise core.Violation("tls", "data sent over TLS through the proxy came back different", hist)
            writer.close()
            ck.count("tls_sessions")
    except (OSError, ssl.SSLError, asyncio.TimeoutError) as exc:
        raise core.Violation("tls", f"a TLS session through the proxy fails: {exc!r}", hist)
    finally:
        server.close()


def body(ck):
    binary = goproxy.build()
    crt, key = certificate()
    paths = []
    for data, name in ((crt, "front.crt"), (key, "front.pem")):
        p = os.path.join(goproxy.scratch(), name)
        with open(p, "wb") as f:
            f.write(data)
        paths.append(p)
    ck.pool(lambda i: case(ck, i, binary, tuple(paths)), ck.budget(40, 900))
    ck.need(connections=1500, passed=500, aborted=50, kind_unknown=50, kind_garbage=20, kind_partial=20, kind_http=20, tls_sessions=20, web_shared=20)


if __name__ == "__main__":
    core.main("C18", RULE, body, assumptions=["a connection whose cluster's route changes while it is being opened may go either way"])
