"""C19: the proxy is free of data races and survives hostile clients.

The real proxy binary, built with Go's race detector, under everything at once:
routes that change all the time, an event stream that breaks, lies and resumes,
crowds of connections of every kind, valid and hostile, resets, stalls, and running
out of file descriptors.  The monitors are the race detector, the process (panics,
fatal errors, exit), requests of well-behaved clients along routes that never change
(each must be answered, rightly and in time), and the number of open files, which
(sockets) must come down again when the clients have gone.
"""
import asyncio
import os
import ssl
import struct
import socket
import tempfile

from mon import core, goproxy

RULE = (
    "the race-detecting build of the proxy under concurrent route changes, broken event streams and crowds of hostile clients; the detector, the process, the answers "
    "to well-behaved clients and the open files are watched; distinct by the mixture of hostile acts"
)


class World:
    pass


def certificate():
    from dask_gateway_server.tls import new_keypair

    return new_keypair("front")


async def steady_sched(reader, writer):
    """Says its name, then echoes"""
    try:
        got = await reader.read(65536)
        while got:
            writer.write(b"steady:" + got[-1:])
            await writer.drain()
            got = await reader.read(65536)
    except OSError:
        pass
    finally:
        writer.close()


async def sink(reader, writer):
    """Takes the connection and does nothing with it"""
    try:
        await asyncio.sleep(5)
    except asyncio.CancelledError:
        pass
    finally:
        writer.transport.abort()


async def flood(reader, writer):
    """Sends for ever"""
    try:
        while True:
            writer.write(bytes(65536))
            await writer.drain()
    except OSError:
        pass
    finally:
        writer.transport.abort()


async def slam(reader, writer):
    s = writer.get_extra_info("socket")
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    writer.transport.abort()


# -- hostile acts ---------------------------------------------------------------
async def dial(addr):
    return await asyncio.wait_for(asyncio.open_connection(*addr), 30)


def rst(writer):
    s = writer.get_extra_info("socket")
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    except OSError:
        pass
    writer.transport.abort()


async def hostile(w, r, kind):
    """One hostile connection; it always ends on its own."""
    tls_front = "tls" in w.mode
    addr = r.choice([w.proxy.http, w.proxy.tcp])
    if kind in ("sni", "partial", "longname", "blackhole", "half", "noread", "sni-rst", "flood", "manyrec"):
        addr = w.proxy.tcp
    reader, writer = await dial(addr)
    hold = lambda: asyncio.sleep(r.choice([0, 0, 0, 0.01, 0.1, 0.5]))
    try:
        if kind == "garbage":
            writer.write(r.randbytes(r.choice([1, 5, 100, 5000])))
            await hold()
        elif kind == "nothing":
            await asyncio.sleep(r.choice([0, 0.05, 1.5]))
        elif kind == "partial":
            h = goproxy.client_hello(r, "daskgateway-" + r.choice(w.names), r.choice([None, 5000, 16384]), r.choice([None, 1, 50]))
            writer.write(h[: r.randrange(len(h))])
            await hold()
        elif kind == "mutant":
            h = bytearray(goproxy.client_hello(r, "daskgateway-" + r.choice(w.names), None, r.choice([None, 40])))
            for _ in range(r.choice([1, 1, 3, 10])):
                h[r.randrange(min(len(h), r.choice([6, 10, 60, 1000])))] = r.choice([0, 1, 0xFF, 0x16, r.randrange(256)])
            writer.write(bytes(h) + r.randbytes(r.choice([0, 100])))
            await hold()
        elif kind == "lengths":
            # Records and messages that lie about their lengths
            n = r.choice([0, 1, 3, 16384, 16385, 65535])
            body = r.choice([b"", b"\x01", b"\x01\xff\xff\xff", b"\x01\x00\x00\x00", b"\x01\x00\x02\x00\x03\x03", b"\x02\x00\x00\x10", r.randbytes(300)])
            for _ in range(r.choice([1, 2, 500])):
                writer.write(b"\x16\x03" + bytes([r.choice([0, 1, 3, 4, 255])]) + struct.pack(">H", n) + body)
            await hold()
        elif kind == "manyrec":
            # A hello that never ends
            for _ in range(r.choice([5, 40])):
                writer.write(b"\x16\x03\x01\x40\x00" + (b"\x01\xff\xff\xff" + bytes(16380)))
                await writer.drain()
            await hold()
        elif kind == "sni":
            writer.write(goproxy.client_hello(r, "daskgateway-" + r.choice(w.names + ["slam", "dead", "sink"])))
            await asyncio.wait_for(reader.read(100), r.choice([0.05, 0.5]))
        elif kind == "sni-rst":
            writer.write(goproxy.client_hello(r, "daskgateway-" + r.choice(w.names + ["flood", "steady"])))
            await asyncio.wait_for(reader.read(10), r.choice([0.05, 0.4]))
            writer.write(bytes(r.choice([10, 300000])))
            await hold()
            rst(writer)
        elif kind == "longname":
            writer.write(goproxy.client_hello(r, r.choice(["daskgateway-" + "a" * 240, "a" * 60000, "\x00" * 20, "daskgateway-\xff\n%s", "daskgateway-../../x", ""])))
            await hold()
        elif kind == "blackhole":
            writer.write(goproxy.client_hello(r, "daskgateway-blackhole"))
            await hold()
        elif kind == "half":
            writer.write(goproxy.client_hello(r, "daskgateway-" + r.choice(["steady", "flood", "sink"])))
            writer.write_eof()
            await asyncio.wait_for(reader.read(100), 0.5)
        elif kind == "noread":
            # Floods come in and nobody reads
            writer.transport.pause_reading()
            writer.write(goproxy.client_hello(r, "daskgateway-flood"))
            await asyncio.sleep(r.choice([0.1, 1.5]))
        elif kind == "flood":
            writer.write(goproxy.client_hello(r, "daskgateway-sink"))
            try:
                for _ in range(100):
                    writer.write(bytes(65536))
                    await asyncio.wait_for(writer.drain(), 0.5)
            except asyncio.TimeoutError:
                pass
        elif kind == "http":
            req = r.choice([
                b"GET / HTTP/1.1\r\n", b"GET\r\n\r\n", b"\r\n" * 50, b"GET / HTTP/9.9\r\n\r\n", b"GET /steady HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n",
                b"GET /steady HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999999999999999\r\n\r\n", b"POST /steady HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
                b"POST /steady HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc", b"POST /steady/z HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\nshort",
                b"GET " + b"/a" * 5000 + b" HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /steady/%zz HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /steady\x00 HTTP/1.1\r\nHost: x\r\n\r\n",
                b"GET /steady HTTP/1.1\r\nHost: x\r\nA: " + b"b" * 2_000_000 + b"\r\n\r\n", b"CONNECT steady:80 HTTP/1.1\r\nHost: x\r\n\r\n", b"GET * HTTP/1.1\r\nHost: x\r\n\r\n", b"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
                b"GET http://[::1 HTTP/1.1\r\nHost: x\r\n\r\n", b"GET //steady//.. HTTP/1.1\r\nHost: x\r\n\r\n", b"GET steady HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /steady?%zz;&& HTTP/1.1\r\nHost: x\r\n\r\n",
                b"GET /steady HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: zz\r\n\r\nbytes", b"GET /dead HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /slam/x HTTP/1.1\r\nHost: x\r\n\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
                b"GET /sink/x HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /flood/x HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /junk/x HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /steady HTTP/1.1\r\nHost: x\r\n\r\n" * 200,
                b"GET /" + r.choice(w.names).encode() + b" HTTP/1.1\r\nHost: x\r\n\r\n",
            ])
            if tls_front and addr == w.proxy.http and r.random() < 0.7:
                writer.close()
                ctx = ssl.create_default_context()
                ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
                reader, writer = await asyncio.wait_for(asyncio.open_connection(*addr, ssl=ctx), 10)
            writer.write(req)
            await asyncio.wait_for(reader.read(r.choice([10, 100000])), r.choice([0.05, 0.5]))
            if r.random() < 0.5:
                rst(writer)
        elif kind == "slow":
            data = r.choice([b"GET /steady HTTP/1.1\r\nHost: x\r\n\r\n", goproxy.client_hello(r, "daskgateway-steady")])
            for k in range(0, 30):
                writer.write(data[k:k + 1])
                await asyncio.sleep(0.02)
    except (OSError, asyncio.TimeoutError, ssl.SSLError, asyncio.IncompleteReadError):
        pass
    finally:
        if r.random() < 0.3:
            rst(writer)
        writer.close()


KINDS = ["garbage", "nothing", "partial", "mutant", "lengths", "manyrec", "sni", "sni", "sni-rst", "longname", "blackhole", "half", "noread", "flood", "http", "http", "http", "slow"]


# -- well-behaved clients ---------------------------------------------------------
async def valid_http(w, client, k):
    st, hs, data = await client.request("GET", f"/steady/n{k}", timeout=15)
    if st == 502 and w.tolerant():
        w.ck.count("refused_while_exhausted")
        return
    if st != 200 or f'"target": "/n{k}"'.encode() not in data or b'"tag": "steady"' not in data:
        raise core.Violation("valid-http", f"a valid request was answered {st} {data[:200]!r}", w.hist)
    w.ck.count("valid_http")


async def valid_sni(w, r):
    """A session through the proxy, with several exchanges"""
    reader, writer = await dial(w.proxy.tcp)
    try:
        h = goproxy.client_hello(r, "daskgateway-steady")
        writer.write(h)
        # The hello may arrive in two pieces, then the echo says so twice
        want = b"steady:" + h[-1:]
        got = await asyncio.wait_for(reader.readuntil(want), 15)
        for _ in range(r.choice([1, 3, 10])):
            b = bytes([r.randrange(128, 255)])
            writer.write(b)
            got = await asyncio.wait_for(reader.readexactly(8), 15)
            if got != b"steady:" + b:
                raise core.Violation("valid-sni", f"a valid session got {got!r} for {b!r}", w.hist)
            await asyncio.sleep(r.choice([0, 0.02, 0.2]))
        w.ck.count("valid_sni")
    finally:
        writer.close()


async def probe_loop(w, r):
    ctx = None
    if "tls" in w.mode:
        ctx = ssl.create_default_context()
        ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
    client = goproxy.Client(w.proxy.http, ssl=ctx)
    k = 0
    while not w.over:
        k += 1
        what = "http" if k % 2 else "sni"
        t0 = asyncio.get_running_loop().time()
        try:
            if what == "http":
                if r.random() < 0.5:
                    client.close()
                await valid_http(w, client, k)
            else:
                await valid_sni(w, r)
            w.worst = max(w.worst, asyncio.get_running_loop().time() - t0)
        except (OSError, asyncio.TimeoutError, asyncio.IncompleteReadError, ssl.SSLError) as exc:
            if w.proxy.crashed() or not w.proxy.alive():
                return
            if w.tolerant():
                w.ck.count("refused_while_exhausted")
                client.close()
            else:
                raise core.Violation("valid-" + what, f"a valid {what} client got {exc!r} after {asyncio.get_running_loop().time() - t0:.1f} s ({w.mode})", w.hist)
        await asyncio.sleep(r.choice([0, 0.01, 0.05]))


# -- what the gateway does ------------------------------------------------------
def junk_lines(r, steady):
    lines = [
        b"", b"null", b"{}", b"[]", b"{\"events\": null}", b"{\"events\": {}}", b"{\"events\": [null]}", b"{\"events\": [{}]}", b"nonsense", b"\xff\xfe",
        b"{\"events\": [{\"id\": -1}]}", b"{\"events\": [{\"id\": 1e30, \"type\": \"PUT\"}]}", b"{\"events\": [{\"id\": 3, \"type\": \"MAYBE\", \"route\": {\"kind\": \"SNI\", \"sni\": \"x\"}}]}",
        b"{\"events\": [{\"id\": 3, \"type\": \"PUT\", \"route\": {\"kind\": \"PATH\", \"path\": \"/x\", \"target\": \"%zz://\"}}]}",
        b"{\"events\": [{\"id\": 3, \"type\": \"PUT\", \"route\": {\"kind\": \"PATH\", \"path\": \"\", \"target\": \"http://x\"}}]}",
        b"{\"events\": [{\"id\": 3, \"type\": \"PUT\", \"route\": {\"kind\": \"WHAT\"}}]}", b"{\"events\": [{\"id\": 3, \"type\": \"DELETE\", \"route\": {\"kind\": \"PATH\", \"path\": \"nowhere\"}}]}",
        b"{\"events\": [{\"id\": 3, \"type\": \"DELETE\", \"route\": {\"kind\": \"PATH\", \"path\": \"//a//\"}}]}", b"{\"events\": [" * 1000, b" " * 100_000,
    ]
    return r.choice(lines)


async def gateway_loop(w, r):
    gw = w.gw
    host, port = w.dead
    while not w.over:
        events = []
        for _ in range(r.choice([1, 1, 3, 20])):
            name = r.choice(w.names)
            x = r.random()
            if x < 0.3:
                events.append(("PUT", {"kind": "SNI", "sni": name, "target": r.choice(w.targets)}))
            elif x < 0.45:
                events.append(("DELETE", {"kind": "SNI", "sni": name}))
            elif x < 0.8:
                events.append(("PUT", {"kind": "PATH", "path": r.choice([f"/{name}", f"/{name}/sub", "/steady/deeper/" + name]), "target": w.web.url + r.choice(["", "/base"])}))
            else:
                events.append(("DELETE", {"kind": "PATH", "path": r.choice([f"/{name}", f"/{name}/sub", "/steady/deeper/" + name])}))
        gw.push(events)
        w.ck.count("route_changes", len(events))
        x = r.random()
        if x < 0.05:
            gw.cut(partial=r.random() < 0.5)
            w.ck.count("stream_breaks")
        elif x < 0.08:
            data = junk_lines(r, None) + b"\n"
            for wr in list(gw.watchers):
                wr.write(b"%x\r\n%s\r\n" % (len(data), data))
            w.ck.count("junk_lines")
        elif x < 0.12:
            gw.mode = r.choice(["500", "gone", "refuse", "garbage", "stall", None])
            w.hist.append(gw.mode)
            if gw.mode:
                gw.cut()
        elif x < 0.2:
            gw.mode = None
        await asyncio.sleep(r.choice([0, 0.001, 0.005, 0.02]))
    gw.mode = None


async def hostile_loop(w, r, kinds):
    while not w.over:
        kind = r.choice(kinds)
        w.ck.count("hostile_" + kind)
        try:
            await hostile(w, r, kind)
        except (OSError, asyncio.TimeoutError) as exc:
            if not w.proxy.alive():
                return
            if not w.tolerant():
                raise core.Violation("refused", f"connecting failed: {exc!r} ({w.mode})", w.hist)
        await asyncio.sleep(r.choice([0, 0, 0.01]))


def case(ck, i, binary, cert):
    r = ck.rng("case", i)
    asyncio.run(asyncio.wait_for(history(ck, i, r, binary, cert), 110))


async def history(ck, i, r, binary, cert):
    loop = asyncio.get_running_loop()
    w = World()
    w.ck, w.hist, w.over, w.worst = ck, [], False, 0.0
    w.mode = r.choice(["separate", "shared", "separate-tls", "shared-tls"])
    exhaust = r.random() < 0.3
    level = r.choice(["ERROR", "DEBUG", "WARN"])
    w.hist.append((w.mode, exhaust, level))
    w.gw = gw = await goproxy.ScriptedGateway().start()
    w.web = web = await goproxy.EchoHTTP("steady").start()
    w.names = [f"c{k}" for k in range(4)]
    servers = {}
    for name, fn in (("steady", steady_sched), ("sink", sink), ("flood", flood), ("slam", slam)):
        host, port = goproxy.address()
        servers[name] = (host, port, await asyncio.start_server(fn, host, port))
    # A listener whose queue is full: connecting to it takes for ever
    hole = socket.socket()
    hole.bind(goproxy.address())
    hole.listen(0)
    fillers = []
    for _ in range(4):
        s = socket.socket()
        s.setblocking(False)
        s.connect_ex(hole.getsockname())
        fillers.append(s)
    w.dead = goproxy.address()
    w.targets = [f"tls://{h}:{p}" for h, p, _ in servers.values()] + ["tls://%s:%d" % w.dead, "", "nonsense", "tls://", "%s:%d" % w.dead]
    put = lambda kind, name, target: ("PUT", {"kind": kind, ("sni" if kind == "SNI" else "path"): name, "target": target})
    gw.push([put("PATH", "/steady", web.url)] + [put("SNI", n, f"tls://{h}:{p}") for n, (h, p, _) in servers.items()]
            + [put("SNI", "blackhole", "tls://%s:%d" % hole.getsockname()), put("SNI", "dead", "tls://%s:%d" % w.dead), put("PATH", "/dead", "http://%s:%d" % w.dead)]
            + [put("PATH", "/" + n, "http://%s:%d" % servers[n][:2]) for n in ("sink", "flood", "slam")] + [put("PATH", "/junk", "http://%s:%d" % servers["steady"][:2])])
    w.exhausted = 0.0
    w.tolerant = lambda: exhaust and loop.time() < w.exhausted
    w.proxy = proxy = goproxy.ProxyProc(binary, gw.url, shared="shared" in w.mode, tls=cert if "tls" in w.mode else None, nofile=90 if exhaust else None, level=level,
                                        env={"GORACE": "halt_on_error=0 history_size=2"}).start()
    tasks = []
    try:
        await proxy.ready(40)
        end = loop.time() + 20
        while True:
            try:
                await valid_sni(w, r)
                break
            except (OSError, asyncio.TimeoutError, asyncio.IncompleteReadError):
                if loop.time() > end:
                    raise core.Violation("no-table", "the steady route is not served within 20 s of the start", w.hist)
                await asyncio.sleep(0.05)
        base = proxy.sockets()
        kinds = r.sample(sorted(set(KINDS)), r.choice([1, 4, len(set(KINDS))]))
        if exhaust:
            # (connections on their way to a target that doesn't answer hold their files for 10 s, by design)
            kinds = [k for k in kinds if k != "blackhole"] or ["sni"]
        w.hist.append(kinds)
        if exhaust:
            # The limit is low: anything may run out of files until the crowd has left
            w.exhausted = loop.time() + 1e6
        tasks = [asyncio.ensure_future(gateway_loop(w, r))]
        tasks += [asyncio.ensure_future(probe_loop(w, ck.rng("probe", i, k))) for k in range(2)]
        tasks += [asyncio.ensure_future(hostile_loop(w, ck.rng("hostile", i, k), kinds)) for k in range(r.choice([4, 16, 32]))]

        async def watch(seconds):
            done, _ = await asyncio.wait(tasks, timeout=seconds, return_when=asyncio.FIRST_EXCEPTION)
            check_process(w)
            for t in done:
                if t.exception():
                    raise t.exception()

        await watch(r.choice([1, 2, 3]))
        if exhaust:
            # A crowd that holds more connections than the proxy may have
            crowd = []
            for _ in range(200):
                s = socket.socket()
                s.setblocking(False)
                s.connect_ex(r.choice([proxy.http, proxy.tcp]))
                crowd.append(s)
            ck.count("exhaustions")
            await watch(r.choice([0.5, 1.5]))
            for s in crowd:
                s.close()
            await watch(0.5)
        w.over = True
        done, pending = await asyncio.wait(tasks, timeout=40)
        check_process(w)
        for t in done:
            if t.exception():
                raise t.exception()
        if pending:
            raise core.Violation("stuck", f"clients do not get to an end: {[t.get_coro().__name__ for t in pending]}", w.hist)
        # All have gone: it serves, and holds nothing of theirs
        w.exhausted = 0.0
        t0 = loop.time()
        ctx = None
        if "tls" in w.mode:
            ctx = ssl.create_default_context()
            ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
        while True:
            try:
                client = goproxy.Client(proxy.http, ssl=ctx)
                await asyncio.wait_for(valid_http(w, client, 0), 5)
                client.close()
                await asyncio.wait_for(valid_sni(w, r), 8)
                break
            except (OSError, asyncio.TimeoutError, asyncio.IncompleteReadError, ssl.SSLError) as exc:
                check_process(w)
                if not exhaust or loop.time() > t0 + 30:
                    raise core.Violation("not-serving", f"after the crowd has gone a valid client gets {exc!r} ({w.mode})", w.hist)
                await asyncio.sleep(0.1)
        ck.count("served_after")
        t0 = loop.time()
        # (dialling may take 10 s, idle connections to the web servers are kept by design: at most two for each)
        while (n := proxy.sockets()) > base + 16:
            if loop.time() > t0 + 35:
                fds = [os.readlink(f"/proc/{proxy.proc.pid}/fd/{x}") for x in os.listdir(f"/proc/{proxy.proc.pid}/fd")]
                raise core.Violation("leak", f"{n} files are open long after all clients have gone, {base} before ({w.mode}, {kinds})", w.hist + [fds[:40]])
            await asyncio.sleep(0.2)
        ck.count("fds_back")
        proxy.proc.stdin.close()
        for _ in range(200):
            if proxy.proc.poll() is not None:
                break
            await asyncio.sleep(0.05)
        else:
            raise core.Violation("stdin", "the proxy did not exit when its standard input ended", w.hist)
        check_output(w)
        ck.count("worst_ms", int(w.worst * 1000))
        ck.case((w.mode, exhaust, level, tuple(kinds)), True, sample=w.hist[:6])
    finally:
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        proxy.stop()
        await gw.close()
        await web.close()
        for _, _, s in servers.values():
            s.close()
        for s in fillers + [hole]:
            s.close()
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()
        await asyncio.sleep(0)


def check_output(w):
    what = w.proxy.crashed()
    if what:
        key = "data-race" if "DATA RACE" in what else "panic"
        raise core.Violation(key, f"{w.mode}: {what}", w.hist)


def check_process(w):
    check_output(w)
    if not w.proxy.alive():
        raise core.Violation("died", f"the proxy exited with {w.proxy.proc.poll()}: {w.proxy.output()[-800:]} ({w.mode})", w.hist)


def body(ck):
    binary = goproxy.build(race=True)
    cert, key = certificate()
    paths = []
    for name, data in (("front.crt", cert), ("front.pem", key)):
        p = os.path.join(goproxy.scratch(), name)
        with open(p, "wb") as f:
            f.write(data)
        paths.append(p)
    ck.pool(lambda i: case(ck, i, binary, tuple(paths)), ck.budget(40, 600), procs=6, seconds=130)
    ck.need(valid_http=200, valid_sni=100, route_changes=2000, stream_breaks=10, exhaustions=1, served_after=5, fds_back=5)


if __name__ == "__main__":
    core.main("C19", RULE, body, assumptions=["races are found by Go's detector in the executions seen", "clients have 15 s to be served, on a loaded machine"])
