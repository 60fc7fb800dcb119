"""C17: HTTP requests go to the longest matching route with the right path.

The real proxy binary takes its table from a scripted gateway.  Histories of
additions, replacements, removals and full refreshes; after each batch (a marker
route tells when it has been applied) requests of every shape are sent byte by
byte as chosen and answered by backends that echo what they got.  A reference
router says where each must have gone and as what.
"""
import asyncio
import json
import re
from urllib.parse import quote, unquote_to_bytes

from mon import core, goproxy

RULE = "each request arrives at the target of the longest registered prefix at a segment boundary, with the prefix replaced by the target's path and all else unchanged; 404 without a match, 502 without a target"
SEGS = ["a", "b", "ab", "clusters", "a b", "é", "x.y", "A", "0", "a-b"]
UNRESERVED = re.compile(rb"[A-Za-z0-9._~-]")


def segments(path):
    """Of a decoded route path"""
    return tuple(s for s in path.split("/") if s)


def norm(raw):
    """A raw path in one spelling: only what may not be told apart is unified."""
    out, b, i = [], raw.encode("latin-1"), 0
    while i < len(b):
        if b[i:i + 1] == b"%":
            c = bytes([int(b[i + 1:i + 3], 16)])
            out.append(c.decode() if UNRESERVED.match(c) else "%%%02X" % c[0])
            i += 3
            continue
        c = b[i:i + 1]
        out.append(c.decode() if UNRESERVED.match(c) or c in b"/!$&'()*+,;=:@" else "%%%02X" % c[0])
        i += 1
    return "".join(out)


# The reserved characters stand for themselves where a path may contain them
def loose(raw):
    return re.sub(r"%(21|24|26|27|28|29|2A|2B|2C|3B|3D|3A|40)", lambda m: chr(int(m.group(1), 16)), norm(raw))


class Table:
    def __init__(self):
        self.routes = {}

    def put(self, path, target):
        self.routes[segments(path)] = target

    def delete(self, path):
        self.routes.pop(segments(path), None)

    def match(self, rawpath):
        """(target, raw remainder without leading slash trimmed) or None; or 'unclear'"""
        assert rawpath.startswith("/")
        raw = rawpath[1:].split("/")
        best = None
        for n in range(0, len(raw) + 1):
            key = tuple(unquote_to_bytes(s).decode("utf-8", "replace") for s in raw[:n])
            if "" in key:
                break
            if key in self.routes:
                best = (n, self.routes[key])
        # An encoded slash that could be taken for a boundary of a route
        if "%2f" in rawpath.lower():
            dec = rawpath.replace("%2f", "/").replace("%2F", "/")
            other = None
            for n in range(0, len(dec[1:].split("/")) + 1):
                key = tuple(unquote_to_bytes(s).decode("utf-8", "replace") for s in dec[1:].split("/")[:n])
                if "" in key:
                    break
                if key in self.routes:
                    other = (n, self.routes[key])
            if (best and best[1]) != (other and other[1]) or best and best[0] != other[0]:
                return "unclear"
        if best is None:
            return None
        n, target = best
        rest = "/" + "/".join(raw[n:]) if len(raw) > n else ""
        return target, rest


def join(base, rest):
    """Acceptable request paths for a target's base path and the remainder."""
    b = base.rstrip("/")
    if rest in ("", "/"):
        return {b + "/", base or "/", b or "/"} if rest == "" else {b + "/"}
    # Several slashes at the joint may become fewer
    bare = rest.lstrip("/")
    return {b + "/" * k + bare for k in range(1, len(rest) - len(bare) + 1)}


def some_path(r, deep=4):
    return "/" + "/".join(r.choice(SEGS[:6] if r.random() < 0.8 else SEGS) for _ in range(r.randint(0 if r.random() < 0.3 else 1, deep)))


def spell(r, seg):
    """A segment as a client may write it in a request."""
    out = ""
    for ch in seg:
        if r.random() < 0.12 and ord(ch) < 128:
            out += "%%%02x" % ord(ch) if r.random() < 0.5 else "%%%02X" % ord(ch)
        else:
            out += quote(ch, safe="!$&'()*+,;=:@-._~")
    return out


def request_path(r, table):
    x = r.random()
    if x < 0.75 and table.routes:
        key = r.choice(list(table.routes))
        segs = [spell(r, s) for s in key]
        y = r.random()
        if y < 0.15 and segs:
            segs[-1] += r.choice(["x", "a", ".", "%20"])
        elif y < 0.25 and segs:
            segs.pop()
        elif y < 0.3:
            segs.append("")
    else:
        segs = [spell(r, s) for s in segments(some_path(r))]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        segs.append(r.choice(["a", "b", "c.html", "%2F", "x%2Fy", "..", ".", "", "%25", "%3F", "q;v=1", "a+b", "%c3%a9", "~u", "x:y@z", "%2e%2e", "a%20b", "(1)", "w*", "$v=&"]))
    p = "/" + "/".join(segs)
    if r.random() < 0.25:
        p += "/"
    return p


def case(ck, i, binary):
    r = ck.rng("case", i)
    asyncio.run(asyncio.wait_for(history(ck, r, binary), 80))


async def history(ck, r, binary):
    gw = await goproxy.ScriptedGateway().start()
    echoes = [await goproxy.EchoHTTP(f"e{k}").start() for k in range(3)]
    dead = "http://%s:%d" % goproxy.address()
    marks = await goproxy.EchoHTTP("mark").start()
    proxy = goproxy.ProxyProc(binary, gw.url, shared=r.random() < 0.3).start()
    table = Table()
    hist = []
    try:
        await proxy.ready()
        client = goproxy.Client(proxy.http)
        mark = 0
        bases = ["", "", "/", "/base", "/base/", "/b%20c/d", "/user/é/x"]
        bases[-1] = quote(bases[-1])

        def target():
            if r.random() < 0.07:
                return dead
            return r.choice(echoes).url + r.choice(bases)

        def written(path):
            x = r.random()
            return path + "/" if x < 0.2 and path != "/" else path[1:] if x < 0.3 and len(path) > 1 else "" if path == "/" and x < 0 else path

        async def settle():
            nonlocal mark
            mark += 1
            gw.push([("PUT", {"kind": "PATH", "path": "/mark-%d" % mark, "target": marks.url})])
            end = asyncio.get_running_loop().time() + 30
            while True:
                st, _, data = await client.request("GET", "/mark-%d" % mark)
                if st == 200 and json.loads(data)["tag"] == "mark":
                    break
                if asyncio.get_running_loop().time() > end:
                    raise core.Violation("not-applied", f"the proxy has not applied changes after 30 s (answers {st})", hist)
                await asyncio.sleep(0.003)
            old = "/mark-%d" % mark
            if r.random() < 0.5:
                gw.push([("DELETE", {"kind": "PATH", "path": old})])
            else:
                table.put(old, marks.url)

        for step in range(r.choice([5, 10, 20])):
            changes = []
            for _ in range(r.choice([1, 1, 2, 4, 10])):
                x = r.random()
                if x < 0.6 or not table.routes:
                    p, t = some_path(r), target()
                    if r.random() < 0.3 and table.routes:
                        # Under or above one that exists
                        key = r.choice(list(table.routes))
                        p = "/" + "/".join(key[: r.randint(0, len(key))]) if r.random() < 0.5 else "/" + "/".join(key + (r.choice(SEGS),))
                    changes.append(("PUT", {"kind": "PATH", "path": written(p), "target": t}))
                    table.put(p, t)
                else:
                    p = "/" + "/".join(r.choice(list(table.routes))) if x < 0.93 else some_path(r)
                    if p.startswith("/mark"):
                        continue
                    changes.append(("DELETE", {"kind": "PATH", "path": written(p)}))
                    table.delete(p)
                ck.count("changes")
            if r.random() < 0.1:
                # Routes the proxy must refuse, without harm to the others
                changes.insert(r.randrange(len(changes) + 1), ("PUT", r.choice([
                    {"kind": "PATH", "path": "/bad", "target": "ftp://x"}, {"kind": "PATH", "path": "/bad", "target": "http://[::1"},
                    {"kind": "PATH", "path": "/bad", "target": ""}, {"kind": "ODD", "path": "/bad", "target": "http://x"}, {"kind": "SNI", "sni": "bad", "target": "tls://127.0.0.1:1"}])))
            hist.append(changes)
            if r.random() < 0.12:
                # What the gateway pushed is missed, the table is fetched anew
                gw.first = gw.id + len(changes) + 10**6
                gw.cut()
                gw.push(changes)
                # The canonical table has one spelling of each route
                gw.table = {("PATH", k): {"kind": "PATH", "path": "/" + "/".join(k), "target": t} for k, t in table.routes.items()}
                await asyncio.sleep(0.05)
                gw.first = gw.id + 1
                gw.events = []
                ck.count("refreshes")
            else:
                gw.push(changes)
            gw.table = {("PATH", k): {"kind": "PATH", "path": "/" + "/".join(k), "target": t} for k, t in table.routes.items()}
            await settle()
            gw.table = {("PATH", k): {"kind": "PATH", "path": "/" + "/".join(k), "target": t} for k, t in table.routes.items()}
            for _ in range(25):
                await probe(ck, r, client, table, echoes, dead, hist, proxy)
        if r.random() < 0.3:
            await upgrade(ck, r, proxy, table, echoes, hist)
        if proxy.crashed():
            raise core.Violation("crash", proxy.crashed(), hist)
        ck.case(json.dumps(hist), True)
    finally:
        proxy.stop()
        await gw.close()
        for e in echoes + [marks]:
            await e.close()


async def probe(ck, r, client, table, echoes, dead, hist, proxy):
    path = request_path(r, table)
    query = r.choice([None, None, "x=1", "a=b&c=%20d", "p=/q/..&;=1", "é".encode().decode("latin-1"), "a=%zz", "u=http://x/?y", "a;b", "k=" + "v" * 3000])
    if query == "é".encode().decode("latin-1"):
        query = "e=%C3%A9"
    method = r.choice(["GET", "GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PROPFIND"])
    body = None
    if method in ("POST", "PUT", "PATCH") or r.random() < 0.05 and method == "DELETE":
        body = r.choice([b"", b"{}", r.randbytes(50), r.randbytes(5000), r.randbytes(200_000) if r.random() < 0.05 else b"x"])
    headers = [("X-Custom", r.choice(["1", "two words", ""])), ("Accept-Encoding", "identity")]
    if r.random() < 0.3:
        headers.append(("Authorization", "token abc"))
    if r.random() < 0.2:
        headers.append(("X-Chunked", "1"))
    code = r.choice([200, 200, 200, 201, 204, 301, 404, 409, 500])
    headers.append(("X-Answer", str(code)))
    want = table.match(path)
    target = path + ("?" + query if query is not None else "")
    label = f"{method} {target[:200]}"

    def bad(key, detail):
        raise core.Violation(key, f"{label} with routes { {'/' + '/'.join(k): v for k, v in table.routes.items()} }: {detail}"[:2500], hist)

    chunked = body is not None and r.random() < 0.3
    for attempt in (0, 1, 2):
        try:
            st, hs, data = await client.request(method, target, headers, body, chunked=chunked)
            break
        except (OSError, asyncio.IncompleteReadError, asyncio.TimeoutError) as exc:
            client.close()
            if proxy.crashed() or not proxy.alive():
                bad("crash", f"the proxy has ended: {proxy.crashed()}")
            # A connection may break, rarely, for the machine's reasons; it doesn't do so again
            lost = client.lost = getattr(client, "lost", 0) + 1
            ck.count("requests repeated")
            if attempt == 2 or lost > 5:
                bad("no-answer", "no answer for 30 s" if isinstance(exc, asyncio.TimeoutError) else f"the connection broke: {exc!r}")
    ck.count("requests")
    if want == "unclear":
        ck.count("unclear")
        return
    low = [(k.lower(), v) for k, v in hs]
    tag = dict(low).get("x-tag")
    if want is None:
        ck.count("unmatched")
        if st != 404 or tag is not None:
            bad("unmatched-routed", f"answered {st} by {tag}")
        return
    base, rest = want
    if base == dead:
        ck.count("unreachable")
        if st != 502:
            bad("unreachable-not-502", f"answered {st}")
        return
    expect = [e for e in echoes if base.startswith(e.url + "/") or base == e.url]
    tags = expect[0].tag if expect else "mark"
    if tag is None:
        bad("not-routed", f"answered {st}, must have gone to {base}")
    if tag != tags:
        bad("wrong-target", f"went to {tag}, must have gone to {base}")
    if st != code:
        bad("status", f"answered {st}, the target said {code}")
    if [v for k, v in low if k == "x-multi"] != ["1", "2"]:
        bad("response-headers", f"{hs}")
    ck.count("routed")
    if method == "HEAD" or code in (204, 304):
        return
    got = json.loads(data)
    if got["method"] != method:
        bad("method", f"arrived as {got['method']}")
    if got["body"].encode("latin-1") != (body or b""):
        bad("body", f"a body of {len(body or b'')} bytes arrived as {len(got['body'])} bytes")
    gp, _, gq = got["target"].partition("?")
    if gq != (query or ""):
        bad("query", f"the query arrived as {gq!r}")
    prefix = base[len(expect[0].url):] if expect else ""
    if loose(gp) not in {loose(p) for p in join(prefix, rest)}:
        bad("path", f"arrived as {gp}, must be {' or '.join(sorted(join(prefix, rest)))}")
    h = {k.lower(): v for k, v in got["headers"]}
    for k, v in headers:
        if h.get(k.lower()) != v:
            bad("headers", f"header {k}: {v!r} arrived as {h.get(k.lower())!r}")
    ck.count("compared")


async def upgrade(ck, r, proxy, table, echoes, hist):
    """A websocket-like connection passes through."""
    for key, base in list(table.routes.items())[:3]:
        e = [e for e in echoes if base.startswith(e.url)]
        if not e:
            continue
        reader, writer = await asyncio.open_connection(*proxy.http)
        p = "/" + "/".join(quote(s) for s in key) + "/ws"
        if (table.match(p) or [None])[0] != base:
            continue
        writer.write(f"GET {p} HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\n".encode())
        try:
            head = await asyncio.wait_for(reader.readuntil(b"\r\n\r\n"), 20)
            line = await asyncio.wait_for(reader.readline(), 20)
            if b" 101 " not in head or not line.startswith(e[0].tag.encode() + b" "):
                raise core.Violation("upgrade", f"upgrade of {p}: {head!r} {line!r}", hist)
            for n in (1, 10, 3000):
                data = r.randbytes(n)
                writer.write(data)
                back = await asyncio.wait_for(reader.readexactly(n), 20)
                if sorted(back) != sorted(data) or n == 1 and back != data:
                    raise core.Violation("upgrade", f"{n} bytes sent over {p} came back different", hist)
            ck.count("upgrades")
        except (asyncio.TimeoutError, asyncio.IncompleteReadError) as exc:
            raise core.Violation("upgrade", f"upgrade of {p}: {exc!r}", hist)
        finally:
            writer.close()


def body(ck):
    binary = goproxy.build()
    ck.pool(lambda i: case(ck, i, binary), ck.budget(40, 900))
    ck.need(requests=5000, compared=1500, unmatched=300, unreachable=30, changes=1000, refreshes=10)


if __name__ == "__main__":
    core.main("C17", RULE, body, assumptions=["several slashes where route and rest of the path meet may become one, and encoded slashes within the matched prefix may be read either way", "target URLs carry no query"])
