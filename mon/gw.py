"""Builds the real gateway application and sends it HTTP requests in-process.

Requests go through the real aiohttp application (routing, middlewares,
handlers, error mapping); only the socket is missing.
"""
import asyncio
import base64
import itertools
import json
import logging
import random
import uuid
import warnings

warnings.simplefilter("ignore")

import cryptography.hazmat.primitives.asymmetric.rsa as rsa
from aiohttp import StreamReader, web
from aiohttp.base_protocol import BaseProtocol
from aiohttp.http_parser import RawRequestMessage
from aiohttp.http_writer import HttpVersion11
from aiohttp.web_urldispatcher import UrlMappingMatchInfo
from multidict import CIMultiDict, CIMultiDictProxy
from traitlets.config import Config
from yarl import URL

_real_generate = rsa.generate_private_key
_real_uuid4 = uuid.uuid4
_keys = []


def cheap_keys(n=4):
    """Replace slow RSA generation by a small pool (not for the TLS property)."""
    while len(_keys) < n:
        _keys.append(_real_generate(public_exponent=65537, key_size=2048))
    ring = itertools.cycle(_keys)
    rsa.generate_private_key = lambda *a, **k: next(ring)


def seeded_uuids(seed):
    """Make generated names reproducible."""
    rng = random.Random(seed)
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)


def basic(user, password="x"):
    return {"Authorization": "Basic " + base64.b64encode(f"{user}:{password}".encode()).decode()}


def token(tok):
    return {"Authorization": f"token {tok}"}


class Response:
    def __init__(self, status, body, headers, exc=None):
        self.status, self.body, self.headers, self.exc = status, body, headers, exc

    @property
    def json(self):
        try:
            return json.loads(self.body)
        except Exception:
            return None

    @property
    def cookies(self):
        return self._cookies

    def __repr__(self):
        return f"<{self.status} {self.body[:200]!r} {self.exc!r}>"


class _Transport:
    def get_extra_info(self, name, default=None):
        return default

    def is_closing(self):
        return False


class _Proto(BaseProtocol):
    """Stands in for the connection: requests are not read from a socket."""

    ssl_context = None
    peername = ("127.0.0.1", 1)
    sockname = ("127.0.0.1", 80)
    max_field_size = 8190
    max_line_length = 8190
    max_headers = 128


class _Writer:
    """Records what a streaming response writes."""

    output_size = buffer_size = 0
    transport = _Transport()

    def __init__(self):
        self.written = []

    async def write(self, data):
        self.written.append(bytes(data))

    async def write_headers(self, status_line, headers):
        pass

    async def write_eof(self, chunk=b""):
        if chunk:
            self.written.append(bytes(chunk))

    async def drain(self):
        pass

    def send_headers(self):
        pass

    def enable_compression(self, *a, **k):
        pass

    def enable_chunking(self):
        pass


def make_request(app, method, path, headers=None, body=b"", js=None):
    headers = CIMultiDict(headers or {})
    if js is not None:
        body = json.dumps(js).encode()
        headers.setdefault("Content-Type", "application/json")
    headers.setdefault("Host", "gateway")
    loop = asyncio.get_running_loop()
    proto = _Proto(loop)
    proto.transport = _Transport()
    payload = StreamReader(proto, 2**16, loop=loop)
    if body:
        headers.setdefault("Content-Length", str(len(body)))
        payload.feed_data(body)
    payload.feed_eof()
    raw = tuple((k.encode(), v.encode("utf-8", "surrogateescape")) for k, v in headers.items())
    message = RawRequestMessage(
        method, path, HttpVersion11, CIMultiDictProxy(headers), raw, False, None, False, False, URL(path, encoded=True)
    )
    writer = _Writer()
    req = web.Request(message, payload, proto, writer, asyncio.current_task(), loop, client_max_size=1024**2)
    req.verif_writer = writer
    match = UrlMappingMatchInfo({}, None)
    match.add_app(app)
    req._match_info = match
    return req


async def request(app, method, path, headers=None, body=b"", js=None):
    req = make_request(app, method, path, headers, body, js)
    try:
        resp = await app._handle(req)
        exc = None
    except web.HTTPException as e:
        resp, exc = e, None
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return Response(500, b"", {}, e)
    data = resp.body
    if data is None:
        data = b""
    elif not isinstance(data, (bytes, bytearray)):
        data = bytes(getattr(data, "_value", b""))
    r = Response(resp.status, bytes(data), dict(resp.headers), exc)
    r._cookies = {k: m.value for k, m in resp.cookies.items()}
    return r


def sync(coro):
    """Drive a coroutine that does not suspend. Returns (done, value)."""
    try:
        coro.send(None)
    except StopIteration as e:
        return True, e.value
    coro.close()
    return False, None


class _Count(logging.Handler):
    def __init__(self, sink):
        super().__init__(logging.DEBUG)
        self.sink = sink

    def emit(self, record):
        self.sink.append((record.levelname, record.getMessage(), record.exc_info[1] if record.exc_info else None))


async def build(backend_class, config=None, authenticator=None, log_sink=None):
    """The real application with this backend; returns the DaskGateway object."""
    from dask_gateway_server.app import DaskGateway

    cfg = Config()
    cfg.DaskGateway.backend_class = backend_class
    cfg.DaskGateway.authenticator_class = (
        authenticator or "dask_gateway_server.auth.SimpleAuthenticator"
    )
    cfg.Proxy.externally_managed = True
    cfg.Proxy.api_token = "proxy-token"
    cfg.DaskGateway.log_level = "CRITICAL"
    if config:
        cfg.merge(config)
    DaskGateway.clear_instance()
    gw = DaskGateway(config=cfg)
    gw.initialize([])
    if log_sink is not None:
        gw.log.addHandler(_Count(log_sink))
        gw.log.setLevel(logging.INFO)
        gw.log.propagate = False
    await gw.authenticator.setup(gw.app)
    await gw.backend.setup(gw.app)
    gw.app.freeze()
    await gw.app.startup()
    return gw
