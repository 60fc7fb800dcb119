"""C28: each cluster's TLS credentials work for that cluster and no other."""
import asyncio
import datetime
import math
import os
import random
import shutil
import ssl
import tempfile
import time

from cryptography import x509
from cryptography.fernet import Fernet
from cryptography.hazmat.primitives import serialization
from cryptography.x509.oid import ExtensionOID

from mon import core

RULE = (
    "clusters created in databases (in memory, and in encrypted files read back by another process's manager) and by the "
    "key generator for arbitrary names; for every two of them, every side's TLS contexts as dask and the gateway's client build them are "
    "put through real handshakes in memory with an exchange of data, with own, foreign, mixed and missing credentials; "
    "certificates are parsed; names and tokens are collected with the generator of pseudo-random numbers and the clock held "
    "still; non-trivial: handshakes that must fail were tried as well; distinct by (source of the credentials, pairing)"
)


def handshake(client_ctx, server_ctx, name=None):
    """Run a handshake in memory and exchange data both ways; why it failed, or None."""
    c_in, c_out, s_in, s_out = (ssl.MemoryBIO() for _ in range(4))
    c = client_ctx.wrap_bio(c_in, c_out, server_hostname=name)
    s = server_ctx.wrap_bio(s_in, s_out, server_side=True)

    def step(obj, f):
        try:
            f()
            return True
        except ssl.SSLWantReadError:
            return False

    got = {}

    def script(obj, out, key):
        yield obj.do_handshake
        yield lambda: obj.write(out)
        yield lambda: got.__setitem__(key, obj.read(100))

    runs = [(c, script(c, b"from client", "client")), (s, script(s, b"from server", "server"))]
    cur = [next(g) for _, g in runs]
    errors = []
    for _ in range(40):
        for k, (obj, gen) in enumerate(runs):
            if cur[k] is None:
                continue
            try:
                if step(obj, cur[k]):
                    cur[k] = next(gen, None)
            except ssl.SSLError as exc:
                errors.append(("client", "server")[k] + ": " + str(exc.reason or exc))
                cur[k] = None
        s_in.write(c_out.read())
        c_in.write(s_out.read())
        if cur == [None, None]:
            break
    if got.get("client") == b"from server" and got.get("server") == b"from client" and not errors:
        return None
    return errors or [f"no data came through: {got}"]


def sides(d, tag, cert, key):
    """The contexts a scheduler, a worker and the client library make of the credentials."""
    from dask_gateway.client import GatewaySecurity
    from distributed.security import Security

    c, k = os.path.join(d, tag + ".crt"), os.path.join(d, tag + ".pem")
    with open(c, "wb") as f:
        f.write(cert)
    with open(k, "wb") as f:
        f.write(key)
    sec = Security(require_encryption=True, tls_ca_file=c, tls_scheduler_cert=c, tls_scheduler_key=k, tls_worker_cert=c,
                   tls_worker_key=k, tls_client_cert=c, tls_client_key=k)
    gs = GatewaySecurity(tls_key=key.decode(), tls_cert=cert.decode())
    servers = {"scheduler": sec.get_listen_args("scheduler")["ssl_context"], "worker": sec.get_listen_args("worker")["ssl_context"]}
    clients = {"scheduler": sec.get_connection_args("scheduler")["ssl_context"], "worker": sec.get_connection_args("worker")["ssl_context"],
               "client": gs.get_connection_args("client")["ssl_context"]}
    return servers, clients


def checked(cert, key, d, tag):
    """A client that checks the name."""
    c, k = os.path.join(d, tag + ".crt"), os.path.join(d, tag + ".pem")
    ctx = ssl.create_default_context(cafile=c)
    ctx.check_hostname = True
    ctx.load_cert_chain(c, k)
    return ctx


class FrozenClock:
    def __enter__(self):
        self.saved = time.time, time.monotonic, time.time_ns, time.perf_counter
        now = time.time()
        time.time = time.monotonic = time.perf_counter = lambda: now
        time.time_ns = lambda: int(now * 1e9)

    def __exit__(self, *a):
        time.time, time.monotonic, time.time_ns, time.perf_counter = self.saved


def make(ck, r, d, n):
    """Clusters from several sources: (source, name, token or None, cert, key)."""
    from dask_gateway_server.backends import db_base
    from dask_gateway_server.tls import new_keypair

    out = []
    encrypt = r.random() < 0.5
    url = "sqlite:///" + os.path.join(d, "db.sqlite") if encrypt else "sqlite:///:memory:"
    keys = [Fernet.generate_key()] if encrypt else []
    dm = db_base.DataManager(url=url, encrypt_keys=keys)
    state = random.getstate()
    made = []
    try:
        with FrozenClock():
            for _ in range(n):
                random.seed(7)
                made.append(dm.create_cluster(r.choice(["alice", "bob"]), {}, {}))
    finally:
        random.setstate(state)
    for c in made:
        out.append(("database", c.name, c.token, c.tls_cert, c.tls_key))
    workers = [dm.create_worker(made[0]).name for _ in range(3)]
    dm.db.dispose()
    if encrypt:
        dm2 = db_base.DataManager(url=url, encrypt_keys=keys)
        for k, c in enumerate(made):
            c2 = dm2.get_cluster(c.name)
            if c2 is None or (c2.token, c2.tls_cert, c2.tls_key) != (c.token, c.tls_cert, c.tls_key):
                raise core.Violation("changed-by-restart", f"the credentials of a cluster differ after reading the database again")
            out[k] = ("database, read again", c2.name, c2.token, c2.tls_cert, c2.tls_key)
        dm2.db.dispose()
    name = r.choice(["x", "default.abc", "a" * 60, "%032x" % r.getrandbits(128)])
    out.append(("generator", name, None) + tuple(new_keypair(name)))
    return out, workers


def fields(ck, src, name, cert, key):
    c = x509.load_pem_x509_certificate(cert)
    k = serialization.load_pem_private_key(key, password=None)
    who = f"the certificate of a cluster ({src})"
    pem = lambda p: p.public_bytes(serialization.Encoding.PEM, serialization.PublicFormat.SubjectPublicKeyInfo)
    if pem(c.public_key()) != pem(k.public_key()):
        raise core.Violation("key-mismatch", f"{who} does not belong to its key")
    names = c.extensions.get_extension_for_oid(ExtensionOID.SUBJECT_ALTERNATIVE_NAME).value.get_values_for_type(x509.DNSName)
    for want in (name, "dask-internal"):
        if want not in names:
            raise core.Violation("names", f"{who} for {name} names {names}, not {want}")
    now = datetime.datetime.now(datetime.timezone.utc)
    if c.not_valid_before_utc > now:
        raise core.Violation("not-yet-valid", f"{who} is valid from {c.not_valid_before_utc}, now is {now}")
    days = (c.not_valid_after_utc - now) / datetime.timedelta(days=1)
    if not 364.9 < days < 367:
        raise core.Violation("validity", f"{who} is valid for {days} more days")
    if getattr(k, "key_size", 2048) < 2048 and type(k).__name__.startswith("RSA") or "RSA" in type(k).__name__ and k.key_size < 2048:
        raise core.Violation("weak-key", f"{who} has a key of {k.key_size} bits")
    return pem(c.public_key())


def case(ck, i):
    async def main():
        run(ck, i)

    asyncio.run(main())


def run(ck, i):
    r = ck.rng(i)
    d = tempfile.mkdtemp(prefix="verif-c28-")
    try:
        made, workers = make(ck, r, d, r.randint(2, 3))
        pubs = set()
        ctx = []
        for n, (src, name, token, cert, key) in enumerate(made):
            pubs.add(fields(ck, src, name, cert, key))
            ctx.append(sides(d, str(n), cert, key))
            ck.count(f"credentials: {src}")
        if len(pubs) != len(made):
            raise core.Violation("shared-key", "two clusters have the same key")
        names = [m[1] for m in made if m[0] != "generator"] + workers
        tokens = [m[2] for m in made if m[2] is not None]
        for what, vals in (("names", names), ("tokens", tokens)):
            if len(set(vals)) != len(vals):
                raise core.Violation("not-unique", f"{what} of clusters created at one time are not unique: {vals}")
            for k in (12,):
                if len({v[:k] for v in vals}) != len(vals) or len({v[-k:] for v in vals}) != len(vals):
                    raise core.Violation("guessable", f"{what} share long parts: {vals}")
        if set(names) & set(tokens):
            raise core.Violation("guessable", "a token is also a name")
        for nm in set(names) | set(tokens):
            ck.names.append(nm)
        ok = bad = 0
        for a in range(len(made)):
            for b in range(len(made)):
                sk = r.choice(sorted(ctx[b][0]))
                ckind = r.choice(sorted(ctx[a][1]))
                if a == b:
                    for sk in ctx[b][0]:
                        for ckind in ctx[a][1]:
                            why = handshake(ctx[a][1][ckind], ctx[b][0][sk], made[b][1] if r.random() < 0.5 else None)
                            if why:
                                raise core.Violation("own-refused", f"{ckind} and {sk} of one cluster ({made[a][0]}) fail to connect: {why}")
                            ok += 1
                    why = handshake(checked(made[a][3], made[a][4], d, str(a)), ctx[b][0][sk], made[b][1])
                    if why:
                        raise core.Violation("name-refused", f"a client that checks the cluster's name fails: {why}")
                    why = handshake(checked(made[a][3], made[a][4], d, str(a)), ctx[b][0][sk], "dask-internal")
                    if why:
                        raise core.Violation("name-refused", f"a client that checks for dask-internal fails: {why}")
                    if handshake(checked(made[a][3], made[a][4], d, str(a)), ctx[b][0][sk], "%032x" % r.getrandbits(128)) is None:
                        raise core.Violation("any-name", "the certificate passes for any name")
                    ok += 2
                    bad += 1
                    anon = ssl.create_default_context(cafile=os.path.join(d, f"{b}.crt"))
                    anon.check_hostname = False
                    if handshake(anon, ctx[b][0][sk]) is None:
                        raise core.Violation("anonymous-accepted", f"a {sk} accepts a peer without a certificate")
                    bad += 1
                else:
                    if handshake(ctx[a][1][ckind], ctx[b][0][sk], made[b][1]) is None:
                        raise core.Violation("foreign-accepted", f"a {ckind} of one cluster ({made[a][0]}) connects to a {sk} of another ({made[b][0]})")
                    bad += 1
                    # trusts the right authority but shows another's certificate
                    mixed = ssl.create_default_context(cafile=os.path.join(d, f"{b}.crt"))
                    mixed.check_hostname = False
                    mixed.load_cert_chain(os.path.join(d, f"{a}.crt"), os.path.join(d, f"{a}.pem"))
                    if handshake(mixed, ctx[b][0][sk]) is None:
                        raise core.Violation("foreign-accepted", f"a {sk} accepts another cluster's certificate")
                    bad += 1
                ck.case((made[a][0], made[b][0], sk, ckind, a == b))
        ck.count("handshakes completed", ok)
        ck.count("handshakes refused", bad)
        ck.count("names and tokens", len(names) + len(tokens))
        if i == 0:
            ck.samples.append({"names": names[:2], "sources": [m[0] for m in made]})
        # entropy over everything this process saw
        if len(ck.names) > 60:
            for what in ("names and tokens",):
                width = min(map(len, ck.names))
                bits = sum(math.log2(len({v[p] for v in ck.names})) for p in range(width))
                if bits < 100:
                    raise core.Violation("guessable", f"{what} vary by at most {bits:.0f} bits: {ck.names[:4]}")
                if len(set(ck.names)) != len(ck.names):
                    raise core.Violation("not-unique", f"{what} repeat")
                ck.count("entropy estimates")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(ck):
    ck.names = []
    ck.pool(lambda i: case(ck, i), ck.budget(25, 600))
    ck.need(**{"handshakes completed": 300, "handshakes refused": 300, "entropy estimates": 3})


if __name__ == "__main__":
    core.main("C28", RULE, body, assumptions=[
        "unguessable: at least 100 bits vary between values, with the pseudo-random generator reseeded and the clock held still for each",
        "the sandbox's clock is the clock certificates are judged by",
    ])
