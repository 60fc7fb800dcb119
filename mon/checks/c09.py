"""C09: the database always matches memory, and holds secrets only encrypted."""
import base64
import os
import shutil
import tempfile

import sqlalchemy as sa
from cryptography.fernet import InvalidToken
from cryptography.hazmat.primitives import serialization
from traitlets.config import Config

from mon import core, crash, dbworld, gw as gwmod, vloop

from dask_gateway_server.backends import db_base

RULE = (
    "random sequences of creations, single and bulk updates and clean-ups with arbitrary "
    "attribute values against the real data manager on a file, with failing statements and "
    "commits injected, key rotations and reopenings, and whole gateways under random workloads; "
    "after every step everything is read back by a fresh data manager and compared, and the raw "
    "bytes of the database are searched for every secret in many encodings; also random key "
    "configurations at start-up; non-trivial: at least one failed transaction or key rotation; "
    "distinct by the sequence of operations and outcomes"
)
CATTRS = "id name username token options config status target count state scheduler_address dashboard_address api_address tls_cert tls_key start_time stop_time".split()
WATTRS = "id name status target state start_time stop_time close_expected".split()
J = db_base.JobStatus


def plain(v):
    if hasattr(v, "to_dict"):
        return v.to_dict()
    return v


def snapshot(dm):
    """Everything a data manager holds, as plain data."""
    out = {}
    for name, c in dm.name_to_cluster.items():
        d = {a: plain(getattr(c, a)) for a in CATTRS}
        d["workers"] = {n: {a: plain(getattr(w, a)) for a in WATTRS} for n, w in c.workers.items()}
        for n, w in c.workers.items():
            if w.cluster is not c or w.name != n:
                raise core.Violation("memory", f"worker {n} of {name} belongs to {w.cluster.name}")
        if dm.get_cluster(name) is not c or c.name != name:
            raise core.Violation("memory", f"cluster {name} is not found under its name")
        out[name] = d
    statuses = {c.model_status for c in dm.name_to_cluster.values()}
    for user in {c.username for c in dm.name_to_cluster.values()}:
        want = {c.name for c in dm.name_to_cluster.values() if c.username == user}
        got = {c.name for c in dm.list_clusters(username=user, statuses=statuses)}
        if want != got:
            raise core.Violation("memory", f"clusters of {user}: listed {got}, known {want}")
    return out


def diff(a, b, where=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                return f"{where}{k!r} only in the database"
            if k not in b:
                return f"{where}{k!r} only in memory"
            d = diff(a[k], b[k], f"{where}{k!r}.")
            if d:
                return d
        return None
    if a != b:
        return f"{where[:-1]}: memory has {a!r:.200}, the database {b!r:.200}"
    return None


def secrets_of(dm):
    out = {}
    for c in dm.name_to_cluster.values():
        out[f"token of {c.name}"] = c.token.encode()
        key = serialization.load_pem_private_key(c.tls_key, None)
        out[f"key of {c.name}"] = c.tls_key
        lines = c.tls_key.split(b"\n")
        out[f"part of the key of {c.name}"] = lines[len(lines) // 2]
        n = key.private_numbers().d
        out[f"number of the key of {c.name}"] = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return out


def search(path, secrets):
    for suffix in ("", "-journal", "-wal"):
        if not os.path.exists(path + suffix):
            continue
        with open(path + suffix, "rb") as f:
            data = f.read()
        for what, s in secrets.items():
            forms = {"clear": s, "base64": base64.b64encode(s).rstrip(b"="), "urlsafe base64": base64.urlsafe_b64encode(s).rstrip(b"="),
                     "hex": s.hex().encode(), "reversed": s[::-1], "utf-16": s.decode("latin1").encode("utf-16-le"), "escaped": s.replace(b"\n", b"\\n")}
            for form, x in forms.items():
                if x in data:
                    raise core.Violation("secret-in-clear", f"{what} is in the database file in {form}")


def value(r, depth=0):
    x = r.random()
    if x < 0.15:
        return r.choice([None, True, False, 0, -1, 2**60, 1.5, 1e300, ""])
    if x < 0.5:
        return "".join(r.choice("aé;'\"\\\n\0☃%{}:?" + "\U0001f600") for _ in range(r.randint(0, 8)))
    if depth > 2:
        return r.randint(-5, 5)
    if x < 0.75:
        return [value(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {f"k{r.randint(0, 5)}": value(r, depth + 1) for _ in range(r.randint(0, 3))}


def obj(r):
    return {f"k{j}": value(r) for j in range(r.randint(0, 3))}


PAIRS = [(J.CREATED, J.RUNNING), (J.CREATED, J.STOPPED), (J.SUBMITTED, J.RUNNING), (J.SUBMITTED, J.FAILED), (J.RUNNING, J.RUNNING),
         (J.RUNNING, J.STOPPED), (J.CLOSING, J.STOPPED), (J.CLOSING, J.FAILED), (J.STOPPED, J.STOPPED), (J.FAILED, J.FAILED)]


def cupdate(r, keys=None):
    status, target = r.choice(PAIRS)
    c = {
        "status": status, "target": target, "count": r.randint(0, 10**6),
        "state": obj(r), "scheduler_address": f"tls://{r.random()}:8786", "dashboard_address": r.choice(["", "http://x:1/é"]),
        "api_address": f"http://{r.random()}", "stop_time": r.choice([None, r.randint(0, 2**42)]),
    }
    keys = set(keys or r.sample(sorted(c), r.randint(1, 4)))
    if keys & {"status", "target"}:
        keys |= {"status", "target"}
    return {k: c[k] for k in keys}


def wupdate(r, keys=None):
    c = {"status": r.choice(list(J)), "target": r.choice([J.RUNNING, J.CLOSING, J.STOPPED, J.FAILED]), "state": obj(r),
         "stop_time": r.randint(0, 2**42), "close_expected": r.random() < 0.5}
    keys = keys or r.sample(sorted(c), r.randint(1, 3))
    return {k: c[k] for k in keys}


class Inject(Exception):
    pass


class Bomb:
    """Fails the n-th statement, or the commit, of the next transaction."""

    def __init__(self):
        self.n = None
        self.hits = 0

    def attach(self, engine):
        sa.event.listen(engine, "before_cursor_execute", self.execute)
        sa.event.listen(engine, "commit", self.commit)

    def execute(self, *a):
        if self.n is not None and self.n != "commit":
            self.n -= 1
            if self.n < 0:
                self.n = None
                self.hits += 1
                raise Inject("statement failed")

    def commit(self, conn):
        if self.n == "commit":
            self.n = None
            self.hits += 1
            raise Inject("commit failed")


def new_key(r):
    return base64.urlsafe_b64encode(bytes(r.randrange(256) for _ in range(32)))


def ops_case(ck, i, r):
    gwmod.cheap_keys()
    d = tempfile.mkdtemp(prefix="verif-", dir=crash.BASE)
    try:
        async def main(loop):
            run_ops(ck, i, r, os.path.join(d, "gw.db"))

        vloop.run(main)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def open_dm(path, keys):
    return db_base.DataManager(url="sqlite:///" + path, encrypt_keys=keys)


def compare(dm, path, keys, what, ops):
    mem = snapshot(dm)
    other = open_dm(path, keys)
    try:
        disk = snapshot(other)
    finally:
        other.db.dispose()
    x = diff(mem, disk)
    if x:
        raise core.Violation("memory-differs-from-database", f"after {what}: {x}", ops[-40:])
    return mem


def run_ops(ck, i, r, path):
    crash._listen()
    keys = [new_key(r) for _ in range(r.randint(1, 3))]
    dm = open_dm(path, keys)
    bomb = Bomb()
    bomb.attach(dm.db)
    ops, faults, rotations = [], 0, 0
    written = {}  # cluster name -> key it was written under
    for step in range(r.choice([10, 30, 60])):
        cs = list(dm.name_to_cluster.values())
        ws = [w for c in cs for w in c.workers.values()]
        kind = r.choice(["cluster", "worker", "worker", "uc", "ucs", "uw", "uws", "uws", "clean", "rotate", "reopen"])
        if kind != "cluster" and not cs or kind in ("uw", "uws") and not ws:
            kind = "cluster"
        if r.random() < 0.2 and kind not in ("rotate", "reopen"):
            bomb.n = r.choice(["commit", "commit", 0, 1])
        before = snapshot(dm)
        hits = bomb.hits
        try:
            if kind == "cluster":
                user = r.choice(["alice", "bob", "é'\";--", "a" * 200])
                c = dm.create_cluster(user, obj(r), obj(r))
                written[c.name] = keys[0]
            elif kind == "worker":
                dm.create_worker(r.choice(cs))
            elif kind == "uc":
                dm.update_cluster(r.choice(cs), **cupdate(r))
            elif kind == "ucs":
                ks = list(cupdate(r))
                dm.update_clusters([(c, cupdate(r, ks)) for c in r.sample(cs, r.randint(0, len(cs)))])
            elif kind == "uw":
                dm.update_worker(r.choice(ws), **wupdate(r))
            elif kind == "uws":
                ks = list(wupdate(r))
                dm.update_workers([(w, wupdate(r, ks)) for w in r.sample(ws, r.randint(0, len(ws)))])
            elif kind == "clean":
                dm.cleanup_expired(r.choice([0, 1e5, 1e9]))
            elif kind == "rotate":
                # A new key in front; later the old ones go, with what they wrote
                rotations += 1
                keys = [new_key(r)] + keys[:2]
                if r.random() < 0.5:
                    r.shuffle(keys)
                dm.db.dispose()
                lost = [n for n in dm.name_to_cluster if written[n] not in keys]
                if lost:
                    ck.count("reads_without_key")
                    unreadable(path, keys, lost, ops)
                    keys.append(written[lost[0]])
                    keys += sorted({written[n] for n in lost} - set(keys))
                dm = open_dm(path, keys)
                bomb.attach(dm.db)
            else:
                dm.db.dispose()
                dm = open_dm(path, keys)
                bomb.attach(dm.db)
            out = "ok"
        except Inject:
            out = "failed"
        bomb.n = None
        ops.append((kind, out))
        if out == "ok" and bomb.hits != hits:
            raise core.Violation("failure-swallowed", f"{kind} reported success though the transaction failed", ops[-40:])
        if out == "failed":
            faults += 1
            x = diff(before, snapshot(dm))
            if x:
                raise core.Violation("failed-transaction-changes-memory", f"failed {kind}: {x}", ops[-40:])
        mem = compare(dm, path, keys, f"{kind} ({out})", ops)
        if out == "failed" or kind in ("rotate", "reopen"):
            # A failed transaction, or reading again, changes nothing
            x = diff(before, mem)
            if x:
                raise core.Violation("failed-transaction-changes" if out == "failed" else "reload-changes", f"{kind}: {x}", ops[-40:])
        ck.count("states_compared")
        ck.count("workers_compared", sum(len(c["workers"]) for c in mem.values()))
    search(path, dict(secrets_of(dm), **{f"encryption key {n}": k for n, k in enumerate(keys)}))
    ck.count("secrets_searched", 4 * len(dm.name_to_cluster))
    if dm.name_to_cluster:
        unreadable(path, [new_key(r)], list(dm.name_to_cluster), ops)
        ck.count("reads_without_key")
        # Each key by itself reads exactly its own
        used = set(written[n] for n in dm.name_to_cluster)
        if len(used) == 1:
            compare(dm, path, list(used), "opening with the one key used", ops)
    dm.db.dispose()
    ck.count("failed_transactions", faults)
    ck.count("rotations", rotations)
    ck.case(ops, bool(faults or rotations), sample=ops[:20] if i < 2 else None)


def unreadable(path, keys, lost, ops):
    try:
        dm = open_dm(path, keys)
    except InvalidToken:
        return
    snapshot(dm)
    raise core.Violation("readable-without-key", f"clusters {lost} were written under a key that is not configured, and read back", ops[-20:])


# -- a whole gateway ---------------------------------------------------------
def gateway_case(ck, i, r):
    p = dbworld.mixed(r, poll=0.0)
    p["max_age"] = r.choice([5.0, 1e9])
    p["cleanup_period"] = 3.0
    horizon = r.choice([20, 60])
    dbworld.prepare((ck.seed, i))
    w = dbworld.World((ck.seed, i), p)
    dbworld.script(w, 1000.0, horizon, r.randint(1, 4), p_delete=0.6, counts=(0, 5))
    n = {"seen": 0}

    async def main(sim):
        path = sim.backend.db.db.url.database
        keys = sim.backend.db_encrypt_keys

        def check():
            if r.random() < 0.2 and not sim.broken:
                n["seen"] += 1
                try:
                    compare(sim.backend.db, path, keys, f"{sim.w.log[-1][:2]}", dbworld.tail(sim.w.log, 40))
                except core.Violation as exc:
                    sim.errors.append(exc)
                    sim.broken = exc
                    sim.kick.set()

        sim.loop.on_advance.append(check)
        await sim.pump(1000.0 + horizon)
        if sim.errors:
            raise sim.errors[0]
        search(path, secrets_of(sim.backend.db))
        ck.count("secrets_searched", 4 * len(sim.backend.db.name_to_cluster))

    crash.life(w, {}, 1000.0, main)
    ck.count("gateway_states_compared", n["seen"])
    ck.case(dbworld.signature(w.log), n["seen"] > 5)


# -- configuration -----------------------------------------------------------
def config_case(ck, i, r):
    """Which configurations does the gateway start with?"""
    from dask_gateway_server.backends.inprocess import InProcessBackend

    good = [base64.b64encode(bytes(r.randrange(256) for _ in range(32))) for _ in range(2)] + [os.urandom(32)]
    badk = [b"", b"short", os.urandom(31), os.urandom(33), base64.b64encode(os.urandom(33)), base64.b64encode(os.urandom(32))[:-4]]
    d = tempfile.mkdtemp(prefix="verif-", dir=crash.BASE)
    saved = os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
    try:
        for url in ("sqlite://", "sqlite:///:memory:", f"sqlite:///{d}/a.db"):
            for how in ("config", "env", "none"):
                keys = [r.choice(good + badk) for _ in range(r.randint(0, 3))] if how != "none" else []
                if how == "env":
                    keys = [k for k in keys if k and b";" not in k and b"\0" not in k and k.strip() == k]
                if how == "config":
                    keys = [k.decode() if len(k) == 44 and r.random() < 0.5 else k for k in keys]
                valid = all((k.encode() if isinstance(k, str) else k) in good for k in keys)
                memory = "memory" in url or url == "sqlite://"
                ok = valid and (memory or bool(keys))
                c = Config()
                c.DBBackendBase.db_url = url
                if how == "config" and (keys or r.random() < 0.5):
                    c.DBBackendBase.db_encrypt_keys = keys
                if how == "env":
                    os.environb[b"DASK_GATEWAY_ENCRYPT_KEYS"] = r.choice([b";", b" ; "]).join(keys)
                try:
                    started = start(c)
                finally:
                    os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
                ck.count("configurations_" + ("valid" if ok else "refused"))
                if memory and valid is False and started:
                    continue  # keys are not used then
                if bool(started) != ok:
                    raise core.Violation("start-up", f"with url {url} and keys {keys!r} from {how} the gateway {'starts' if started else 'refuses to start'}")
                ck.case(("config", url[:12], how, [len(k) for k in keys], ok), not ok)
    finally:
        if saved is not None:
            os.environ["DASK_GATEWAY_ENCRYPT_KEYS"] = saved
        shutil.rmtree(d, ignore_errors=True)


def start(config):
    w = dbworld.World(0, {})

    async def main(loop):
        sim = dbworld.Sim(w, loop)
        try:
            gw = await gwmod.build(dbworld.make_backend(sim), config)
        except Exception as exc:
            return False
        await gw.backend.session.close()
        gw.backend.db.db.dispose()
        return True

    return vloop.run(main)


def case(ck, i):
    r = ck.rng("case", i)
    if i % 10 == 9:
        config_case(ck, i, r)
    elif i % 3 == 0:
        gateway_case(ck, i, r)
    else:
        ops_case(ck, i, r)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(30, 600))
    ck.need(states_compared=1000, failed_transactions=50, rotations=20, gateway_states_compared=100, secrets_searched=100, reads_without_key=20, configurations_refused=5, configurations_valid=5)


if __name__ == "__main__":
    core.main("C09", RULE, body, assumptions=["Fernet encryption is sound", "a failed SQLite commit leaves the file as it was"])
