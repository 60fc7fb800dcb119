"""C35: the gateway program starts as configured or not at all, and ends in order."""
import base64
import errno
import json
import logging
import os
import re
import shutil
import signal
import socket
import sys
import tempfile
import time

from mon import core

RULE = (
    "the real program, in processes of its own, started with random configuration files and command lines whose backend and authenticator note what is "
    "done with them, asked over real sockets, and ended by real signals at random moments; non-trivial: the program came up, refused its configuration "
    "or was ended; distinct by the configuration, the faults and the moment of the signal"
)

SITE = '''
import asyncio, json, os, time
from traitlets import Bool, Float, Unicode
from dask_gateway_server.auth import SimpleAuthenticator
from dask_gateway_server.backends.base import ClusterConfig
from dask_gateway_server.backends.db_base import DBBackendBase
from dask_gateway_server.proxy.core import Proxy

PLAN = json.load(open(os.environ["VERIF_PLAN"]))
LOG = os.open(os.environ["VERIF_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)

def note(*what):
    os.write(LOG, (json.dumps([time.monotonic(), *what]) + "\\n").encode())

async def stage(name):
    note(name)
    if name in PLAN["delays"]:
        await asyncio.sleep(PLAN["delays"][name])
    if name in PLAN["faults"]:
        raise RuntimeError(PLAN["faults"][name])

class Auth(SimpleAuthenticator):
    async def setup(self, app):
        await stage("auth-setup")
        await super().setup(app)
        note("auth-up")

    async def cleanup(self):
        note("auth-cleanup")
        await super().cleanup()

    async def authenticate(self, request):
        user = await super().authenticate(request)
        if user.name.startswith("slow-"):
            note("begin", user.name)
            await asyncio.sleep(float(user.name.split("-")[1]))
        note("asked", user.name)
        return user

class Other(SimpleAuthenticator):
    pass

class Conf(ClusterConfig):
    pass

def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x

class Back(DBBackendBase):
    cluster_config_class = Conf
    fraction = Float(0.5, min=0, max=1, config=True)

    async def setup(self, app):
        await super().setup(app)
        await stage("back-setup")
        app_ = self.parent
        try:
            c = self.cluster_config_class(parent=self)
            conf = {k: plain(getattr(c, k)) for k in PLAN["cluster"]}
        except Exception as e:
            conf = {"error": str(e)}
        p = Proxy(parent=self, log=self.log)
        dump = {
            "address": app_.address, "log_level": app_.log_level, "auth": type(app_.authenticator).__name__, "password": app_.authenticator.password,
            "retries": self.scheduler_api_retries, "fraction": self.fraction, "prefix": p.prefix, "proxy": p.address, "tcp": p.tcp_address, "conf": conf,
            "api_url": self.api_url, "period": self.cluster_status_period, "heartbeat": self.cluster_heartbeat_timeout,
        }
        with open(os.environ["VERIF_DUMP"] + ".tmp", "w") as f:
            json.dump(dump, f)
        os.replace(os.environ["VERIF_DUMP"] + ".tmp", os.environ["VERIF_DUMP"])
        await stage("back-late")
        note("back-up")

    async def cleanup(self):
        note("back-cleanup")
        await super().cleanup()
        note("back-down")

    async def do_setup(self):
        note("do-setup")

    async def do_cleanup(self):
        note("do-cleanup")

    async def do_start_cluster(self, cluster):
        note("start", cluster.name)
        yield {"id": cluster.name}

    async def do_stop_cluster(self, cluster):
        note("stop", cluster.name)
        await asyncio.sleep(PLAN["stopping"])
        note("stopped", cluster.name)

    async def do_check_clusters(self, clusters):
        return [True] * len(clusters)

    async def do_start_worker(self, worker):
        yield {"id": worker.name}

    async def do_stop_worker(self, worker):
        pass

    async def do_check_workers(self, workers):
        return [True] * len(workers)
'''

CLUSTER = ["worker_memory", "scheduler_memory", "worker_cores", "worker_threads", "worker_cmd", "scheduler_cmd", "environment", "idle_timeout", "adaptive_period", "cluster_max_workers"]
UNITS = {"K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}
REFUSED = object()


def chance(r, p):
    return r.random() < p


def memory(r, bad):
    if bad:
        return r.choice(["2X", "G", "", "2GB", "lots", "1,5G", "2 g", [2]]), REFUSED
    form = r.choice(["int", "float", "text", "text", "text"])
    if form == "int":
        n = r.randint(1, 2**41)
        return n, n
    if form == "float":
        x = r.choice([1e9, 2.5e9, 123456.5])
        return x, int(x)
    u = r.choice("KMGT")
    x = r.choice(["1", "3", "12", "0.5", "1.5", "2.25"])
    return f"{x}{r.choice(['', ' '])}{u}", int(float(x) * UNITS[u])


def number(lo, hi, integer=True, least=None):
    def gen(r, bad):
        if bad:
            return r.choice((["x", [1], {}] + ([lo + 0.5] if integer else []) + ([least - 1] if least is not None else []))), REFUSED
        v = r.randint(lo, hi) if integer else r.choice([lo, hi, (lo + hi) / 2, r.randint(int(lo), int(hi))])
        return v, v

    return gen


def command(r, bad):
    if bad:
        return r.choice([3, [], [1], {"a": 1}]), REFUSED
    if chance(r, 0.5):
        s = r.choice(["my-worker", "/opt/x/dask-scheduler", "one word"])
        return s, [s]
    c = r.choice([["a"], ["srun", "dask-worker", "--x=1"], ("t", "u")])
    return c, list(c)


def env(r, bad):
    if bad:
        return r.choice([3, "A=b", ["A"]]), REFUSED
    d = r.choice([{}, {"A": "b"}, {"A": "b", "X_Y": ""}])
    return d, d


def threads(r, bad):
    if bad:
        return r.choice(["x", -1]), REFUSED
    v = r.choice([None, 1, 3, 7])
    return v, v


def password(r, bad):
    if bad:
        return 7, REFUSED
    v = r.choice([None, "pw", "p:w x"])
    return v, v


def prefix(r, bad):
    if bad:
        return r.choice(["a", "a/b", 3]), REFUSED
    v = r.choice(["", "/a", "/a/", "/a/b//"])
    return v, v.rstrip("/")


def listen(r, bad):
    if bad:
        return r.choice(["localhost", "a:b", "127.0.0.1:x", "1:2:3"]), REFUSED
    v = r.choice([":8000", "127.0.0.1:8001", "some.host:443", "0.0.0.0:9"])
    return v, v


def level(r, bad):
    if bad:
        return r.choice(["LOUD", [1]]), REFUSED
    v = r.choice(["DEBUG", "INFO", "WARN", "ERROR", 10, 40])
    return v, v


# name of the dumped value: (sections, from the most particular one; trait; generator; default; can be given on the command line; who refuses)
OPTIONS = {
    "log_level": (["DaskGateway"], "log_level", level, "INFO", True, "program"),
    "password": (["Auth", "SimpleAuthenticator"], "password", password, None, True, "program"),
    "retries": (["Back", "DBBackendBase", "Backend"], "scheduler_api_retries", number(0, 9, least=0), 3, True, "program"),
    "fraction": (["Back"], "fraction", number(0.0, 1.0, False, least=0), 0.5, True, "program"),
    "period": (["Back", "DBBackendBase"], "cluster_status_period", number(5.0, 90.0, False), 30, True, "program"),
    "heartbeat": (["Back", "DBBackendBase"], "cluster_heartbeat_timeout", number(5.0, 90.0, False), None, True, "program"),
    "prefix": (["Proxy"], "prefix", prefix, "", True, "program"),
    "proxy": (["Proxy"], "address", listen, ":8000", True, "program"),
    "tcp": (["Proxy"], "tcp_address", listen, None, True, "program"),
    "worker_memory": (["Conf", "ClusterConfig"], "worker_memory", memory, 2**31, True, "cluster"),
    "scheduler_memory": (["Conf", "ClusterConfig"], "scheduler_memory", memory, 2**31, True, "cluster"),
    "worker_cores": (["Conf", "ClusterConfig"], "worker_cores", number(1, 64, least=1), 1, True, "cluster"),
    "worker_threads": (["Conf", "ClusterConfig"], "worker_threads", threads, None, False, "cluster"),
    "worker_cmd": (["Conf", "ClusterConfig"], "worker_cmd", command, ["dask-worker"], False, "cluster"),
    "scheduler_cmd": (["Conf", "ClusterConfig"], "scheduler_cmd", command, ["dask-scheduler"], False, "cluster"),
    "environment": (["Conf", "ClusterConfig"], "environment", env, {}, False, "cluster"),
    "idle_timeout": (["Conf", "ClusterConfig"], "idle_timeout", number(0.0, 900.0, False, least=0), 0, True, "cluster"),
    "adaptive_period": (["Conf", "ClusterConfig"], "adaptive_period", number(1.0, 90.0, False, least=0), 3, True, "cluster"),
    "cluster_max_workers": (["Conf", "ClusterConfig"], "cluster_max_workers", number(0, 50, least=0), None, True, "cluster"),
}


class Program:
    """One run of the program."""

    def __init__(self, d, argv, plan, env=None):
        self.d, self.argv = d, argv
        for n in ("log", "dump"):
            if os.path.exists(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
        with open(os.path.join(d, "plan"), "w") as f:
            json.dump(plan, f)
        self.out = os.path.join(d, "out")
        self.code = None
        self.began = time.monotonic()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            self.child(env or {})

    def child(self, env):
        code = 99
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            for s in (signal.SIGALRM, signal.SIGTERM):
                signal.signal(s, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.setsid()
            os.chdir(self.d)
            fd = os.open(self.out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.path.insert(0, self.d)
            os.environ.update(VERIF_PLAN=os.path.join(self.d, "plan"), VERIF_LOG=os.path.join(self.d, "log"), VERIF_DUMP=os.path.join(self.d, "dump"), **env)
            from dask_gateway_server import app

            sys.argv = ["dask-gateway-server"] + self.argv
            try:
                app.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                import traceback

                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xFF)

    def log(self):
        try:
            with open(os.path.join(self.d, "log")) as f:
                return [json.loads(x) for x in f.read().split("\n") if x]
        except FileNotFoundError:
            return []

    def said(self):
        try:
            with open(self.out, errors="replace") as f:
                return f.read()
        except FileNotFoundError:
            return ""

    def dump(self):
        try:
            with open(os.path.join(self.d, "dump")) as f:
                return json.load(f)
        except FileNotFoundError:
            return None

    def poll(self):
        if self.code is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.code = os.waitstatus_to_exitcode(status)
                self.ended = time.monotonic()
        return self.code

    def wait(self, seconds):
        end = time.monotonic() + seconds
        while self.poll() is None and time.monotonic() < end:
            time.sleep(0.004)
        return self.code

    def left(self):
        try:
            os.killpg(self.pid, 0)
            return True
        except OSError:
            return False

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.code is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass


def basic(user, pw):
    return "Basic " + base64.b64encode(f"{user}:{pw or ''}".encode()).decode()


def ask(addr, method, path, auth=None, body=None, read=True, timeout=60):
    s = socket.create_connection(addr, timeout=timeout)
    b = json.dumps(body).encode() if body is not None else b""
    head = f"{method} {path} HTTP/1.1\r\nHost: x\r\n" + (f"Authorization: {auth}\r\n" if auth else "") + f"Content-Type: application/json\r\nContent-Length: {len(b)}\r\n\r\n"
    s.sendall(head.encode() + b)
    return answer(s) if read else s


def answer(s, keep=False):
    """(status, body) of an answer, or (None, what happened)."""
    data = b""
    try:
        while b"\r\n\r\n" not in data:
            x = s.recv(65536)
            if not x:
                return None, "closed"
            data += x
        head, _, rest = data.partition(b"\r\n\r\n")
        m = re.search(rb"content-length: (\d+)", head.lower())
        while m and len(rest) < int(m[1]):
            x = s.recv(65536)
            if not x:
                return None, "cut off"
            rest += x
        return int(head.split()[1]), (json.loads(rest) if rest.strip() and b"json" in head.lower() else None)
    except OSError as e:
        return None, str(e)
    finally:
        if not keep:
            s.close()


def literal(v):
    return repr(v)


def free(host, start):
    """A port nothing listens at; the ports tried are this case's own."""
    for port in range(start, start + 4):
        s = socket.socket()
        try:
            s.bind((host or "0.0.0.0", port))
            return port
        except OSError:
            pass
        finally:
            s.close()
    raise core.Inconclusive("no free port")


def settings(r, ck, lines, argv, how_bad):
    """Choose the options; returns the expected values and who refuses which."""
    expect, refusals = {}, {}
    allowed = [n for n in OPTIONS if how_bad and OPTIONS[n][5] == how_bad]
    bad = r.choice(allowed) if how_bad else None
    names = r.sample(sorted(OPTIONS), r.randint(0, 9))
    if bad and bad not in names:
        names.append(bad)
    for name, (sections, trait, gen, default, cli, who) in OPTIONS.items():
        given = {}
        if name in names:
            n = r.randint(1, min(3, 2 * len(sections)))
            places = [(s, w) for s in sections for w in (("cli", "file") if cli else ("file",))]
            for s, w in r.sample(places, min(n, len(places))):
                given[s, w] = gen(r, False)
            if name == bad:
                # what counts is refused; what is overridden does not matter
                s, w = next((s, w) for s in sections for w in ("cli", "file") if (s, w) in given)
                v = gen(r, True)
                if w == "cli" and (not isinstance(v[0], str) or not v[0]):
                    del given[s, w]
                    if (s, "file") in given or not given:
                        w = "file"
                    given = {k: x for k, x in given.items() if sections.index(k[0]) > sections.index(s)}
                    w = "file"
                given[s, w] = v
        for (s, w), (v, x) in list(given.items()):
            if w == "cli":
                if v is None or (isinstance(v, float) and gen is memory) or (isinstance(v, str) and (v == "" or v.startswith("[")) and x is not REFUSED):
                    del given[s, w]
                    continue
                argv.append(f"--{s}.{trait}={v}")
            else:
                lines.append(f"c.{s}.{trait} = {literal(v)}")
        want = default
        for s in sections:
            for w in ("cli", "file"):
                if (s, w) in given:
                    want = given[s, w][1]
                    break
            else:
                continue
            break
        if want is REFUSED:
            refusals[name] = who
        expect[name] = want
        if given:
            ck.count("options given")
        if len(given) > 1:
            ck.count("options given more than once")
    if expect["tcp"] is None:
        expect["tcp"] = expect["proxy"]
    if expect["worker_threads"] is None and expect["worker_cores"] is not REFUSED:
        expect["worker_threads"] = max(1, expect["worker_cores"])
    return expect, refusals


def case(ck, i):
    r = ck.rng(i)
    d = tempfile.mkdtemp(prefix="verif-c35-")
    progs = []
    try:
        with open(os.path.join(d, "site35.py"), "w") as f:
            f.write(SITE)
        if chance(r, 0.12):
            generate(ck, i, r, d, progs)
        else:
            run(ck, i, r, d, progs)
    finally:
        for p in progs:
            p.kill()
        shutil.rmtree(d, ignore_errors=True)


def run(ck, i, r, d, progs):
    how = r.choice(["good"] * 6 + ["program", "cluster", "broken", "class", "fault", "busy", "fault", "address"])
    lines, argv = [], []
    port0 = 12000 + (i * 4) % 18000
    host = f"127.{1 + i % 100}.{1 + (i // 100) % 250}.{1 + os.getpid() % 250}"
    # where it listens
    mode = r.choice(["host", "host", "host", "all", "zero", "default"]) if how != "busy" else "host"
    port = free(host if mode == "host" else "", port0)
    addr = {"host": f"{host}:{port}", "all": r.choice([f":{port}", f"0.0.0.0:{port}"]), "zero": f"{host}:0", "default": None}[mode]
    where_addr = r.choice(["file", "cli", "both"])
    if addr is not None:
        if where_addr in ("file", "both"):
            lines.append(f"c.DaskGateway.address = {(addr if where_addr == 'file' else '127.9.9.9:1')!r}")
        if where_addr in ("cli", "both"):
            argv.append(f"--DaskGateway.address={addr}")
    if how == "address":
        lines = [x for x in lines if ".address" not in x] + [f"c.DaskGateway.address = {r.choice(['localhost', 'a:b', '1:2:3', 'h:70000x'])!r}"]
        argv = [x for x in argv if ".address" not in x]
    expect, refusals = settings(r, ck, lines, argv, how if how in ("program", "cluster") else None)
    form = r.choice(["name", "class"])
    other = chance(r, 0.1) and how == "good"
    auth = "Other" if other else "Auth"
    lines.append(f"c.DaskGateway.authenticator_class = 'site35.{auth}'" if form == "name" else f"from site35 import {auth}\nc.DaskGateway.authenticator_class = {auth}")
    lines.append("c.DaskGateway.backend_class = 'site35.Back'" if r.choice("nc") == "n" else "from site35 import Back\nc.DaskGateway.backend_class = Back")
    if other:
        expect["password"] = None if not any("SimpleAuthenticator.password" in x for x in lines + argv) else "?"
    stop = r.choice([None, True, False])
    sqlite = stop is False or chance(r, 0.3)
    env = {}
    if sqlite:
        lines.append(f"c.DBBackendBase.db_url = 'sqlite:///{d}/db.sqlite'")
        key = base64.urlsafe_b64encode(bytes(r.randrange(256) for _ in range(32))).decode()
        if chance(r, 0.5):
            env["DASK_GATEWAY_ENCRYPT_KEYS"] = key
        else:
            lines.append(f"c.DBBackendBase.db_encrypt_keys = [{key!r}]")
    if stop is not None:
        lines.append(f"c.DBBackendBase.stop_clusters_on_shutdown = {stop}")
    lines.append("c.Proxy.externally_managed = True")
    r.shuffle(lines)
    sure = None  # what the refusal must name
    if how == "broken":
        sure = r.choice(["verif-raised", "NameError", "SyntaxError"])
        lines.insert(r.randint(0, len(lines)), {"verif-raised": "raise RuntimeError('verif-raised')", "NameError": "c.X.y = undefined_thing", "SyntaxError": "this is = not python"}[sure])
    elif how == "class":
        which = r.choice(["authenticator_class", "backend_class"])
        v = r.choice(["site35.Missing", "no_such_module35.X", "collections.OrderedDict"])
        lines = [re.sub(rf"^c\.DaskGateway\.{which} = .*$", "", x, flags=re.M) for x in lines] + [f"c.DaskGateway.{which} = {v!r}"]
        sure = v.split(".")[-1]
    plan = {"delays": {}, "faults": {}, "stopping": r.choice([0, 0.02, 0.2]), "cluster": CLUSTER}
    for st in ("auth-setup", "back-setup", "back-late"):
        if chance(r, 0.3):
            plan["delays"][st] = r.choice([0.01, 0.05, 0.2])
    if how == "fault":
        st = r.choice(["auth-setup", "back-setup", "back-late"])
        plan["faults"][st] = sure = f"verif-boom-{r.randint(0, 999)}"
    name = r.choice(["dask_gateway_config.py", "gw.py", "deep.name.py"])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    argv += {"dask_gateway_config.py": []}.get(name) if name == "dask_gateway_config.py" and chance(r, 0.7) else r.choice([["-f", path], [f"--config={path}"], ["--config", path], ["-f", name]])
    witness = {"file": lines, "arguments": argv, "how": how, "plan": plan, "stop": stop}
    busy = None
    if how == "busy":
        busy = socket.socket()
        busy.bind((host, port))
        busy.listen(1)
    early = how in ("good", "cluster") and chance(r, 0.25)
    p = Program(d, argv, plan, env)
    progs.append(p)

    def bad(key, msg):
        raise core.Violation(key, msg, dict(witness, log=p.log()[-30:], said=p.said()[-2500:]))

    def once(log):
        for c in ("auth-cleanup", "back-cleanup", "do-cleanup"):
            if sum(x[1] == c for x in log) > 1:
                bad("cleaned-twice", f"{c} happens {sum(x[1] == c for x in log)} times")
        seen = [x[1] for x in log]
        for up, down in (("auth-up", "auth-cleanup"), ("back-up", "back-cleanup"), ("do-setup", "do-cleanup")):
            if up in seen and down not in seen and not (up == "auth-up" and other):
                bad("not-cleaned", f"after {up} there is no {down} when the program ends")
        if p.left():
            bad("left-behind", "processes of the program are left behind")

    try:
        # refusals
        if how in ("program", "broken", "class", "fault", "busy", "address"):
            if p.wait(30) is None:
                bad("not-refused", f"the program runs on although {how}: {sure or sorted(refusals)}")
            log = p.log()
            if p.code <= 0:
                bad("wrong-status", f"the program that cannot start ends with status {p.code}")
            if sure and sure not in p.said():
                bad("not-said", f"the program does not say why it cannot start: {sure}")
            if not p.said().strip():
                bad("not-said", "the program does not say why it cannot start")
            if how in ("broken", "class") and log:
                bad("half-started", f"the program with a configuration that cannot be applied does {log}")
            once(log)
            ck.count(f"refused: {how}")
            ck.case([how, sorted(refusals), sorted(plan["faults"]), sorted(expect, key=str)[:0], i % 997], nontrivial=True)
            return
        sig = r.choice([signal.SIGTERM, signal.SIGINT])
        if early:
            # (an interrupt before the program has its handlers may be lost in Python)
            sig = signal.SIGTERM
            time.sleep(r.uniform(0, 0.25))
            p.poll() is None and os.kill(p.pid, sig)
            if p.wait(40) is None:
                bad("not-ended", f"the program does not end on {sig.name} while it starts")
            log = p.log()
            if any(x[1] not in ("auth-setup",) for x in log) and p.code != 0:
                bad("wrong-status", f"the program that was told to end by {sig.name} ends with status {p.code}")
            once(log)
            if any("exception was never retrieved" in x or "Task was destroyed" in x for x in p.said().splitlines()):
                bad("not-orderly", "tasks are left behind")
            ck.count(f"ended while starting: {log[-1][1] if log else 'before'}")
            ck.case(["early", log[-1][1] if log else None, sig.name, i % 499], nontrivial=True)
            return
        # it comes up where it should
        end = time.monotonic() + 30
        at = None
        while True:
            if p.poll() is not None:
                if mode in ("zero", "default") and "address already in use" in p.said():
                    ck.count("random port taken meanwhile")
                    return
                bad("not-started", f"the program ends with status {p.code} instead of starting")
            dump = p.dump()
            if dump is not None:
                h, _, q = dump["address"].rpartition(":")
                if at is None:
                    if mode in ("host", "all") and int(q) != port or mode in ("host", "zero") and h != host or mode == "default" and h != "127.0.0.1" or int(q) <= 0:
                        bad("wrong-address", f"the address is {dump['address']}; configured is {addr}")
                    at = ("127.0.0.1" if h in ("", "0.0.0.0") else h, int(q))
                try:
                    st, body = ask(at, "GET", "/api/health")
                    break
                except OSError as e:
                    if e.errno not in (errno.ECONNREFUSED,):
                        raise
            if time.monotonic() > end:
                bad("not-started", f"the program does not answer at {at or addr}")
            time.sleep(0.004)
        if st != 200:
            bad("not-answered", f"/api/health is answered with {st}")
        conf = dump["conf"]
        for k, want in expect.items():
            if OPTIONS[k][5] == "cluster":
                continue
            if k == "heartbeat" and want is None or want == "?":
                continue
            if k == "log_level":
                want = want if isinstance(want, int) else logging.getLevelName(want)
                dump[k] = dump[k] if isinstance(dump[k], int) else logging.getLevelName(dump[k])
            if dump[k] != want:
                bad("wrong-value", f"{OPTIONS[k][1]} is {dump[k]!r}, not {want!r}")
        if how == "cluster":
            if "error" not in conf:
                bad("not-refused", f"clusters are configured with {conf} although {sorted(refusals)} cannot be")
        elif expect["scheduler_memory"] is not REFUSED:
            if "error" in conf:
                bad("refused", f"clusters cannot be configured: {conf['error']}")
            for k in CLUSTER:
                if conf[k] != expect[k]:
                    bad("wrong-value", f"{k} is {conf[k]!r}, not {expect[k]!r}")
        if dump["auth"] != auth:
            bad("wrong-class", f"the authenticator is {dump['auth']}, not {auth}")
        ck.count("configurations compared")
        # and is used
        pw = dump["password"]
        who = lambda u: basic(u, pw)
        if pw:
            st, _ = ask(at, "GET", "/api/v1/clusters/", basic("u", pw + "x"))
            if st != 401:
                bad("wrong-value", f"a wrong password is answered with {st}")
        st, _ = ask(at, "GET", "/api/v1/clusters/", who("u"))
        if st != 200:
            bad("not-answered", f"a user's call is answered with {st}")
        made, gone = [], []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            st, body = ask(at, "POST", "/api/v1/clusters/", who("u"), {"cluster_options": {}})
            if how == "cluster":
                if st not in (400, 422):
                    bad("not-refused", f"a cluster that cannot be configured is answered with {st}")
                continue
            if st != 201:
                bad("not-answered", f"a new cluster is answered with {st} {body}")
            made.append(body["name"])
        for c in list(made):
            if chance(r, 0.2):
                st, _ = ask(at, "DELETE", f"/api/v1/clusters/{c}", who("u"))
                made.remove(c)
                gone.append(c)
        # what is under way when it is told to end
        flying = []
        if not other:
            for k in range(r.choice([0, 0, 1, 2, 4])):
                flying.append((f"slow-{r.choice([0.05, 0.3, 0.8])}-{k}", ))
        idle = [socket.create_connection(at) for _ in range(r.choice([0, 0, 1, 3]))]
        for s in idle[:1]:
            s.sendall(b"GET /api/health HTTP/1.1\r\nHost: x\r\n\r\n")
            answer(s, keep=True)
        socks = [(u, ask(at, "GET", "/api/v1/clusters/", who(u), read=False)) for (u,) in flying]
        end = time.monotonic() + 20
        while True:
            begun = {x[2] for x in p.log() if x[1] == "begin"}
            if all(u in begun for u, _ in socks):
                break
            if time.monotonic() > end:
                bad("not-answered", "calls are not begun")
            time.sleep(0.002)
        if chance(r, 0.5):
            time.sleep(r.uniform(0, 0.1))
        told = time.monotonic()
        os.kill(p.pid, sig)
        for u, s in socks:
            s.settimeout(40)
            st, body = answer(s)
            if st != 200:
                bad("call-dropped", f"the call of {u}, under way when {sig.name} came, is answered with {st} {body}")
            ck.count("calls under way answered")
        if p.wait(20 + 10 * plan["stopping"] + 10) is None:
            bad("not-ended", f"the program does not end on {sig.name}")
        for s in idle:
            s.close()
        log = p.log()
        if p.code != 0:
            bad("wrong-status", f"the program that was told to end by {sig.name} ends with status {p.code}")
        once(log)
        down = next(x[0] for x in log if x[1] == "back-cleanup")
        if any(x[1] == "asked" and x[0] > down for x in log):
            bad("asked-late", "calls are served while the backend is cleaned up")
        if "back-down" not in [x[1] for x in log]:
            bad("not-cleaned", "the cleanup of the backend does not complete")
        cleaned = next(x[0] for x in log if x[1] == "do-cleanup")
        for c in made:
            done = [x[0] for x in log if x[1] == "stopped" and x[2] == c]
            begun = [x for x in log if x[1] == "stop" and x[2] == c]
            started = [x for x in log if x[1] == "start" and x[2] == c]
            if stop is False:
                if begun:
                    bad("stopped-cluster", f"{c} is stopped though clusters are to be left running")
            elif started and (not done or done[0] > cleaned):
                bad("not-stopped", f"{c} is not stopped when the program ends")
        for c in gone:
            if any(x[1] == "start" and x[2] == c for x in log) and not any(x[1] == "stopped" and x[2] == c for x in log) and stop is not False:
                bad("not-stopped", f"{c} is not stopped when the program ends")
        try:
            ask(at, "GET", "/api/health", timeout=2)
            bad("left-behind", "calls are answered after the end")
        except OSError:
            pass
        if any("exception was never retrieved" in x or "Task was destroyed" in x for x in p.said().splitlines()):
            bad("not-orderly", "tasks are left behind")
        ck.count("ended in order")
        ck.count("clusters judged", len(made))
        if stop is False and made:
            # started again, it knows them
            p = Program(d, argv, dict(plan, faults={}, delays={}), env)
            progs.append(p)
            end = time.monotonic() + 30
            while True:
                if p.poll() is not None:
                    if mode in ("zero", "default") and "address already in use" in p.said():
                        return
                    bad("not-started", f"the program ends with status {p.code} instead of starting again")
                dump = p.dump()
                if dump is not None:
                    h, _, q = dump["address"].rpartition(":")
                    try:
                        st, body = ask(("127.0.0.1" if h in ("", "0.0.0.0") else h, int(q)), "GET", "/api/v1/clusters/", who("u"))
                        break
                    except OSError:
                        pass
                if time.monotonic() > end:
                    bad("not-started", "the program does not answer when started again")
                time.sleep(0.004)
            if st != 200 or any(c not in body for c in made):
                bad("forgotten", f"the clusters left running are {made}; after a restart the gateway knows {sorted(body or ())}")
            os.kill(p.pid, signal.SIGTERM)
            if p.wait(40) is None:
                bad("not-ended", "the program does not end when started again")
            if p.code != 0:
                bad("wrong-status", f"the program that was started again ends with status {p.code}")
            once(p.log())
            ck.count("started again")
        ck.case([how, sorted(lines), sorted(argv), len(made), len(socks), stop, sig.name], nontrivial=True, sample=witness if i < 2 else None)
    finally:
        if busy:
            busy.close()


def generate(ck, i, r, d, progs):
    """The subcommand that writes a configuration file."""
    where = r.choice(["dask_gateway_config.py", "other.py", "sub/x.py", "missing/x.py"])
    os.mkdir(os.path.join(d, "sub"))
    path = os.path.join(d, where)
    old = None
    if where != "missing/x.py" and chance(r, 0.5):
        old = f"c.DaskGateway.log_level = 'DEBUG'  # {r.randint(0, 999)}\n"
        with open(path, "w") as f:
            f.write(old)
    force = chance(r, 0.5)
    argv = ["generate-config"]
    if where != "dask_gateway_config.py" or chance(r, 0.3):
        argv += r.choice([["--output", where], [f"--output={path}"]])
    if force:
        argv.append("--force")
    p = Program(d, argv, {"delays": {}, "faults": {}, "stopping": 0, "cluster": CLUSTER})
    progs.append(p)
    witness = {"arguments": argv, "existed": old is not None}

    def bad(key, msg):
        raise core.Violation(key, msg, dict(witness, said=p.said()[-1500:]))

    if p.wait(30) is None:
        bad("not-ended", "generate-config does not end")
    text = open(path).read() if os.path.exists(path) else None
    if where == "missing/x.py" or (old is not None and not force):
        if p.code <= 0:
            bad("wrong-status", f"generate-config that cannot write ends with status {p.code}")
        if text != old:
            bad("overwritten", f"{where} is overwritten or made")
        ck.count("not generated")
        ck.case(["generate", where, old is not None, force], nontrivial=True)
        return
    if p.code != 0 or text is None:
        bad("not-generated", f"generate-config ends with status {p.code}; the file is {'there' if text else 'missing'}")
    if text == old:
        bad("not-generated", "generate-config --force leaves the old file")

    class Any:
        def __init__(self):
            self.__dict__["set"] = []

        def __getattr__(self, k):
            return self

        def __setattr__(self, k, v):
            self.__dict__["set"].append(k)

    c = Any()
    try:
        exec(compile(text, path, "exec"), {"c": c, "get_config": lambda: c})
    except Exception as e:
        bad("not-loaded", f"the generated file cannot be loaded: {type(e).__name__} {e}")
    if c.__dict__["set"]:
        bad("changes", f"the generated file sets {c.__dict__['set']}")
    for opt in ("DaskGateway.address", "DaskGateway.backend_class", "DaskGateway.authenticator_class", "Authenticator.cache_max_age", "Backend.cluster_options", "Backend.api_url", "Backend.scheduler_api_retries", "Backend.cluster_config_class"):
        if f"c.{opt}" not in text:
            bad("not-listed", f"the generated file does not show c.{opt}")
    ck.count("generated")
    ck.case(["generate", where, old is not None, force], nontrivial=True)


def body(ck):
    import aiohttp.web  # noqa: F401  (loaded once, for the processes forked)
    import cryptography.fernet  # noqa: F401
    import cryptography.x509  # noqa: F401
    import sqlalchemy  # noqa: F401

    # what is loaded before is shared by all; the code under test as well, as it is read once
    import dask_gateway_server.app  # noqa: F401
    import dask_gateway_server.backends.db_base  # noqa: F401

    ck.pool(lambda i: case(ck, i), ck.budget(30, 600), seconds=150)
    ck.need(**{"configurations compared": 60, "ended in order": 60, "calls under way answered": 20, "clusters judged": 20, "options given": 200, "generated": 2, "refused: program": 5, "refused: fault": 5})


if __name__ == "__main__":
    core.main("C35", RULE, body, assumptions=["traitlets reads configuration files and command lines as documented; the proxy is managed externally (C20 judges it)"])
