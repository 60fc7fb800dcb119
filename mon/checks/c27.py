"""C27: local clusters run in a private directory and leave nothing behind."""
import asyncio
import base64
import contextlib
import errno
import grp
import json
import logging
import os
import pwd
import shutil
import signal
import stat
import sys
import tempfile
import time

from mon import core, gw
from mon.checks.c26 import drive, until

RULE = (
    "the real server and local back end, without privileges and in a scratch directory, start real processes which report what they were given; calls that "
    "change owners, users or groups and signals to processes are replaced by recorders; processes exit early, ignore signals or cannot be started, users are "
    "unknown, the gateway restarts; files, owner changes, environments, signals and what is left at the end are judged; non-trivial: a process was started; "
    "distinct by the processes' behaviour, the signals and the outcome"
)
NOBODY = 65534
IDS = {"alice": (4001, 5001), "bob": (4002, 5002)}
GROUPS = {"alice": {6001, 6002}, "bob": set()}
PROC = r'''
import json, os, signal, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0])))
kind = os.path.basename(sys.argv[0])
with open(root + "/modes.json") as f:
    mode = json.load(f)[kind]
if mode == "ignore-int":
    signal.signal(signal.SIGINT, signal.SIG_IGN)
elif mode == "ignore-both":
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
elif mode == "slow":
    def leave(*_):
        time.sleep(0.3)
        os._exit(0)
    signal.signal(signal.SIGINT, leave)
else:
    signal.signal(signal.SIGINT, signal.SIG_DFL)
with open("/proc/self/environ", "rb") as f:
    env = dict(x.split("=", 1) for x in f.read().decode().split("\0") if x)
files = {}
for top, dirs, names in os.walk("."):
    for n in ["."] + names:
        p = os.path.normpath(os.path.join(top, n))
        st = os.stat(p)
        files[p] = oct(st.st_mode & 0o7777), open(p).read() if n in names and st.st_size < 20000 else None
rec = {"kind": kind, "mode": mode, "pid": os.getpid(), "argv": sys.argv[1:], "env": env, "cwd": os.getcwd(), "sid": os.getsid(0), "files": files,
       "fds": sorted(int(x) for x in os.listdir("/proc/self/fd"))}
print("hello from", kind, flush=True)
print("to stderr", file=sys.stderr, flush=True)
if rec["cwd"].startswith(root):
    os.symlink(root + "/precious", "link-%d" % os.getpid())
    open("file-%d" % os.getpid(), "w").close()
tmp = "%s/procs/%d" % (root, os.getpid())
with open(tmp + ".tmp", "w") as f:
    json.dump(rec, f)
os.rename(tmp + ".tmp", tmp)
if mode == "exit":
    sys.exit(0)
if mode == "crash":
    sys.exit(3)
end = time.time() + 150
while time.time() < end:
    time.sleep(0.05)
    if os.path.exists("%s/die-%d" % (root, os.getpid())):
        os._exit(1)
'''


class World:
    def __init__(self, ck, r, unsafe):
        self.ck, self.r, self.unsafe = ck, r, unsafe
        self.root = tempfile.mkdtemp(prefix="vp-c27-")
        for d in ("bin", "procs", "tmp", "precious"):
            os.mkdir(os.path.join(self.root, d))
        with open(self.root + "/precious/thesis", "w") as f:
            f.write("x")
        self.bin = {}
        for n in ("scheduler", "worker"):
            p = self.bin[n] = os.path.join(self.root, "bin", n)
            with open(p, "w") as f:
                f.write(f"#!{sys.executable} -ES\n" + PROC)
            os.chmod(p, 0o755)
        self.modes(scheduler="good", worker="good")
        self.pids = {}  # pid -> when it was started
        self.signals = []  # (time, pid, signal)
        self.owned = {}  # path -> (uid, gid)
        self.unowned = []
        self.chown_fails = False
        self.first = None

    def modes(self, **kw):
        p = self.root + "/modes.json"
        m = dict(getattr(self, "_modes", {}), **kw)
        self._modes = m
        with open(p + ".tmp", "w") as f:
            json.dump(m, f)
        os.rename(p + ".tmp", p)

    def procs(self):
        out = []
        for n in sorted(os.listdir(self.root + "/procs")):
            if not n.endswith(".tmp"):
                with open(f"{self.root}/procs/{n}") as f:
                    out.append(json.load(f))
        return out

    def bad(self, key, detail):
        if self.first is None:
            self.first = core.Violation(key, detail, {"signals": [(round(t - self.t0, 2), p, s) for t, p, s in self.signals][-20:], "owners": self.unowned[-20:],
                                                      "processes": [(p["kind"], p["mode"], p["pid"], p["cwd"]) for p in self.procs()]})

    def check(self):
        if self.first:
            raise self.first

    def alive(self, pid):
        try:
            with open(f"/proc/{pid}/stat") as f:
                return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
        except (FileNotFoundError, ProcessLookupError):
            return False

    def install(self):
        """Recorders in place of what could reach beyond the scratch directory."""
        world = self
        undo = []

        def put(obj, name, new):
            old = getattr(obj, name)
            undo.append((obj, name, old))
            setattr(obj, name, new)
            return old

        def kill(pid, sig):
            if pid not in world.pids:
                world.bad("signal-elsewhere", f"signal {sig} is sent to {pid}, which is no process of a cluster")
                raise ProcessLookupError(errno.ESRCH, "no such process")
            if sig:
                world.signals.append((time.monotonic(), pid, int(sig)))
            return real_kill(pid, sig)

        real_kill = put(os, "kill", kill)
        def killpg(pid, sig):
            if pid not in world.pids:
                world.bad("signal-elsewhere", f"signal {sig} is sent to the group {pid}, which is none of a cluster")
                raise ProcessLookupError(errno.ESRCH, "no such process")
            if sig:
                world.signals.append((time.monotonic(), pid, int(sig)))
            return real_killpg(pid, sig)

        real_killpg = put(os, "killpg", killpg)

        def chown(path, uid, gid, **kw):
            if isinstance(path, int):
                path = os.readlink(f"/proc/self/fd/{path}")
            path = os.path.normpath(os.fsdecode(path))
            inside = any(path == d or path.startswith(d + os.sep) for d in world.workdirs())
            world.unowned.append((path, uid, gid))
            if not inside:
                world.bad("owner-elsewhere", f"the owner of {path} would be changed to {uid}:{gid}")
            if world.chown_fails:
                raise PermissionError(errno.EPERM, "Operation not permitted", path)
            world.owned[path] = (uid, gid)

        for n in ("chown", "lchown", "fchown"):
            put(os, n, chown)

        def record(name):
            def call(*a):
                # in the new process, before it is replaced
                with open(f"{world.root}/ids", "a") as f:
                    f.write(json.dumps([os.getpid(), name, [list(x) if isinstance(x, (tuple, list, set)) else x for x in a]]) + "\n")

            return call

        for n in ("setuid", "setgid", "setgroups", "setreuid", "setregid", "setresuid", "setresgid", "initgroups", "seteuid", "setegid"):
            put(os, n, record(n))

        real_pw, real_gr = pwd.getpwnam, grp.getgrall

        def getpwnam(name):
            if name in IDS:
                return pwd.struct_passwd((name, "x", *IDS[name], "", "/home/" + name, "/bin/sh"))
            if name == "stranger":
                raise KeyError(f"getpwnam(): name not found: {name!r}")
            return real_pw(name)

        put(pwd, "getpwnam", getpwnam)
        put(grp, "getgrall", lambda: [grp.struct_group((f"g{g}", "x", g, [u for u in GROUPS if g in GROUPS[u]])) for g in (6000, 6001, 6002)])
        put(os, "getgrouplist", lambda name, gid: sorted({gid, *GROUPS.get(name, ())}))

        real_exec = asyncio.create_subprocess_exec

        async def run(*cmd, **kw):
            ids = []
            for k, n in (("group", "setgid"), ("extra_groups", "setgroups"), ("user", "setuid")):
                if kw.get(k) is not None:
                    ids.append((n, [kw.pop(k)]))
            proc = await real_exec(*cmd, **kw)
            world.pids[proc.pid] = time.monotonic()
            for n, a in ids:
                with open(f"{world.root}/ids", "a") as f:
                    f.write(json.dumps([proc.pid, n, a]) + "\n")
            return proc

        put(asyncio, "create_subprocess_exec", run)
        put(tempfile, "tempdir", self.root + "/tmp")
        self.umask = os.umask(self.r.choice([0, 0o022, 0o077]))
        self.environ = dict(os.environ)
        os.environ["DASK_SECRET_OF_THE_GATEWAY"] = "s3cret"
        os.environ["LANG"] = "C.UTF-8"
        self.t0 = time.monotonic()

        def back():
            os.umask(self.umask)
            os.environ.clear()
            os.environ.update(self.environ)
            for obj, name, old in reversed(undo):
                setattr(obj, name, old)

        self.real_kill = real_kill
        return back

    def workdirs(self):
        """The working directories there are."""
        out = []
        for base in self.bases():
            if os.path.isdir(base):
                out += [os.path.join(base, n) for n in os.listdir(base)]
        return out

    def bases(self):
        return [self.base] if self.base else [self.root + "/tmp"]

    base = None


@contextlib.contextmanager
def unprivileged():
    """Real and effective ids such that no file or process but nobody's can be touched."""
    if os.geteuid() != 0:
        yield
        return
    groups = os.getgroups()
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, 0)
    os.setresuid(NOBODY, NOBODY, 0)
    try:
        yield
    finally:
        os.setresuid(0, 0, 0)
        os.setresgid(0, 0, 0)
        os.setgroups(groups)


def case(ck, i):
    r = ck.rng(i)
    with unprivileged():
        w = World(ck, r, r.random() < 0.25)
        undo = w.install()
        try:
            drive(run(ck, i, r, w), 85)
        finally:
            undo()
            for p in list(w.pids):
                if w.alive(p):
                    with contextlib.suppress(OSError):
                        os.kill(p, signal.SIGKILL)
            shutil.rmtree(w.root, ignore_errors=True)


class Server:
    cls = None

    def __init__(self, w, cfg, stop_on_exit):
        self.w, self.cfg, self.stop_on_exit = w, cfg, stop_on_exit

    async def start(self):
        from dask_gateway_server.backends.local import LocalBackend, UnsafeLocalBackend
        from traitlets.config import Config

        c = Config()
        b = c.DBBackendBase
        b.db_url = f"sqlite:///{self.w.root}/gw.sqlite"
        b.db_encrypt_keys = [base64.urlsafe_b64encode(bytes(32))]
        b.cluster_status_period = b.worker_status_period = 0.25
        b.check_timeouts_period = 0.5
        b.backoff_base_delay, b.backoff_max_delay = 0.05, 0.2
        b.stop_clusters_on_shutdown = self.stop_on_exit
        b.cluster_start_timeout = b.worker_start_timeout = 300
        b.cluster_heartbeat_period, b.cluster_heartbeat_timeout = 300, 3000
        b.api_url = "http://gateway.example:8000/api"
        c.DaskGateway.address = "127.0.0.1:0"
        lb = c.LocalBackend
        lb.sigint_timeout, lb.sigterm_timeout, lb.sigkill_timeout = self.w.timeouts
        if self.w.base:
            lb.clusters_directory = self.w.base + self.w.slash
        if self.w.inherited is not None:
            lb.inherited_environment = self.w.inherited
        kc = c.LocalClusterConfig
        kc.scheduler_cmd = self.w.bin["scheduler"]
        kc.worker_cmd = self.w.bin["worker"]
        for k, v in self.cfg.items():
            setattr(kc, k, v)
        self.gw = await gw.build(self.cls or (UnsafeLocalBackend if self.w.unsafe else LocalBackend), c)

    async def stop(self):
        await asyncio.wait_for(self.gw.backend.cleanup(), 60)
        await self.gw.authenticator.cleanup()

    async def api(self, method, path, headers, js=None):
        return await gw.request(self.gw.app, method, path, headers, js=js)

    async def report(self, user, name):
        return (await self.api("GET", f"/api/v1/clusters/{name}", gw.basic(user))).json


def judge_process(w, p, cfg, c):
    """One process: environment, directory, files, identity."""
    user, env = c["user"], p["env"]
    worker = p["kind"] == "worker"
    what = f"the {p['kind']} of a cluster of {user}"
    cwd = p["cwd"]
    want = {"DASK_GATEWAY_CLUSTER_NAME": c["name"], "DASK_GATEWAY_API_URL": "http://gateway.example:8000/api", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True", "USER": user}
    inherit = ["PATH", "PYTHONPATH", "CONDA_ROOT", "CONDA_DEFAULT_ENV", "VIRTUAL_ENV", "LANG", "LC_ALL"] if w.inherited is None else w.inherited
    for k in inherit:
        if k in os.environ and k != "USER":
            want[k] = os.environ[k]
    for k, v in cfg.get("environment", {}).items():
        want.setdefault(k, v)
    for k, v in want.items():
        if env.get(k) != v and k not in cfg.get("environment", {}):
            w.bad("environment", f"{what} has {k}={env.get(k)!r}, not {v!r}")
        elif k not in env:
            w.bad("environment", f"{what} has no {k}")
    if c["token"] is None:
        c["token"] = env.get("DASK_GATEWAY_API_TOKEN")
    role = "WORKER" if worker else "SCHEDULER"
    tls = ["DASK_DISTRIBUTED__COMM__TLS__" + k for k in ("CA_FILE", role + "__CERT", role + "__KEY")]
    extra = set(env) - set(want) - set(tls) - {"DASK_GATEWAY_API_TOKEN"}
    if extra:
        w.bad("environment", f"{what} is given {sorted(extra)}, which is not inherited")
    if not env.get("DASK_GATEWAY_API_TOKEN") or env["DASK_GATEWAY_API_TOKEN"] != c["token"]:
        w.bad("environment", f"{what} is given another token")
    if c["token"] and c["token"] in " ".join(p["argv"]):
        w.bad("secret", f"{what} has the token in its arguments")
    expected = os.path.join(w.base, c["name"]) if w.base else None
    if expected and cwd != os.path.normpath(expected) or not expected and (os.path.dirname(cwd) != w.root + "/tmp" or c.setdefault("cwd", cwd) != cwd):
        w.bad("directory", f"{what} runs in {cwd}")
    for o in w.all_clusters:
        if o is not c and o.get("cwd") == cwd:
            w.bad("directory", f"two clusters share the directory {cwd}")
    c["cwd"] = cwd
    if p["sid"] != p["pid"]:
        w.bad("session", f"{what} is not in a session of its own, and is signalled with the gateway")
    if set(p["fds"]) - {0, 1, 2, 3, 4}:
        w.bad("descriptors", f"{what} inherits the descriptors {p['fds']}")
    files = p["files"]
    if files["."][0] != "0o700":
        w.bad("modes", f"the working directory has mode {files['.'][0]}")
    paths = [os.path.relpath(env.get(k, "/none"), cwd) for k in tls]
    for k, rel in zip(tls, paths):
        if rel not in files:
            w.bad("files", f"{what} finds {k} at {env.get(k)}; its files are {sorted(files)}")
            return
        if files[rel][0] not in ("0o600", "0o400"):
            w.bad("modes", f"{what} has {rel} with mode {files[rel][0]}")
        d = os.path.dirname(rel)
        if d and files[d][0] != "0o700":
            w.bad("modes", f"the directory {d} has mode {files[d][0]}")
    ca, cert, key = (files[x][1] or "" for x in paths)
    if "CERTIFICATE" not in cert or ca != cert or "PRIVATE KEY" not in key:
        w.bad("files", f"{what} has the certificate {cert[:30]!r}, the authority {ca[:30]!r} and the key {key[:30]!r}")
    c["tls"] = (cert, key)
    if not w.unsafe:
        uid, gid = IDS[user]
        for rel in {".", *paths, *(os.path.dirname(x) or "." for x in paths)}:
            full = os.path.normpath(os.path.join(cwd, rel))
            if w.owned.get(full) != (uid, gid):
                w.bad("owner", f"{rel} in the working directory of {user} is owned by {w.owned.get(full)}, not {(uid, gid)}")
        ids = []
        with contextlib.suppress(FileNotFoundError), open(w.root + "/ids") as f:
            ids = [x[1:] for x in map(json.loads, f) if x[0] == p["pid"]]
        state = {"uid": None, "gid": None, "groups": None}
        for name, a in ids:
            if state["uid"] is not None and name != "setuid":
                w.bad("identity", f"{what} changes its groups after its user, when it no longer may: {ids}")
            if name in ("setuid", "setreuid", "setresuid") and set(a) == {uid}:
                state["uid"] = uid
            elif name in ("setgid", "setregid", "setresgid") and set(a) == {gid}:
                state["gid"] = gid
            elif name == "setgroups":
                state["groups"] = set(a[0])
            elif name == "initgroups":
                state["groups"] = GROUPS[user] | {a[1]} if a[0] == user else {"?"}
            else:
                w.bad("identity", f"{what} calls {name}{a}")
        if state["uid"] is None or state["gid"] is None or state["groups"] is None or state["groups"] | {gid} != GROUPS[user] | {gid}:
            w.bad("identity", f"{what} runs as {state}; it should as {uid}:{gid} with the groups {GROUPS[user]}: {ids}")
    elif w.unowned:
        w.bad("owner-elsewhere", f"the unsafe back end changes owners: {w.unowned[-1]}")
    if not worker:
        if not any("scheduler_preload" in a for a in p["argv"]):
            w.bad("command", f"{what} is run with {p['argv']}")
    elif "tls://10.0.0.1:8786" not in p["argv"]:
        w.bad("command", f"{what} is run with {p['argv']}")
    w.ck.count("processes judged")


def judge_signals(w):
    """INT, then TERM, then KILL, each after the time allowed for the one before."""
    by = {}
    for t, pid, s in w.signals:
        by.setdefault(pid, []).append((t, s))
    for pid, seq in by.items():
        first = {}
        for t, s in seq:
            first.setdefault(s, t)
        order = [signal.SIGINT, signal.SIGTERM, signal.SIGKILL]
        for a, b, limit in zip(order, order[1:], w.timeouts):
            if b in first and (a not in first or first[b] - first[a] < limit - 0.05):
                w.bad("escalation", f"{signal.Signals(b).name} is sent to a process {first[b] - first.get(a, first[b]):.2f} s after {signal.Signals(a).name}, allowed were {limit} s")


async def run(ck, i, r, w):
    if r.random() < 0.12:
        return await inprocess(ck, i, r, w)
    w.base = r.choice([None, os.path.join(w.root, "clusters"), os.path.join(w.root, "a b", "c")])
    w.slash = r.choice(["", "/"])
    w.inherited = r.choice([None, None, ["PATH"], ["PATH", "LANG", "NOT_SET", "USER"]])
    w.timeouts = r.choice([(1, 1, 5), (1, 1, 5), (2, 1, 5)])
    w.all_clusters = clusters = []
    cfg = {"cluster_max_workers": 6}
    if r.random() < 0.5:
        cfg["environment"] = {"MY_VAR": "my value", "LANG": "de_DE"}
    stop_on_exit = r.random() < 0.3
    s = Server(w, cfg, stop_on_exit)
    await s.start()
    judged = set()

    def settle():
        for p in w.procs():
            if p["pid"] in judged:
                continue
            name = p["env"].get("DASK_GATEWAY_CLUSTER_NAME")
            mine = [c for c in clusters if c["name"] == name]
            if not mine:
                continue
            judged.add(p["pid"])
            mine[0]["procs"].append((p["kind"], p["pid"], p["mode"]))
            judge_process(w, p, cfg, mine[0])
        judge_signals(w)
        w.check()
        return True

    async def status(c, want, seconds):
        end = time.monotonic() + seconds
        while True:
            rep = await s.report(c["user"], c["name"])
            if rep["status"] in want or time.monotonic() > end:
                return rep["status"]
            settle()
            await asyncio.sleep(0.03)

    def left(c):
        return [d for d in w.workdirs() if c["name"] in d or d == c.get("cwd")]

    def alive(c):
        return [(k, p, m) for k, p, m in c["procs"] if w.alive(p)]

    async def gone(c, why):
        await until(lambda: not alive(c) and not left(c), 3)
        settle()
        if alive(c):
            w.bad("process-left", f"{why}: of a cluster that ended {alive(c)} run on")
        if left(c):
            w.bad("directory-left", f"{why}: the directory of a cluster that ended is left, with {os.listdir(left(c)[0])}")
        if sorted(os.listdir(w.root + "/precious")) != ["thesis"]:
            w.bad("removed-elsewhere", "what a working directory links to is removed")
        w.check()

    for _ in range(r.choice([1, 1, 2, 3])):
        user = r.choice(["alice", "bob"])
        trouble = r.choice([None, None, None, None, "no-command", "stranger", "chown", "exit", "crash"])
        if trouble == "stranger" and not w.unsafe:
            user = "stranger"
        elif trouble == "chown" and not w.unsafe:
            w.chown_fails = True
        elif trouble == "no-command":
            os.rename(w.bin["scheduler"], w.bin["scheduler"] + "-away")
        elif trouble not in ("exit", "crash"):
            trouble = None
        mode = trouble if trouble in ("exit", "crash") else r.choice(["good", "good", "ignore-int", "ignore-both", "slow"])
        w.modes(scheduler=mode)
        n = len(w.procs())
        resp = await s.api("POST", "/api/v1/clusters/", gw.basic(user), js={"cluster_options": {}})
        if resp.status != 201:
            raise core.Inconclusive(f"no cluster is created: {resp}")
        c = {"name": resp.json["name"], "user": user, "procs": [], "token": None, "mode": mode, "state": "up"}
        clusters.append(c)
        if trouble:
            got = await status(c, ("FAILED", "STOPPED"), 20)
            if got not in ("FAILED", "STOPPED"):
                w.bad("dead-unnoticed", f"a cluster whose scheduler cannot start ({trouble}) is {got} after 20 s")
            c["state"] = "ended"
            w.chown_fails = False
            if trouble == "no-command":
                os.rename(w.bin["scheduler"] + "-away", w.bin["scheduler"])
            await gone(c, f"not started ({trouble})")
            ck.count("failed starts judged")
            continue
        if not await until(lambda: len(w.procs()) > n, 20):
            rep = await s.report(user, c["name"])
            w.check()
            w.bad("not-started", f"the scheduler of a cluster is not started; it is {rep['status']}")
        settle()
        if not c["procs"]:
            w.bad("environment", f"the scheduler is not told its cluster: {w.procs()[-1]['env'].get('DASK_GATEWAY_CLUSTER_NAME')}")
        # while it is pending its state is checked
        x = r.random()
        if x < 0.35:
            await asyncio.sleep(0.8)
            rep = await s.report(user, c["name"])
            if rep["status"] != "PENDING":
                w.bad("killed-alive", f"the scheduler of a cluster is alive, and the cluster is {rep['status']}")
            ck.count("live processes judged")
        elif x < 0.6:
            pid = c["procs"][0][1]
            open(f"{w.root}/die-{pid}", "w").close()
            got = await status(c, ("FAILED",), 15)
            if got != "FAILED":
                w.bad("dead-unnoticed", f"the scheduler of a pending cluster has died, and the cluster is {got} after 15 s")
            c["state"] = "ended"
            await gone(c, "its scheduler died")
            ck.count("dead processes judged")
        settle()
    live = [c for c in clusters if c["state"] == "up"]
    if live and r.random() < 0.25:
        s.stop_on_exit = s.gw.backend.stop_clusters_on_shutdown = False
        await s.stop()
        for c in live:
            if not alive(c):
                w.bad("killed-alive", "the processes of a cluster end with the gateway, which was to leave them running")
        s = Server(w, cfg, stop_on_exit)
        await s.start()
        ck.count("restarts")
    for c in live:
        if r.random() < 0.3:
            continue
        k = r.choice([1, 2, 3])
        wmode = r.choice(["good", "good", "ignore-int", "ignore-both"])
        w.modes(worker=wmode)
        resp = await s.api("POST", f"/api/v1/clusters/{c['name']}/heartbeat", gw.token(c["token"] or ""),
                           js={"scheduler_address": "tls://10.0.0.1:8786", "dashboard_address": "http://10.0.0.1:8787", "api_address": "http://10.0.0.1:8788", "count": k,
                               "active_workers": [], "closing_workers": [], "closed_workers": []})
        if resp.status != 200:
            w.bad("token", f"a heartbeat with the token given to the scheduler is answered {resp.status}")

        def workers():
            return [(p, m) for kind, p, m in c["procs"] if kind == "worker"]

        if not await until(lambda: settle() and len(workers()) >= k, 20):
            w.bad("not-started", f"{k} workers are requested, started are {len(workers())}")
        await asyncio.sleep(0.5)
        settle()
        rep = await s.report(c["user"], c["name"])
        if rep["status"] != "RUNNING":
            w.bad("not-running", f"after its heartbeat a cluster is {rep['status']}")
        elif (rep["tls_cert"], rep["tls_key"]) != c["tls"]:
            w.bad("files", "the files are not the credentials of the cluster")
        if len(workers()) > k:
            w.bad("killed-alive", f"{k} workers are requested, they run, and {len(workers())} are started")
        x = r.random()
        if x < 0.3:
            pid = workers()[-1][0]
            open(f"{w.root}/die-{pid}", "w").close()
            if not await until(lambda: settle() and len(workers()) > k, 15):
                w.bad("dead-unnoticed", "a pending worker has died, and none takes its place")
            ck.count("dead processes judged")
        elif x < 0.7:
            # all connect; some are closed by the scheduler
            names = [a for p in w.procs() if p["kind"] == "worker" and p["pid"] in dict(workers()) and w.alive(p["pid"]) for a in [p["argv"][p["argv"].index("--name") + 1]]]
            pids = {p["argv"][p["argv"].index("--name") + 1]: p["pid"] for p in w.procs() if p["kind"] == "worker"}
            out = r.sample(names, r.randint(1, len(names)))
            for a, cl, n in (((names, [], len(names)), ([x for x in names if x not in out], out, len(names) - len(out)))):
                resp = await s.api("POST", f"/api/v1/clusters/{c['name']}/heartbeat", gw.token(c["token"]),
                                   js={"scheduler_address": "tls://10.0.0.1:8786", "dashboard_address": "http://10.0.0.1:8787", "api_address": "http://10.0.0.1:8788", "count": n,
                                       "active_workers": a, "closing_workers": [], "closed_workers": cl})
            most = 2 * sum(w.timeouts) + 5
            if not await until(lambda: settle() and not any(w.alive(pids[x]) for x in out), most):
                w.bad("process-left", f"workers that were closed ({wmode}) run on after {most} s")
            if not all(w.alive(pids[x]) for x in names if x not in out):
                w.bad("killed-alive", "of the workers the wrong ones are ended")
            ck.count("closed workers judged")
    w.check()
    if r.random() < 0.4:
        for c in live:
            c["stopping"] = c["state"] == "up"
        s.gw.backend.stop_clusters_on_shutdown = stop_on_exit
        if stop_on_exit:
            await s.stop()
            for c in live:
                if c["state"] == "up":
                    await gone(c, "the gateway was shut down")
                    ck.count("stops judged")
            s = None
    if s is not None:
        for c in clusters:
            if c["state"] == "up" and r.random() < 0.25:
                # ended already, which the gateway may not know
                for _, pid, _ in c["procs"]:
                    open(f"{w.root}/die-{pid}", "w").close()
                await until(lambda: not alive(c), 5)
            if c["state"] == "up" and r.random() < 0.1:
                shutil.rmtree(c["cwd"], ignore_errors=True)
            resp = await s.api("DELETE", f"/api/v1/clusters/{c['name']}", gw.basic(c["user"]))
            if resp.status not in (200, 204):
                w.bad("delete", f"stopping a cluster is answered {resp.status}")
        for c in clusters:
            got = await status(c, ("STOPPED", "FAILED"), 2 * sum(w.timeouts) + 2 * sum(w.timeouts) + 15)
            if got not in ("STOPPED", "FAILED"):
                w.bad("not-stopped", f"a cluster ({c['procs']}) is {got} long after it was to be stopped")
            await gone(c, "stopped")
            ck.count("stops judged")
        await s.stop()
    settle()
    for b in w.bases():
        if os.path.isdir(b) and os.listdir(b):
            w.bad("directory-left", f"at the end there are {os.listdir(b)}")
    w.check()
    ck.count("signals judged", len(w.signals))
    ck.case([w.unsafe, bool(w.base), [(c["mode"], [(k, m) for k, _, m in c["procs"]]) for c in clusters], [s for _, _, s in w.signals]], nontrivial=any(c["procs"] for c in clusters),
            sample={"clusters": [(c["mode"], c["procs"]) for c in clusters], "signals": [s for _, _, s in w.signals]} if i < 4 else None)


async def inprocess(ck, i, r, w):
    """The back end that runs a scheduler inside the gateway."""
    from dask_gateway_server.backends.inprocess import InProcessBackend
    from distributed import Scheduler

    w.unsafe, w.base, w.slash, w.inherited, w.timeouts, w.all_clusters = True, None, "", None, (1, 1, 5), []
    s = Server(w, {}, False)
    s.cls = InProcessBackend
    await s.start()
    existing = set(Scheduler._instances)
    resp = await s.api("POST", "/api/v1/clusters/", gw.basic("alice"), js={"cluster_options": {}})
    name = resp.json["name"]
    mine = await until(lambda: [x for x in Scheduler._instances if x not in existing and x.status.name == "running"], 30)
    if not mine:
        w.bad("not-started", f"in-process: no scheduler runs; the cluster is {await s.report('alice', name)}")
    await asyncio.sleep(1)
    w.check()
    rep = await s.report("alice", name)
    if rep["status"] != "PENDING" or mine[0].status.name != "running":
        w.bad("killed-alive", f"in-process: the scheduler of a pending cluster was started, and after a second the cluster is {rep['status']}, the scheduler {mine[0].status.name}")
    ck.count("live processes judged")
    x = r.random()
    if x < 0.3:
        # its scheduler ends with the gateway, its directory is removed once it is stopped
        await s.stop()
        await mine[0].close()
        await s.start()
        await s.api("DELETE", f"/api/v1/clusters/{name}", gw.basic("alice"))
        end = time.monotonic() + 15
        while rep["status"] not in ("FAILED", "STOPPED") and time.monotonic() < end:
            await asyncio.sleep(0.05)
            rep = await s.report("alice", name)
        if rep["status"] not in ("FAILED", "STOPPED"):
            w.bad("not-stopped", f"in-process: a cluster of a gateway that was restarted is {rep['status']}")
    elif x < 0.65:
        await mine[0].close()
        end = time.monotonic() + 15
        while rep["status"] not in ("FAILED", "STOPPED") and time.monotonic() < end:
            await asyncio.sleep(0.05)
            rep = await s.report("alice", name)
        if rep["status"] != "FAILED":
            w.bad("dead-unnoticed", f"in-process: the scheduler of a pending cluster is closed, and the cluster is {rep['status']} after 15 s")
        ck.count("dead processes judged")
    else:
        await s.api("DELETE", f"/api/v1/clusters/{name}", gw.basic("alice"))
        end = time.monotonic() + 15
        while rep["status"] not in ("FAILED", "STOPPED") and time.monotonic() < end:
            await asyncio.sleep(0.05)
            rep = await s.report("alice", name)
        if rep["status"] != "STOPPED" or mine[0].status.name != "closed":
            w.bad("not-stopped", f"in-process: a cluster that was to be stopped is {rep['status']}, its scheduler {mine[0].status.name}")
    def left():  # distributed keeps one for itself
        return [d for d in w.workdirs() if os.path.basename(d) != "dask-scratch-space"]

    if not await until(lambda: not left(), 3):
        w.bad("directory-left", f"in-process: a directory is left: {left()}")
    await s.stop()
    w.check()
    ck.count("in-process clusters judged")
    ck.case(["in-process", rep["status"], r.random()], nontrivial=True)


def prepare(ck):
    logging.disable(logging.CRITICAL)
    gw.cheap_keys()


def body(ck):
    prepare(ck)
    import dask_gateway_server.backends.inprocess  # noqa: F401
    import dask_gateway_server.backends.local  # noqa: F401  (before forking)
    import encodings.idna  # noqa: F401

    ck.pool(lambda i: case(ck, i), ck.budget(50, 900))
    ck.need(**{"processes judged": 60, "failed starts judged": 10, "live processes judged": 10, "dead processes judged": 5, "closed workers judged": 5, "stops judged": 30, "signals judged": 40, "restarts": 3, "in-process clusters judged": 3})


if __name__ == "__main__":
    core.main("C27", RULE, body, assumptions=[
        "owners, users and groups are judged by the calls made, which are recorded and not carried out",
        "process ids taken over by processes of others are not judged",
    ])
