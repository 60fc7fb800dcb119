"""C26: batch jobs are submitted once, found, and cancelled with their files removed."""
import asyncio
import base64
import contextlib
import fcntl
import json
import logging
import os
import pwd
import re
import shutil
import stat
import sys
import tempfile
import time

from mon import core, gw

RULE = (
    "the real server and launcher, as an unprivileged user in a scratch directory, with stand-ins for sudo and for the commands of PBS and Slurm "
    "which record what they are given and keep a table of jobs; submissions, queries and cancellations fail, answer nonsense or die, jobs end, "
    "staging directories vanish or cannot be removed, the gateway restarts; every command and file is judged; non-trivial: a job was submitted; "
    "distinct by the commands run"
)
NOBODY = 65534
USERS = ("alice", "bob")
BATCH = r'''
import fcntl, json, os, random, signal, stat, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0])))
me = os.path.basename(sys.argv[0])
with open(root + "/lock", "a") as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    with open(root + "/state.json") as f:
        state = json.load(f)
    args = sys.argv[1:]
    n = state["calls"] = state["calls"] + 1
    rng = random.Random(state["seed"] * 1000003 + n)
    rec = {"t": time.time(), "cmd": me, "argv": args, "env": dict(os.environ), "cwd": os.getcwd(), "uid": os.geteuid()}
    if not sys.stdin.closed and me in ("sbatch", "qsub"):
        rec["stdin"] = sys.stdin.read()
    code, out, err = 0, "", ""
    how = "ok"
    fault = state["faults"].get(me, 0)
    if rng.random() < fault:
        how = rng.choice(["fail", "fail", "killed"])
    if me in ("sbatch", "qsub"):
        home = os.environ.get("HOME")
        rec["staging"] = {}
        for d in state["watch"]:
            for name in sorted(os.listdir(d)) if os.path.isdir(d) else ():
                p = os.path.join(d, name)
                st = os.stat(p)
                files = {}
                for x in sorted(os.listdir(p)):
                    s = os.stat(os.path.join(p, x))
                    files[x] = [stat.S_IMODE(s.st_mode), open(os.path.join(p, x)).read()]
                rec["staging"][p] = [stat.S_IMODE(st.st_mode), files]
        if how == "ok":
            num = state["next"]
            state["next"] += rng.randint(1, 30)
            job = "%d.%s" % (num, state["host"]) if me == "qsub" else str(num)
            state["jobs"][job] = "running"
            rec["job"] = job
            out = job + (";" + state["cluster"] if me == "sbatch" and state["cluster"] else "") + "\n"
        else:
            code, err = rng.choice([1, 15, 255]), "rejected"
            out = rng.choice(["", "error\n"])
    elif me in ("scancel", "qdel"):
        rec["known"] = [a for a in args if a in state["jobs"]]
        if how == "ok":
            for a in args:
                if state["jobs"].get(a) == "running":
                    state["jobs"][a] = "cancelled"
                elif a in state["jobs"] and me == "qdel":
                    code, err = 35, "qdel: Job has finished " + a + "\n"
                elif a not in state["jobs"]:
                    code, err = 153, "unknown job " + a
        else:
            code, err = 1, "cannot connect to server"
    elif me in ("squeue", "qstat"):
        ids = [a for a in args if not a.startswith("-")] if me == "qstat" else [x for a in args if a.startswith("--job=") for x in a[6:].split(",")]
        rec["ids"] = ids
        if how == "fail" or how == "ok" and not all(i in state["jobs"] for i in ids):
            code, err = 153, "cannot query"
            if how == "ok":
                rec["unknown"] = [i for i in ids if i not in state["jobs"]]
        elif how == "ok":
            lines = []
            for i in ids:
                s = state["jobs"][i]
                codes = state["codes"][s]
                c = codes[(n + len(i)) % len(codes)]
                if s != "running" and (c is None or state["forget"]):
                    continue
                lines.append((i, c if c else "F"))
            rng.shuffle(lines)
            if me == "squeue":
                out = "".join("%s %s\n" % l for l in lines)
            else:
                out = "Job id            Name             User              Time Use S Queue\n----------------  ---------------- ----------------  -------- - -----\n"
                out += "".join("%-17s dask-gateway     %-17s 00:00:01 %s workq\n" % (i, "alice", c) for i, c in lines)
    rec["code"], rec["how"] = code, how
    with open(root + "/state.json.tmp", "w") as f:
        json.dump(state, f)
    os.replace(root + "/state.json.tmp", root + "/state.json")
    with open(root + "/log", "a") as f:
        f.write(json.dumps(rec) + "\n")
if state["slow"] and rng.random() < 0.3:
    time.sleep(0.2)
if how == "killed":
    os.kill(os.getpid(), signal.SIGKILL)
sys.stdout.write(out)
sys.stderr.write(err)
sys.exit(code)
'''
LAUNCHER = """import sys
sys.path[:0] = {path!r}
import importlib.util  # without the package around it, which takes long to import
spec = importlib.util.spec_from_file_location("launcher", {file!r})
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.exit(mod.main())
"""


class World:
    def __init__(self, ck, r, kind):
        self.ck, self.r, self.kind = ck, r, kind
        self.root = tempfile.mkdtemp(prefix="vp-c26-")
        self.bin = os.path.join(self.root, "bin")
        os.mkdir(self.bin)
        self.names = {"pbs": ("qsub", "qdel", "qstat"), "slurm": ("sbatch", "scancel", "squeue")}[kind]
        for n in self.names:
            self.script(n, BATCH)
        from dask_gateway_server.backends.jobqueue import launcher

        self.launcher = self.script("launch", LAUNCHER.format(path=[p for p in sys.path if "dask-gateway" in p], file=launcher.__file__), "-E")
        self.homes = {u: os.path.join(self.root, "home", u) for u in USERS}
        for h in self.homes.values():
            os.makedirs(h)
        self.commands = []  # that the gateway itself ran
        self.template = r.choice(["{home}/.dask-gateway/", "{home}/.dask-gateway/", "{home}/a/b c/{username}", self.root + "/stage/{username}"])
        self.stage = {u: os.path.normpath(self.template.format(home=self.homes[u], username=u)) for u in USERS}
        os.makedirs(self.root + "/stage")
        alive = {"pbs": ["R", "Q", "H"], "slurm": ["R", "CG", "PD", "CF"]}[kind]
        dead = {"pbs": ["F", None, "F"], "slurm": ["F", None, "CA", "CD", "TO", "NF", "OOM"]}[kind]
        self.state = {"calls": 0, "seed": r.randrange(1 << 30), "faults": {}, "watch": list(self.stage.values()), "next": r.randint(1, 10 ** 6), "host": r.choice(["pbs", "server.example"]),
                      "cluster": r.choice(["", "", "", "east"]), "jobs": {}, "codes": {"running": alive, "ended": dead, "cancelled": dead}, "forget": False, "slow": r.random() < 0.3}
        self.save(self.state)
        self.first = None

    def script(self, name, text, how="-ES"):
        p = os.path.join(self.bin, name)
        with open(p, "w") as f:
            f.write(f"#!{sys.executable} {how}\n" + text)
        os.chmod(p, 0o755)
        return p

    def save(self, state):
        with open(self.root + "/state.json.tmp", "w") as f:
            json.dump(state, f)
        os.replace(self.root + "/state.json.tmp", self.root + "/state.json")

    @contextlib.contextmanager
    def change(self):
        with open(self.root + "/lock", "a") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            with open(self.root + "/state.json") as f:
                state = json.load(f)
            yield state
            self.save(state)

    def jobs(self):
        with self.change() as s:
            return dict(s["jobs"])

    def log(self):
        try:
            with open(self.root + "/log") as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []

    def bad(self, key, detail):
        if self.first is None:
            self.first = core.Violation(key, f"{self.kind}: {detail}", [str({k: v for k, v in e.items() if k not in ("env", "staging")})[:500] for e in self.log()[-30:]])

    def check(self):
        if self.first:
            raise self.first

    # -- sudo -------------------------------------------------------------
    def intercept(self):
        """sudo is replaced: what it would run runs as we are, with the user's home."""
        real = asyncio.create_subprocess_exec
        world = self

        async def run(*cmd, **kw):
            cmd = [os.fspath(c) for c in cmd]
            world.commands.append((cmd, dict(kw.get("env") or {})))
            if os.path.basename(cmd[0]) == "sudo":
                args = cmd[1:]
                user = None
                while args and args[0].startswith("-"):
                    a = args.pop(0)
                    if a == "--":
                        break
                    if a in ("-u", "--user") or re.fullmatch(r"-[a-zA-Z]*u", a):
                        user = args.pop(0)
                    elif a.startswith("--user="):
                        user = a[7:]
                if user not in USERS:
                    world.bad("user", f"commands are run as {user}: {cmd}")
                    user = "alice"
                world.sudo.append(user)
                kw["env"] = {"HOME": world.homes[user], "USER": user, "PATH": "/usr/bin:/bin"}
                cmd = args
            return await real(*cmd, **kw)

        self.sudo = []
        asyncio.create_subprocess_exec = run
        real_pw = pwd.getpwnam

        def getpwnam(name):
            if name in world.homes:
                return pwd.struct_passwd((name, "x", NOBODY, NOBODY, "", world.homes[name], "/bin/sh"))
            return real_pw(name)

        pwd.getpwnam = getpwnam

        def undo():
            asyncio.create_subprocess_exec = real
            pwd.getpwnam = real_pw

        return undo


@contextlib.contextmanager
def unprivileged():
    """Nothing in here can touch a file that is not world-writable or our own."""
    if os.geteuid() != 0:
        yield
        return
    os.setegid(NOBODY)
    groups = os.getgroups()
    os.setgroups([])
    os.seteuid(NOBODY)
    try:
        yield
    finally:
        os.seteuid(0)
        os.setegid(0)
        os.setgroups(groups)


def case(ck, i):
    r = ck.rng(i)
    with unprivileged():
        w = World(ck, r, r.choice(["pbs", "slurm"]))
        undo = w.intercept()
        try:
            drive(run(ck, i, r, w), 150)
        finally:
            undo()
            for _ in range(20):  # commands of an abandoned server may still be writing
                for d, _, _ in os.walk(w.root):
                    with contextlib.suppress(OSError):
                        os.chmod(d, 0o700)
                shutil.rmtree(w.root, ignore_errors=True)
                if not os.path.exists(w.root):
                    break
                time.sleep(0.1)


def drive(coro, seconds):
    """Run it; what it leaves behind (after a violation) is abandoned if it can't be cancelled."""
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(asyncio.wait_for(coro, seconds))
    finally:
        for _ in range(20):
            tasks = asyncio.all_tasks(loop)
            if not tasks:
                break
            for t in tasks:
                t._log_destroy_pending = False
                t.cancel()
            loop.run_until_complete(asyncio.wait(tasks, timeout=0.2))
        loop.run_until_complete(loop.shutdown_asyncgens())
        loop.close()


async def until(cond, seconds=20):
    end = time.monotonic() + seconds
    while True:
        x = cond()
        if x or time.monotonic() > end:
            return x
        await asyncio.sleep(0.02)


class Server:
    def __init__(self, w, cfg):
        self.w, self.cfg = w, cfg

    async def start(self):
        from dask_gateway_server.backends.jobqueue.pbs import PBSBackend
        from dask_gateway_server.backends.jobqueue.slurm import SlurmBackend
        from traitlets.config import Config

        c = Config()
        cls = {"pbs": PBSBackend, "slurm": SlurmBackend}[self.w.kind]
        b = c.DBBackendBase
        b.db_url = f"sqlite:///{self.w.root}/gw.sqlite"
        b.db_encrypt_keys = [base64.urlsafe_b64encode(bytes(32))]
        b.cluster_status_period = b.worker_status_period = 0.25
        b.check_timeouts_period = 0.5
        b.backoff_base_delay, b.backoff_max_delay = 0.05, 0.2
        b.stop_clusters_on_shutdown = False
        b.cluster_start_timeout = b.worker_start_timeout = 300
        b.cluster_heartbeat_period, b.cluster_heartbeat_timeout = 300, 3000
        b.parallelism = 4
        b.api_url = "http://gateway.example:8000/api"
        c.DaskGateway.address = "127.0.0.1:0"
        j = c[cls.__name__]
        submit, cancel, status = (os.path.join(self.w.bin, n) for n in self.w.names)
        j.submit_command, j.cancel_command, j.status_command = submit, cancel, status
        j.dask_gateway_jobqueue_launcher = self.w.launcher
        if self.w.kind == "pbs":
            j.gateway_hostname = "gwhost"
        kc = c[cls.__name__.replace("Backend", "ClusterConfig")]
        kc.staging_directory = self.w.template
        for k, v in self.cfg.items():
            setattr(kc, k, v)
        self.gw = await gw.build(cls, c)

    async def stop(self):
        await asyncio.wait_for(self.gw.backend.cleanup(), 60)
        await self.gw.authenticator.cleanup()

    async def api(self, method, path, headers, js=None):
        return await gw.request(self.gw.app, method, path, headers, js=js)

    async def report(self, user, name):
        return (await self.api("GET", f"/api/v1/clusters/{name}", gw.basic(user))).json


def memory(text):
    m = re.fullmatch(r"(\d+)(B|kB|KB|MB|GB|K|M|G|)", text)
    if not m:
        return None
    return int(m[1]) * {"": 1 << 20, "B": 1, "k": 1 << 10, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30}[m[2][:1] if m[2] != "B" else "B"]


def judge_submission(w, rec, kind, user, name, cfg, token, secrets):
    """One submission: its arguments, environment and files."""
    argv, env = rec["argv"], rec["env"]
    worker = kind == "worker"
    what = f"the {kind} job of {name}"
    text = " ".join(argv)
    for n, s in secrets.items():
        if s in text or s in rec.get("stdin", ""):
            w.bad("secret", f"{what} is submitted with the {n} in its arguments or script")
    want = {"DASK_GATEWAY_CLUSTER_NAME": name, "DASK_GATEWAY_API_TOKEN": token, "DASK_GATEWAY_API_URL": "http://gateway.example:8000/api", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True"}
    want.update(cfg.get("environment", {}))
    for k, v in want.items():
        if env.get(k) != v:
            w.bad("environment", f"{what} is submitted with {k}={env.get(k)!r}, not {v!r}")
    staging = os.path.join(w.stage[user], name)
    stagein = cfg.get("use_stagein", True)
    prefix = "" if w.kind == "pbs" and stagein else staging + "/"
    role = "WORKER" if worker else "SCHEDULER"
    for k, f in (("CA_FILE", "dask.crt"), (role + "__CERT", "dask.crt"), (role + "__KEY", "dask.pem")):
        if env.get("DASK_DISTRIBUTED__COMM__TLS__" + k) != prefix + f:
            w.bad("environment", f"{what} finds its {k} at {env.get('DASK_DISTRIBUTED__COMM__TLS__' + k)}, not at {prefix + f}")
    needed = set(want) | {"DASK_DISTRIBUTED__COMM__TLS__" + k for k in ("CA_FILE", role + "__CERT", role + "__KEY")}
    opt = {}
    if w.kind == "slurm":
        for a in argv:
            k, _, v = a.partition("=")
            opt[k] = v
        exported = set(opt.get("--export", "").split(","))
        script = rec.get("stdin", "")
        expect = {"--partition": cfg.get("partition"), "--qos": cfg.get("qos"), "--account": cfg.get("account"), "--chdir": staging}
        cores, mem = opt.get("--cpus-per-task"), opt.get("--mem")
        if not script.startswith("#!"):
            w.bad("script", f"{what} is submitted with the script {script[:100]!r}")
    else:
        it = iter(argv)
        for a in it:
            if a == "--":
                break
            opt[a] = next(it) if not a.startswith("-W") else True
        rest = list(it)
        exported = set(opt.get("-v", "").split(","))
        expect = {"-q": cfg.get("queue"), "-A": cfg.get("account"), "-P": cfg.get("project")}
        if len(rest) != 3 or rest[:2] != ["/bin/sh", "-c"]:
            w.bad("script", f"{what} is submitted to run {rest}")
        script = rest[-1] if rest else ""
        m = re.fullmatch(r"select=1:ncpus=(\d+):mem=(\w+)", opt.get("-l", ""))
        cores, mem = (m[1], m[2]) if m else (None, None)
        has = f"-Wstagein=.@gwhost:{staging}/*" in argv
        if has != bool(stagein):
            w.bad("staging", f"{what} is submitted with {[a for a in argv if 'stagein' in a]}, use_stagein is {stagein}")
    if not needed <= exported:
        w.bad("environment", f"{what} is not given {sorted(needed - exported)}")
    for k, v in expect.items():
        if (opt.get(k) or None) != (v or None):
            w.bad("arguments", f"{what} is submitted with {k} {opt.get(k)!r}, not {v!r}")
    wc, wm = cfg[("worker" if worker else "scheduler") + "_cores"], cfg[("worker" if worker else "scheduler") + "_memory"]
    got = memory(mem or "")
    if cores != str(wc) or got is None or not wm <= got <= wm * 1.1 + 1024:
        w.bad("resources", f"{what} is submitted with {cores} cores and {mem}, configured are {wc} and {wm} bytes")
    setup = cfg.get(("worker" if worker else "scheduler") + "_setup")
    lines = script.splitlines()
    if setup and setup not in lines[:-1]:
        w.bad("script", f"{what} runs without its set-up: {script[:200]!r}")
    last = lines[-1] if lines else ""
    if worker and "tls://10.0.0.1:8786" not in last or not worker and "dask_gateway.scheduler_preload" not in last:
        w.bad("script", f"{what} runs {last!r}")
    have = rec["staging"].get(staging)
    if have is None:
        w.bad("staging", f"{what} is submitted without its staging directory {staging}; there are {sorted(rec['staging'])}")
    else:
        mode, files = have
        if mode != 0o700:
            w.bad("staging", f"the staging directory of {name} has mode {mode:o}")
        if set(files) != {"dask.crt", "dask.pem"} or "PRIVATE KEY" not in files["dask.pem"][1] or "CERTIFICATE" not in files["dask.crt"][1]:
            w.bad("staging", f"the staging directory of {name} holds {[(k, v[1][:30]) for k, v in files.items()]}")
    w.ck.count("submissions judged")
    return have


async def run(ck, i, r, w):
    cfg = {"scheduler_cores": r.choice([1, 2]), "worker_cores": r.choice([1, 3]), "scheduler_memory": r.choice([2 << 30, 5 * 10 ** 8, 10 << 20]), "worker_memory": r.choice([4 << 30, 123456789, 64 << 30, 15 << 30, 20000]),
           "cluster_max_workers": 6}
    if r.random() < 0.5:
        cfg["environment"] = {"MY_VAR": "my value"}
    if r.random() < 0.5:
        cfg["worker_setup"], cfg["scheduler_setup"] = "module load worker", "module load scheduler"
    for k in {"pbs": ("queue", "account", "project"), "slurm": ("partition", "qos", "account")}[w.kind]:
        if r.random() < 0.4:
            cfg[k] = f"the-{k}"
    if w.kind == "pbs" and r.random() < 0.4:
        cfg["use_stagein"] = False
    submit, cancel, status = w.names
    s = Server(w, cfg)
    await s.start()
    clusters = {}
    known = {}  # job -> (cluster, kind)
    seen = 0
    refused = {}  # submissions that failed, by cluster

    def settle():
        """Judge what was submitted since."""
        nonlocal seen
        log = w.log()
        for rec in log[seen:]:
            if rec["uid"] != os.geteuid():
                w.bad("user", f"{rec['cmd']} runs as {rec['uid']}")
            if rec["cmd"] == submit:
                name = rec["env"].get("DASK_GATEWAY_CLUSTER_NAME")
                kind = "scheduler" if "DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__KEY" in rec["env"] else "worker"
                rec["kind"], rec["name"] = kind, name
                if name not in clusters:
                    w.bad("environment", f"a job is submitted for the cluster {name}")
                    continue
                c = clusters[name]
                if c["token"] is None:
                    c["token"] = rec["env"].get("DASK_GATEWAY_API_TOKEN")
                if rec["env"].get("HOME") and rec["env"]["HOME"] != w.homes[c["user"]]:
                    w.bad("user", "a job is submitted with the home of another user")
                have = judge_submission(w, rec, kind, c["user"], name, cfg, c["token"], {"token": c["token"] or "?"})
                if have and kind == "scheduler":
                    c["files"] = have[1]
                if rec.get("job"):
                    known[rec["job"]] = (name, kind)
                    c["jobs"].append((rec["job"], kind))
                    if kind == "scheduler" and len([1 for _, k in c["jobs"] if k == kind]) > 1:
                        w.bad("submitted-twice", f"the scheduler of {name} is submitted twice: {c['jobs']}")
                else:
                    refused[name] = rec
            elif rec["cmd"] == status:
                if rec.get("unknown"):
                    w.bad("job-id", f"the state of {rec['unknown']} is asked, the jobs are {sorted(known)}")
                ck.count("status queries")
            elif rec["cmd"] == cancel:
                if not rec["known"] or len(rec["known"]) != len(rec["argv"]):
                    w.bad("job-id", f"{rec['argv']} is cancelled, the jobs are {sorted(known)}")
                ck.count("cancellations")
        seen = len(log)
        for cmd, env in w.commands:
            for c in clusters.values():
                if c["token"] and c["token"] in " ".join(cmd):
                    w.bad("secret", f"a command is run with a token in its arguments: {cmd}")
            if any("PRIVATE KEY" in a for a in cmd):
                w.bad("secret", "a command is run with a key in its arguments")
        w.check()
        return log

    def calls(cmd):
        return [x for x in w.log() if x["cmd"] == cmd]

    def faults(**kw):
        with w.change() as st:
            st["faults"] = {dict(submit=submit, cancel=cancel, status=status)[k]: v for k, v in kw.items()}

    async def beat(c, count, active=(), closed=()):
        resp = await s.api("POST", f"/api/v1/clusters/{c['name']}/heartbeat", gw.token(c["token"]),
                           js={"scheduler_address": "tls://10.0.0.1:8786", "dashboard_address": "http://10.0.0.1:8787", "api_address": "http://10.0.0.1:8788", "count": count,
                               "active_workers": list(active), "closing_workers": [], "closed_workers": list(closed)})
        if resp.status != 200:
            w.bad("token", f"a heartbeat with the token given to the job is answered {resp.status}")

    for _ in range(r.choice([1, 1, 2, 3])):
        user = r.choice(USERS)
        trouble = r.choice([None, None, None, "submit", "home", "no-command"])
        if trouble == "submit":
            faults(submit=1)
        elif trouble == "home" and not os.path.isdir(w.stage[user]) and "stage" not in w.template:
            os.chmod(w.homes[user], 0o500)
        elif trouble == "no-command":
            os.rename(os.path.join(w.bin, submit), os.path.join(w.bin, "away"))
        nsub = len(calls(submit))
        nsudo = len(w.sudo)
        resp = await s.api("POST", "/api/v1/clusters/", gw.basic(user), js={"cluster_options": {}})
        if resp.status != 201:
            raise core.Inconclusive(f"no cluster is created: {resp}")
        name = resp.json["name"]
        c = clusters[name] = {"name": name, "user": user, "jobs": [], "token": None, "files": None, "state": "starting"}

        rep = None
        end = time.monotonic() + 30
        while time.monotonic() < end:
            rep = await s.report(user, name)
            if rep["status"] in ("FAILED", "STOPPED") or any(x["env"].get("DASK_GATEWAY_CLUSTER_NAME") == name and x.get("job") for x in calls(submit)[nsub:]):
                break
            await asyncio.sleep(0.03)
        settle()
        if set(w.sudo[nsudo:]) - {user, *[clusters[x]["user"] for x in clusters]}:
            w.bad("user", f"the job of {user} is submitted by {set(w.sudo[nsudo:])}")
        staging = os.path.join(w.stage[user], name)
        failed = rep["status"] == "FAILED"
        if w.sudo[nsudo:nsudo + 1] != [user]:
            w.bad("user", f"the job of {user} is submitted by {w.sudo[nsudo:]}")
        if trouble in ("submit", "no-command") or trouble == "home" and not os.access(w.homes[user], os.W_OK, effective_ids=True):
            if not failed and rep["status"] != "STOPPED":
                w.bad("no-failure", f"a cluster whose submission failed ({trouble}) is {rep['status']}")
            if os.path.exists(staging):
                w.bad("staging-left", f"the staging directory of a cluster whose submission failed ({trouble}) is left, with {os.listdir(staging)}")
            c["state"] = "failed"
            ck.count("failed submissions judged")
        elif failed or not c["jobs"]:
            w.bad("not-submitted", f"a cluster whose submission succeeds is {rep['status']}, its jobs are {c['jobs']}")
        if trouble == "submit":
            faults()
        elif trouble == "home":
            os.chmod(w.homes[user], 0o700)
        elif trouble == "no-command":
            os.rename(os.path.join(w.bin, "away"), os.path.join(w.bin, submit))
        w.check()
    live = [c for c in clusters.values() if c["state"] == "starting"]
    # what jobs do before they report
    for c in live:
        job = c["jobs"][0][0]
        x = r.random()
        if x < 0.3:
            # queries fail, nothing is killed
            faults(status=1)
            n = len(calls(status))
            await until(lambda: len(calls(status)) >= n + 2, 5)
            rep = await s.report(c["user"], c["name"])
            if rep["status"] != "PENDING" or w.jobs()[job] != "running":
                w.bad("killed-by-query", f"after failed queries the cluster is {rep['status']}, its job {w.jobs()[job]}")
            faults()
            ck.count("failed queries judged")
        n = len(calls(status))
        if x < 0.6:
            if not await until(lambda: len([q for q in calls(status)[n:] if q["how"] == "ok" and job in q.get("ids", ())]) >= 2, 10):
                w.bad("not-asked", f"the state of job {job} of a pending cluster is not asked; asked is {[q.get('ids') for q in calls(status)[n:]][-2:]}")
            rep = await s.report(c["user"], c["name"])
            if rep["status"] != "PENDING":
                w.bad("killed-alive", f"the job of a cluster is alive, and the cluster is {rep['status']}")
            ck.count("live jobs judged")
        else:
            await asyncio.sleep(r.choice([0, 0.2]))
        settle()
        if r.random() < 0.2:
            with w.change() as st:
                st["jobs"][job] = "ended"
                st["forget"] = r.random() < 0.5
            end = time.monotonic() + 15
            while time.monotonic() < end:
                rep = await s.report(c["user"], c["name"])
                if rep["status"] == "FAILED":
                    break
                await asyncio.sleep(0.05)
            if rep["status"] != "FAILED":
                w.bad("dead-unnoticed", f"the job of a cluster has ended, and the cluster is {rep['status']} after 15 s")
            c["state"] = "dead"
            ck.count("dead jobs judged")
    if live and r.random() < 0.3:
        await s.stop()
        s = Server(w, cfg)
        await s.start()
        ck.count("restarts")
    for c in live:
        if c["state"] != "starting":
            continue
        if r.random() < 0.25:
            continue
        k = r.choice([1, 2, 3])
        sub = r.random() < 0.2
        if sub:
            faults(submit=0.5)
            c["refused"] = True
        await beat(c, k)
        end = time.monotonic() + 10
        while True:
            rep = await s.report(c["user"], c["name"])
            if rep["status"] != "PENDING" or time.monotonic() > end:
                break
            await asyncio.sleep(0.02)
        if rep["status"] != "RUNNING":
            w.bad("not-running", f"after its heartbeat a cluster is {rep['status']}")
        elif c["files"] and (rep["tls_key"], rep["tls_cert"]) != (c["files"]["dask.pem"][1], c["files"]["dask.crt"][1]):
            w.bad("staging", "the staged credentials are not those of the cluster")
        c["state"] = "running"
        if not await until(lambda: settle() and len([1 for _, x in c["jobs"] if x == "worker"]) >= k, 15) and not sub:
            w.bad("not-submitted", f"{k} workers are requested, submitted are {c['jobs']}")
        if sub:
            faults()
        await asyncio.sleep(0.2)
        settle()
        n = len([1 for _, x in c["jobs"] if x == "worker"])
        if n > k:
            w.bad("submitted-twice", f"{k} workers are requested, submitted are {n}")
        if r.random() < 0.3 and n and not sub:
            # a worker's job ends before it reports: another one takes its place
            job = [j for j, x in c["jobs"] if x == "worker"][-1]
            with w.change() as st:
                st["jobs"][job] = "ended"
            if not await until(lambda: settle() and len([1 for _, x in c["jobs"] if x == "worker"]) > n, 15):
                w.bad("dead-unnoticed", "a worker's job has ended, and none takes its place")
            ck.count("dead jobs judged")
    if live and r.random() < 0.2:
        await s.stop()
        s = Server(w, cfg)
        await s.start()
        ck.count("restarts")
    w.check()
    for c in clusters.values():
        staging = os.path.join(w.stage[c["user"]], c["name"])
        trouble = r.choice([None, None, None, "gone", "cancel", "stuck", "ended"])
        rep = await s.report(c["user"], c["name"])
        if rep["status"] in ("STOPPING", "FAILED") and c["state"] in ("starting", "running"):
            if not c.get("refused"):
                w.bad("killed-alive", f"the job of a cluster is alive, and the cluster is {rep['status']}")
            c["state"] = "dead"  # of workers that could not be submitted
        if c["state"] == "failed":
            trouble = None
        stuck = False
        if c["state"] == "dead":
            pass
        elif trouble == "gone":
            shutil.rmtree(staging, ignore_errors=True)
        elif trouble == "cancel":
            faults(cancel=1)
        elif trouble == "stuck":
            os.chmod(staging, 0o500)
            stuck = True
        elif trouble == "ended":
            with w.change() as st:
                for j, _ in c["jobs"]:
                    if r.random() < 0.7:
                        st["jobs"][j] = "ended"
        resp = await s.api("DELETE", f"/api/v1/clusters/{c['name']}", gw.basic(c["user"]))
        if resp.status not in (200, 204):
            w.bad("delete", f"stopping a cluster is answered {resp.status}")
        end = time.monotonic() + 30
        while time.monotonic() < end:
            rep = await s.report(c["user"], c["name"])
            if rep["status"] in ("STOPPED", "FAILED"):
                break
            await asyncio.sleep(0.05)
        else:
            w.bad("not-stopped", f"a cluster is {rep['status']} 30 s after it was to be stopped")
        # the last of its jobs may just be being cancelled
        def pending():
            cancelled = {a for x in calls(cancel) for a in x["argv"]}
            return [j for j, _ in c["jobs"] if j not in cancelled]
        await until(lambda: not pending(), 5)
        settle()
        if pending():
            w.bad("not-cancelled", f"of the jobs {c['jobs']} of a stopped cluster {pending()} are not cancelled ({trouble})")
        table = w.jobs()
        if trouble != "cancel" and any(table[j] == "running" for j, _ in c["jobs"]):
            w.bad("not-cancelled", f"jobs of a stopped cluster run on: {[j for j, _ in c['jobs'] if table[j] == 'running']}")
        if stuck:
            os.chmod(staging, 0o700)
        elif not await until(lambda: not os.path.exists(staging), 5):
            w.bad("staging-left", f"the staging directory of a stopped cluster ({c['state']}, {trouble}) is left, with {os.listdir(staging)}")
        if trouble == "cancel":
            faults()
        ck.count("stops judged")
        w.check()
    await s.stop()
    log = settle()
    ck.count("commands", len(log))
    if r.random() < 0.4:
        await launcher(ck, r, w)
    w.check()
    ck.case([(x["cmd"], x["how"], x["code"], x.get("ids") or x["argv"][:1]) for x in log], nontrivial=bool(known),
            sample={"kind": w.kind, "commands": [x["cmd"] for x in log][:12]} if i < 4 else None)


async def launcher(ck, r, w):
    """The launcher by itself, with what a user could make of its input or surroundings."""
    submit = os.path.join(w.bin, w.names[0])
    home = w.homes["alice"]
    mine = os.path.join(home, "precious")
    os.mkdir(mine)
    with open(os.path.join(mine, "thesis"), "w") as f:
        f.write("x")
    base = {"action": "start", "cmd": [submit, "x"], "env": {}, "stdin": "#!/bin/sh\n", "files": {"dask.pem": "k", "dask.crt": "c"}}
    for what, msg in (
        ("an existing staging directory", dict(base, staging_dir=mine)),
        ("no JSON", "hello"),
        ("an unknown action", dict(base, action="dance")),
        ("a staging directory that cannot be made", dict(base, staging_dir="/proc/x/y")),
    ):
        proc = await asyncio.create_subprocess_exec(w.launcher, env={"HOME": home}, stdin=-1, stdout=-1, stderr=-1)
        out, err = await proc.communicate((msg if isinstance(msg, str) else json.dumps(msg)).encode())
        try:
            ok = json.loads(out)["ok"]
        except Exception:
            ok = None
        if proc.returncode == 0 and ok is not False:
            w.bad("launcher", f"given {what} the launcher answers {out[:200]!r} {err[-200:]!r}")
        if os.listdir(mine) != ["thesis"]:
            w.bad("launcher", f"given {what} the launcher changes the directory: {os.listdir(mine)}")
    ck.count("launcher refusals judged")


def prepare(ck):
    logging.disable(logging.CRITICAL)
    gw.cheap_keys()
    sys.executable  # noqa: B018


def body(ck):
    prepare(ck)
    import dask_gateway_server.backends.jobqueue.pbs
    import dask_gateway_server.backends.jobqueue.slurm  # noqa: F401  (before forking)
    import encodings.idna  # noqa: F401

    ck.pool(lambda i: case(ck, i), ck.budget(40, 900))
    ck.need(**{"submissions judged": 60, "failed submissions judged": 10, "status queries": 50, "failed queries judged": 5, "live jobs judged": 10, "dead jobs judged": 5, "cancellations": 30,
               "stops judged": 20, "restarts": 3, "launcher refusals judged": 5})


if __name__ == "__main__":
    core.main("C26", RULE, body, assumptions=[
        "the stand-ins answer as sudo and the batch systems do; states other than those of running, waiting, held, completing and configuring jobs that have not ended are not judged",
        "a submission whose answer is lost cannot be cancelled",
    ])
