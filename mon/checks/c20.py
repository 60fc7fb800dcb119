"""C20: the proxy process is kept running, configured right, stopped with the gateway.

Two kinds of execution.  (1) In virtual time, with processes that are stand-ins inside
the test: every death, start failure and stop is timed exactly.  (2) Whole gateway
processes (the command line program with a configuration file), with the real proxy
binary or a stand-in program that records how it is run; proxies and gateways are
killed, stopped and fail to start, and what becomes of the processes is watched.
"""
import asyncio
import json
import os
import re
import signal
import ssl
import subprocess
import sys
import tempfile
import time

from mon import core, goproxy

RULE = (
    "stand-in processes in virtual time that die, fail to start and are stopped by plan; and whole gateway processes with the real or a recording proxy, "
    "killed and stopped in every way; distinct by the plan of faults"
)


# -- (1) in virtual time ----------------------------------------------------------
class FakeStdin:
    closed = False

    def close(self):
        self.closed = True


class FakeProc:
    n = 0

    def __init__(self, world, args, env, kw):
        FakeProc.n += 1
        self.pid = 40_000_000 + FakeProc.n  # never a real one
        self.world, self.args, self.env, self.kw = world, args, env, kw
        self.returncode = None
        self.stdin = FakeStdin() if kw.get("stdin") == subprocess.PIPE else None
        self.stdout = self.stderr = None
        self.born = world.now()
        self.died = None
        self.signals = []

    def die(self, code):
        if self.returncode is None:
            self.returncode = code
            self.died = self.world.now()
            self.world.hist.append((self.died, "died", self.pid, code))

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            raise subprocess.TimeoutExpired(self.args, timeout or 0)
        return self.returncode

    def send_signal(self, sig):
        if self.returncode is None:
            self.signals.append(sig)
            self.world.hist.append((self.world.now(), "signal", self.pid, int(sig)))
            self.world.loop.call_later(self.world.r.choice([0, 0.3]), self.die, -int(sig))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class Plan:
    def __init__(self, ck, r, loop):
        self.ck, self.r, self.loop = ck, r, loop
        self.procs, self.hist, self.attempts = [], [], []
        self.failing = lambda: False
        self.lifetime = lambda: None

    def now(self):
        return self.loop.time()

    def popen(self, args, *a, env=None, **kw):
        t = self.now()
        self.attempts.append(t)
        if self.failing():
            self.hist.append((t, "start fails"))
            self.ck.count("failed_starts")
            raise self.r.choice([FileNotFoundError(2, "No such file"), PermissionError(13, "Permission denied"), OSError(12, "Cannot allocate memory"), BlockingIOError(11, "Resource temporarily unavailable")])
        alive = [p for p in self.procs if p.returncode is None]
        p = FakeProc(self, list(args), env, kw)
        self.procs.append(p)
        self.hist.append((t, "started", p.pid))
        if alive:
            self.both = (alive[0].pid, p.pid)
        life = self.lifetime()
        if life is not None:
            self.loop.call_later(life, p.die, self.r.choice([0, 1, 2, -9, -11, 66]))
        return p

    both = None


def flags(args):
    """The flags given to the proxy, as Go's flag package reads them"""
    out, i = {}, 1
    while i < len(args):
        name = args[i].lstrip("-")
        if "=" in name:
            name, v = name.split("=", 1)
            out[name] = True if name == "is-child-process" else v
        elif name == "is-child-process":
            out[name] = True
        else:
            i += 1
            out[name] = args[i]
        i += 1
    return out


def random_config(r):
    cfg = {}
    port = lambda: r.randrange(1025, 60000)
    host = lambda: r.choice(["", "127.0.0.1", "0.0.0.0", "some.host"])
    if r.random() < 0.7:
        cfg["address"] = f"{host()}:{port()}"
    if r.random() < 0.6:
        cfg["tcp_address"] = f"{host()}:{port()}"
    if r.random() < 0.5:
        cfg["log_level"] = r.choice(["error", "warn", "info", "debug", "WARN", "Debug"])
    if r.random() < 0.4:
        cfg["tls_cert"], cfg["tls_key"] = "/etc/some cert.pem", "/etc/key.pem"
    if r.random() < 0.3:
        cfg["gateway_url"] = r.choice(["http://gw.internal:1234", "https://x:1/pre"])
    if r.random() < 0.3:
        cfg["prefix"] = "/pre"
    if r.random() < 0.7:
        cfg["api_token"] = "%032x" % r.getrandbits(128)
    return cfg


def judge_command(ck, args, env, cfg, gateway_address, token, child, hist):
    f = flags(args)

    def bad(key, detail):
        raise core.Violation(key, f"{detail}; configured {cfg}, command {args[1:]}", hist)

    want = {"address": cfg.get("address", ":8000")}
    want["tcp-address"] = cfg.get("tcp_address", want["address"])
    want["api-url"] = cfg.get("gateway_url", f"http://{gateway_address}") + "/api/v1/routes"
    want["log-level"] = cfg.get("log_level", "warn").lower()
    want["tls-cert"], want["tls-key"] = cfg.get("tls_cert", ""), cfg.get("tls_key", "")
    got = {
        "address": f.get("address", ":8000"), "api-url": f.get("api-url"), "log-level": f.get("log-level", "INFO").lower(),
        "tls-cert": f.get("tls-cert", ""), "tls-key": f.get("tls-key", ""),
    }
    got["tcp-address"] = f.get("tcp-address") or got["address"]
    for k in want:
        if got[k] != want[k]:
            bad("wrong-argument", f"the proxy is given {k} {got[k]!r}, must be {want[k]!r}")
    if bool(f.get("is-child-process")) != child:
        bad("child-flag", f"is-child-process is {f.get('is-child-process')}")
    given = (env or {}).get("DASK_GATEWAY_PROXY_TOKEN")
    if not given or given != token:
        bad("token", f"the proxy is given the token {given!r}, the gateway's is {token!r}")
    if any(given in x for x in args):
        bad("token-on-command-line", "the token is on the command line")
    ck.count("commands_judged")


def plan_case(ck, key):
    from aiohttp import web
    from traitlets.config import Config

    from dask_gateway_server.proxy import core as proxycore
    from mon import vloop

    r = ck.rng(*key)
    real = subprocess.Popen

    async def main(loop):
        w = Plan(ck, r, loop)
        cfg = random_config(r)
        period = r.choice([0.1, 1.0, 5.0, 30.0, 100.0])
        external = r.random() < 0.15
        c = Config()
        for k, v in cfg.items():
            setattr(c.Proxy, k, v)
        c.Proxy.proxy_status_period = period
        c.Proxy.externally_managed = external
        subprocess.Popen = w.popen
        w.hist.append((cfg, period, external))
        one_sided = not external and r.random() < 0.1
        if one_sided:
            c.Proxy.tls_cert, c.Proxy.tls_key = r.choice([("/x", ""), ("", "/x")])
        if "api_token" not in cfg and r.random() < 0.5:
            os.environ["DASK_GATEWAY_PROXY_TOKEN"] = cfg["api_token"] = "fromenv-%s-%s" % key[1:]
        proxy = proxycore.Proxy(config=c, gateway_address="127.0.0.1:12345")
        app = web.Application()
        if one_sided:
            try:
                await proxy.setup(app)
            except ValueError:
                ck.count("one_sided_refused")
            else:
                raise core.Violation("one-sided-tls", "a certificate without key (or reverse) is accepted", w.hist)
            if w.procs:
                raise core.Violation("one-sided-started", "a proxy was started with a certificate without key", w.hist)
            return
        if r.random() < 0.1 and not external:
            # The very first start fails: that may be refused, or be retried
            w.failing = lambda: True
            try:
                await proxy.setup(app)
            except OSError:
                ck.count("first_start_refused")
                await proxy.cleanup()
                return
            w.failing = lambda: False
        else:
            await proxy.setup(app)
        app.freeze()
        await app.startup()
        t0 = loop.time()
        end = t0 + r.choice([50, 300, 2000])
        # Windows in which nothing can be started
        windows = []
        t = t0
        while t < end:
            t += r.choice([1, 10, 60, 300]) * r.random()
            n = r.choice([0.1, 1, 10, 60, 300]) * r.random()
            windows.append((t, t + n))
            t += n
        if r.random() < 0.4:
            windows = []
        w.failing = lambda: any(a <= w.now() < b for a, b in windows)
        style = r.choice(["immortal", "weak", "mixed", "burst"])
        w.lifetime = lambda: {"immortal": None, "weak": r.choice([0, 0.01, 0.3]), "mixed": r.choice([None, 0.5, 7, 100]), "burst": r.choice([0, 0, 200])}[style]
        if w.procs and style != "immortal":
            loop.call_later(r.uniform(0, 10), w.procs[0].die, 1)
        await asyncio.sleep(end - loop.time())
        if r.random() < 0.5:
            # A quiet end
            w.lifetime = lambda: None
            windows.clear()
            await asyncio.sleep(max(period, 15) + 20)
            if w.procs and w.procs[-1].died is not None and loop.time() - w.procs[-1].died > max(period, 15) + 1:
                raise core.Violation("not-running", f"no proxy is running {max(period, 15) + 20} s after all failures", w.hist[-60:])
        # It stops
        stop = loop.time()
        w.hist.append((stop, "stopping"))
        await app.shutdown()
        await asyncio.sleep(r.choice([0, 0, 40]))
        await app.cleanup()
        await proxy.cleanup()
        down = loop.time()
        await asyncio.sleep(200)
        if external:
            if w.attempts:
                raise core.Violation("external-started", "a proxy was started although it is externally managed", w.hist)
            ck.count("external")
            ck.case(("external", repr(cfg)), True)
            return
        judge(ck, w, period, stop, down)
        for p in w.procs:
            judge_command(ck, p.args, p.env, cfg, "127.0.0.1:12345", proxy.api_token, True, w.hist[:3])
        ck.count("starts", len(w.procs))
        ck.case((repr(cfg), period, style, len(w.procs), len(w.attempts)), len(w.procs) > 1, sample=w.hist[:8])

    env = dict(os.environ)
    try:
        vloop.run(main, start=r.uniform(1e3, 1e5))
    finally:
        subprocess.Popen = real
        os.environ.clear()
        os.environ.update(env)


def judge(ck, w, period, stop, down):
    def bad(key, detail):
        raise core.Violation(key, detail, w.hist[:1] + [h for h in w.hist[1:] if h[0] < down + 250][-80:])

    if not w.procs:
        bad("never-started", "no proxy was started")
    if w.both:
        bad("two-proxies", f"proxy {w.both[1]} was started while {w.both[0]} was running")
    for p in w.procs:
        if p.stdin is None:
            bad("no-stdin", "the proxy's standard input is not a pipe, it cannot notice that the gateway dies")
        if p.stdin.closed and p.died is None:
            bad("stdin-closed", "the standard input of a running proxy was closed without a signal")
        if p.returncode is None and not p.signals:
            bad("not-stopped", f"process {p.pid} is left running when the gateway stops")
        if p.signals and p.died is not None and p.died < stop:
            bad("killed", f"process {p.pid} was sent a signal before the gateway stopped")
    late = [t for t in w.attempts if t > down]
    if late:
        bad("started-after-stop", f"a proxy was started {late[0] - down:.1f} s after the gateway stopped")
    # After each death the next attempt comes within the period; while starts fail they go on being tried
    births = {p.born: p for p in w.procs}
    for k, p in enumerate(w.procs):
        if p.died is None or p.died >= stop:
            continue
        nxt = w.procs[k + 1] if k + 1 < len(w.procs) else None
        tries = [t for t in w.attempts if t >= p.died and (nxt is None or t <= nxt.born)]
        if p.died == p.born and p.born in tries:
            tries.remove(p.born)
        first = tries[0] if tries else stop
        # (the one start that is due may fall on the moment of the stop)
        if first > p.died + period + 0.01:
            bad("not-restarted", f"process {p.pid} died at {p.died:.2f}, the period is {period} and the next start was tried {'at %.2f' % first if tries else 'not at all'}")
        ck.count("restarts_timed")
        for a, b in zip(tries, tries[1:] + ([stop] if nxt is None else [])):
            if b - a > max(period, 15) + 0.01:
                bad("not-retried", f"a failed start at {a:.2f} was retried {b - a:.1f} s later")
            ck.count("retries_timed")
    ck.count("births", len(births))


# -- (2) whole processes -----------------------------------------------------------
STANDIN = """
import json, os, signal, sys, time
d = sys.argv[1]
me = os.path.join(d, "proc-%d" % os.getpid())
def note(**kw):
    with open(me, "a") as f:
        f.write(json.dumps(dict(kw, t=time.monotonic())) + "\\n")
how = open(os.path.join(d, "how")).read().split()
def term(*a):
    note(ev="term")
    if how[0] != "stubborn":
        os._exit(0)
signal.signal(signal.SIGTERM, term)
note(ev="start", ppid=os.getppid(), args=sys.argv[2:], token=os.environ.get("DASK_GATEWAY_PROXY_TOKEN"))
if how[0] == "exit":
    time.sleep(float(how[1]))
    note(ev="exit")
    os._exit(int(how[2]))
while True:
    x = os.read(0, 10)
    if not x:
        note(ev="eof")
        os._exit(0)
"""

CONFIG = """
import os, subprocess
from dask_gateway_server.backends.db_base import DBBackendBase
exe = {exe!r}
real = subprocess.Popen.__init__
def popen(self, args, *a, **kw):
    if isinstance(args, (list, tuple)) and os.path.basename(args[0]) == "dask-gateway-proxy":
        args = list(exe) + list(args[1:])
    return real(self, args, *a, **kw)
subprocess.Popen.__init__ = popen
class Nothing(DBBackendBase):
    async def do_setup(self):
        if {fail!r} == "setup":
            raise ValueError("the backend does not start")
    async def do_cleanup(self):
        if {fail!r} == "cleanup":
            raise ValueError("the backend does not stop")
c.DaskGateway.backend_class = Nothing
c.DaskGateway.address = {address!r}
c.DaskGateway.authenticator_class = "dask_gateway_server.auth.SimpleAuthenticator"
c.DaskGateway.log_level = "INFO"
c.Proxy.proxy_status_period = {period!r}
for k, v in {proxy!r}.items():
    setattr(c.Proxy, k, v)
"""


class Gateway:
    """A gateway process, run by its command line program"""

    def __init__(self, d, exe, period, proxy, fail=None):
        self.addr = goproxy.address()
        self.cfg = os.path.join(d, "dask_gateway_config.py")
        self.log = self.cfg + ".log"
        self.env = {k: v for k, v in os.environ.items() if k != "DASK_GATEWAY_PROXY_TOKEN"}
        self.proc = None
        with open(self.cfg, "w") as f:
            f.write(CONFIG.format(exe=exe, address="%s:%d" % self.addr, period=period, proxy=proxy, fail=fail))

    def start(self):
        with open(self.log, "ab") as f:
            self.proc = subprocess.Popen([sys.executable, "-m", "dask_gateway_server", "-f", self.cfg], stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=self.env, cwd=os.path.dirname(self.cfg))
        return self

    def output(self):
        with open(self.log) as f:
            return f.read()

    async def up(self, limit=60):
        end = time.monotonic() + limit
        while True:
            try:
                _, wr = await asyncio.open_connection(*self.addr)
                wr.close()
                return self
            except OSError:
                if self.proc.poll() is not None or time.monotonic() > end:
                    raise core.Violation("gateway-down", f"the gateway does not come up: {self.output()[-1500:]}")
                await asyncio.sleep(0.02)

    async def end(self, how):
        self.proc.send_signal({"term": signal.SIGTERM, "int": signal.SIGINT, "kill": signal.SIGKILL, "abort": signal.SIGABRT}[how])
        return await until(lambda: self.proc.poll() is not None, 40)

    def reap(self):
        if self.proc is not None:
            if self.proc.poll() is None:
                self.proc.kill()
            self.proc.wait()


def stat(pid):
    """state, parent"""
    try:
        with open(f"/proc/{pid}/stat") as f:
            rest = f.read().rpartition(")")[2].split()
        return rest[0], int(rest[1])
    except (OSError, IndexError):
        return "gone", 0


def children(pid):
    return [int(x) for x in os.listdir("/proc") if x.isdigit() and stat(x)[1] == pid and stat(x)[0] != "Z"]


def gone(pid):
    return stat(pid)[0] in ("gone", "Z", "X")


def ours(pid, d):
    """Is this a process of our scratch directory?"""
    try:
        with open(f"/proc/{pid}/cmdline", "rb") as f:
            return d.encode() in f.read()
    except OSError:
        return False


def kill_ours(pids, d):
    for pid in pids:
        if ours(pid, d):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


async def until(fn, limit, step=0.02):
    end = time.monotonic() + limit
    while True:
        x = fn()
        if asyncio.iscoroutine(x):
            x = await x
        if x:
            return x
        if time.monotonic() > end:
            return None
        await asyncio.sleep(step)


def notes(d):
    out = {}
    for x in os.listdir(d):
        if x.startswith("proc-"):
            with open(os.path.join(d, x)) as f:
                evs = [json.loads(l) for l in f.read().split("\n")[:-1]]
            if evs:
                out[int(x[5:])] = evs
    return out


SLACK = 6.0  # for a loaded machine


async def standin_history(ck, r, d):
    def behave(x):
        with open(os.path.join(d, "how.new"), "w") as f:
            f.write(x)
        os.rename(os.path.join(d, "how.new"), os.path.join(d, "how"))

    with open(os.path.join(d, "standin.py"), "w") as f:
        f.write(STANDIN)
    launcher = os.path.join(d, "launcher")
    exe = [launcher, "-S", "-E", os.path.join(d, "standin.py"), d]
    os.symlink(sys.executable, launcher)
    behave("run")
    period = r.choice([0.1, 0.4, 1.0])
    cfg = random_config(r)
    cfg.pop("gateway_url", None)
    fail = r.choice(["setup", "cleanup", None, None, None, None])
    gw = Gateway(d, exe, period, cfg, fail)
    if "api_token" not in cfg and r.random() < 0.5:
        gw.env["DASK_GATEWAY_PROXY_TOKEN"] = cfg["api_token"] = "%032x" % r.getrandbits(128)
    hist = [cfg, period, fail]
    seen = set()

    def current():
        new = [(p, evs) for p, evs in notes(d).items() if p not in seen and not gone(p)]
        return new[0] if new else None

    def bad(key, detail):
        raise core.Violation(key, f"{detail}; {gw.output()[-600:]}", hist)

    try:
        gw.start()
        if fail == "setup":
            rc = await until(lambda: gw.proc.poll() is not None, 60)
            if not rc or gw.proc.poll() == 0:
                bad("no-exit", "the gateway whose backend fails to start did not exit with an error")
            if not await until(lambda: all(gone(p) for p in notes(d)), SLACK):
                bad("left-running", "the gateway failed to start and its proxy goes on running")
            ck.count("failed_gateways")
            ck.case(("setup-fails", repr(cfg)), True)
            return
        await gw.up()
        got = await until(current, SLACK)
        if not got:
            bad("not-started", "the gateway is up without a proxy")
        pid, evs = got
        for _ in range(r.choice([1, 3, 5])):
            seen.add(pid)
            start = evs[0]
            judge_command(ck, ["proxy"] + start["args"], {"DASK_GATEWAY_PROXY_TOKEN": start["token"]}, cfg, "%s:%d" % gw.addr, cfg.get("api_token", start["token"]), True, hist)
            x = r.choice(["kill", "kill", "term", "exit", "fail"])
            hist.append(x)
            ck.count("death_" + x)
            if x == "exit":
                # Several that exit at once
                behave(f"exit {r.choice([0, 0.1])} {r.choice([0, 1, 7])}")
                n = len(notes(d))
                os.kill(pid, signal.SIGKILL)
                if not await until(lambda: len(notes(d)) >= n + 3, 3 * period + SLACK):
                    bad("not-restarted", f"a proxy that keeps exiting was started only {len(notes(d)) - n} times in {3 * period + SLACK} s")
                behave("run")
            else:
                if x == "fail":
                    os.unlink(launcher)
                    if r.random() < 0.5:
                        open(launcher, "w").close()
                os.kill(pid, signal.SIGTERM if x == "term" else signal.SIGKILL)
                if x == "fail":
                    await asyncio.sleep(r.choice([0.2, 1.2]))
                    if gw.proc.poll() is not None:
                        bad("gateway-died", "the gateway exited because its proxy cannot be started")
                    os.symlink(sys.executable, launcher + ".new")
                    os.rename(launcher + ".new", launcher)

            def steady():
                got = current()
                return got if got and open(os.path.join(d, "how")).read() == "run" and stat(got[0])[0] == "S" else None

            got = await until(steady, 2 * period + SLACK)
            if not got:
                bad("not-restarted", f"the proxy died ({x}) and was not restarted within {2 * period} + {SLACK} s")
            if x == "exit":
                # One of those that exit may have been seen
                await asyncio.sleep(0.3)
                got = await until(current, 2 * period + SLACK)
                if not got:
                    bad("not-restarted", "no proxy runs once it could")
            pid, evs = got
            running = [p for p in notes(d) if not gone(p)]
            if len(running) > 1:
                bad("two-proxies", f"{len(running)} proxies are running")
            ck.count("restarts_seen")
        how = r.choice(["term", "int", "kill", "kill", "abort"])
        hist.append(how)
        if r.random() < 0.3:
            # The end finds it stubborn, or just dead
            behave("stubborn")
            os.kill(pid, signal.SIGKILL)
            seen.add(pid)
            if r.random() < 0.7 and not await until(current, period + SLACK):
                bad("not-restarted", "the proxy was killed and not restarted")
        if await gw.end(how) is None:
            bad("gateway-hangs", f"the gateway does not stop ({how})")
        await asyncio.sleep(0.1)
        if not await until(lambda: all(gone(p) for p in notes(d)), SLACK):
            bad("left-running", f"the gateway ended ({how}) and its proxy goes on running")
        n = len(notes(d))
        await asyncio.sleep(0.2)
        if len(notes(d)) != n:
            bad("started-after-stop", "a proxy was started after the gateway ended")
        ck.count("end_" + how)
        ck.case((repr(hist),), True, sample=hist)
    finally:
        gw.reap()
        kill_ours(notes(d), d)


CLI = """
import os, sys
def redirect(name):
    real = getattr(os, name)
    setattr(os, name, lambda path, *a: real({link!r} if path.endswith("dask-gateway-proxy") else path, *a))
for name in ("execv", "execve", "execvp", "execvpe"):
    redirect(name)
from dask_gateway_server.app import main
main()
"""


async def real_history(ck, r, d, binary, cert):
    """The real proxy under a real gateway"""
    period = r.choice([0.2, 0.7])
    http, tcp = goproxy.address(), goproxy.address()
    tls = r.random() < 0.4
    cfg = dict(address="%s:%d" % http, log_level=r.choice(["error", "warn", "info", "debug"]), prefix=r.choice(["", "/pre"]))
    if r.random() < 0.6:
        cfg["tcp_address"] = "%s:%d" % tcp
    else:
        tcp = http
    if tls:
        cfg["tls_cert"], cfg["tls_key"] = cert
    mode = r.choice(["managed", "managed", "external", "cli"])
    link = os.path.join(d, "proxy-here")
    os.symlink(binary, link)
    if mode != "managed":
        cfg["api_token"] = "%032x" % r.getrandbits(128)
        cfg["externally_managed"] = True
    gw = Gateway(d, [link], period, cfg)
    hist = [mode, cfg, period]
    ext = None
    ctx = None
    if tls:
        ctx = ssl.create_default_context()
        ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
    pids = set()

    def bad(key, detail):
        raise core.Violation(key, f"{detail}; {gw.output()[-800:]}", hist)

    async def served():
        c = goproxy.Client(http, ssl=ctx)
        try:
            st, _, data = await c.request("GET", cfg["prefix"] + "/api/version", timeout=5)
            return st == 200 and b"version" in data
        except (OSError, asyncio.IncompleteReadError, asyncio.TimeoutError, ValueError, IndexError):
            return False
        finally:
            c.close()

    def proxies():
        found = [p for p in children(gw.proc.pid) if ours(p, d)]
        pids.update(found)
        return found

    async def managed():
        if not await until(served, SLACK + 10):
            bad("not-served", "the gateway is not reached through its proxy")
        for _ in range(r.choice([1, 2, 4])):
            ps = proxies()
            if len(ps) != 1:
                bad("processes", f"the gateway runs {len(ps)} proxies")
            pid = ps[0]
            cmd = open(f"/proc/{pid}/cmdline", "rb").read()
            tok = re.search(rb"DASK_GATEWAY_PROXY_TOKEN=(\w+)", open(f"/proc/{pid}/environ", "rb").read())
            if not tok or tok.group(1) in cmd:
                bad("token-on-command-line", "the token is not in the environment, or is on the command line")
            os.kill(pid, r.choice([signal.SIGKILL, signal.SIGTERM]))
            hist.append("kill")
            if not await until(lambda: gone(pid), SLACK):
                bad("stays", "the proxy does not exit when terminated")
            # There again, and with its table
            if not await until(served, period + SLACK + 10):
                bad("not-restarted", "the proxy was killed, and the gateway is not reached through it again")
            ck.count("real_restarts")
        out = gw.output()
        info = re.findall(r"^\[I [-0-9]+ [0-9:.]+ Proxy\]", out, re.M)
        if bool(info) != (cfg["log_level"] in ("info", "debug")):
            bad("log-level", f"with log level {cfg['log_level']} the proxy wrote {len(info)} informational lines")
        try:
            _, wr = await asyncio.open_connection(*tcp)
            wr.close()
        except OSError as exc:
            bad("tcp-address", f"nothing listens at the TCP address: {exc}")
        ck.count("mode_managed")

    try:
        gw.start()
        await gw.up()
        if mode == "managed":
            await managed()
        else:
            if proxies():
                bad("external-started", "a proxy was started although it is externally managed")
            if mode == "external":
                ext = goproxy.ProxyProc(link, f"http://{gw.addr[0]}:{gw.addr[1]}/api/v1/routes", tls=cert if tls else None, token=cfg["api_token"])
                ext.http, ext.tcp = http, tcp
                ext.start()
            else:
                # The subcommand that runs only the proxy
                boot = os.path.join(d, "boot.py")
                with open(boot, "w") as f:
                    f.write(CLI.format(link=link))
                ext = goproxy.ProxyProc(link, "", token="unused")
                with open(ext.log, "ab") as f:
                    env = {k: v for k, v in os.environ.items() if k != "DASK_GATEWAY_PROXY_TOKEN"}
                    ext.proc = subprocess.Popen([sys.executable, boot, "proxy", "-f", gw.cfg], stdin=subprocess.PIPE, stdout=f, stderr=f, cwd=d, env=env)
            pid = ext.proc.pid
            if not await until(served, SLACK + 30):
                bad("not-served", f"the gateway is not reached through the external proxy: {ext.output()[-1000:]}")
            if cfg["api_token"].encode() in open(f"/proc/{pid}/cmdline", "rb").read():
                bad("token-on-command-line", "the token is on the command line")
            if mode == "cli" and r.random() < 0.5:
                # Not a child of the gateway: it does not depend on its standard input
                ext.proc.stdin.close()
                await asyncio.sleep(0.3)
                if gone(pid):
                    bad("cli-ends", "the proxy run by itself ends with its standard input")
            ck.count("mode_" + mode)
        how = r.choice(["term", "kill", "int"])
        hist.append(how)
        proxies()
        if await gw.end(how) is None:
            bad("gateway-hangs", f"the gateway does not stop ({how})")
        if mode == "managed":
            if not await until(lambda: not any(ours(p, d) for p in pids), SLACK):
                bad("left-running", f"the gateway ended ({how}) and its proxy goes on running")
        else:
            await asyncio.sleep(0.4)
            if ext.proc.poll() is not None:
                bad("external-stopped", f"the externally managed proxy ended with the gateway ({how})")
            if r.random() < 0.5:
                # And it serves the next gateway
                gw.start()
                await gw.up()
                if not await until(served, 40):
                    bad("not-served", "the external proxy does not serve the restarted gateway")
                ck.count("external_survived")
        ck.count("real_end_" + how)
        ck.case((repr(hist),), True, sample=hist)
    finally:
        if ext is not None and ext.proc is not None:
            ext.stop()
        if gw.proc is not None:
            left = set(children(gw.proc.pid)) | pids
            gw.reap()
            kill_ours(left, d)


def case(ck, i, binary, cert):
    kind = ("plan", "standin", "plan", "real")[i % 4]
    ck.count("kind_" + kind)
    if kind == "plan":
        for k in range(8):
            plan_case(ck, ("plan", i, k))
        return
    r = ck.rng("case", i)
    with tempfile.TemporaryDirectory(prefix="verif-c20-") as d:
        run = standin_history(ck, r, d) if kind == "standin" else real_history(ck, r, d, binary, cert)
        asyncio.run(asyncio.wait_for(run, 140))


def body(ck):
    from dask_gateway_server.tls import new_keypair

    binary = goproxy.build()
    paths = []
    for name, data in zip(("front.crt", "front.pem"), new_keypair("front")):
        p = os.path.join(goproxy.scratch(), name)
        with open(p, "wb") as f:
            f.write(data)
        paths.append(p)
    ck.pool(lambda i: case(ck, i, binary, tuple(paths)), ck.budget(35, 400), seconds=160)
    ck.need(kind_plan=20, kind_standin=8, kind_real=8, restarts_timed=100, retries_timed=50, commands_judged=200, failed_starts=50, restarts_seen=5, real_restarts=5, external=3)


if __name__ == "__main__":
    core.main("C20", RULE, body, assumptions=["a first start that fails may be refused (the gateway does not come up) or retried", "in real time, 6 s are allowed beyond each bound; in virtual time none"])
