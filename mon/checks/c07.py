"""C07: dead clusters and stuck workers are found in time; live ones never killed."""
from mon import core, crash, dbworld

RULE = (
    "random histories of schedulers that never connect, die, fall silent or stay healthy side "
    "by side, with slow, failing and wrong status checks, hanging starts, and gateway crashes "
    "after which everything is restored; every cluster's status is watched at every instant of "
    "virtual time against its deadlines; non-trivial: at least one deadline fell due and at "
    "least one cluster stayed healthy to the end; distinct by the order of boundary events"
)
EPS = 0.05
END = ("STOPPING", "STOPPED", "FAILED")


class Times:
    """Oracle: why a cluster may be failed, and by when it must be."""

    def __init__(self, ck, w, late=True, log=None):
        self.ck, self.w, self.p = ck, w, w.p
        self.c, self.wk = {}, {}
        self.boot = 0.0
        self.crash = None
        self.late = late
        self.down = False
        self.found = 0
        self.prev = None
        self.busy, self.crowded = 0, False

    def bad(self, key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(self.w.log, 120, name))

    def new(self, t):
        return dict(created=t, status="PENDING", hb=None, bad=False, false=None, deleted=False, startcall=None, started=None,
                    dead=None, hb0=None, rids=(), count=0)

    def why(self, q, t):
        """Reasons for which the gateway may fail this cluster at t."""
        if t == self.boot and self.crash is not None:
            # It may have been failed just before the crash
            tc, boot = self.crash
            return self.why_at(q, t, self.boot) or self.why_at(q, tc, boot)
        why = self.why_at(q, t, self.boot)
        if why is None and q["hb"] == t:
            # A heartbeat of the same instant may have come just after
            why = self.why_at(dict(q, hb=q["hb0"]), t, self.boot)
        return why

    def why_at(self, q, t, boot):
        p = self.p
        if q["deleted"] or q["bad"] or self.down:
            return "asked"
        if q["hb"] is None:
            if q["false"] is not None:
                return "false check"
            if t >= q["created"] + p["cluster_start_timeout"] - EPS:
                return "start timeout"
            return None
        if t >= max(q["hb"], boot) + p["heartbeat_timeout"] - EPS:
            return "heartbeat timeout"
        return None

    def deadline(self, q):
        """By when it must have been failed, as far as is known now."""
        p = self.p
        per = p["check_timeouts_period"]
        if q["deleted"] or q["status"] in END:
            return None, None
        if q["hb"] is not None and q["status"] == "RUNNING":
            return max(q["hb"], self.boot) + p["heartbeat_timeout"] + per + EPS, "stopped heartbeating"
        if q["hb"] is None and q["startcall"] is not None:
            a = max(q["created"] + p["cluster_start_timeout"] + per, self.boot + per, q["startcall"] + p["cluster_start_timeout"] if q["started"] is None else q["started"] + per)
            b = None
            if q["dead"] is not None and q["started"] is not None and not p["check_error"]:
                b = max(q["dead"], q["started"], self.boot) + p["cluster_status_period"] + 2 * p["check"][1]
            if b is not None and b < a:
                return b + EPS, "died before connecting"
            return a + EPS, "never connected"
        return None, None

    def early(self, t, n, x):
        """Was there any reason to stop this worker?"""
        q = self.c[x["c"]]
        if x["why"] or q["status"] != "RUNNING" or q["deleted"] or q["bad"] or self.down or self.why(q, t) is not None:
            return
        self.ck.count("workers_timed_out")
        if t < x["t0"] + self.p["worker_start_timeout"] - EPS:
            self.bad("worker-stopped-early", f"worker {n} of {x['c']}, started at {x['t']:.2f}, was stopped at {t:.2f} for no reason", x["c"])

    def check_due(self, t):
        if not self.late or self.down:
            return
        for n, q in self.c.items():
            due, what = self.deadline(q)
            if due is not None and t > due:
                self.bad("not-found-in-time", f"cluster {n} {what}, should be failed by {due:.2f} and is {q['status']} at {t:.2f} (created {q['created']:.2f}, last heartbeat {q['hb']}, boot {self.boot})", n)
        for n, x in self.wk.items():
            if x["due"] is not None and t > x["due"]:
                if self.c[x["c"]]["status"] == "RUNNING":
                    self.bad("worker-not-stopped", f"worker {n} of {x['c']}, started at {x['t']:.2f}, has not connected and was not stopped by {x['due']:.2f}", x["c"])
                x["due"] = None

    def feed(self, t, kind, d):
        p = self.p
        name, c = d.get("name"), d.get("cluster")
        self.check_due(t)
        # Could something have had to wait for a free handler?
        if kind in ("start", "stop"):
            self.busy += 1
            self.crowded = self.crowded or self.busy >= p["parallelism"]
        elif kind in ("start_end", "stop_end"):
            self.busy -= 1
        elif kind == "boot":
            self.busy = 0
        if kind == "created" or kind == "discovered":
            # (The gateway's own creation time is no later than this)
            self.c.setdefault(name, self.new(t))
            if kind == "discovered":
                self.c[name]["status"] = d["status"]
        elif kind == "boot":
            self.boot = t
            self.down = False
            for x in self.wk.values():
                if x["due"] is not None:
                    x["due"] = max(x["due"], t + p["check_timeouts_period"] + EPS)
        elif kind in ("crash", "shutdown"):
            if kind == "crash":
                # A start of which nothing was recorded is repeated, or not, after the restart
                for x in self.wk.values():
                    if x["rec"] < 1 or x["rec"] == 1 and x is self.prev:
                        x["due"] = None
            elif p["stop_on_shutdown"]:
                for q in self.c.values():
                    q["deleted"] = True
            self.down = True
            self.crash = (t, self.boot)
        elif kind == "start" and d["wkind"] == "cluster":
            q = self.c.setdefault(name, self.new(t))
            # (A start begun again after a crash has nothing to do with what the first one made)
            q["startcall"], q["started"], q["dead"], q["rids"] = t, None, None, ()
        elif kind == "yield" and d["wkind"] == "cluster":
            self.c[name]["rids"] = d["state"]["rids"]
        elif kind == "start_end" and d["wkind"] == "worker":
            if d["outcome"] != "ok" and name in self.wk:
                self.wk[name]["why"] = True
        elif kind == "start_end" and d["wkind"] == "cluster":
            q = self.c[name]
            if d["outcome"] != "ok":
                q["bad"] = True
            q["started"] = t
        elif kind == "start":
            # Repeated after a crash, it is as old as it was, or older
            t0 = self.wk[name]["t0"] if name in self.wk else -1e9 if t == self.boot else t
            self.wk[name] = dict(c=c, t=t, t0=t0, rec=0, why=self.crowded, due=t + p["worker_start_timeout"] + p["check_timeouts_period"] + EPS)
            self.ck.count("workers_watched")
        elif kind == "yield":
            if name in self.wk:
                self.wk[name]["rec"] += 1
        elif kind == "stop" and d["wkind"] == "worker":
            if name in self.wk:
                self.early(t, name, self.wk[name])
                self.wk[name]["due"] = None
        elif kind == "dead" and d["rkind"] == "cluster":
            r = self.w.res[d["rid"]]
            if r["proc"] and d["rid"] in self.c[c]["rids"] and d["why"] in ("died", "killed"):
                self.c[c]["dead"] = t
        elif kind == "check_end" and d["wkind"] == "worker" and d["ok"]:
            for n, ok in d["ok"].items():
                if not ok and n in self.wk:
                    self.wk[n]["why"] = True
        elif kind == "check_end" and d["wkind"] == "cluster" and d["ok"]:
            for n, ok in d["ok"].items():
                q = self.c.get(n)
                if not ok and q is not None:
                    if q["hb"] is None or q["hb"] == t:
                        q["false"] = t
                    else:
                        self.ck.count("late_false_checks")
        elif kind == "delete_asked" or kind == "delete" and d["code"] == 204:
            self.c[name]["deleted"] = True
        elif kind == "hb" and d["code"] == 200:
            q = self.c[name]
            if q["hb"] != t:
                q["hb0"] = q["hb"]
            q["hb"] = t
            for n in d["active"] + d["closing"] + d["closed"]:
                if n in self.wk:
                    self.wk[n]["due"] = None
                    self.wk[n]["why"] = True
            if d["count"] < q["count"]:
                # Pending workers may be surplus now
                for x in self.wk.values():
                    if x["c"] == name:
                        x["why"] = True
            q["count"] = d["count"]
        elif kind == "seen" and d["status"] and name in self.c:
            q = self.c[name]
            s = d["status"]
            if s in END and q["status"] not in END:
                why = self.why(q, t)
                if why is None:
                    self.bad("killed", f"cluster {name} was failed at {t:.2f} without reason (created {q['created']:.2f}, last heartbeat {q['hb']}, gateway started {self.boot})", name)
                self.found += why != "asked"
                self.ck.count("failed_for_" + why.replace(" ", "_"))
            q["status"] = s
        if kind not in ("seen", "got", "polled"):
            self.prev = self.wk.get(name) if kind == "yield" else None

    def healthy(self):
        return [n for n, q in self.c.items() if q["status"] == "RUNNING"]


def judge(ck, w):
    T = Times(ck, w)
    healthy = []
    for t, kind, d in w.log:
        T.feed(t, kind, d)
        if kind == "drained":
            healthy = T.healthy()
            ck.count("healthy_at_end", len(healthy))
    return bool(T.found and healthy)


def params(r):
    fail = r.choice([0, 0.1, 0.3])
    hb = r.choice([1, 5, 15])
    p = dict(
        parallelism=r.choice([20, 20, 20, 3]),
        bulk=r.random() < 0.4,
        failure_limit=10**6,
        heartbeat_period=hb,
        heartbeat_timeout=hb * r.choice([1.5, 2.0, 4.0]) + 0.5,
        cluster_start_timeout=r.choice([5.0, 20.0, 60.0]),
        worker_start_timeout=r.choice([20.0, 60.0]) + 2 * hb,
        check_timeouts_period=r.choice([0.7, 4.0, 15.0]),
        cluster_status_period=r.choice([1.0, 7.0, 30.0]),
        worker_status_period=r.choice([1.0, 30.0]),
        c_start=r.choice([(0, 0), (0, 2), (0, 12)]), w_start=r.choice([(0, 0), (0, 2)]),
        c_connect=r.choice([(0, 0), (0, 3), (0, 30)]), w_connect=(0, 3),
        c_error=r.choice([0, fail]), c_hang=r.choice([0, 0, fail]), c_noconnect=fail, c_die=r.choice([0, fail, 2 * fail]),
        w_error=r.choice([0, fail]), w_noconnect=r.choice([0, fail, 2 * fail]), w_die=r.choice([0, fail]),
        stop=r.choice([(0, 0), (0, 3)]),
        check=r.choice([(0, 0), (0, 3), (2, 40)]), check_error=r.choice([0, 0, 0.3]),
        c_false_negative=r.choice([0, 0, 0.3]),
        hb_lost=r.choice([0, 0, 0.05]),
        poll=0.0,
    )
    if p["parallelism"] < 20:
        p["c_hang"] = 0
    return p


def populate(w, t0, r, horizon, n):
    for k in range(n):
        t = t0 + r.uniform(0, horizon * 0.5)
        w.at(t, "create", r.choice(["alice", "bob"]), {})
        w.at(t + r.uniform(0, 30), "scale", k, r.randint(0, 3))
        x = r.random()
        when = t + r.uniform(0, horizon)
        if x < 0.15:
            w.at(when, "kill_sched", k)
        elif x < 0.3:
            w.at(when, "mute", k, r.choice([5, 40, 1000]))
        elif x < 0.4:
            w.at(when, "delete", k, "user")


def case(ck, i):
    r = ck.rng("case", i)
    p = params(r)
    horizon = r.choice([60, 150])
    n = r.randint(1, 8)
    if i % 3:
        w = dbworld.run((ck.seed, i), p, lambda w, t0, sim: populate(w, t0, r, horizon, n), horizon, drain=120, shutdown=False, poll_end=False, spin=2_000_000)
        ck.count("single_life")
        ck.case(dbworld.signature(w.log), judge(ck, w), sample=dbworld.tail(w.log, 25) if i < 2 else None)
        ck.count("events", len(w.log))
        return
    # With crashes: each crash point gives one execution
    dbworld.prepare((ck.seed, i))
    w = dbworld.World((ck.seed, i), p)
    populate(w, 1000.0, r, horizon, n)

    async def first(sim):
        await sim.pump(1000.0 + horizon)

    async def second(sim):
        await sim.pump(max(sim.loop.time(), 1000.0 + horizon))
        w.calm = sim.w.calm = True
        await sim.pump(sim.loop.time() + 120)
        sim.log("drained")

    _, rec = crash.life(w, {}, 1000.0, first, rng=r, gap=r.choice([10, 40, 150]), limit=3)
    for s in rec.snaps:
        gap = r.choice([0, 1, 3, 10, 50])
        s.world.log.append((s.t, "crash", dict(inc=s.world.inc, what=s.what)))
        end, _ = crash.life(s.world, s.files, s.t + gap, second)
        ck.count("restarts")
        ck.case(dbworld.signature(end.world.log), judge(ck, end.world))
        ck.count("events", len(end.world.log))


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(failed_for_start_timeout=50, failed_for_heartbeat_timeout=50, failed_for_false_check=50, late_false_checks=5, healthy_at_end=200, workers_watched=500, workers_timed_out=20, restarts=50)


if __name__ == "__main__":
    core.main("C07", RULE, body, assumptions=["the database works"])
