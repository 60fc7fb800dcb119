"""C02: failing reconciliations are retried for ever, with bounded backoff."""
import sqlalchemy as sa

from dask_gateway_server.workqueue import Backoff, WorkQueue
from mon import core, dbworld, vloop
from mon.checks import c03

RULE = (
    "three kinds of execution in virtual time: random failure histories of several items against "
    "the real backoff queue, with the time of every hand-out compared to the rule; one cluster "
    "of the real gateway whose database statements fail tens to thousands of times in a row "
    "while others live normally; and outages of the whole database or of single statements, "
    "from seconds to days, under a random workload; non-trivial: at least five consecutive "
    "failures of one item; distinct by the sequence of failures and events"
)
EPS = 1e-6


class Outage(Exception):
    pass


def expect(n, base, most):
    """min(base * 2**n, most), for any n."""
    d = base
    for _ in range(n):
        if d >= most:
            return most
        d *= 2
    return min(d, most)


# -- the queue itself --------------------------------------------------------
def queue_case(ck, i, r):
    base = r.choice([0.001, 0.1, 1, 3.7, 1e-9])
    most = r.choice([0.5, 10, 300, 1e6])
    items = [f"i{k}" for k in range(r.randint(1, 4))]
    plan = {}
    for x in items:
        n = r.choice([3, 30, 30, 1200 if i % 6 == 0 else 60])
        plan[x] = [r.random() < (0.1 if n < 100 else 1e-4) for _ in range(n)]
    log = []

    async def main(loop):
        q = WorkQueue(Backoff(base_delay=base, max_delay=most))
        fails = dict.fromkeys(items, 0)
        due = {}
        for x in items:
            q.put(x)
            due[x] = loop.time()
        left = sum(len(p) for p in plan.values())
        pos = dict.fromkeys(items, 0)
        while left:
            x = await q.get()
            t = loop.time()
            if abs(t - due[x]) > max(EPS, 1e-9 * t):
                raise core.Violation("backoff-time", f"{x} after {fails[x]} failures in a row was due at {due[x]} and handed out at {t} (base {base}, max {most})", log[-30:])
            ck.count("retries_timed")
            if q.failures(x) != fails[x]:
                raise core.Violation("failures", f"failures({x}) is {q.failures(x)} after {fails[x]} failures in a row", log[-30:])
            ok = plan[x][pos[x]]
            pos[x] += 1
            left -= 1
            log.append((x, ok, round(t, 3)))
            if ok:
                q.reset_backoff(x)
                fails[x] = 0
            elif pos[x] < len(plan[x]):
                due[x] = t + expect(fails[x], base, most)
                q.put_backoff(x)
                fails[x] += 1
                if fails[x] == 1100:
                    ck.count("runs_of_1100_failures")
            q.task_done(x)
            if ok and pos[x] < len(plan[x]):
                due[x] = t
                q.put(x)

    vloop.run(main, spin_limit=10**6)
    ck.case(log, max(len(p) for p in plan.values()) > 5)


# -- one failing cluster -----------------------------------------------------
class Faults:
    """Makes the database fail, for one cluster or altogether."""

    def __init__(self, sim, how):
        self.sim, self.how = sim, how
        self.victim = None  # the row id of a cluster
        self.all = None  # predicate over the statement
        self.attempts = []
        engine = sim.backend.db.db
        self.pending = False
        sa.event.listen(engine, "before_cursor_execute", self.execute)
        sa.event.listen(engine, "commit", self.commit)

    def hit(self, statement, parameters, many):
        s = statement.upper()
        if self.all is not None:
            return self.all(s)
        if self.victim is None or not s.startswith("UPDATE CLUSTERS"):
            return False
        rows = parameters if many else [parameters]
        return any(row[-1] == self.victim for row in rows)

    def execute(self, conn, cursor, statement, parameters, context, many):
        self.pending = False
        if self.hit(statement, parameters, many) and self.take():
            if self.how == "commit":
                self.pending = True
                return
            raise Outage("the database is unavailable")

    def commit(self, conn):
        if self.pending:
            self.pending = False
            raise Outage("the database is unavailable")

    def take(self):
        return True


def one_case(ck, i, r):
    base = r.choice([0.05, 0.1, 2.0])
    most = r.choice([0.5, 4.0, 300.0])
    first, second = r.choice([(5, 3), (0, 12), (40, 0), (12, 12)])
    if r.random() < 0.25:
        first = 1200
    p = dict(
        parallelism=r.choice([1, 3, 20]), backoff=base, backoff_max=most, bulk=r.random() < 0.5,
        c_start=(0, 0), w_start=(0, 0), stop=(0, 0), check=(0, 0), c_connect=(0, 2), w_connect=(0, 2),
        max_age=1e9, failure_limit=10**6, poll=0.0, tail=(0, 0),
    )
    out = {}

    def setup(w, t0, sim):
        w.at(t0 + 1, "create", "alice", {})
        n = 1 + r.randint(1, 4)
        for k in range(1, n):
            w.at(t0 + 5 + r.uniform(0, 60), "create", "bob", {})
            w.at(t0 + 70 + r.uniform(0, 60), "scale", k, r.randint(1, 4))
            if r.random() < 0.4:
                w.at(t0 + 140 + r.uniform(0, 60), "delete", k, "user")
        w.at(t0 + 4.5, "call", arm)
        w.at(t0 + 5, "delete", 0, "user")

    def arm(sim):
        # Its stop is acknowledged, then every step of it fails many times
        name = sim.w.names[0]
        f = out["f"] = Faults(sim, "execute" if i % 2 else "commit")
        f.stage = -1
        f.left = 0
        rowid = sim.backend.db.get_cluster(name).id

        def take():
            if f.stage == -1:
                f.stage, f.left = 0, first
                f.victim = rowid
                return False  # the acknowledged stop itself
            now = sim.loop.time()
            f.attempts.append((f.stage, now))
            if f.left == 0:
                f.stage += 1
                f.left = second if f.stage == 1 else 0
                return False
            f.left -= 1
            return True

        f.take = take
        f.victim = rowid

    horizon = 300 + sum(expect(k, base, most) for k in range(first)) + sum(expect(k, base, most) for k in range(second))
    p["heartbeat_timeout"] = 1e9
    p["hb_interval"] = max(15, horizon / 100)
    p["worker_start_timeout"] = p["cluster_start_timeout"] = 60 + 3 * p["hb_interval"]
    p["check_timeouts_period"] = p["worker_status_period"] = p["cluster_status_period"] = max(15.0, horizon / 200)
    w = dbworld.run((ck.seed, i), p, setup, horizon, drain=100 + most, shutdown=False, poll_end=False, spin=10**6)
    f = out["f"]
    hist = f.attempts[-60:]
    name = w.names[0]
    # The attempts of each stage must follow the rule exactly: nothing else queues this cluster
    ck.count("runs_of_1100_failures", first > 1100)
    for stage, n in ((0, first), (1, second)):
        ts = [t for s, t in f.attempts if s == stage]
        if len(ts) != n + 1:
            raise core.Violation("retries-end", f"cluster {name}: {len(ts)} attempts at step {stage}, {n} of which were to fail; then none for the rest of {horizon:.0f} s", hist)
        for k in range(n):
            want = expect(k, base, most)
            if abs(ts[k + 1] - ts[k] - want) > 1e-4:
                raise core.Violation("backoff-time", f"cluster {name}, step {stage}: failure {k + 1} at {ts[k]:.3f} was retried after {ts[k + 1] - ts[k]:.4f} s, not {want:.4f}", hist)
            ck.count("reconciliations_failed")
    if w.last[name] != ("STOPPED", True):
        raise core.Violation("not-completed", f"cluster {name} is {w.last[name]} though the fault cleared", hist)
    others(w)
    c03.judge(ck, w)
    ck.count("served_beside", len(w.names) - 1)
    ck.case(("one", first, second, base, most, dbworld.signature(w.log)), max(first, second) >= 5)


def others(w):
    """Every other cluster was served at once."""
    made, victim = {}, w.names[0]
    for t, kind, d in w.log:
        if kind == "created":
            made[d["name"]] = t
        elif kind == "start" and d["wkind"] == "cluster":
            if t - made.get(d["name"], t) > 0.01:
                raise core.Violation("others-not-served", f"cluster {d['name']} created at {made[d['name']]} was started at {t}", dbworld.tail(w.log, 40, d["name"]))
            made.pop(d["name"], None)
        elif kind == "delete" and d["name"] != victim:
            made[d["name"]] = t
        elif kind == "seen" and d["status"] in ("STOPPED", "FAILED"):
            if t - made.get(d["name"], t) > 0.01:
                raise core.Violation("others-not-served", f"cluster {d['name']} asked to stop at {made[d['name']]} was stopped at {t}", dbworld.tail(w.log, 40, d["name"]))
            made.pop(d["name"], None)
    if made:
        raise core.Violation("others-not-served", f"nothing was done for {made}", dbworld.tail(w.log, 40))


# -- outages of the database ---------------------------------------------------
def outage_case(ck, i, r):
    most = r.choice([2.0, 30.0, 300.0])
    p = dbworld.mixed(
        r, backoff_max=most, backoff=r.choice([0.05, 0.5]), parallelism=r.choice([1, 3, 20]), max_age=1e9,
        heartbeat_timeout=1e7, cluster_start_timeout=60.0, worker_start_timeout=60.0, failure_limit=10**6,
        c_hang=0, w_hang=0, stop_error=0, check_error=0, poll=0.005,
    )
    long = r.choice([3, 60, 3600, 3600 * 20])
    if long > 3600:
        p["backoff_max"] = most = 300.0
    lead = r.choice([10, 40])
    what = r.choice(["all", "all", "writes", "updates", "some"])
    pred = {
        "all": lambda s: True, "writes": lambda s: not s.startswith("SELECT"), "updates": lambda s: s.startswith("UPDATE"),
        "some": lambda s: r.random() < 0.6,
    }[what]
    n = r.randint(1, 4)
    out = {"hits": 0}
    if long > 100:
        # Fewer heartbeats
        p["heartbeat_period"] = 600
        p["hb_interval"] = long / 20
        p["worker_start_timeout"] = p["cluster_start_timeout"] = long / 5
    how = r.choice(["execute", "commit"])

    def start(sim):
        f = out["f"] = Faults(sim, how)

        def hit(s):
            h = pred(s)
            out["hits"] += h
            return h

        f.all = hit
        sim.log("outage")

    def end(sim):
        out["f"].all = None
        sim.log("outage_end")

    def setup(w, t0, sim):
        dbworld.script(w, t0, lead + min(long, 200), n, p_delete=0.5, waits=False, kills=False)
        w.at(t0 + lead, "call", start)
        w.at(t0 + lead + long, "call", end)

    def finish(sim):
        sim.loop.call_at(1000.0 + lead + long + 1 + drain - 0.5, lambda: sim.log("final", workers={
            k: (list(s["active"]), s["count"], s["up"]) for k, s in sim.w.sched.items()}))

    drain = 2 * most + 600 + (long if long > 100 else 0)
    w = dbworld.run((ck.seed, i), p, setup, lead + long + 1, drain=drain, shutdown=r.random() < 0.5, poll_end=True, hooks=(finish,), spin=3_000_000)
    ck.count("outages")
    ck.count("statements_failed", out["hits"])
    w.log = [e for e in w.log if not (e[1] in ("create_refused", "delete") and e[2]["code"] == 500)]
    c03.judge(ck, w)
    last = {}
    down = False
    for t, kind, d in w.log:
        if kind == "seen":
            last[d["name"]] = d["status"]
        elif kind == "final":
            for name, s in last.items():
                if s in ("STOPPING", "PENDING"):
                    raise core.Violation("not-completed", f"cluster {name} is {s} at {t}, the outage of {long} s ended at {1000 + lead + long}", dbworld.tail(w.log, 80, name))
                if s == "RUNNING" and d["workers"][name][2]:
                    act, count, _ = d["workers"][name]
                    limit = p["max_workers"]
                    want = count if limit is None else min(count, limit)
                    ck.count("resumed_running")
                    # (Starts that the outage kept from being recorded may have left more)
                    if len(act) < want:
                        raise core.Violation("not-completed", f"cluster {name} has {len(act)} workers and wants {want} at {t}, the outage of {long} s ended at {1000 + lead + long}", dbworld.tail(w.log, 80, name))
    ck.case(("outage", what, long, dbworld.signature(w.log)), out["hits"] >= 5)


def case(ck, i):
    r = ck.rng("case", i)
    (queue_case, one_case, outage_case)[i % 3](ck, i, r)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(retries_timed=2000, reconciliations_failed=1000, outages=20, statements_failed=500, served_beside=20, resumed_running=5, runs_of_1100_failures=5)


if __name__ == "__main__":
    core.main("C02", RULE, body, assumptions=["SQLAlchemy rolls back a transaction whose statement or commit failed"])
