"""C06: consecutive worker start failures fail the cluster, and nothing else counts."""
from mon import core, dbworld

RULE = (
    "five families of random histories against the real gateway in virtual time, in which only "
    "workers can fail: starts that error, hang or die before connecting with a fixed and with a "
    "rising count; scale-downs while starts are in flight that then fail; status checks that are "
    "wrong and slow while workers connect; everything together; non-trivial: at least one start "
    "failure was counted, or a failing start had been stopped on purpose, or a worker connected "
    "during a false status check; distinct by the order of boundary events"
)


class Count:
    """What is known of one cluster: bounds on its consecutive start failures."""

    def __init__(self):
        self.upper = self.peak = 0
        self.lower = 0
        self.now = None
        self.at_now = 0
        self.maxcount = 0
        self.due = None
        self.status = "PENDING"
        self.up = False
        self.deleted = False

    def tick(self, t):
        if t != self.now:
            self.now, self.at_now, self.peak = t, 0, self.upper

    def fail(self, t, sure):
        self.tick(t)
        self.upper += 1
        self.at_now += 1
        self.peak = max(self.peak, self.upper)
        if sure:
            self.lower += 1

    def reset(self, t, sure):
        self.tick(t)
        if sure:
            # Those of the same instant may have come after it
            self.upper = self.at_now
        self.lower = 0
        self.due = None


def judge(ck, w):
    p = w.p
    limit = p["failure_limit"]
    prompt = p["parallelism"] == 20
    grace = p["stop"][1] + 1.0
    cl, worker = {}, {}
    interesting = False

    def bad(key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(w.log, 150, name))

    for t, kind, d in w.log:
        name, c = d.get("name"), d.get("cluster")
        for n, q in cl.items():
            if q.due and t > q.due and q.up and not q.deleted:
                q.due = None
                ck.count("must_fail_checks")
                if q.status in ("PENDING", "RUNNING"):
                    bad("not-failed", f"{q.lower} consecutive workers of cluster {n} failed to start, the limit is {limit}, and it is {q.status} at {t}", n)
        if kind == "seen":
            q = cl.setdefault(name, Count())
            q.tick(t)
            if d["status"] in ("STOPPING", "FAILED") and q.status in ("PENDING", "RUNNING") and not q.deleted:
                ck.count("failures_seen")
                if q.peak < limit:
                    bad("failed-too-early", f"cluster {name} was failed at {t} after at most {q.peak} consecutive worker start failures, the limit is {limit}", name)
            if d["status"]:
                q.status = d["status"]
        elif kind == "delete" and d["code"] == 204:
            cl.setdefault(name, Count()).deleted = True
        elif kind == "up":
            cl.setdefault(name, Count()).up = True
        elif kind == "start" and d["wkind"] == "worker":
            worker[name] = dict(c=c, over=False, ok=None, announced=False, counted=False, purpose=False, doubt=not prompt, stop=None, gone=False)
        elif kind == "start_end" and d["wkind"] == "worker":
            x = worker[name]
            x["over"], x["ok"] = True, d["outcome"] == "ok"
            if not x["ok"]:
                q = cl.setdefault(c, Count())
                ck.count("start_" + d["outcome"])
                interesting = True
                if x["purpose"]:
                    ck.count("failures_after_stop")
                else:
                    x["counted"] = True
                    q.fail(t, not x["doubt"])
                    if q.lower >= limit and q.due is None and prompt:
                        q.due = t + grace
        elif kind == "check_end" and d["wkind"] == "worker" and d["ok"]:
            for n, ok in d["ok"].items():
                x = worker[n]
                if ok:
                    continue
                if x["announced"]:
                    interesting = True
                    ck.count("connected_during_false_check")
                elif not x["counted"] and not x["purpose"]:
                    interesting = True
                    ck.count("false_checks")
                    x["counted"] = True
                    q = cl[x["c"]]
                    q.fail(t, not x["doubt"] and x["stop"] is None)
                    if q.lower >= limit and q.due is None and prompt:
                        q.due = t + grace
        elif kind == "hb" and d["code"] == 200:
            q = cl[name]
            count = d["count"] if p["max_workers"] is None else min(d["count"], p["max_workers"])
            known = [n for n in d["active"] + d["closing"] if n in worker]
            fresh = [n for n in known if not worker[n]["announced"]]
            if fresh:
                ck.count("resets")
                q.reset(t, any(not worker[n]["gone"] for n in fresh))
            for n in known:
                worker[n]["announced"] = True
            mine = [n for n, x in worker.items() if x["c"] == name and not x["announced"] and not x["gone"] and n not in d["closed"]]
            sure = [n for n in d["active"] if n in worker and not worker[n]["doubt"] and not worker[n]["purpose"]]
            if count == 0 or count <= len(sure):
                for n in mine:
                    worker[n]["purpose"] = True
            if len(d["active"]) + len(mine) > count or count < q.maxcount:
                for n in mine:
                    worker[n]["doubt"] = True
            for n in d["closed"]:
                if n in worker:
                    worker[n]["doubt"] = True
            q.maxcount = max(q.maxcount, count)
        elif kind == "stop" and d["wkind"] == "worker":
            if name in worker:
                worker[name]["stop"] = t
        elif kind == "stop_end" and d["wkind"] == "worker":
            worker[name]["gone"] = True
        elif kind == "drained":
            for n, q in cl.items():
                if q.status == "STOPPING":
                    bad("not-cleaned-up", f"cluster {n} is still STOPPING at {t}", n)
                if q.status in ("STOPPED", "FAILED"):
                    ck.count("ended")
    return interesting


def params(r, **over):
    p = dict(
        parallelism=r.choice([20, 20, 20, 1]),
        bulk=r.random() < 0.4,
        failure_limit=r.choice([1, 1, 2, 3, 5]),
        max_workers=r.choice([None, None, 3]),
        heartbeat_period=r.choice([5, 15]),
        hb_interval=r.choice([None, None, 1.0]),
        c_start=(0, 2), c_connect=(0, 2), c_error=0, c_hang=0,
        cluster_start_timeout=500.0, heartbeat_timeout=60.0,
        worker_start_timeout=r.choice([60.0, 100.0]),
        check_timeouts_period=15.0, cluster_status_period=r.choice([1.0, 30.0]),
        worker_status_period=r.choice([0.5, 3.0, 15.0]),
        w_start=r.choice([(0, 0), (0, 2), (2, 12)]), w_connect=r.choice([(0, 0), (0, 3), (0, 15)]),
        stop=r.choice([(0, 0), (0, 3)]), check=r.choice([(0, 0), (0, 3), (2, 10)]), check_error=r.choice([0, 0, 0.3]),
        poll=0.0,
    )
    p.update(over)
    return p


def case(ck, i):
    r = ck.rng("case", i)
    fam = i % 5
    horizon = r.choice([40, 100, 200])
    n = r.randint(1, 3)
    if fam == 0:
        p = params(r, w_error=r.choice([1.0, 0.7, 0.4]), w_hang=r.choice([0, 0.2]), w_die=r.choice([0, 0.5]))
    elif fam == 1:
        p = params(r, w_error=r.choice([0.2, 0.5]), w_die=r.choice([0, 0.5, 1.0]), failure_limit=r.choice([2, 3, 5]))
    elif fam == 2:
        p = params(r, w_error=r.choice([0, 0.5, 1.0]), w_hang=r.choice([0, 0, 0.3]), w_start=r.choice([(2, 12), (0, 3)]), parallelism=20, failure_limit=r.choice([1, 1, 3]))
    elif fam == 3:
        p = params(r, false_negative=r.choice([0.3, 1.0]), check=r.choice([(1, 5), (2, 20)]), w_connect=r.choice([(0, 3), (0, 8)]), hb_interval=1.0, failure_limit=r.choice([1, 2]))
    else:
        p = params(r, w_error=r.choice([0, 0.3]), w_hang=r.choice([0, 0.1]), w_die=r.choice([0, 0.3]), w_noconnect=r.choice([0, 0.3]), false_negative=r.choice([0, 0.2]), stop_error=r.choice([0, 0.3]))

    def setup(w, t0, sim):
        for k in range(n):
            w.at(t0 + r.uniform(0, 5), "create", "alice", {})
            t = r.uniform(0, 10)
            count = 0
            while t < horizon:
                if fam in (0, 1, 3):
                    count += r.randint(1, 3)
                elif fam == 2:
                    count = 0 if count else r.randint(1, 5)
                else:
                    count = r.randint(0, 5)
                w.at(t0 + t, "scale", k, count)
                t += r.choice([r.uniform(0, 3), r.uniform(5, 30), 100])
            if fam == 4:
                for _ in range(r.choice([0, 2])):
                    w.at(t0 + r.uniform(5, horizon), "kill_worker", k, r.random() < 0.5)
                if r.random() < 0.2:
                    w.at(t0 + r.uniform(0, horizon), "delete", k, "user")

    w = dbworld.run((ck.seed, i), p, setup, horizon, drain=250, shutdown=False, poll_end=False, spin=2_000_000)
    ck.count(f"family_{fam}")
    ck.case(dbworld.signature(w.log), judge(ck, w), sample=dbworld.tail(w.log, 25) if i < 2 else None)
    ck.count("events", len(w.log))


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(must_fail_checks=100, failures_seen=100, failures_after_stop=20, connected_during_false_check=20, resets=100)


if __name__ == "__main__":
    core.main("C06", RULE, body, assumptions=["schedulers heartbeat as dask_gateway.scheduler_preload does (decided under C24)"])
