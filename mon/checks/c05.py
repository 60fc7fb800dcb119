"""C05: convergence to the requested count, limit, no over-starting, no live worker killed."""
from mon import core, dbworld, gw as gwmod

RULE = (
    "four families of random histories against the real gateway in virtual time: mixed faults "
    "then calm (convergence), failure-free with a never decreasing count and heartbeats that "
    "overlap slow starts (exact number of starts), scale-downs while workers are pending "
    "(surplus), schedulers claiming counts beyond the limit; non-trivial: at least one worker "
    "was replaced, retired or stopped as surplus, or a claim was clipped, or heartbeats "
    "arrived during a start; distinct by the order of boundary events"
)


def judge(ck, w, exact=False, surplus=False, bound=False):
    p = w.p
    limit = p["max_workers"]
    # Whether reconcilers are always available: otherwise a stop decided while
    # a worker was pending may be seen long after it connected
    prompt = p["parallelism"] == 20 and not p["w_hang"] and not p["c_hang"]
    cl = {}
    worker = {}
    interesting = False

    def bad(key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(w.log, 150, name))

    def C(n):
        return cl.setdefault(n, dict(status="PENDING", count=0, hb=None, up=False, maxcount=0, muted=False, due=None))

    for t, kind, d in w.log:
        name, c = d.get("name"), d.get("cluster")
        if surplus:
            for n, q in cl.items():
                if q["due"] and t > q["due"][0]:
                    _, tt, e, ns = q["due"]
                    q["due"] = None
                    gone = [m for m in ns if worker[m]["stopped"] is not None]
                    ck.count("surplus_checks")
                    if q["status"] == "RUNNING" and len(gone) < e:
                        bad("surplus-pending", f"heartbeat at {tt} of {n} left {e} pending workers too many, only {len(gone)} were stopped", n)
        if kind == "seen":
            C(name)["status"] = d["status"]
        elif kind == "start" and d["wkind"] == "worker":
            worker[name] = dict(c=c, start=t, wanted=True, announced=False, closed=False, expected=False, stopped=None, over=False, rid=None, alive=False, gone=False, surplus=not prompt)
            ck.count("worker_starts")
            if limit is not None and bound:
                n = sum(1 for x in worker.values() if x["c"] == c and x["wanted"])
                if n > limit:
                    bad("over-limit", f"cluster {c} is limited to {limit} workers, {n} are wanted at {t}", c)
                ck.count("limit_checks")
        elif kind == "start_end" and d["wkind"] == "worker":
            x = worker.get(name)
            if x:
                x["over"] = True
                if d["outcome"] != "ok":
                    x["wanted"] = False
                    x["surplus"] = True  # may be stopped, connected or not
        elif kind == "spawn" and d["rkind"] == "worker" and d["proc"]:
            worker[name]["rid"], worker[name]["alive"] = d["rid"], True
        elif kind == "dead" and d["rkind"] == "worker":
            x = worker[name]
            if d["rid"] == x["rid"]:
                x["alive"] = False
                if d["why"] in ("died", "killed", "retired"):
                    interesting = True
                    ck.count("worker_" + d["why"])
        elif kind == "check_end" and d["wkind"] == "worker" and d["ok"]:
            for n, ok in d["ok"].items():
                if not ok and not worker[n]["announced"]:
                    worker[n]["wanted"] = False
        elif kind == "hb" and d["code"] == 200:
            ck.count("heartbeats")
            q = C(name)
            q["hb"] = t
            q["count"] = d["count"] if limit is None else min(limit, d["count"])
            if limit is not None and d["count"] > limit:
                interesting = True
                ck.count("claims_beyond_limit")
            q["maxcount"] = max(q["maxcount"], q["count"])
            for n in d["active"] + d["closing"]:
                if n in worker:
                    worker[n]["announced"] = True
            for n in d["closing"]:
                if n in worker:
                    worker[n]["expected"] = True
                    interesting = True
            for n in d["closed"]:
                if n in worker:
                    worker[n]["closed"] = True
                    worker[n]["wanted"] = False
            # What the gateway may have found to be surplus is no longer surely wanted
            mine = [n for n, x in worker.items() if x["c"] == name and not x["announced"] and not x["gone"]]
            # (there may also be workers whose start was not called yet)
            if len(d["active"]) + len(mine) > q["count"] or not prompt:
                for n in mine:
                    worker[n]["wanted"] = False
                    worker[n]["surplus"] = True
            starting = [n for n, x in worker.items() if x["c"] == name and not x["over"]]
            if starting:
                interesting = True
                ck.count("heartbeats_during_start")
            if surplus and q["due"] is None:
                pend = [n for n in mine if worker[n]["stopped"] is None]
                extra = len(d["active"]) + len(pend) - q["count"]
                if extra > 0:
                    ck.count("surplus_seen")
                    interesting = True
                    q["due"] = (t + 30, t, min(extra, len(pend)), pend)
        elif kind == "hb":
            bad("heartbeat-refused", f"heartbeat of {name} answered {d['code']} {d['exc']}", name)
        elif kind == "stop" and d["wkind"] == "worker":
            x = worker.get(name)
            if x is None:
                continue
            x["stopped"], x["wanted"] = t, False
            if d["api"] == "RUNNING":
                ck.count("worker_stops_while_running")
                if x["announced"] and not x["closed"] and not x["surplus"]:
                    bad("live-worker-stopped", f"worker {name} of {c} was announced active, and not closed, but stopped at {t}", c)
        elif kind == "stop_end" and d["wkind"] == "worker":
            worker[name]["gone"] = True
        elif kind == "up":
            C(name)["up"] = True
        elif kind == "dead" and d["rkind"] == "cluster":
            C(c)["up"] = False
        elif kind == "drained":
            for n, q in cl.items():
                if q["status"] != "RUNNING" or not q["up"]:
                    continue
                s = w.sched[n]
                want = s["count"] if limit is None else min(limit, s["count"])
                live = [m for m, x in worker.items() if x["c"] == n and x["alive"]]
                ck.count("convergence_checks")
                if len(live) != want:
                    bad("not-converged", f"cluster {n} has {len(live)} live workers at {t}, its scheduler asks for {s['count']} (limit {limit})", n)
                if exact:
                    total = sum(1 for x in worker.values() if x["c"] == n)
                    ck.count("exactness_checks")
                    if total != q["maxcount"]:
                        bad("over-started" if total > q["maxcount"] else "under-started", f"cluster {n} started {total} workers in all, the largest count asked for is {q['maxcount']} and nothing failed", n)
    return interesting


def quiet(r, **over):
    """Nothing fails."""
    p = dict(
        parallelism=r.choice([1, 2, 20]),
        bulk=r.random() < 0.3,
        max_workers=r.choice([None, None, 3]),
        heartbeat_period=r.choice([5, 15]),
        c_start=(0, 2), w_start=r.choice([(0, 0), (0, 3), (2, 12)]),
        c_connect=(0, 2), w_connect=r.choice([(0, 0), (0, 3), (0, 15)]),
        stop=r.choice([(0, 0), (0, 3)]), check=r.choice([(0, 0), (0, 5)]),
        retire=r.choice([(0, 1), (0, 8)]),
        hb_interval=r.choice([None, 0.05, 0.5, 2]),
        cluster_start_timeout=500.0, worker_start_timeout=500.0, heartbeat_timeout=60.0, check_timeouts_period=15.0,
        worker_status_period=r.choice([0.5, 5.0, 30.0]), cluster_status_period=r.choice([0.5, 30.0]),
        failure_limit=r.choice([1, 3]), poll=0.0,
    )
    p.update(over)
    return p


def case(ck, i):
    r = ck.rng("case", i)
    fam = i % 4
    horizon = r.choice([30, 90, 150])
    n = r.randint(1, 3)
    exact = surplus = False
    if fam == 0:
        p = dbworld.mixed(r, poll=0.0, failure_limit=r.choice([3, 100, 100]), worker_start_timeout=r.choice([80.0, 120.0]))
        setup = lambda w, t0, sim: dbworld.script(w, t0, horizon, n, p_delete=0.1, scales=(2, 6), counts=(0, 6))
    elif fam == 1:
        exact = True
        p = quiet(r)
        horizon = min(horizon, 60 if p["hb_interval"] else 150)

        def setup(w, t0, sim):
            for k in range(n):
                w.at(t0 + r.uniform(0, 5), "create", "alice", {})
                count = 0
                for t in sorted(r.uniform(5, horizon) for _ in range(r.randint(1, 5))):
                    count += r.randint(0, 3)
                    w.at(t0 + t, "scale", k, count)
    elif fam == 2:
        surplus = True
        p = quiet(r, w_connect=r.choice([(0, 5), (50, 400), (0, 100)]), max_workers=None, parallelism=20, hb_interval=r.choice([None, 2]))

        def setup(w, t0, sim):
            for k in range(n):
                w.at(t0 + r.uniform(0, 5), "create", "alice", {})
                for t in sorted(r.uniform(5, horizon) for _ in range(r.randint(2, 6))):
                    w.at(t0 + t, "scale", k, r.randint(0, 7))
    else:
        p = quiet(r, max_workers=r.choice([0, 1, 3]), hb_interval=r.choice([None, 0.5]), w_error=r.choice([0, 0.3]), failure_limit=100)

        def setup(w, t0, sim):
            for k in range(n):
                w.at(t0 + r.uniform(0, 5), "create", "alice", {})
                for t in sorted(r.uniform(5, horizon) for _ in range(r.randint(2, 6))):
                    w.at(t0 + t, "scale", k, r.choice([0, 1, 3, 4, 7, 50]))
                    if r.random() < 0.3:
                        w.at(t0 + t + 3, "kill_worker", k, r.random() < 0.5)

    if fam == 1 and p["parallelism"] < 20:
        p["hb_interval"] = None
    drain = 100.0 if fam in (1, 3) and p.get("hb_interval") else 700.0 if fam in (1, 2) else 500.0
    w = dbworld.run((ck.seed, i), p, setup, horizon, drain=drain, shutdown=False, poll_end=False, spin=2_000_000)
    ck.count(f"family_{fam}")
    ck.case(dbworld.signature(w.log), judge(ck, w, exact, surplus, fam != 0), sample=dbworld.tail(w.log, 25) if i < 2 else None)
    ck.count("events", len(w.log))


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(convergence_checks=200, exactness_checks=50, limit_checks=200, surplus_checks=20, claims_beyond_limit=50, heartbeats_during_start=50, worker_retired=50)


if __name__ == "__main__":
    core.main("C05", RULE, body, assumptions=["schedulers heartbeat as dask_gateway.scheduler_preload does (decided under C24)"])
