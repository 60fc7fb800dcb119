"""C04: conservation of what the backend starts, ordering of starts and stops."""
from mon import core, dbworld

RULE = (
    "random histories with slow, failing and hanging start calls that report their state in "
    "several steps, users stopping clusters at any instant, worker failures, bulk and "
    "one-by-one shutdown, gateway shutdown in mid-activity; non-trivial: a cluster was "
    "stopped while something of it was starting or running; distinct by the order of "
    "boundary events"
)


def judge(ck, w, restarts=False):
    started, last, stopped, term, cstop, alive, ended = {}, {}, {}, {}, {}, {}, set()
    bulk = w.p["bulk"]
    busy_stop = False

    def bad(key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(w.log, 80, name))

    def settled(cluster, t, why):
        nonlocal busy_stop
        for n, (k, c, t0) in started.items():
            if c != cluster:
                continue
            ck.count("conservation_checks")
            if n not in stopped and not (bulk and k == "worker" and cluster in stopped):
                bad("not-stopped", f"{k} {n} started at {t0} was never stopped, yet {why} at {t}", cluster)
        left = [r for r, (c, k) in alive.items() if c == cluster]
        if left:
            bad("leak", f"{[(r, alive[r][1]) for r in left]} of cluster {cluster} still exist though {why} at {t}", cluster)

    for t, kind, d in w.log:
        name, c = d.get("name"), d.get("cluster")
        if kind == "start":
            ck.count("starts_" + d["wkind"])
            if name in started:
                bad("started-twice", f"{d['wkind']} {name} started at {started[name][2]} and again at {t}", c)
            if name in stopped:
                bad("start-after-stop", f"{d['wkind']} {name} started at {t} after its stop", c)
            if c in term:
                bad("start-after-end", f"{d['wkind']} {name} of cluster {c} started at {t}, cluster reported {term[c]}", c)
            if c in stopped:
                bad("start-after-cluster-stop", f"{d['wkind']} {name} of cluster {c} started at {t} after its scheduler's stop", c)
            if d["wkind"] == "worker" and d["api"] != "RUNNING":
                ck.count("worker_started_while_" + str(d["api"]))
            started[name] = (d["wkind"], c, t)
        elif kind == "yield":
            if name in stopped or (bulk and c in stopped):
                bad("start-continues-after-stop", f"start of {d['wkind']} {name} went on at {t} after its stop", c)
            last[name] = d["state"]
        elif kind == "start_end":
            ended.add(name)
            ck.count("start_" + d["outcome"])
        elif kind == "spawn":
            alive[d["rid"]] = (c, d["rkind"])
        elif kind == "dead":
            alive.pop(d["rid"], None)
        elif kind == "stop":
            ck.count("stops_" + d["wkind"])
            if name in started and d["state"] != last.get(name, {}):
                bad("stale-state", f"stop of {d['wkind']} {name} got {d['state']}, its start had last reported {last.get(name)}", c)
            if d["wkind"] == "cluster":
                if any(x not in ended or n not in stopped for x in [0] for n, (k, cc, _) in started.items() if cc == c and k == "worker"):
                    busy_stop = True
                if not bulk:
                    for n, (k, cc, _) in started.items():
                        if cc == c and k == "worker" and n not in stopped:
                            bad("stop-order", f"scheduler of {c} stopped at {t} before its worker {n}", c)
            elif d["api"] in ("STOPPING",):
                busy_stop = True
            stopped[name] = t
        elif kind == "seen" and d["status"] in ("STOPPED", "FAILED"):
            if name not in term:
                term[name] = d["status"]
                ck.count("clusters_ended")
                settled(name, t, f"{name} is reported {d['status']}")
        elif kind == "shutdown_end":
            ck.count("shutdowns")
            if not d["ok"]:
                bad("shutdown-hangs", "shutdown did not end")
            if w.p["stop_on_shutdown"]:
                for cc in {c for _, c, _ in started.values()}:
                    settled(cc, t, "the gateway has shut down")
    return busy_stop


def case(ck, i):
    r = ck.rng("case", i)
    p = dbworld.mixed(r, poll=0.0)
    horizon = r.choice([5, 20, 60, 150])
    n = r.randint(1, 4)
    w = dbworld.run(
        (ck.seed, i), p, lambda w, t0, sim: dbworld.script(w, t0, horizon, n, p_delete=0.7, counts=(0, 5)), horizon,
        drain=r.choice([0, 0, 400]), poll_end=False,
    )
    ck.case(dbworld.signature(w.log), judge(ck, w), sample=dbworld.tail(w.log, 25) if i < 2 else None)
    ck.count("events", len(w.log))


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(starts_worker=500, stops_worker=300, clusters_ended=100, shutdowns=50, start_timeout=10, start_error=10)


if __name__ == "__main__":
    core.main("C04", RULE, body, assumptions=["the database works", "a start call that has ended does nothing more"])
