"""C03: monotone status, an API that always answers, and the right final state."""
from mon import core, dbworld

RULE = (
    "random histories of users, schedulers, workers and backend faults against the real "
    "gateway in virtual time; each cluster's status is read at every quiescent point and "
    "through HTTP get/list/filtered list at random ones; non-trivial: at least one cluster "
    "stopped or failed with at least three distinct observed transitions; distinct by the "
    "order of boundary events"
)
RANK = {"PENDING": 0, "RUNNING": 1, "STOPPING": 2, "STOPPED": 3, "FAILED": 3}
TERMINAL = ("STOPPED", "FAILED")


def judge(ck, w, aged=False):
    """Oracle over the boundary log."""
    last, final, acked, pre, failed, changes = {}, {}, {}, {}, set(), {}
    asked = set()
    drained = None
    owner_of = {}

    def bad(key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(w.log, 80, name))

    for t, kind, d in w.log:
        name = d.get("name")
        if kind in ("seen", "got"):
            s = d["status"]
            if s is None:
                if not aged:
                    bad("cluster-lost", f"cluster {name} is no longer known at {t}", name)
                continue
            if kind == "seen":
                ck.count("status_changes")
                stopped = d["stopped"]
            else:
                ck.count("http_status_reads")
                stopped = d["stop_time"]
            if s not in RANK:
                bad("unknown-status", f"{name} has status {s}", name)
            if stopped != (s in TERMINAL):
                bad("stop-time", f"cluster {name} is {s} with stop_time {'set' if stopped else 'not set'}", name)
            p = last.get(name)
            if p is not None and p != s and (RANK[s] < RANK[p] or p in TERMINAL):
                bad("status-backwards", f"cluster {name} went from {p} to {s} at {t}", name)
            if name in acked and s in ("PENDING", "RUNNING"):
                bad("stop-undone", f"cluster {name} is {s} at {t} though its stop was acknowledged at {acked[name]}", name)
            if p != s:
                changes[name] = changes.get(name, 0) + 1
            last[name] = s
        elif kind == "created":
            last.setdefault(name, "PENDING")
        elif kind == "delete_asked":
            asked.add(name)
        elif kind == "delete":
            if d["code"] != 204:
                bad("delete-refused", f"DELETE of {name} by its owner answered {d['code']}", name)
            ck.count("stops_acknowledged")
            if name not in acked:
                acked[name] = t
                # Asked to stop while nothing had failed yet?
                pre[name] = last.get(name) in ("PENDING", "RUNNING") and name not in failed
        elif kind in ("get_error", "api_error"):
            bad("api-does-not-answer", f"{d.get('path') or name}: {d.get('code', 500)} {d['exc']}", name)
        elif kind == "list_mismatch":
            bad("list-disagrees", f"{d['path']} of {d['user']} gave {d['got']}, get says {d['want']}")
        elif kind == "create_refused":
            bad("create-refused", f"{d['code']} {d['body']} {d['exc']}")
        elif kind == "start_end" and d["outcome"] != "ok":
            failed.add(d["cluster"])
        elif kind == "dead" and d["why"] in ("died", "killed"):
            failed.add(d["cluster"])
        elif kind == "check_end" and (d["ok"] is None or not all(d["ok"].values())):
            for n in d["ok"] or {}:
                if not d["ok"][n] and d["wkind"] == "cluster":
                    failed.add(n)
        elif kind == "mute":
            failed.add(name)
        elif kind == "drained":
            drained = t
            for n, a in acked.items():
                if last.get(n) not in TERMINAL:
                    bad("stop-never-ends", f"cluster {n} is {last.get(n)} at {t}, its stop was acknowledged at {a}", n)
        elif kind == "polled":
            ck.count("http_polls")
        elif kind == "shutdown":
            # Everything still there is now failed by the gateway itself
            for n in last:
                failed.add(n)
        elif kind == "shutdown_end":
            if not d["ok"]:
                bad("shutdown-hangs", "shutdown did not end")
    for n, s in last.items():
        if s in TERMINAL:
            ck.count("ended_" + s.lower())
            if n in acked and pre[n] and s != "STOPPED":
                bad("wrong-final", f"cluster {n} ended {s}, but its user asked it to stop at {acked[n]} before anything failed", n)
            if n not in asked and s != "FAILED":
                bad("wrong-final", f"cluster {n} ended {s}, but nobody asked it to stop", n)
    return any(c >= 3 for c in changes.values())


def case(ck, i):
    r = ck.rng("case", i)
    over = {}
    if r.random() < 0.25:
        # Status checks much slower than everything else
        x = r.choice([0, 0.5])
        over = dict(check=(5, 60), cluster_status_period=1.0, false_negative=x, c_false_negative=x, c_die=r.choice([0, 0.5]))
    p = dbworld.mixed(r, poll=r.choice([0.02, 0.2]), **over)
    horizon = r.choice([20, 60, 150])
    n = r.randint(1, 4)
    w = dbworld.run(
        (ck.seed, i), p, lambda w, t0, sim: dbworld.script(w, t0, horizon, n, p_delete=0.7), horizon,
        shutdown=r.random() < 0.8,
    )
    nontrivial = judge(ck, w)
    ck.case(dbworld.signature(w.log), nontrivial, sample=dbworld.tail(w.log, 25) if i < 2 else None)
    ck.count("events", len(w.log))


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(status_changes=500, stops_acknowledged=100, http_polls=100, ended_stopped=50, ended_failed=50)


if __name__ == "__main__":
    core.main("C03", RULE, body, assumptions=["the backend's own start/stop/check calls behave as scripted", "aiohttp, SQLAlchemy and SQLite are trusted"])
