"""C08: a gateway restarted after a crash at any point resumes every cluster."""
from mon import core, crash, dbworld
from mon.checks import c03, c07

RULE = (
    "random histories of users, schedulers, workers and backend faults with the gateway dying at "
    "sampled points (just before a database commit or just after any boundary event, also "
    "during start-up and recovery, and orderly restarts that leave clusters running), restarted "
    "from a copy of its database at that instant while the rest of the world goes on; one "
    "execution is one such chain of lives judged as a whole; non-trivial: at the crash some "
    "cluster was known and not yet ended; distinct by the order of boundary events"
)
TERMINAL = ("STOPPED", "FAILED")


def judge(ck, w):
    """Oracle over the log of several lives of the gateway."""
    bulk = w.p["bulk"]
    printed, started, states, stopped, term, cstop, alive, last, lost = {}, {}, {}, {}, {}, {}, {}, {}, set()
    fresh, want = {}, {}
    busy = False
    prev = None

    def bad(key, msg, name=None):
        raise core.Violation(key, msg, dbworld.tail(w.log, 100, name))

    def sure(name):
        """What is certainly recorded of this object (and all the resources in it)."""
        s = states.get(name)
        return s[0] if s and len(s) == 1 else None

    for t, kind, d in w.log:
        name, c = d.get("name"), d.get("cluster")
        if kind == "created":
            printed[name] = d["print"]
            last.setdefault(name, "PENDING")
            ck.count("created")
        elif kind == "restored":
            if name in printed:
                ck.count("restored")
                if d["print"] != printed[name]:
                    bad("restored-differently", f"cluster {name} was {printed[name]} and is {d['print']} after the restart at {t}", name)
            elif d["print"] is not None:
                printed[name] = d["print"]
        elif kind == "crash":
            ck.count("crash_at_" + d["what"])
            if any(s not in TERMINAL for s in last.values()):
                busy = True
            for s in last.values():
                ck.count("crash_with_" + s.lower())
            if prev is not None and prev[0] == "yield":
                # This step of the start may or may not have been recorded
                n = prev[1]["name"]
                states[n] = [fresh.get(n, {})] + states[n][-1:]
                ck.count("crash_with_state_in_doubt")
        elif kind == "start":
            q = started.get(name)
            if q is not None:
                if q == d["inc"]:
                    bad("started-twice", f"{d['wkind']} {name} started again at {t} in the same run", c)
                s = sure(name)
                if s:
                    bad("started-twice", f"{d['wkind']} {name} started again at {t}, its first start had recorded {s}", c)
                ck.count("starts_repeated")
                lost |= {r for r, x in alive.items() if x[2] == name}
            if name in stopped:
                bad("start-after-stop", f"{d['wkind']} {name} started at {t} after its stop at {stopped[name]}", c)
            if c in term:
                bad("start-after-end", f"{d['wkind']} {name} started at {t}, its cluster was reported {term[c]}", c)
            if c in stopped:
                bad("start-after-cluster-stop", f"{d['wkind']} {name} started at {t} after its scheduler's stop", c)
            started[name] = d["inc"]
            states[name] = [{}]
            fresh[name] = {}
        elif kind == "yield":
            fresh[name] = states[name][-1]
            states[name] = [d["state"]]
        elif kind == "spawn":
            alive[d["rid"]] = (c, d["rkind"], name)
        elif kind == "dead":
            alive.pop(d["rid"], None)
        elif kind == "stop":
            ck.count("stops")
            if name in started:
                if (d["state"] or {}) not in states[name]:
                    bad("stale-state", f"stop of {d['wkind']} {name} got {d['state']}, recorded was {states[name]}", c)
                states[name] = [d["state"] or {}]
            if d["wkind"] == "cluster" and not bulk:
                for n, x in states.items():
                    if n != c and n not in stopped and sure(n) and any(alive.get(r, (None,))[0] == c for r in sure(n)["rids"]):
                        bad("stop-order", f"scheduler of {c} stopped at {t} before its worker {n}", c)
            stopped[name] = t
        elif kind == "seen" and d["status"]:
            last[name] = d["status"]
            if d["status"] in TERMINAL and name not in term:
                term[name] = d["status"]
                ck.count("ended")
                for n, s in states.items():
                    s = sure(n)
                    left = [r for r in (s or {}).get("rids", []) if r in alive and r not in lost and alive[r][0] == name]
                    if left:
                        bad("leak", f"{left} of {n} are left running, recorded in {s}, though cluster {name} is {d['status']} at {t}", name)
        elif kind == "hb":
            if last.get(name) in ("PENDING", "RUNNING"):
                ck.count("heartbeats")
                if d["code"] != 200:
                    bad("heartbeat-refused", f"heartbeat of {name} ({last[name]}) answered {d['code']} {d['exc']}", name)
        elif kind == "routes":
            exp = [("PATH", "/", None)]
            for n, s in last.items():
                if s == "RUNNING":
                    a = w.sched[n]["addr"]
                    exp += [("PATH", f"/clusters/{n}", a.replace("tls", "http").replace("8786", "8787")), ("SNI", n, a)]
            got = [(k, p, None if p == "/" else a) for k, p, a in d["routes"]]
            ck.count("route_tables")
            ck.count("routed_clusters", (len(got) - 1) // 2)
            if sorted(got, key=repr) != sorted(exp, key=repr):
                bad("routes", f"at {t} the routes are {sorted(got, key=repr)}, the running clusters need {sorted(exp, key=repr)}")
        elif kind == "routes_error":
            bad("routes", f"GET routes answered {d['code']}")
        elif kind == "final":
            for n, x in d["workers"].items():
                if last.get(n) == "RUNNING":
                    ck.count("running_resumed")
                    if len(x[0]) != x[1]:
                        bad("workers", f"cluster {n} has {len(x[0])} workers at {t}, wants {x[1]}", n)
            for n, s in last.items():
                if s == "STOPPING":
                    bad("stop-never-ends", f"cluster {n} is still STOPPING at {t}", n)
        if kind not in ("seen", "polled", "got"):
            prev = (kind, d)
    return busy


def times(ck, w):
    T = c07.Times(ck, w)
    for t, kind, d in w.log:
        T.feed(t, kind, d)
        if kind == "drained":
            ck.count("running_at_end", len(T.healthy()))


def params(r):
    fail = r.choice([0, 0, 0, 0.1, 0.3])
    hb = r.choice([1, 5, 15])
    return dict(
        parallelism=20,
        bulk=r.random() < 0.4,
        failure_limit=10**6,
        heartbeat_period=hb,
        heartbeat_timeout=hb * r.choice([2.0, 4.0]) + 5.5,
        cluster_start_timeout=r.choice([20.0, 60.0]),
        worker_start_timeout=r.choice([20.0, 60.0]) + 2 * hb,
        check_timeouts_period=r.choice([0.7, 4.0, 15.0]),
        cluster_status_period=r.choice([1.0, 7.0, 30.0]),
        worker_status_period=r.choice([1.0, 7.0, 30.0]),
        stages=r.choice([(1, 1), (1, 3), (3, 3)]),
        c_start=r.choice([(0, 0), (0, 2), (5, 12)]), w_start=r.choice([(0, 0), (0, 2), (5, 12)]),
        c_connect=r.choice([(0, 0), (0, 3), (0, 15)]), w_connect=r.choice([(0, 0), (0, 3), (0, 15)]),
        c_error=r.choice([0, fail]), w_error=r.choice([0, fail]),
        c_noconnect=r.choice([0, 0, fail]), w_noconnect=r.choice([0, 0, fail]),
        c_die=r.choice([0, 0, fail]), w_die=r.choice([0, fail]),
        stop=r.choice([(0, 0), (0, 3), (2, 15)]),
        check=r.choice([(0, 0), (0, 3)]),
        retire=r.choice([(0, 1), (0, 8)]),
        hb_lost=r.choice([0, 0, 0.05]),
        stop_on_shutdown=False,
        poll=0.0,
    )


def case(ck, i):
    r = ck.rng("case", i)
    p = params(r)
    horizon = r.choice([10, 40, 120])
    n = r.randint(1, 5)
    dbworld.prepare((ck.seed, i))
    w = dbworld.World((ck.seed, i), p)
    dbworld.script(w, 1000.0, horizon, n, p_delete=0.4, kills=r.random() < 0.4, waits=False)
    orderly = r.random() < 0.25
    if orderly:
        p["stop_on_shutdown"] = w.p["stop_on_shutdown"] = r.random() < 0.3
    depth = r.choice([1, 1, 2, 3])

    async def first(sim):
        await sim.pump(1000.0 + horizon)
        if orderly:
            await sim.shutdown()

    async def second(sim):
        # More of everything for a while
        await sim.pump(max(sim.loop.time() + r.choice([0, 5, 60]), 1000.0 + horizon))
        sim.w.calm = True
        sim.log("calm")
        await sim.pump(sim.loop.time() + 400)
        sim.observe()
        sim.log("drained")
        sim.routes("drained")
        sim.log("final", workers={k: (list(s["active"]), s["count"]) for k, s in sim.w.sched.items()})

    def chain(s, depth):
        if s.what != "end":
            s.world.log.append((s.t, "crash", dict(inc=s.world.inc, what=s.what)))
        again = s.world.clone() if depth > 1 else None
        if depth > 1:
            _, rec = crash.life(again, s.files, s.t + r.choice([0, 1, 10]), second, rng=r, gap=r.choice([3, 15, 60]), limit=2, recover=True)
            ck.count("lives")
            for x in rec.snaps:
                ck.count("crashes_in_recovery", x.t < s.t + 15)
                chain(x, depth - 1)
        end, _ = crash.life(s.world, s.files, s.t + r.choice([0, 1, 3, 10, 40]), second)
        ck.count("lives")
        w = end.world
        times(ck, w)
        c03.judge(ck, w)
        ck.case(dbworld.signature(w.log), judge(ck, w), sample=dbworld.tail(w.log, 25) if i < 2 else None)
        ck.count("events", len(w.log))

    end, rec = crash.life(w, {}, 1000.0, first, rng=r, gap=r.choice([5, 20, 60]), limit=3 if depth == 1 else 1)
    ck.count("crash_points_seen", rec.points)
    for s in rec.snaps:
        chain(s, depth)
    if orderly:
        ck.count("orderly_restarts")
        chain(end, 1)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(45, 900))
    ck.need(lives=300, restored=500, ended=200, running_resumed=100, crash_with_stopping=20, crash_with_state_in_doubt=10, crashes_in_recovery=20, orderly_restarts=10, routed_clusters=100)


if __name__ == "__main__":
    core.main("C08", RULE, body, assumptions=["a crash loses memory but nothing committed to SQLite", "the backend's resources survive the gateway's death"])
