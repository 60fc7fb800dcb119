"""C10: cleanup forgets exactly the clusters that stopped longer ago than the limit."""
import os
import shutil
import sqlite3
import tempfile
import time

from dask_gateway_server import models
from dask_gateway_server.backends import db_base
from dask_gateway_server.backends.db_base import JobStatus
from mon import core, crash, dbworld, gw as gwmod, vloop
from mon.checks import c02, c09

RULE = (
    "two kinds of execution in virtual time: random populations of clusters of several users in "
    "every state, with stop times around the limit, cleaned up once or several times while "
    "statements and commits fail, and compared in memory and in the reloaded database with the "
    "set that had to go; and whole lives of the gateway, with restarts and failing cleanups, with "
    "ages and periods of seconds, in which the time each cluster disappears is compared with the "
    "time it stopped; non-trivial: something was removed and something kept; distinct by the "
    "population or the order of boundary events"
)
LIVE = [JobStatus.CREATED, JobStatus.SUBMITTED, JobStatus.RUNNING, JobStatus.CLOSING]
UNFINISHED = [(a, b) for a in LIVE for b in ([] if a == JobStatus.CLOSING else [JobStatus.RUNNING]) + [JobStatus.STOPPED, JobStatus.FAILED]]


# -- populations -------------------------------------------------------------
def population_case(ck, i, r):
    gwmod.cheap_keys()
    d = tempfile.mkdtemp(prefix="verif-", dir=crash.BASE)
    try:
        async def main(loop):
            run_population(ck, i, r, os.path.join(d, "gw.db"), loop)

        vloop.run(main, start=r.uniform(1e3, 1e6))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_population(ck, i, r, path, loop):
    crash._listen()
    keys = [c09.new_key(r)]
    dm = c09.open_dm(path, keys)
    bomb = c09.Bomb()
    bomb.attach(dm.db)
    hist = []
    for rnd in range(r.choice([1, 2, 4])):
        age = r.choice([0.0, 0.5, 7.25, 60.0, 86400.0, 86400.0 * 30])
        now = time.time()
        users = [f"u{k}" for k in range(r.choice([1, 2, 5]))]
        for _ in range(r.choice([0, 1, 5, 20])):
            c = dm.create_cluster(r.choice(users), {}, {})
            for _ in range(r.choice([0, 0, 1, 4])):
                w = dm.create_worker(c)
                dm.update_worker(w, status=r.choice(LIVE + [JobStatus.STOPPED, JobStatus.FAILED]), target=JobStatus.STOPPED)
            if r.random() < 0.35:
                s, target = r.choice(UNFINISHED)
                # Old but not finished
                dm.update_cluster(c, status=s, target=target, start_time=int((now - 10 * age - 1000) * 1000))
                continue
            gap = r.choice([0.001, -0.001, 0.002, 1, -1, r.uniform(-1, 1) * age, r.uniform(0, 3) * age, 1e7])
            stop = int(round((now - age - gap) * 1000))
            if stop > now * 1000:
                stop = int(now * 1000)
            s = r.choice([JobStatus.STOPPED, JobStatus.FAILED])
            dm.update_cluster(c, status=s, target=s, stop_time=stop)
        hist.append(("population", len(dm.name_to_cluster), age))
        for attempt in range(r.choice([1, 2, 3])):
            before = dict(dm.name_to_cluster)
            cutoff = now * 1000 - age * 1000
            old = {n for n, c in before.items() if c.stop_time and c.stop_time < cutoff - 0.5 and c.status >= JobStatus.STOPPED}
            edge = {n for n, c in before.items() if c.stop_time and abs(c.stop_time - cutoff) <= 1.01}
            if r.random() < 0.4:
                bomb.n = r.choice(["commit", 0, 1])
            hits = bomb.hits
            try:
                dm.cleanup_expired(age)
                ok = True
            except c09.Inject:
                ok = False
            bomb.n = None
            after = set(dm.name_to_cluster)
            gone = set(before) - after
            hist.append(("cleanup", ok, len(old), len(gone)))
            if not ok:
                ck.count("failed_cleanups")
                if gone:
                    raise core.Violation("failed-cleanup-forgets", f"a cleanup that failed removed {len(gone)} clusters", hist)
            else:
                if bomb.hits != hits:
                    raise core.Violation("failure-swallowed", "a cleanup whose transaction failed reported success", hist)
                wrong = gone - old - edge
                if wrong:
                    c = before[sorted(wrong)[0]]
                    raise core.Violation("removed-too-early", f"cleanup at {now * 1000:.0f} ms with age {age} s removed a cluster that is {c.status.name}, stop time {c.stop_time}", hist)
                left = old - gone - edge
                if left:
                    c = before[sorted(left)[0]]
                    raise core.Violation("not-removed", f"cleanup at {now * 1000:.0f} ms with age {age} s left a cluster that is {c.status.name}, stop time {c.stop_time}", hist)
                ck.count("removed", len(gone))
                ck.count("kept", len(after))
                ck.count("edge_cases", len(edge))
            indexes(dm, path, keys, gone if ok else set(), users, hist)
            ck.count("cleanups_compared")
    ck.case([c for c in hist], len(hist) > 1, sample=hist if i < 2 else None)
    dm.db.dispose()


def indexes(dm, path, keys, gone, users, hist):
    """Every way to find a cluster agrees, in memory and on disk."""
    names = set(dm.name_to_cluster)
    for n in gone:
        if dm.get_cluster(n) is not None:
            raise core.Violation("removed-but-found", f"get_cluster still finds {n}", hist)
    everything = list(models.ClusterStatus)
    listed = [c.name for c in dm.list_clusters(statuses=everything)]
    mine = [c.name for u in users + ["nobody"] for c in dm.list_clusters(username=u, statuses=everything)]
    everybody = {c.username for c in dm.name_to_cluster.values()} - set(users)
    mine += [c.name for u in everybody for c in dm.list_clusters(username=u, statuses=everything)]
    for what, got in (("list of all", listed), ("lists by user", mine)):
        if sorted(got) != sorted(names):
            raise core.Violation("lists-disagree", f"{what} has {len(got)} clusters, {len(names)} are known", hist)
    c09.compare(dm, path, keys, "cleanup", hist)
    con = sqlite3.connect(path)
    try:
        rows = {n for n, in con.execute("select name from clusters")}
        orphans = con.execute("select count(*) from workers where cluster_id not in (select id from clusters)").fetchone()[0]
    finally:
        con.close()
    if rows != names:
        raise core.Violation("rows-differ", f"{len(rows)} cluster rows, {len(names)} clusters known", hist)
    if orphans:
        raise core.Violation("orphan-workers", f"{orphans} workers of removed clusters are still in the database", hist)


# -- lives -------------------------------------------------------------------
def life_case(ck, i, r):
    age = r.choice([0.0, 3.0, 20.0, 90.0])
    period = r.choice([1.0, 7.0, 40.0])
    p = dbworld.mixed(r, max_age=age, cleanup_period=period, poll=0.02)
    horizon = r.choice([60, 200])
    fault = r.choice(["none", "none", "delete", "select"])
    w = dbworld.World((ck.seed, i), p)
    dbworld.prepare((ck.seed, i))
    ends = []
    lives = r.choice([1, 1, 2, 3])

    async def main(sim):
        w = sim.w
        t0 = sim.loop.time()
        f = c02.Faults(sim, r.choice(["execute", "commit"]))
        if w.inc == 1:
            dbworld.script(w, t0, horizon, r.randint(2, 4), p_delete=0.9)
        a = t0 + r.uniform(0, horizon)
        b = a + r.choice([2 * period, 30, horizon])
        if fault != "none":
            def on(sim):
                sim.log("fault_on")
                f.all = (lambda s: s.startswith("DELETE")) if fault == "delete" else (lambda s: s.startswith("SELECT"))

            def off(sim):
                f.all = None
                sim.log("fault_off")

            w.at(a, "call", on)
            w.at(b, "call", off)
        last = w.inc == lives
        await sim.pump(t0 + (max(b - t0, horizon) + 1 if last else r.uniform(0, horizon)))
        w.calm = True
        if not last:
            f.all = None
            # What was to switch the faults belongs to this life
            w.agenda = [e for e in w.agenda if e[2] != "call"]
            sim.log("fault_off")
            w.calm = False
            return
        # Long enough for everything finished to become old
        for n in list(w.names):
            if r.random() < 0.7:
                sim.spawn(sim.do_delete(n, "user"))
        await sim.pump(sim.loop.time() + 300 + age + 2 * period)
        sim.observe()
        await probe(ck, sim)
        sim.log("drained")

    files, start = {}, 5000.0
    world = w
    for k in range(lives):
        end, _ = crash.life(world, files, start, main)
        world, files = end.world, end.files
        start = end.t + r.choice([0, 1, 30, 500])
        ck.count("lives")
    removed, kept = judge(ck, world, age, period)
    ck.case(dbworld.signature(world.log), removed and kept, sample=dbworld.tail(world.log, 20) if i < 4 else None)
    ck.count("events", len(world.log))


async def probe(ck, sim):
    """What the API says of clusters that were removed."""
    w = sim.w
    gone = [n for n in w.names if w.last.get(n) is None]
    for u in sorted(set(w.owner.values())):
        r = await sim.request("GET", "/api/v1/clusters/?status=pending,running,stopping,stopped,failed", gwmod.basic(u))
        names = {c["name"] if isinstance(c, dict) else c for c in r.json or []}
        sim.log("probe", what="list", name=None, code=r.status, bad=sorted(names & set(gone)), exc=repr(r.exc) if r.exc else None)
    routes = await sim.request("GET", "/api/v1/routes", gwmod.token("proxy-token"))
    text = routes.body.decode()
    for n in gone:
        h = gwmod.basic(w.owner[n])
        for what, m, path, hd, js in (
            ("get", "GET", f"/api/v1/clusters/{n}", h, None),
            ("scale", "POST", f"/api/v1/clusters/{n}/scale", h, {"count": 1}),
            ("adapt", "POST", f"/api/v1/clusters/{n}/adapt", h, {"minimum": 1, "maximum": 2, "active": True}),
            ("heartbeat", "POST", f"/api/v1/clusters/{n}/heartbeat", gwmod.token(w.token.get(n, "x")), {
                "scheduler_address": "tls://a:1", "dashboard_address": "", "api_address": "http://a:2", "count": 1,
                "active_workers": [], "closing_workers": [], "closed_workers": []}),
        ):
            r = await sim.request(m, path, hd, js=js)
            sim.log("probe", what=what, name=n, code=r.status, exc=repr(r.exc) if r.exc else None)
        if n in text:
            sim.log("probe", what="route", name=n, code=None, exc=None)


def judge(ck, w, age, period):
    stopped, gone, boots, faults, inc = {}, {}, [], [], None
    kept = False
    end = w.log[-1][0]

    def bad(key, msg, name=None):
        raise core.Violation(key, f"{msg} (age {age} s, period {period} s)", dbworld.tail(w.log, 60, name))

    for t, kind, d in w.log:
        name = d.get("name")
        if kind == "boot":
            boots.append(t)
        elif kind == "fault_on":
            faults.append([t, end])
        elif kind == "fault_off":
            if faults and faults[-1][1] == end:
                faults[-1][1] = t
        elif kind == "seen":
            if d["status"] is None:
                if name not in stopped:
                    bad("removed-unfinished", f"cluster {name} disappeared at {t:.3f} without having ended", name)
                if t < stopped[name] + age - 0.002:
                    bad("removed-too-early", f"cluster {name} ended at {stopped[name]:.3f} and disappeared at {t:.3f}", name)
                gone[name] = t
                ck.count("removals_timed")
            else:
                if name in gone:
                    bad("came-back", f"cluster {name} was removed at {gone[name]:.3f} and is {d['status']} at {t:.3f}", name)
                if d["status"] in ("STOPPED", "FAILED"):
                    stopped.setdefault(name, t)
        elif kind == "start" and d["cluster"] in gone:
            bad("started-after-removal", f"a {d['wkind']} of cluster {d['cluster']} was started after its removal", d["cluster"])
        elif kind == "hb":
            if d["exc"] or d["code"] >= 500:
                bad("heartbeat-error", f"heartbeat of {name} answered {d['code']} {d['exc']}", name)
            if name in gone and t > gone[name] and d["code"] == 200:
                bad("removed-but-served", f"heartbeat of {name} accepted at {t:.3f}, removed at {gone[name]:.3f}", name)
        elif kind == "probe":
            ck.count("probes_of_removed")
            if d["exc"]:
                bad("api-error", f"{d['what']} of a removed cluster: {d['exc']}", name)
            if d["what"] == "list":
                if d["bad"] or d["code"] != 200:
                    bad("removed-but-listed", f"list answered {d['code']} with removed clusters {d['bad']}", None)
            elif d["what"] == "route":
                bad("removed-but-routed", f"a route of removed cluster {name} remains", name)
            elif d["what"] == "heartbeat":
                if d["code"] not in (401, 403, 404):
                    bad("removed-but-served", f"heartbeat of a removed cluster answered {d['code']}", name)
            elif d["code"] != 404:
                bad("removed-but-found", f"{d['what']} of removed cluster {name} answered {d['code']}", name)
    for n, t in stopped.items():
        # Cleanups run at start-up and once every period while the gateway is up
        due = t + age
        starts = [b for b in boots if b > due]
        lives = [(b, e) for b, e in zip(boots, life_ends(w))]
        limit = None
        for b, e in lives:
            x = max(due, b) + (0 if b > due else period)
            for fa, fb in faults:
                if fa <= x and fb + period > x:
                    x = fb + period
            if x + 0.1 <= e:
                limit = x + 0.1
                break
        if limit is None:
            continue
        if n not in gone:
            bad("not-removed", f"cluster {n} ended at {t:.3f} and is still known at {end:.3f}", n)
        if gone[n] > limit:
            bad("removed-late", f"cluster {n} ended at {t:.3f} and disappeared at {gone[n]:.3f}, after {limit:.3f}", n)
        ck.count("removals_in_time")
        if any(fa <= due + period and fb >= due for fa, fb in faults):
            ck.count("removals_past_faults")
    for n in w.names:
        kept |= n not in gone
    ck.count("cluster_kept", kept)
    return bool(gone), kept


def life_ends(w):
    out, last = [], None
    for t, kind, d in w.log:
        if kind == "boot" and last is not None:
            out.append(last)
        last = t
    return out + [last]


def case(ck, i):
    r = ck.rng("case", i)
    if i % 2:
        population_case(ck, i, r)
    else:
        life_case(ck, i, r)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(cleanups_compared=500, removed=500, kept=500, failed_cleanups=100, edge_cases=20, removals_timed=300, removals_in_time=300, removals_past_faults=20, probes_of_removed=300)


if __name__ == "__main__":
    core.main("C10", RULE, body, assumptions=["SQLite is trusted; the clock does not step backwards"])
