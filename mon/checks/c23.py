"""C23: a watch cache converges to the server's objects and reports every change once."""
import asyncio
import copy
import logging

from mon import core, kube as kubemod, vloop, vnet

RULE = (
    "real informers, with the real Kubernetes client over an in-memory network, on a simulated API server whose objects are "
    "created, changed, relabelled, deleted and recreated while watches lag, end early, break, are cut mid-line, report errors and "
    "expired versions, lists fail, and the server is out (with and without forgetting its history); informers are stopped and started again, and some callbacks raise; "
    "every callback is checked against the server's history; non-trivial: a watch was resumed, a relist happened or the informer restarted; distinct by the history of callbacks"
)
SEL = "gateway.dask.org/instance=i1"


def settle_seconds(r):
    return r.choice([0.05, 0.5, 2, 8])


class Watcher:
    """Judges the callbacks of one informer."""

    def __init__(self, kube, plural, r):
        self.kube, self.plural, self.r = kube, plural, r
        self.known = {}
        self.log = []
        self.stopped = False
        self.raises = 0.0
        self.lists = 0
        self.seen_rv = {}  # key -> versions reported, in order, since the last start
        self.list_at = {}  # key -> self.lists at the last report

    def key(self, o):
        return o["metadata"]["namespace"] + "." + o["metadata"]["name"]

    def fail(self, key, detail):
        raise core.Violation(key, detail, self.log[-60:] + ["calls:"] + self.kube.calls[-20:])

    def problem(self, key, detail):
        # callbacks run inside the informer, which swallows errors: remember the first
        if not hasattr(self, "first"):
            self.first = core.Violation(key, detail, self.log[-60:] + ["calls:"] + [c[:5] + c[6:] for c in self.kube.calls[-20:]])

    def check(self):
        if hasattr(self, "first"):
            raise self.first

    def version(self, o):
        return int(o["metadata"]["resourceVersion"])

    def truth(self, o):
        rv = self.version(o)
        pos = self.kube.find(rv - 1)
        if pos >= len(self.kube.log) or self.kube.log[pos][0] != rv:
            return None
        return self.kube.log[pos]

    def update(self, obj, old=None):
        k = self.key(obj)
        rv = self.version(obj)
        self.log.append((round(self.kube.loop.time(), 3), "update", k, rv, old and self.version(old)))
        if self.stopped:
            self.problem("after-stop", f"an update of {k} was reported after the informer had stopped")
        last = self.known.get(k)
        if last is None and old is not None:
            self.problem("wrong-old", f"an update of {k} (version {rv}) names a previous object (version {self.version(old)}), though it was not known")
        if last is not None and old is None:
            self.problem("missing-old", f"an update of {k} (version {rv}) names no previous object, though version {self.version(last)} had been reported")
        if last is not None and old is not None and old != last:
            self.problem("wrong-old", f"an update of {k} names version {self.version(old)} as previous; the one reported last was {self.version(last)}")
        t = self.truth(obj)
        import json
        if t is None or t[1] != self.plural:
            self.problem("made-up", f"an update of {k} reports version {rv}, which the server never had")
        else:
            real = json.loads(t[3])
            if (real["metadata"]["name"], real["metadata"]["namespace"], real["metadata"]["uid"]) != (
                obj["metadata"]["name"], obj["metadata"]["namespace"], obj["metadata"]["uid"]):
                self.problem("made-up", f"version {rv} belongs to another object than {k}")
            if self.plural == "daskclusters" and (real.get("spec"), real.get("status")) != (obj.get("spec"), obj.get("status")):
                self.problem("made-up", f"version {rv} of {k} differs from the server's")
            if self.plural == "pods" and real["status"].get("phase") != obj["status"].get("phase"):
                self.problem("made-up", f"version {rv} of {k} differs from the server's")
            if not kubemod.matches(real, SEL):
                self.problem("foreign", f"an object that does not match was reported: {k}")
        vs = self.seen_rv.setdefault(k, [])
        if vs and rv < vs[-1]:
            self.problem("backwards", f"{k}: version {rv} was reported after {vs[-1]}")
        if vs and rv == vs[-1] and self.list_at.get(k) == self.lists:
            self.problem("reported-twice", f"{k}: version {rv} was reported twice with no relist in between")
        vs.append(rv)
        self.list_at[k] = self.lists
        self.known[k] = copy.deepcopy(obj)
        if self.r.random() < self.raises:
            raise RuntimeError("a callback that fails")

    def delete(self, obj):
        k = self.key(obj)
        self.log.append((round(self.kube.loop.time(), 3), "delete", k, self.version(obj)))
        if self.stopped:
            self.problem("after-stop", f"a deletion of {k} was reported after the informer had stopped")
        if k not in self.known:
            self.problem("deleted-unknown", f"a deletion of {k} was reported, which was not known")
        ns, name = k.split(".", 1)
        cur = self.kube.objs[self.plural].get((ns, name))
        # it was gone at some time since it was last reported
        last = self.known.pop(k, None)
        if last is not None:
            since = self.version(last)
            gone = False
            for rv, pl, typ, text, o in self.kube.log[self.kube.find(since):]:
                if pl == self.plural and self.key(o) == k and (typ == "DELETED" or not kubemod.matches(o, SEL)):
                    gone = True
            if not gone:
                self.problem("deleted-alive", f"a deletion of {k} was reported, but it was never deleted since version {since}")
        if self.r.random() < self.raises:
            raise RuntimeError("a callback that fails")


def make(r, plural, n, label=True):
    o = {"metadata": {"name": f"o{n}", "labels": {"gateway.dask.org/instance": "i1" if label else "i2", "n": str(n)}}, "spec": {"x": 0}}
    if plural == "daskclusters":
        o.update(apiVersion="gateway.dask.org/v1alpha1", kind="DaskCluster")
    else:
        o["spec"] = {"containers": [{"name": "dask-worker"}]}
    return o


def case(ck, i):
    from dask_gateway_server.backends.kubernetes.utils import Informer
    from kubernetes_asyncio import client

    r = ck.rng(i)
    plural = r.choice(["daskclusters", "pods"])

    async def main(loop):
        net = vnet.Net(loop)
        kube = kubemod.Kube(loop, net, r)
        kube.calls_cap = None
        kubemod.kubernetes_asyncio.config.load_incluster_config()
        api = client.ApiClient()
        w = Watcher(kube, plural, r)

        def seen(call):
            if call[1] == "GET":
                w.lists += 1

        kube.on_call.append(seen)
        if plural == "pods":
            cl, method, kwargs = client.CoreV1Api(api_client=api), "list_pod_for_all_namespaces", dict(label_selector=SEL)
        else:
            cl, method = client.CustomObjectsApi(api_client=api), "list_cluster_custom_object"
            kwargs = dict(group="gateway.dask.org", version="v1alpha1", plural="daskclusters", label_selector=SEL)
        inf = Informer(name="x", client=cl, method=method, method_kwargs=kwargs, on_update=w.update, on_delete=w.delete,
                       **({"timeout_seconds": r.choice([1, 10, 30])} if r.random() < 0.5 else {}))
        inf.log = logging.getLogger("c23")
        w.raises = r.choice([0, 0, 0.1])
        exists = set()
        everyone = set()
        names = ["ns1", "ns2"]

        def mutate():
            x = r.random()
            keys = sorted(kube.objs[plural])
            if x < 0.4 or not keys:
                n = r.randrange(12)
                ns = r.choice(names)
                try:
                    o = kube.create(plural, ns, make(r, plural, n, label=r.random() < 0.85))
                    everyone.add(f"{ns}.o{n}")
                except kubemod.Problem:
                    pass
            elif x < 0.75:
                k = r.choice(keys)

                def change(o):
                    if plural == "pods":
                        o["status"] = {"phase": r.choice(["Pending", "Running", "Failed", "Succeeded"]), "message": str(kube.rv)}
                    else:
                        o["spec"]["x"] = kube.rv
                        if r.random() < 0.3:
                            o["status"] = {"phase": "Running"}
                kube.update(plural, k, change)
            else:
                kube.remove(plural, r.choice(keys))

        faulty = r.random() < 0.75
        fl = {"list": 0, "watch": 0}

        def faults(on):
            if not on or not faulty:
                kube.fault = lambda m, p, n: None
                kube.watch_fault = lambda p: None
                kube.latency = lambda: 0
                kube.lag = lambda p: 0
                return
            fl["list"] = r.choice([0, 0, 0.3, 0.8])
            fl["watch"] = r.choice([0, 0, 0.1, 0.4])
            kinds = r.sample(["reset", "cut", "error", "gone", "early"], r.randint(1, 5))
            kube.fault = lambda m, p, n: r.choice(["before", "reset", "after"]) if r.random() < fl["list"] else None
            kube.watch_fault = lambda p: r.choice(kinds) if r.random() < fl["watch"] else None
            hi = r.choice([0, 0, 0.1, 2])
            kube.latency = lambda: r.uniform(0, hi)
            lag = r.choice([0, 0.3, 3])
            kube.lag = lambda p: r.uniform(0, lag)

        for _ in range(r.choice([0, 1, 5, 20])):
            mutate()

        async def outage(seconds, forget):
            kube.start_outage()
            await asyncio.sleep(seconds)
            kube.end_outage(compact=forget)

        async def converge(why):
            """After a calm period the cache is the server's."""
            kube.calm()
            kube.hold = None
            await asyncio.sleep(700)
            import os
            w.check()
            here = {w.key(o): o for o in kube.objs[plural].values() if kubemod.matches(o, SEL)}
            for k in everyone:
                c = inf.get(k)
                if k in here and c is None:
                    w.fail("not-in-cache", f"{why}: {k} exists but is not in the cache")
                if k not in here and c is not None:
                    w.fail("left-in-cache", f"{why}: {k} does not exist but is in the cache")
                if k in here and w.version(c) != w.version(here[k]):
                    w.fail("stale-cache", f"{why}: the cache has version {w.version(c)} of {k}, the server {w.version(here[k])}")
                if (k in here) != (k in w.known):
                    w.fail("not-reported", f"{why}: {k} {'exists' if k in here else 'is gone'}, but the callbacks never said so")
                if k in here and w.version(w.known[k]) != w.version(here[k]):
                    w.fail("not-reported", f"{why}: the last version of {k} reported was {w.version(w.known[k])}, the server has {w.version(here[k])}")
            ck.count("convergences judged")
            if inf.get("no.such") is not None or inf.get("no.such", 5) != 5:
                w.fail("get", "asking for an unknown object gave one")

        async def start():
            faults(r.random() < 0.5)
            before = {w.key(o): w.version(o) for o in kube.objs[plural].values() if kubemod.matches(o, SEL)}
            if faulty and r.random() < 0.2:
                kube.spawn(outage(r.choice([3, 40]), r.random() < 0.5))
            t = asyncio.ensure_future(inf.start())
            t2 = asyncio.ensure_future(inf.start()) if r.random() < 0.2 else None
            while not t.done():
                await asyncio.wait([t], timeout=20)
                if not t.done() and r.random() < 0.5:
                    faults(False)
                if not t.done() and loop.time() > 50000:
                    w.fail("never-starts", "starting had not returned long after all faults had ended")
            await t
            if t2:
                await t2
            for k, v in before.items():
                ns, name = k.split(".")
                cur = kube.objs[plural].get((ns, name))
                if cur is not None and w.version(cur) == v and inf.get(k) is None:
                    w.fail("started-early", f"starting returned though {k}, which has existed throughout, was not in the cache")
            ck.count("starts judged")

        restarts = 0
        lists_seen = [0]
        epochs = []
        base_rv = kube.rv
        await start()
        first_list = w.lists
        for _ in range(r.randint(1, 6)):
            faults(r.random() < 0.8)
            for _ in range(r.randint(1, 15)):
                mutate()
                if r.random() < 0.6:
                    await asyncio.sleep(r.choice([0, 0.01, 0.3, 2, 15]))
            x = r.random()
            if faulty and x < 0.25:
                ck.count("outages")
                down = asyncio.ensure_future(outage(r.choice([1, 20, 120]), r.random() < 0.5))
                n0, t0 = len(kube.calls), loop.time()
                for _ in range(r.randint(0, 6)):
                    await asyncio.sleep(r.choice([0, 0.2, 5]))
                    mutate()
                await down
                asked = len(kube.calls) - n0 + sum(net.attempts.values()) * 0
                if asked > 30 + 30 * (loop.time() - t0):
                    w.fail("floods", f"{asked} requests in {loop.time() - t0:.1f}s while the server failed")
            elif x < 0.4:
                mut_before = loop.time()
                await asyncio.wait_for(inf.stop(), 100)
                w.stopped = True
                n0 = len(kube.calls)
                for _ in range(r.randint(0, 5)):
                    mutate()
                await asyncio.sleep(r.choice([1, 60]))
                w.check()
                if len(kube.calls) != n0:
                    w.fail("after-stop", f"the informer still called the server after it had stopped: {kube.calls[n0:][:3]}")
                await asyncio.sleep(1)
                # a new start begins with nothing known
                w.stopped = False
                w.known, w.seen_rv = {}, {}
                restarts += 1
                ck.count("restarts")
                await start()
                first_list = w.lists
            elif x < 0.6:
                await converge("in between")
            w.check()
        relists = w.lists - first_list
        await converge("at the end")
        if not restarts and w.lists == 1 and not faulty:
            # nothing but one list and resumed watches: every version exactly once
            since = [rv for rv, pl, typ, text, o in kube.log if pl == plural and rv > base_rv and kubemod.matches(o, SEL) and typ != "DELETED"]
            got = [e[3] for e in w.log if e[1] == "update" and e[3] > base_rv]
            if since != got:
                w.fail("not-once", f"versions on the server {since}; reported {got}")
            ck.count("complete histories judged")
        watches = sum(c[1] == "WATCH" for c in kube.calls)
        await asyncio.wait_for(inf.stop(), 100)
        await asyncio.wait_for(inf.stop(), 100)
        w.stopped = True
        n0 = len(kube.calls)
        mutate()
        await asyncio.sleep(50)
        w.check()
        if len(kube.calls) != n0:
            w.fail("after-stop", f"the informer still called the server after it had stopped: {kube.calls[n0:][:3]}")
        await api.rest_client.pool_manager.close()
        ck.count("callbacks", len(w.log))
        ck.count("relists", relists)
        ck.count("watches", watches)
        ck.count("deletions reported", sum(e[1] == "delete" for e in w.log))
        ck.case([e[1:] for e in w.log], nontrivial=watches > 1 or relists > 0,
                sample={"kind": plural, "callbacks": len(w.log), "relists": relists, "watches": watches} if i < 3 else None)

    try:
        vloop.run(main, spin_limit=20_000)
    except vloop.Spin as exc:
        raise core.Violation("spins", f"the informer retries without end and without waiting: {exc}")


def body(ck):
    logging.getLogger("c23").setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    kubemod.patch_modules()
    ck.pool(lambda i: case(ck, i), ck.budget(35, 900))
    ck.need(**{"convergences judged": 100, "relists": 50, "deletions reported": 200, "outages": 20, "restarts": 20, "complete histories judged": 5})


if __name__ == "__main__":
    core.main("C23", RULE, body, assumptions=[
        "an object deleted and recreated under one name during an outage is an update, as for every Kubernetes client",
        "callbacks for objects that a relist finds unchanged are allowed",
        "the server's lists are current (not served from a lagging cache)",
    ])
